// Everything observable about a parsed task, as text (not the input id, which is unique).
#pragma once
#include "model.h"
namespace D
{
    using std::string;
    // The numbers in the table, sorted: the order of unordered components depends on addresses.
    inline string index(INDEXVAR::IndexVar &v)
    {
        std::multiset<int> m;
        for (auto &i : v.indices) m.insert(i ? *i : -999);
        string s;
        for (int i : m) s += std::to_string(i) + " ";
        return s + "(" + std::to_string(v.positions.size()) + ") ";
    }
    inline string term(TERM::Term &t)
    {
        string s = M::show(t);
        char b[200];
        snprintf(b, sizeof b, " flags %d%d%d%d %d%d%d%d %d%d%d cx %d", t.is_var, t.is_ivar, t.is_dvar, t.is_qvar, t.has_var, t.has_ivar, t.has_dvar, t.has_qvar, t.is_interval, t.is_operation, t.is_higher_order, t.complexity);
        s += b;
        s += " i " + index(*t._vars_independent) + "d " + index(*t._vars_dependent) + "q " + index(*t._vars_query);
        return s;
    }
    inline string task(const TASK::pTask &t)
    {
        if (t == nullptr) return "rejected";
        auto &se = *t->sentence;
        char b[400];
        string s = term(*se.term);
        snprintf(b, sizeof b, " punct %d budget %.9g %.9g %.9g", (int)se.punct, t->budget->priority, t->budget->durability, (double)t->budget->quality);
        s += b;
        if (se.truth) { snprintf(b, sizeof b, " truth %.9g %.9g %.9g", se.truth->f, se.truth->c, se.truth->k); s += b; }
        auto &st = *se.stamp;
        if (st.is_eternal) s += " eternal";
        else { snprintf(b, sizeof b, " occurs %d", st.t_occurrence); s += b; }
        snprintf(b, sizeof b, " created %d base %zu", st.t_creation, st.evidential_base ? st.evidential_base->size() : (size_t)999);
        s += b;
        return s;
    }
}
