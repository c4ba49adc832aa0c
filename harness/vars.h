// What the flags and the tables of variables of a term must say, computed from its components.
#pragma once
#include "fam.h"
namespace V
{
    using namespace FAM;
    struct Occ { char kind; int idx; vector<int> pos; INDEXVAR::pInt handle; };
    inline vector<pTerm> kids(Term &t)
    {
        vector<pTerm> v;
        if (t.is_statement()) v = {t.subject, t.predicate};
        else if (t.is_compound() && t.terms) for (auto it = t.terms->begin(); it != t.terms->end(); ++it) v.push_back(*it);
        return v;
    }
    inline INDEXVAR::IndexVar &own(Term &t) { return *(t.is_ivar ? t._vars_independent : t.is_dvar ? t._vars_dependent : t._vars_query); }
    inline void occ(Term &t, vector<int> &pos, vector<Occ> &o)
    {
        if (t.is_atom() && t.is_var)
        {
            auto &iv = own(t);
            if (iv.indices.size() != 1) throw M::Bad{"a variable without exactly one number"};
            o.push_back({t.is_ivar ? '$' : t.is_dvar ? '#' : '?', *iv.indices[0], pos, iv.indices[0]});
            return;
        }
        auto k = kids(t);
        for (size_t i = 0; i < k.size(); i++) { pos.push_back(i); occ(*k[i], pos, o); pos.pop_back(); }
    }
    inline vector<Occ> occ(Term &t) { vector<Occ> o; vector<int> p; occ(t, p, o); return o; }
    inline int complexity(Term &t)
    {
        if (t.is_atom()) return 1;
        int n = t.is_statement();
        for (auto &k : kids(t)) n += complexity(*k);
        return n;
    }
    inline bool is_op(Term &t) { return t.is_atom() ? t.is_operation : t.is_statement() && is_op(*t.predicate); }
    inline bool higher(COPULA::Copula c) { int k = M::cop_of(c); return k >= M::IMP && k <= M::CEQU; }
    inline string pos(const vector<int> &p) { string s; for (int i : p) s += std::to_string(i) + "."; return s; }
    // Empty if everything the term says about its variables is right, for all of its parts.
    inline string check(Term &t)
    {
        vector<Occ> o;
        try { o = occ(t); } catch (M::Bad &b) { return b.what; }
        bool h[3] = {false, false, false};
        for (auto &x : o) h[x.kind == '$' ? 0 : x.kind == '#' ? 1 : 2] = true;
        auto n = [](const char *w, bool got) { return string(w) + (got ? " is set" : " is not set"); };
        if (t.has_ivar != h[0]) return n("has_ivar", t.has_ivar);
        if (t.has_dvar != h[1]) return n("has_dvar", t.has_dvar);
        if (t.has_qvar != h[2]) return n("has_qvar", t.has_qvar);
        if (t.has_var != (h[0] || h[1] || h[2])) return n("has_var", t.has_var);
        bool v = t.is_atom() && !o.empty();
        if (t.is_var != v) return n("is_var", t.is_var);
        if (t.is_ivar != (v && h[0]) || t.is_dvar != (v && h[1]) || t.is_qvar != (v && h[2])) return "is_ivar, is_dvar or is_qvar is wrong";
        if (t.is_higher_order != (t.is_statement() && higher(t.copula))) return n("is_higher_order", t.is_higher_order);
        if (!t.is_atom() && t.is_operation != is_op(t)) return n("is_operation", t.is_operation);
        if (t.complexity != complexity(t)) return "complexity is " + std::to_string(t.complexity) + " instead of " + std::to_string(complexity(t));
        const char K[] = "$#?";
        std::shared_ptr<INDEXVAR::IndexVar> tab[3] = {t._vars_independent, t._vars_dependent, t._vars_query};
        for (int k = 0; k < 3; k++)
        {
            vector<Occ> w;
            for (auto &x : o) if (x.kind == K[k]) w.push_back(x);
            auto &iv = *tab[k];
            string name = string("the table of ") + K[k] + ": ";
            if (iv.indices.size() != w.size()) return name + std::to_string(iv.indices.size()) + " numbers for " + std::to_string(w.size()) + " occurrences";
            if (iv.positions.size() != w.size()) return name + std::to_string(iv.positions.size()) + " positions for " + std::to_string(w.size()) + " occurrences";
            std::set<int> ranks;
            for (auto &x : w) ranks.insert(x.idx);
            for (size_t i = 0; i < w.size(); i++)
            {
                if (iv.indices[i] == nullptr || *iv.indices[i] != w[i].idx) return name + "another number than the occurrence at " + pos(w[i].pos);
                if (iv.positions[i] != w[i].pos) return name + "position " + pos(iv.positions[i]) + " instead of " + pos(w[i].pos);
                if (iv.indices[i] != w[i].handle) return name + "the number at " + pos(w[i].pos) + " is not the one of the occurrence";
            }
            auto nv = iv.indices_normalized();
            if (nv == nullptr || nv->size() != w.size()) return name + "normalised numbering of another size";
            for (size_t i = 0; i < w.size(); i++)
                if ((*nv)[i] != std::distance(ranks.begin(), ranks.find(w[i].idx))) return name + "normalised number " + std::to_string((*nv)[i]) + " of the occurrence at " + pos(w[i].pos);
        }
        auto ks = kids(t);
        for (size_t i = 0; i < ks.size(); i++) { string s = check(*ks[i]); if (!s.empty()) return "component " + std::to_string(i) + ": " + s; }
        return "";
    }
    // all handles of numbers reachable from a term
    inline void handles(Term &t, std::set<int *> &s)
    {
        for (auto &iv : {t._vars_independent, t._vars_dependent, t._vars_query}) for (auto &i : iv->indices) s.insert(i.get());
        for (auto &k : kids(t)) handles(*k, s);
    }
    inline R shifted(R r, int a, int b)
    {
        struct F { static void go(R &r, int a, int b) { if (r.k == M::VAR) r.idx = r.idx * a + b; for (auto &x : r.c) go(x, a, b); } };
        F::go(r, a, b);
        return r;
    }
}
