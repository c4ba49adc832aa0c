// Reference model of Narsese terms: plain trees, their canonical text, and the normal form of compounds.
#pragma once
#include "Narsese/include/Narsese.h"
#include "Interpreter/include/Interpreter.hpp"
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace M
{
    using std::string;
    using std::vector;
    enum Kind { ATOM, OP, VAR, IVL, STAT, COMP };
    // connectors and copulas of NAL; the numbers are the model's own
    enum Con { CONJ, DISJ, PROD, PAR, SEQ, INTINT, EXTINT, EXTDIFF, INTDIFF, NEG, INTSET, EXTSET, INTIMG, EXTIMG, LIST, NCON };
    static const char *const CON[] = {"&&", "||", "*", "&|", "&/", "|", "&", "-", "~", "--", "[", "{", "\\", "/", "#"};
    static const bool COMM[] = {1, 1, 0, 1, 0, 1, 1, 0, 0, 0, 1, 1, 0, 0, 0};
    static const bool ASSOC[] = {1, 1, 0, 1, 1, 1, 1, 0, 0, 0, 1, 1, 0, 0, 0};
    enum Cop { INH, SIM, INST, PROPC, INSTPROP, IMP, PIMP, CIMP, RIMP, EQU, PEQU, CEQU, NCOP };
    static const char *const COP[] = {"-->", "<->", "{--", "--]", "{-]", "==>", "=/>", "=|>", "=\\>", "<=>", "</>", "<|>"};

    struct R
    {
        Kind k = ATOM;
        string name; // atom, operation (with ^), variable (its name in the text)
        char vk = 0; // '$', '#', '?'
        int idx = -1;
        long iv = 0;
        int op = 0; // Con or Cop
        vector<R> c;
    };
    inline R atom(const string &n) { R r; r.k = ATOM; r.name = n; return r; }
    inline R oper(const string &n) { R r; r.k = OP; r.name = "^" + n; return r; }
    inline R var(char k, const string &n, int idx = -1) { R r; r.k = VAR; r.vk = k; r.name = n; r.idx = idx; return r; }
    inline R ivl(long n) { R r; r.k = IVL; r.iv = n; return r; }
    inline R stat(R s, int cop, R p) { R r; r.k = STAT; r.op = cop; r.c.push_back(std::move(s)); r.c.push_back(std::move(p)); return r; }
    inline R comp(int con, vector<R> c) { R r; r.k = COMP; r.op = con; r.c = std::move(c); return r; }

    inline void put(const R &r, string &o)
    {
        switch (r.k)
        {
        case ATOM: case OP: o += r.name; return;
        case VAR: o += r.vk; o += std::to_string(r.idx); return;
        case IVL: o += "+"; o += std::to_string(r.iv); return;
        case STAT: o += "<"; put(r.c[0], o); o += " "; o += COP[r.op]; o += " "; put(r.c[1], o); o += ">"; return;
        case COMP:
            o += "("; o += CON[r.op];
            if (COMM[r.op])
            {
                vector<string> v;
                for (auto &x : r.c) { v.emplace_back(); put(x, v.back()); }
                std::sort(v.begin(), v.end());
                for (auto &s : v) { o += ", "; o += s; }
            }
            else
                for (auto &x : r.c) { o += ", "; put(x, o); }
            o += ")";
        }
    }
    inline string canon(const R &r) { string s; put(r, s); return s; }

    // Numbers of variables: by first appearance per kind, left to right.
    struct Numbering { std::map<std::pair<char, string>, int> idx; std::map<char, int> n; };
    inline void number(R &r, Numbering &m)
    {
        if (r.k == VAR)
        {
            auto key = std::make_pair(r.vk, r.name);
            auto it = m.idx.find(key);
            if (it == m.idx.end()) it = m.idx.insert({key, m.n[r.vk]++}).first;
            r.idx = it->second;
        }
        for (auto &x : r.c) number(x, m);
    }

    inline void dedupe(vector<R> &v)
    {
        std::set<string> seen;
        vector<R> o;
        for (auto &x : v) if (seen.insert(canon(x)).second) o.push_back(std::move(x));
        v.swap(o);
    }

    // Normal form of a compound whose components are in normal form.
    inline R norm1(int con, const vector<R> &kids0)
    {
        vector<R> kids;
        if (!ASSOC[con]) return comp(con, kids0);
        for (auto &x : kids0)
            if (x.k == COMP && x.op == con) kids.insert(kids.end(), x.c.begin(), x.c.end());
            else kids.push_back(x);
        if (!COMM[con]) return comp(con, kids);
        dedupe(kids);
        if (con == EXTINT || con == INTINT)
            for (int sc : {(int)EXTSET, (int)INTSET})
            {
                bool unite = (con == INTINT) == (sc == EXTSET);
                vector<R> sets, rest;
                for (auto &x : kids) (x.k == COMP && x.op == sc ? sets : rest).push_back(x);
                if (sets.empty()) continue;
                vector<R> m;
                if (unite)
                {
                    for (auto &s : sets) m.insert(m.end(), s.c.begin(), s.c.end());
                    dedupe(m);
                }
                else
                    for (auto &e : sets[0].c)
                    {
                        string ce = canon(e);
                        bool all = true;
                        for (auto &s : sets)
                            all = all && std::any_of(s.c.begin(), s.c.end(), [&](const R &y) { return canon(y) == ce; });
                        if (all) m.push_back(e);
                    }
                if (m.empty()) continue;
                rest.push_back(comp(sc, m));
                kids = rest;
            }
        if ((con == EXTINT || con == INTINT) && kids.size() == 1 && kids[0].k == COMP && (kids[0].op == EXTSET || kids[0].op == INTSET))
            return kids[0];
        return comp(con, kids);
    }
    inline R norm(const R &r)
    {
        R o = r;
        for (auto &x : o.c) x = norm(x);
        if (o.k == COMP) return norm1(o.op, o.c);
        return o;
    }

    // ---- observation of the implementation ----
    inline int con_of(CONNECTOR::Connector c)
    {
        using namespace CONNECTOR;
        switch (c)
        {
        case Connector::Conjunction: return CONJ; case Connector::Disjunction: return DISJ; case Connector::Product: return PROD;
        case Connector::ParallelEvents: return PAR; case Connector::SequentialEvents: return SEQ; case Connector::IntensionalIntersection: return INTINT;
        case Connector::ExtensionalIntersection: return EXTINT; case Connector::ExtensionalDifference: return EXTDIFF; case Connector::IntensionalDifference: return INTDIFF;
        case Connector::Negation: return NEG; case Connector::IntensionalSet: return INTSET; case Connector::ExtensionalSet: return EXTSET;
        case Connector::IntensionalImage: return INTIMG; case Connector::ExtensionalImage: return EXTIMG; case Connector::List: return LIST;
        default: return -1;
        }
    }
    inline CONNECTOR::Connector to_con(int c)
    {
        using namespace CONNECTOR;
        static const Connector T[] = {Connector::Conjunction, Connector::Disjunction, Connector::Product, Connector::ParallelEvents, Connector::SequentialEvents, Connector::IntensionalIntersection, Connector::ExtensionalIntersection, Connector::ExtensionalDifference, Connector::IntensionalDifference, Connector::Negation, Connector::IntensionalSet, Connector::ExtensionalSet, Connector::IntensionalImage, Connector::ExtensionalImage, Connector::List};
        return T[c];
    }
    inline COPULA::Copula to_cop(int c)
    {
        using namespace COPULA;
        static const Copula T[] = {Copula::Inheritance, Copula::Similarity, Copula::Instance, Copula::Property, Copula::InstanceProperty, Copula::Implication, Copula::PredictiveImplication, Copula::ConcurrentImplication, Copula::RetrospectiveImplication, Copula::Equivalence, Copula::PredictiveEquivalence, Copula::ConcurrentEquivalence};
        return T[c];
    }
    inline int cop_of(COPULA::Copula c)
    {
        for (int i = 0; i < NCOP; i++) if (to_cop(i) == c) return i;
        return -1;
    }
    struct Bad { string what; };
    inline int var_index(TERM::Term &t)
    {
        auto &iv = t.is_ivar ? t._vars_independent : t.is_dvar ? t._vars_dependent : t._vars_query;
        if (iv->indices.size() != 1) throw Bad{"variable without exactly one number"};
        return *iv->indices[0];
    }
    inline R extract(TERM::Term &t)
    {
        R r;
        if (t.is_atom())
        {
            if (t.is_var)
            {
                if (t.is_ivar + t.is_dvar + t.is_qvar != 1) throw Bad{"variable of no or several kinds"};
                r.k = VAR; r.vk = t.is_ivar ? '$' : t.is_dvar ? '#' : '?';
                r.idx = var_index(t);
                return r;
            }
            if (t.is_interval) { r.k = IVL; r.iv = (int)((INTERVAL::Interval &)t).interval; return r; }
            r.k = t.is_operation ? OP : ATOM;
            r.name = INTERPRETER::interpreter.interpret(t);
            return r;
        }
        if (t.is_statement())
        {
            r.k = STAT;
            r.op = cop_of(t.copula);
            if (r.op < 0) throw Bad{"statement without copula"};
            if (t.subject == nullptr || t.predicate == nullptr) throw Bad{"statement without subject or predicate"};
            r.c.push_back(extract(*t.subject));
            r.c.push_back(extract(*t.predicate));
            return r;
        }
        if (t.is_compound())
        {
            r.k = COMP;
            r.op = con_of(t.connector);
            if (r.op < 0) throw Bad{"compound without connector"};
            if (t.terms == nullptr) throw Bad{"compound without components"};
            for (auto it = t.terms->begin(); it != t.terms->end(); ++it)
            {
                if (*it == nullptr) throw Bad{"null component"};
                r.c.push_back(extract(**it));
            }
            if (r.c.size() != t.terms->size()) throw Bad{"size() differs from the number of components"};
            return r;
        }
        throw Bad{"unknown type of term"};
    }
    inline string show(TERM::Term &t)
    {
        try { return canon(extract(t)); }
        catch (Bad &b) { return "!! " + b.what; }
    }

    // Equality up to a renaming of variables (one to one, per kind) and the order of unordered components.
    struct Ren { std::map<std::pair<char, int>, int> f, b; };
    inline string skel(const R &r)
    {
        R x = r;
        struct F { static void go(R &r) { if (r.k == VAR) r.idx = 0; for (auto &y : r.c) go(y); } };
        F::go(x);
        return canon(x);
    }
    template <class K> bool alpha(const R &a, const R &b, Ren &m, K k);
    template <class K> bool alpha_seq(const vector<R> &a, const vector<R> &b, size_t i, Ren &m, K k)
    {
        if (i == a.size()) return k(m);
        return alpha(a[i], b[i], m, std::function<bool(Ren &)>([&, i](Ren &m2) { return alpha_seq(a, b, i + 1, m2, k); }));
    }
    inline bool alpha_set(const vector<R> &a, const vector<string> &sa, const vector<R> &b, const vector<string> &sb, vector<bool> &used, size_t i, Ren &m, std::function<bool(Ren &)> k)
    {
        if (i == a.size()) return k(m);
        for (size_t j = 0; j < b.size(); j++)
        {
            if (used[j] || sa[i] != sb[j]) continue;
            used[j] = true;
            Ren m1 = m;
            if (alpha(a[i], b[j], m1, std::function<bool(Ren &)>([&](Ren &m2) { return alpha_set(a, sa, b, sb, used, i + 1, m2, k); })))
                return true;
            used[j] = false;
        }
        return false;
    }
    template <class K> bool alpha(const R &a, const R &b, Ren &m, K k)
    {
        if (a.k != b.k) return false;
        switch (a.k)
        {
        case ATOM: case OP: return a.name == b.name && k(m);
        case IVL: return a.iv == b.iv && k(m);
        case VAR:
        {
            if (a.vk != b.vk) return false;
            auto ka = std::make_pair(a.vk, a.idx), kb = std::make_pair(b.vk, b.idx);
            auto f = m.f.find(ka), g = m.b.find(kb);
            if (f == m.f.end() && g == m.b.end())
            {
                Ren m2 = m;
                m2.f[ka] = b.idx; m2.b[kb] = a.idx;
                return k(m2);
            }
            return f != m.f.end() && g != m.b.end() && f->second == b.idx && g->second == a.idx && k(m);
        }
        case STAT: return a.op == b.op && alpha_seq(a.c, b.c, 0, m, std::function<bool(Ren &)>(k));
        case COMP:
            if (a.op != b.op || a.c.size() != b.c.size()) return false;
            if (!COMM[a.op]) return alpha_seq(a.c, b.c, 0, m, std::function<bool(Ren &)>(k));
            vector<string> sa, sb;
            for (auto &x : a.c) sa.push_back(skel(x));
            for (auto &x : b.c) sb.push_back(skel(x));
            vector<bool> used(b.c.size(), false);
            return alpha_set(a.c, sa, b.c, sb, used, 0, m, std::function<bool(Ren &)>(k));
        }
        return false;
    }
    inline bool has_var(const R &r) { if (r.k == VAR) return true; for (auto &x : r.c) if (has_var(x)) return true; return false; }
    inline bool alpha_eq(const R &a, const R &b)
    {
        if (!has_var(a) && !has_var(b)) return canon(a) == canon(b);
        Ren m;
        return alpha(a, b, m, std::function<bool(Ren &)>([](Ren &) { return true; }));
    }
}
