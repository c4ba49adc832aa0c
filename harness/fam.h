// Families of terms, and building a model term through the constructors instead of the parser.
#pragma once
#include "gen.h"
#include "shim.h"
namespace FAM
{
    using namespace G;
    using TERM::pTerm;
    using TERM::Term;

    // Terms as text + meaning: leaves, every notation over small arguments, and nestings.
    inline vector<E> family(int level)
    {
        vector<E> v = leaves();
        v.push_back(oper("op")); v.push_back(var('#', "y")); v.push_back(var('?', "y")); v.push_back(ivl("0")); v.push_back(ivl("2"));
        auto F = forms();
        E A = word("A"), B = word("B"), C = word("C"), x = var('$', "x"), y = var('$', "y"), dx = var('#', "x"), qx = var('?', "x");
        vector<vector<E>> one = {{A}, {x}, {dx}}, two = {{A, B}, {B, A}, {A, A}, {x, A}, {dx, A}, {qx, A}, {x, y}, {y, x}, {x, dx}}, three = {{A, B, C}, {x, A, x}, {x, dx, qx}};
        vector<E> d1;
        for (auto &f : F)
        {
            if (f.lo == 0) d1.push_back(f.f({}));
            if (f.lo <= 1) for (auto &a : one) d1.push_back(f.f(a));
            if (f.hi >= 2) for (auto &a : two) d1.push_back(f.f(a));
            if (f.hi >= 3) for (auto &a : three) d1.push_back(f.f(a));
        }
        v.insert(v.end(), d1.begin(), d1.end());
        E s1 = stat(A, 0, B), s2 = stat(x, 0, B), s3 = stat(dx, 0, qx), s4 = stat(y, 0, x), c1 = set(M::EXTSET, {A, B}), c2 = set(M::INTSET, {x, A}), c3 = prefix(M::CONJ, {s2, s4}), c4 = prefix(M::SEQ, {A, ivl("3"), x}), c5 = opcall1("go", {x, A}), c6 = prefix(M::PROD, {A, dx, A}), c7 = prefix(M::EXTIMG, {A, word("_"), qx});
        vector<E> in = {s1, s2, s3, s4, c1, c2, c3, c4, c5, c6, c7};
        for (auto &f : F)
        {
            if (f.lo <= 1) for (auto &e : in) v.push_back(f.f({e}));
            if (f.hi >= 2)
                for (size_t i = 0; i < in.size(); i++)
                {
                    if (level == 0 && i % 3) continue;
                    v.push_back(f.f({in[i], A})); v.push_back(f.f({y, in[i]})); v.push_back(f.f({in[i], in[(i + 1) % in.size()]}));
                    if (level >= 2) for (auto &e : in) v.push_back(f.f({e, in[i]}));
                    if (level >= 1 && f.hi >= 3) { v.push_back(f.f({in[i], x, in[(i + 3) % in.size()]})); v.push_back(f.f({in[(i + 3) % in.size()], in[i], x})); }
                }
        }
        for (auto &f : infix_operand_forms()) if (level >= 1) v.push_back(f.f({x, A, y, B}));
        return v;
    }

    // Terms with operations among their parts: every form over all pairs of these.
    inline vector<E> with_operations(bool all)
    {
        E A = word("A"), x = var('$', "x"), go = oper("go"), s = stat(A, 0, go), c6 = prefix(M::PROD, {A, var('#', "x"), A});
        vector<E> in = {A, x, go, s, stat(x, 0, go), opcall1("go", {}), opcall1("go", {x, A}), stat(prefix(M::PROD, {A}), 0, s), stat(c6, M::SIM, go), stat(c6, M::IMP, s), set(M::EXTSET, {go}), prefix(M::PROD, {go}), prefix(M::PROD, {go, A}), neg(go), c6, stat(stat(s, 0, s), 0, s)};
        vector<E> v;
        for (auto &f : forms())
        {
            if (!all && (f.name[0] == '(' && (f.lo == 2 && f.hi == 2))) continue;
            for (auto &a : in)
            {
                if (f.lo <= 1) v.push_back(f.f({a}));
                if (f.hi >= 2) for (auto &b : in) v.push_back(f.f({a, b}));
            }
        }
        return v;
    }
    // Terms with many components: names, variables, statements with variables, and compounds among them.
    inline vector<E> wide(const vector<int> &sizes)
    {
        vector<E> v;
        for (auto &f : forms())
        {
            if (f.hi < 3) continue;
            for (int n : sizes) for (int kind = 0; kind < 5; kind++)
            {
                vector<E> a;
                for (int i = 0; i < n; i++)
                {
                    string k = std::to_string(i);
                    E A = word("n" + k);
                    switch (kind)
                    {
                    case 0: a.push_back(A); break;
                    case 1: a.push_back(var("$#?"[i % 3], "v" + k)); break;
                    case 2: a.push_back(i == n - 1 ? stat(var('#', "v" + k), 0, word("A")) : stat(var('$', "v" + k), 0, word("A"))); break;
                    case 3: a.push_back(i == n - 2 ? var('?', "x") : i == 0 ? set(M::INTSET, {A, word("A")}) : A); break;
                    case 4: a.push_back(i % 4 == 0 ? prefix(M::PROD, {A, var('$', "v" + std::to_string(i / 2))}) : i % 4 == 1 ? set(M::EXTSET, {A}) : i % 4 == 2 ? stat(A, i % 12, word("B")) : neg(A)); break;
                    }
                }
                v.push_back(f.f(a));
                if (n < 20) v.push_back(f.f({f.f(a), word("A"), var('#', "z")}));
                if (n < 20) v.push_back(stat(f.f(a), 0, f.f(a)));
            }
        }
        return v;
    }

    struct Opt
    {
        bool input = true;     // constructors take the components as they are (true) or clone them (false)
        int order = 0;         // 0: components as given, 1: reversed, 2: rotated (unordered connectors only)
        int way = 0;           // which constructor: 0 list, 1 vector, 2 create()
        size_t collide = 0;    // if not 0: every statement and compound gets this hash
    };
    inline std::map<string, TASK::pTask> &ops() { static std::map<string, TASK::pTask> m; return m; }
    inline pTerm mkvar(char k, int idx, const string &name)
    {
        using namespace VARIABLE;
        auto v = new Variable(k == '$' ? VarPrefix::Independent : k == '#' ? VarPrefix::Dependent : VarPrefix::Qeury, string(1, k) + name);
        (k == '$' ? v->_vars_independent : k == '#' ? v->_vars_dependent : v->_vars_query)->add(idx, {});
        return pTerm(v);
    }
    inline pTerm mkcomp(int con, vector<pTerm> k, const Opt &o)
    {
        using COMPOUND::Compound;
        auto c = M::to_con(con);
        if (o.way == 1) return pTerm(new Compound(c, k, o.input));
        if (o.way == 2 && !o.input) return (pTerm)Compound::create(c, k);
        std::list<pTerm> l(k.begin(), k.end());
        return pTerm(new Compound(c, l, o.input));
    }
    // r has its variables numbered; it need not be in normal form
    inline pTerm build(const R &r, const Opt &o = Opt())
    {
        pTerm t;
        switch (r.k)
        {
        case M::ATOM: return Term::create(r.name.c_str());
        case M::OP:
        {
            auto it = ops().find(r.name);
            if (it == ops().end()) it = ops().insert({r.name, SHIM::parse(r.name + ".")}).first;
            return it->second->sentence->term;
        }
        case M::VAR: return mkvar(r.vk, r.idx, r.name);
        case M::IVL: return pTerm(new INTERVAL::Interval((int)r.iv));
        case M::STAT:
        {
            pTerm s = build(r.c[0], o), p = build(r.c[1], o);
            t = pTerm(new STATEMENT::Statement(s, M::to_cop(r.op), p, o.input));
            break;
        }
        case M::COMP:
        {
            vector<pTerm> k;
            for (auto &x : r.c) k.push_back(build(x, o));
            if (M::COMM[r.op])
            {
                if (o.order == 1) std::reverse(k.begin(), k.end());
                if (o.order == 2 && k.size() > 1) std::rotate(k.begin(), k.begin() + 1, k.end());
            }
            t = mkcomp(r.op, k, o);
        }
        }
        if (o.collide) { t->hash_value = o.collide; t->is_hashed = true; }
        return t;
    }
    inline R numbered(const E &e) { R r = e.r; M::Numbering m; M::number(r, m); return r; }
    inline pTerm parse_term(const E &e, bool &ok, string *line = nullptr)
    {
        Toks t = e.t;
        if (!e.nonvar) { ok = false; return pTerm(); }
        t.push_back(".");
        string s = text(t);
        if (line) *line = s;
        auto task = SHIM::parse(s);
        ok = task != nullptr;
        return ok ? task->sentence->term : pTerm();
    }
}
