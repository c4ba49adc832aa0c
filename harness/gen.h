// Surface forms of Narsese: token sequences paired with what they mean (a raw model term with named variables).
#pragma once
#include "model.h"
namespace G
{
    using M::R;
    using std::string;
    using std::vector;
    typedef vector<string> Toks;
    struct E { Toks t; R r; bool nonvar = true; bool infix_ok = true; }; // a term

    inline void app(Toks &a, const Toks &b) { a.insert(a.end(), b.begin(), b.end()); }
    inline bool opch(char c) { return strchr("-+<>=&|!.?@~%;:/\\*#$^", c) != nullptr && c; }
    inline bool brk(const string &t) { return t == "(" || t == ")" || t == "]" || t == "}" || t == "," || t == "["; }
    inline bool wordch(char c) { return !opch(c) && !strchr("{}[](), \t\n\"", c); }
    // spacing 0: usual (as compact as is unambiguous), 1: one blank between all tokens, 2: two blanks and around
    inline string text(const Toks &t, int spacing = 0)
    {
        string s;
        if (spacing == 2) s += "  ";
        for (size_t i = 0; i < t.size(); i++)
        {
            if (i && spacing == 1) s += " ";
            else if (i && spacing == 2) s += "  ";
            else if (i)
            {
                const string &a = t[i - 1], &b = t[i];
                bool sp = false;
                if (!brk(a) && !brk(b))
                {
                    char x = a.back(), y = b[0];
                    if (opch(x) && opch(y)) sp = true;
                    else if ((x == '{' || x == '}') && opch(y)) sp = true;
                    else if (opch(x) && (y == '{' || y == '}')) sp = true;
                    else if (wordch(x) && wordch(y)) sp = true;
                    else if ((isdigit(x) || x == '.') && (isdigit(y) || y == '.')) sp = true;
                }
                else if (a == "]" && opch(b[0])) sp = true;
                else if (opch(a.back()) && b == "]") sp = true;
                if (sp) s += " ";
            }
            s += t[i];
        }
        if (spacing == 2) s += "  ";
        return s;
    }

    inline E word(const string &n) { E e; e.t = {n}; e.r = M::atom(n); return e; }
    inline E var(char k, const string &n) { E e; e.t = {string(1, k), n}; e.r = M::var(k, n); e.nonvar = false; return e; }
    inline E ivl(const string &n) { E e; e.t = {"+", n}; e.r = M::ivl(atol(n.c_str())); return e; }
    inline E oper(const string &n) { E e; e.t = {"^", n}; e.r = M::oper(n); return e; }

    inline R sugar(const R &s, int cop, const R &p)
    {
        if (cop == M::INST) return M::stat(M::comp(M::EXTSET, {s}), M::INH, p);
        if (cop == M::PROPC) return M::stat(s, M::INH, M::comp(M::INTSET, {p}));
        if (cop == M::INSTPROP) return M::stat(M::comp(M::EXTSET, {s}), M::INH, M::comp(M::INTSET, {p}));
        return M::stat(s, cop, p);
    }
    inline E stat(const E &s, int cop, const E &p, bool paren = false)
    {
        E e;
        e.t = {paren ? "(" : "<"};
        app(e.t, s.t); e.t.push_back(M::COP[cop]); app(e.t, p.t); e.t.push_back(paren ? ")" : ">");
        e.r = sugar(s.r, cop, p.r);
        return e;
    }
    inline void list(Toks &t, const vector<E> &c, const char *sep = ",")
    {
        for (size_t i = 0; i < c.size(); i++) { if (i) t.push_back(sep); app(t, c[i].t); }
    }
    inline vector<R> rs(const vector<E> &c) { vector<R> v; for (auto &x : c) v.push_back(x.r); return v; }
    inline E opcall1(const string &op, const vector<E> &c) // (^op, a, b)
    {
        E e; e.t = {"(", "^", op};
        for (auto &x : c) { e.t.push_back(","); app(e.t, x.t); }
        e.t.push_back(")");
        e.r = M::stat(M::comp(M::PROD, rs(c)), M::INH, M::oper(op));
        return e;
    }
    inline E opcall2(const string &op, const vector<E> &c) // op(a, b)
    {
        E e; e.t = {op, "("}; list(e.t, c); e.t.push_back(")");
        e.r = M::stat(M::comp(M::PROD, rs(c)), M::INH, M::oper(op));
        return e;
    }
    inline E set(int con, const vector<E> &c)
    {
        E e; e.t = {con == M::EXTSET ? "{" : "["}; list(e.t, c); e.t.push_back(con == M::EXTSET ? "}" : "]");
        e.r = M::comp(con, rs(c));
        return e;
    }
    inline E prefix(int con, const vector<E> &c) // (con, a, b)
    {
        E e; e.t = {"(", M::CON[con], ","}; list(e.t, c); e.t.push_back(")");
        e.r = M::comp(con, rs(c));
        return e;
    }
    inline E neg(const E &c) { E e; e.t = {"--"}; app(e.t, c.t); e.r = M::comp(M::NEG, {c.r}); return e; }
    inline E infix_expr(int con, const vector<E> &c) // without parentheses
    {
        E e; list(e.t, c, M::CON[con]);
        e.r = M::comp(con, rs(c));
        return e;
    }
    inline E paren(const E &x) { E e; e.t = {"("}; app(e.t, x.t); e.t.push_back(")"); e.r = x.r; return e; }
    inline E infix(int con, const vector<E> &c) { return paren(infix_expr(con, c)); }
    // `(^op, a, b)` is an operation call, so a product in the new notation cannot begin with an operation
    inline E product_new(const vector<E> &c) { if (c[0].t.size() == 2 && c[0].t[0] == "^") { vector<E> a(c.begin() + 1, c.end()); return opcall1(c[0].t[1], a); } E e; e.t = {"("}; list(e.t, c); e.t.push_back(")"); e.r = M::comp(M::PROD, rs(c)); return e; }

    // Forms with 1, 2 and more arguments. Every notation of the grammar is one form.
    struct Form { string name; int lo, hi; std::function<E(const vector<E> &)> f; };
    inline vector<Form> forms()
    {
        vector<Form> v;
        for (int c = 0; c < M::NCOP; c++)
            for (int p = 0; p < 2; p++)
                v.push_back({string(p ? "(" : "<") + M::COP[c], 2, 2, [=](const vector<E> &a) { return stat(a[0], c, a[1], p); }});
        v.push_back({"(^op", 0, 99, [](const vector<E> &a) { return opcall1("go", a); }});
        v.push_back({"op()", 1, 99, [](const vector<E> &a) { return opcall2("go", a); }});
        v.push_back({"{}", 1, 99, [](const vector<E> &a) { return set(M::EXTSET, a); }});
        v.push_back({"[]", 1, 99, [](const vector<E> &a) { return set(M::INTSET, a); }});
        v.push_back({"--", 1, 1, [](const vector<E> &a) { return neg(a[0]); }});
        v.push_back({"(--,", 1, 1, [](const vector<E> &a) { return prefix(M::NEG, a); }});
        for (int c : {(int)M::INTIMG, (int)M::EXTIMG, (int)M::PROD})
            v.push_back({string("(") + M::CON[c] + ",", 1, 99, [=](const vector<E> &a) { return prefix(c, a); }});
        for (int c : {(int)M::CONJ, (int)M::DISJ, (int)M::PAR, (int)M::SEQ, (int)M::INTINT, (int)M::EXTINT})
            v.push_back({string("(") + M::CON[c] + ",", 2, 99, [=](const vector<E> &a) { return prefix(c, a); }});
        for (int c : {(int)M::CONJ, (int)M::DISJ, (int)M::PAR, (int)M::SEQ, (int)M::INTINT, (int)M::EXTINT, (int)M::PROD})
            v.push_back({string("infix") + M::CON[c], 2, 99, [=](const vector<E> &a) { return infix(c, a); }});
        v.push_back({"(a,b)", 2, 99, [](const vector<E> &a) { return product_new(a); }});
        for (int c : {(int)M::EXTDIFF, (int)M::INTDIFF})
        {
            v.push_back({string("(") + M::CON[c] + ",", 2, 2, [=](const vector<E> &a) { return prefix(c, a); }});
            v.push_back({string("infix") + M::CON[c], 2, 2, [=](const vector<E> &a) { return infix(c, a); }});
        }
        return v;
    }
    // Differences whose operands are infix expressions without parentheses of their own.
    inline vector<Form> infix_operand_forms()
    {
        vector<Form> v;
        for (int d : {(int)M::EXTDIFF, (int)M::INTDIFF})
            for (int c : {(int)M::CONJ, (int)M::DISJ, (int)M::PAR, (int)M::SEQ, (int)M::INTINT, (int)M::EXTINT, (int)M::PROD})
            {
                string n = string(M::CON[c]) + " in " + M::CON[d];
                v.push_back({"(d, x, ab) " + n, 3, 3, [=](const vector<E> &a) { return prefix(d, {a[0], infix_expr(c, {a[1], a[2]})}); }});
                v.push_back({"(d, ab, x) " + n, 3, 3, [=](const vector<E> &a) { return prefix(d, {infix_expr(c, {a[0], a[1]}), a[2]}); }});
                v.push_back({"(x d ab) " + n, 3, 3, [=](const vector<E> &a) { return infix(d, {a[0], infix_expr(c, {a[1], a[2]})}); }});
                v.push_back({"(ab d x) " + n, 3, 3, [=](const vector<E> &a) { return infix(d, {infix_expr(c, {a[0], a[1]}), a[2]}); }});
                v.push_back({"(ab d cd) " + n, 4, 4, [=](const vector<E> &a) { return infix(d, {infix_expr(c, {a[0], a[1]}), infix_expr(M::EXTINT, {a[2], a[3]})}); }});
                v.push_back({"(d, ab, cd) " + n, 4, 4, [=](const vector<E> &a) { return prefix(d, {infix_expr(c, {a[0], a[1]}), infix_expr(M::DISJ, {a[2], a[3]})}); }});
            }
        return v;
    }
    inline R meaning(const E &e)
    {
        R r = e.r;
        M::Numbering m;
        M::number(r, m);
        return M::norm(r);
    }
    inline vector<E> leaves()
    {
        return {word("A"), word("B"), var('$', "x"), var('#', "x"), var('?', "x"), var('$', "y"), ivl("3"), ivl("-2"), oper("go"), word("\"q r\""), word("_"), word("1")};
    }
    // all tuples over v of length n, calling f
    inline void tuples(const vector<E> &v, int n, const std::function<void(const vector<E> &)> &f)
    {
        vector<size_t> i(n, 0);
        vector<E> a(n);
        while (true)
        {
            for (int k = 0; k < n; k++) a[k] = v[i[k]];
            f(a);
            int k = n - 1;
            while (k >= 0 && ++i[k] == v.size()) i[k--] = 0;
            if (k < 0) return;
        }
    }
}
