// C08: the normal form of compounds, over all component tuples of every connector.
#include "h.h"
#include "fam.h"
using namespace FAM;

struct P { E e; R r; std::map<int, pTerm> built; }; // r: numbered with fixed numbers, not in normal form
static R fix(const E &e)
{
    R r = e.r;
    struct F { static void go(R &r) { if (r.k == M::VAR) r.idx = r.name == "x" ? 0 : r.name == "y" ? 1 : 2; for (auto &x : r.c) go(x); } };
    F::go(r);
    return r;
}
static pTerm get(P &p, size_t collide)
{
    int k = collide ? 1 + (collide & 1) : 0;
    auto it = p.built.find(k);
    if (it != p.built.end()) return it->second;
    Opt o; o.collide = collide;
    return p.built[k] = build(p.r, o);
}
static std::map<string, pTerm> firsts;

static const char *WAY[] = {"list, shared", "vector, shared", "list, cloned", "vector, cloned", "create()", "Terms", "Terms (ordered collection)", "initializer_list"};
static pTerm make(int con, vector<pTerm> &k, int way)
{
    using COMPOUND::Compound;
    auto c = M::to_con(con);
    std::list<pTerm> l(k.begin(), k.end());
    switch (way)
    {
    case 0: return pTerm(new Compound(c, l, true));
    case 1: return pTerm(new Compound(c, k, true));
    case 2: return pTerm(new Compound(c, l, false));
    case 3: return pTerm(new Compound(c, k));
    case 4: return Compound::create(c, k);
    case 5: return pTerm(new Compound(c, TERM::pTerms(new TERM::Terms(k, M::COMM[con])), true));
    case 6: { auto ts = TERM::pTerms(new TERM::Terms(k, M::COMM[con])); return Compound::create(c, ts); }
    case 7:
        if (k.size() == 1) return pTerm(new Compound(c, k[0], true));
        if (k.size() == 2) return pTerm(new Compound(c, {k[0], k[1]}, true));
        if (k.size() == 3) return pTerm(new Compound(c, {k[0], k[1], k[2]}, true));
        if (k.size() == 4) return pTerm(new Compound(c, {k[0], k[1], k[2], k[3]}, true));
        return pTerm(new Compound(c, k, true));
    }
    return pTerm();
}
static void one(int con, const vector<P *> &ps, int way, size_t collide)
{
    R r = M::comp(con, {});
    for (auto p : ps) r.c.push_back(p->r);
    string d;
    for (auto p : ps) { d += ", "; d += M::canon(p->r); }
    if (!H::tick(string("(") + M::CON[con] + d + ") " + WAY[way] + (collide ? " with colliding hashes" : ""))) return;
    vector<pTerm> k;
    for (auto p : ps) k.push_back(get(*p, collide));
    vector<R> kids;
    for (auto &x : r.c) kids.push_back(M::norm(x));
    R n = M::norm1(con, kids);
    string want = M::canon(n);
    pTerm t = make(con, k, way);
    H::trace(); H::trans(ps.size()); H::state(want);
    string got = M::show(*t);
    if (got != want) { H::fail("normal-form", "built " + got + " expected " + want); return; }
    if (t->is_compound() && t->terms->_is_commutative != M::COMM[n.op]) H::fail("unordered", "components are kept in the wrong kind of collection");
    if (t->is_compound() && ((COMPOUND::Compound &)*t).is_commutative != M::COMM[n.op]) H::fail("unordered", "is_commutative is wrong");
    // the same term, however it was built
    if (!collide)
    {
        auto it = firsts.find(want);
        if (it == firsts.end()) firsts[want] = t;
        else if (!(*it->second == *t) || *it->second < *t || *t < *it->second) H::fail("same-term", "not equal to the same compound built before: " + want);
        else if (INTERPRETER::interpreter.interpret(*it->second) != INTERPRETER::interpreter.interpret(*t)) H::fail("same-term", "printed differently than the same compound built before: " + want);
    }
    // the components given are not changed
    for (size_t i = 0; i < ps.size(); i++)
        if (M::show(*k[i]) != M::canon(M::norm(ps[i]->r))) H::fail("component-changed", "component " + M::canon(ps[i]->r) + " became " + M::show(*k[i]));
}
static void text_one(int con, const vector<P *> &ps, bool inf)
{
    vector<E> a;
    for (auto p : ps) a.push_back(p->e);
    E e = con == M::EXTSET || con == M::INTSET ? set(con, a) : inf ? infix(con, a) : prefix(con, a);
    Toks tk = e.t; tk.push_back(".");
    string s = text(tk);
    if (!H::tick(s)) return;
    R r = e.r;
    M::Numbering m;
    M::number(r, m);
    string want = M::canon(M::norm(r));
    auto task = SHIM::parse(s);
    H::trace(); H::trans(ps.size()); H::state(want);
    if (task == nullptr) { H::fail("rejected", "rejected"); return; }
    string got = M::show(*task->sentence->term);
    if (got != want) H::fail("normal-form", "parsed as " + got + " expected " + want);
}

int H::run()
{
    E A = word("A"), B = word("B"), C = word("C"), D = word("D"), x = var('$', "x"), y = var('$', "y"), dx = var('#', "x");
    auto pal = [&](int con) {
        vector<E> v = {A, B, x, y, dx, stat(A, 0, B), stat(x, 0, B)};
        auto S = [&](int c, const vector<E> &a) { v.push_back(c == M::EXTSET || c == M::INTSET ? set(c, a) : prefix(c, a)); };
        S(M::EXTSET, {A}); S(M::EXTSET, {A, B}); S(M::EXTSET, {B, x}); S(M::INTSET, {A}); S(M::INTSET, {A, B}); S(M::INTSET, {B, x});
        S(con, {A}); S(con, {A, B}); S(con, {B, A, C}); S(con, {x, D});
        if (con != M::CONJ) S(M::CONJ, {A, B});
        if (con != M::EXTINT) S(M::EXTINT, {B, C});
        if (con != M::PROD) S(M::PROD, {A, A});
        if (con != M::SEQ) S(M::SEQ, {A, B, A});
        return v;
    };
    auto mk = [&](const vector<E> &v) { vector<P> p; for (auto &e : v) p.push_back({e, fix(e), {}}); return p; };
    auto tup = [&](vector<P> &p, int n, auto f) {
        vector<size_t> i(n, 0);
        vector<P *> a(n);
        while (true)
        {
            for (int k = 0; k < n; k++) a[k] = &p[i[k]];
            f(a);
            int k = n - 1;
            while (k >= 0 && ++i[k] == p.size()) i[k--] = 0;
            if (k < 0) return;
        }
    };
    int NC = M::NCON;
    H::phase("tuples of the palette");
    for (int con = 0; con < NC; con++)
    {
        auto p = mk(pal(con));
        for (int n = 0; n <= 3; n++)
        {
            if (n == 0) { for (int w = 0; w < 7; w++) one(con, {}, w, 0); continue; }
            tup(p, n, [&](vector<P *> &a) {
                if (n < 3 || H::deep()) for (int w = 0; w < 8; w++) one(con, a, w, 0);
                else one(con, a, (a[0] - p.data() + a[1] - p.data() + 3 * (a[2] - p.data())) % 8, 0);
                if (n < 3 || H::deep()) for (size_t h : {(size_t)0x99998, (size_t)0x99999}) one(con, a, n == 2 ? 3 : 1, h);
                else if (M::COMM[con]) one(con, a, 0, 0x99998);
            });
        }
        firsts.clear();
    }
    H::phase("intersections and sets, longer tuples");
    for (int con : {(int)M::EXTINT, (int)M::INTINT, (int)M::EXTSET, (int)M::INTSET, (int)M::CONJ, (int)M::SEQ})
    {
        auto p = mk({A, set(M::EXTSET, {A, B}), set(M::EXTSET, {B, C}), set(M::EXTSET, {B}), set(M::INTSET, {A, B}), set(M::INTSET, {B, C}), set(M::INTSET, {D}), prefix(M::EXTINT, {D, set(M::EXTSET, {B, D})}), prefix(M::INTINT, {A, set(M::INTSET, {B})})});
        for (int n = 4; n <= (H::deep() ? 6 : 5); n++) tup(p, n, [&](vector<P *> &a) {
            if (n == 5 && !H::deep() && (a[0] > a[1] || con > M::EXTINT)) return;
            if (n == 6 && a[0] > a[1]) return;
            one(con, a, (a[0] - p.data()) % 8, 0); });
        firsts.clear();
    }
    H::phase("nested");
    for (int c1 = 0; c1 < NC; c1++) for (int c2 = 0; c2 < NC; c2++) for (int c3 = 0; c3 < NC; c3++)
    {
        if (c2 == M::LIST || c3 == M::LIST) continue;
        auto mkc = [&](int c, const vector<E> &a) { return c == M::EXTSET || c == M::INTSET ? set(c, a) : prefix(c, a); };
        E sA = set(M::EXTSET, {A, B}), sB = set(M::EXTSET, {B, C}), tA = set(M::INTSET, {A, B}), tB = set(M::INTSET, {B, C});
        vector<E> v;
        for (auto &p : vector<vector<E>>{{A, B}, {B, A}, {A, A}, {sA, sB}, {tA, tB}, {sA, tA}, {sA, set(M::EXTSET, {D})}, {A, sA}})
            v.push_back(mkc(c2, {p[0], mkc(c3, {p[1], A})})), v.push_back(mkc(c2, {mkc(c3, p)})), v.push_back(mkc(c2, {mkc(c3, {p[1]}), p[0]}));
        v.push_back(A); v.push_back(sA); v.push_back(tB); v.push_back(mkc(c1, {B, C}));
        auto p = mk(v);
        for (auto &a : p) one(c1, {&a}, 0, 0);
        for (auto &a : p) for (size_t j = p.size() - 4; j < p.size(); j++) { one(c1, {&a, &p[j]}, 2, 0); if (H::deep()) one(c1, {&p[j], &a}, 5, 0); }
        firsts.clear();
    }
    H::phase("long and many");
    for (int con = 0; con < NC; con++)
    {
        vector<E> v;
        for (int i = 0; i < 40; i++) v.push_back(word("w" + std::to_string(i)));
        for (int i = 0; i < 20; i++) v.push_back(set(M::EXTSET, {v[i], v[i + 1], v[i + 2]}));
        for (int i = 0; i < 20; i++) v.push_back(prefix(con == M::EXTSET || con == M::INTSET || con == M::LIST ? (int)M::PROD : con, {v[i], v[2 * i]}));
        auto p = mk(v);
        for (size_t n = 4; n < 80; n++) for (size_t s : {1, 3, 7, 11, 79, 77})
        {
            vector<P *> a;
            for (size_t i = 0; i < n; i++) a.push_back(&p[i * s % p.size()]);
            one(con, a, n % 6, 0);
        }
        // a few hundred different components, in turn and again
        vector<E> v2;
        for (int i = 0; i < 520; i++) v2.push_back(i % 9 == 4 ? set(i % 2 ? M::EXTSET : M::INTSET, {word("w" + std::to_string(i)), word("v" + std::to_string(i / 2))}) : i % 9 == 7 ? stat(word("w" + std::to_string(i)), 0, A) : word("w" + std::to_string(i * 7 % 520)));
        auto p2 = mk(v2);
        for (size_t n : H::deep() ? vector<size_t>{100, 126, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1000} : vector<size_t>{127, 128, 129, 255, 256, 257, 513}) for (size_t s : {1, 7, 519})
        {
            vector<P *> a;
            for (size_t i = 0; i < n; i++) a.push_back(&p2[i * s % p2.size()]);
            one(con, a, n % 6, 0);
        }
        firsts.clear();
    }
    H::phase("large components");
    {
        // sets and compounds of every size, whole and overlapping, within every connector; a component of every kind first or last in an inner compound
        int L = H::deep() ? 24 : 14;
        vector<E> w; for (int i = 0; i < 2 * L; i++) w.push_back(i % 5 == 3 ? var('$', "x") : i % 7 == 5 ? stat(word("w" + std::to_string(i)), 0, A) : word("w" + std::to_string(i)));
        auto mkc = [&](int c, const vector<E> &a) { return c == M::EXTSET || c == M::INTSET ? set(c, a) : prefix(c, a); };
        for (int con = 0; con < NC; con++)
        {
            for (int inner : {(int)M::EXTSET, (int)M::INTSET, con})
            {
                vector<E> v;
                for (int n = 1; n <= L; n++) { v.push_back(mkc(inner, vector<E>(w.begin(), w.begin() + n))); if (n > 3) v.push_back(mkc(inner, vector<E>(w.begin() + n / 2, w.begin() + n / 2 + n))); }
                v.push_back(A); v.push_back(set(M::EXTSET, {w[0], w[1]})); v.push_back(set(M::INTSET, {w[0], w[2]}));
                auto p = mk(v);
                for (auto &a : p) one(con, {&a}, 0, 0);
                for (auto &a : p) for (auto &b : p) one(con, {&a, &b}, (&a - p.data()) % 8, 0);
                size_t last = p.size() - 1;
                for (auto &a : p) for (size_t j = 0; j < 3; j++) for (int h = 0; h < 2; h++) { one(con, {&p[last - j], &a, &p[(&a - p.data()) / 2]}, 0, h * 0x99998); one(con, {&a, &p[last - j]}, 3, h * 0x99998); }
            }
            vector<E> v = leaves(), q;
            for (auto &e : {opcall1("go", {A}), stat(A, 0, oper("go")), neg(A), set(M::EXTSET, {A}), prefix(M::PROD, {A, x}), prefix(M::SEQ, {A, ivl("1")}), prefix(M::CONJ, {A, B}), stat(x, M::IMP, dx)}) v.push_back(e);
            for (auto &e : v) { q.push_back(mkc(con, {e, B})); q.push_back(mkc(con, {B, e})); q.push_back(mkc(con, {B, e, C})); q.push_back(mkc(con, {e})); q.push_back(mkc(con, {e, e})); }
            auto p = mk(q), p1 = mk(v);
            for (auto &a : p) { one(con, {&a}, 0, 0); for (auto &b : p1) { one(con, {&a, &b}, 1, 0); one(con, {&b, &a}, 2, 0); one(con, {&b, &a, &p1[0]}, 3, 0); } }
            for (auto &a : p) for (auto &b : p) if (H::deep() || (&a - &b) % 5 == 0) one(con, {&a, &b}, 0, 0);
            firsts.clear();
        }
    }
    H::phase("many components within");
    {
        // compounds of many components within compounds, and many sets brought together
        auto mkc = [&](int c, const vector<E> &a) { return c == M::EXTSET || c == M::INTSET ? set(c, a) : prefix(c, a); };
        vector<E> w; for (int i = 0; i < 300; i++) w.push_back(i % 11 == 7 ? stat(word("w" + std::to_string(i)), 0, A) : word("w" + std::to_string(i)));
        auto part = [&](int f, int t) { return vector<E>(w.begin() + f, w.begin() + t); };
        for (int con = 0; con < NC; con++)
        {
            if (con == M::LIST) continue;
            vector<E> v;
            for (int n : H::deep() ? vector<int>{5, 8, 9, 15, 16, 17, 20, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257} : vector<int>{8, 9, 16, 17, 18, 32, 33, 40, 65, 129, 257}) { v.push_back(mkc(con, part(0, n))); v.push_back(mkc(con, {w[0], mkc(con, part(1, n)), w[n]})); }
            auto p = mk(v), q = mk({A, w[3], mkc(con, part(0, 3)), mkc(con, part(20, 60)), set(M::EXTSET, part(0, 20)), set(M::INTSET, part(5, 45))});
            for (auto &a : p)
            {
                one(con, {&a}, 0, 0);
                for (size_t j = 0; j < q.size(); j++) { one(con, {&a, &q[j]}, (&a - p.data() + j) % 8, 0); one(con, {&q[j], &a}, j % 8, 0); one(con, {&q[0], &a, &q[j]}, (j + 1) % 8, 0); }
            }
            // nested and wide
            for (int n : {3, 10, 20})
            {
                E e = mkc(con, part(0, n));
                for (int d = 1; d < 6; d++) { e = d % 2 ? mkc(con, {e, mkc(con, part(d * n, d * n + n))}) : mkc(con, {mkc(con, part(d * n, d * n + n)), e}); auto x = mk({e}); one(con, {&x[0]}, d, 0); one(con, {&x[0], &q[0]}, d, 0); one(con, {&q[0], &x[0]}, d, 0); }
            }
            firsts.clear();
        }
        for (int con : {(int)M::EXTINT, (int)M::INTINT, (int)M::EXTSET, (int)M::INTSET, (int)M::CONJ}) for (int k : {(int)M::EXTSET, (int)M::INTSET})
            for (int n = 5; n <= (H::deep() ? 70 : 40); n += n < 20 ? 1 : H::deep() ? 3 : 5)
                for (int odd = 0; odd < n; odd += n < 12 ? 1 : n / 4)
                {
                    // all have w0 and w1, and one of their own; the odd one lacks w1
                    vector<E> v, u;
                    for (int i = 0; i < n; i++) { v.push_back(i == odd ? set(k, {w[0], w[10 + i]}) : set(k, {w[0], w[1], w[10 + i]})); u.push_back(set(k, {w[10 + i], w[11 + i], w[100 + (i == odd)]})); }
                    v.push_back(A);
                    auto p = mk(v), r = mk(u);
                    vector<P *> a, b, c;
                    for (int i = 0; i < n; i++) { a.push_back(&p[i]); c.push_back(&p[i]); b.push_back(&r[i]); }
                    c.insert(c.begin() + odd, &p[n]);
                    one(con, a, n % 8, 0); one(con, b, (n + odd) % 8, 0); one(con, c, odd % 8, 0);
                    firsts.clear();
                }
    }
    H::phase("elements of sets");
    {
        // sets of elements of every kind, intersected and united in every way, alone and beside other components
        vector<E> el = leaves();
        for (auto &e : {opcall1("go", {A}), stat(A, 0, B), stat(x, 0, B), stat(A, 0, oper("go")), stat(dx, M::IMP, stat(A, 0, B)), neg(A), set(M::EXTSET, {A}), set(M::INTSET, {A, B}), set(M::EXTSET, {x, A}), prefix(M::PROD, {A, x}), prefix(M::PROD, {A}), prefix(M::SEQ, {A, ivl("1")}), prefix(M::CONJ, {A, B}), prefix(M::EXTINT, {A, B}), prefix(M::INTINT, {B, x}), prefix(M::EXTIMG, {A, word("_")})}) el.push_back(e);
        for (int con : {(int)M::EXTINT, (int)M::INTINT, (int)M::EXTSET, (int)M::INTSET, (int)M::EXTDIFF, (int)M::INTDIFF, (int)M::CONJ})
            for (int k : {(int)M::EXTSET, (int)M::INTSET})
            {
                for (size_t i = 0; i < el.size(); i++) for (size_t j = 0; j < el.size(); j++)
                {
                    auto &e = el[i], &f = el[j];
                    int o = k == M::EXTSET ? M::INTSET : M::EXTSET;
                    auto p = mk({set(k, {e}), set(k, {f}), set(k, {e, B}), set(k, {e, f}), set(k, {f, e, C}), D, set(o, {e}), f, set(k, {D})});
                    vector<vector<int>> combs{{0, 1}, {0, 5}, {3}, {3, 4}, {3, 2}, {2, 4}, {2, 4, 5}, {3, 4, 5}, {0, 1, 5}, {0, 3, 7}, {0, 6}, {3, 6, 4}, {0, 1, 2}, {2, 4, 8}, {8, 0, 1}, {3, 8, 4, 5}, {5, 6, 2, 4}, {7, 2}, {7, 4, 5, 3}};
                    for (size_t c = 0; c < combs.size(); c++)
                    {
                        if (!H::deep() && (con == M::EXTDIFF || con == M::INTDIFF || con == M::CONJ) && (c + i + j) % 4) continue;
                        vector<P *> a;
                        for (int q : combs[c]) a.push_back(&p[q]);
                        one(con, a, (i + j + c) % 8, 0);
                        if (H::deep()) { std::reverse(a.begin(), a.end()); one(con, a, (i + j + c + 3) % 8, 0); one(con, a, 0, 0x99998); }
                    }
                    firsts.clear();
                }
            }
    }
    H::phase("parsed");
    for (int con = 0; con < M::LIST; con++)
    {
        auto p = mk(pal(con == M::LIST ? (int)M::PROD : con));
        for (int n = 1; n <= (H::deep() ? 3 : 2); n++)
            tup(p, n, [&](vector<P *> &a) {
                bool diff = con == M::EXTDIFF || con == M::INTDIFF;
                for (auto q : a) if ((q->r.op == M::EXTDIFF || q->r.op == M::INTDIFF) && q->r.k == M::COMP && q->r.c.size() != 2) return;
                for (auto q : a) if (q->r.k == M::COMP && q->r.op == M::NEG && q->r.c.size() != 1) return;
                for (auto q : a) if (q->r.k == M::COMP && q->r.c.size() == 1 && q->r.op <= M::EXTINT && q->r.op != M::PROD) return;
                if (con == M::NEG && n != 1) return;
                if (diff && n != 2) return;
                if (n == 1 && con <= M::EXTINT && con != M::PROD) return;
                text_one(con, a, false);
                if (n > 1 && con <= M::INTDIFF) text_one(con, a, true);
            });
    }
    return 0;
}
H_MAIN
