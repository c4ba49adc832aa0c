// C10: flags and tables of variables of parsed, built and cloned terms.
#include "h.h"
#include "vars.h"
using namespace V;

static void check(pTerm t, const string &how)
{
    string s = V::check(*t);
    H::trans();
    if (!s.empty()) H::fail("faithful", how + ": " + s);
}
static void one(const E &e)
{
    R r = numbered(e);
    if (!H::tick(M::canon(r))) return;
    H::trace(); H::state(M::canon(r));
    bool ok; string line;
    pTerm t = parse_term(e, ok, &line);
    if (ok) { check(t, "parsed"); check(Term::clone(t), "clone of parsed"); }
    struct W { R r; Opt o; const char *how; };
    vector<W> w(4);
    w[0] = {r, {}, "built"};
    w[1] = {shifted(r, 5, 2), {}, "built with other numbers, cloning components"}; w[1].o.input = false; w[1].o.order = 1; w[1].o.way = 2;
    w[2] = {shifted(r, -1, 9), {}, "built with decreasing numbers"}; w[2].o.way = 1; w[2].o.order = 2;
    w[3] = {M::norm(r), {}, "built from its normal form with colliding hashes"}; w[3].o.collide = 0x4242;
    for (auto &x : w)
    {
        pTerm b = build(x.r, x.o);
        check(b, x.how);
        pTerm c = Term::clone(b);
        check(c, string("clone of ") + x.how);
        check(Term::clone(c), string("clone of clone of ") + x.how);
        // as a component of something else, the component itself keeps its own table
        pTerm a = Term::create("zz");
        pTerm st = pTerm(new STATEMENT::Statement(a, COPULA::Copula::Implication, b, true));
        check(st, string("in a statement, ") + x.how); check(b, string("after use in a statement, ") + x.how);
        pTerm cp = mkcomp(M::PROD, {a, b, c, b}, {});
        check(cp, string("several times in a product, ") + x.how); check(b, string("after use in a product, ") + x.how); check(st, string("statement after another use, ") + x.how);
        check(Term::clone(cp), string("clone of a product, ") + x.how);
        // the same object in neighbouring places
        pTerm twice = pTerm(new STATEMENT::Statement(b, COPULA::Copula::Similarity, b, true));
        check(twice, string("as subject and predicate, ") + x.how); check(Term::clone(twice), string("clone of a statement about itself, ") + x.how);
        for (int con : {M::PROD, M::SEQ, M::CONJ, M::EXTIMG})
        {
            pTerm three = mkcomp(con, {b, b, b}, {});
            check(three, string("three times in a compound, ") + x.how); check(Term::clone(three), string("clone of a compound of three, ") + x.how);
            check(mkcomp(con, {a, b, b}, {}), string("twice in a compound, ") + x.how);
        }
        check(b, string("after use with itself, ") + x.how); check(twice, string("statement about itself after more uses, ") + x.how);
    }
}
int H::run()
{
    H::phase("family");
    for (auto &e : family(H::deep() ? 2 : 1)) one(e);
    H::phase("mixes of variables");
    E A = word("A");
    vector<E> vs = {var('$', "x"), var('$', "y"), var('#', "x"), var('?', "x"), A};
    for (int n = 1; n <= (H::deep() ? 6 : 5); n++) tuples(vs, n, [&](const vector<E> &a) {
        one(prefix(M::PROD, a)); one(opcall1("go", a));
        if (n >= 2) { one(prefix(M::CONJ, a)); vector<E> h(a.begin(), a.begin() + n / 2), g(a.begin() + n / 2, a.end()); one(stat(prefix(M::EXTIMG, h), n, prefix(M::PROD, g))); one(prefix(M::SEQ, {set(M::EXTSET, h), set(M::INTSET, g)})); }
        if (n == 4) { one(stat(stat(a[0], 0, a[1]), M::IMP, stat(a[2], M::SIM, a[3]))); one(prefix(M::CONJ, {stat(a[0], 0, a[1]), stat(a[2], 0, a[3])})); one(prefix(M::EXTINT, {set(M::EXTSET, {a[0], a[1]}), set(M::EXTSET, {a[2], a[3]})})); one(prefix(M::CONJ, {prefix(M::CONJ, {a[0], a[1]}), prefix(M::CONJ, {a[2], a[3]})})); }
    });
    H::phase("every form at depth");
    auto F = forms();
    for (auto &f : F) for (auto &g : F) for (auto &v : vs)
    {
        vector<E> in = g.hi >= 2 ? vector<E>{v, vs[0]} : vector<E>{v}, in2 = g.hi >= 2 ? vector<E>{vs[2], v} : vector<E>{v};
        one(f.hi >= 2 ? f.f({g.f(in), v}) : f.f({g.f(in)}));
        if (f.hi >= 2) one(f.f({A, g.f(in2)}));
        if (f.hi >= 2) one(f.f({g.f(in), g.f(in2)}));
    }
    H::phase("operations and many components");
    for (auto &e : with_operations(true)) one(e);
    for (auto &e : wide(H::deep() ? vector<int>{5, 9, 10, 11, 12, 17, 33, 100, 129, 257} : vector<int>{5, 10, 12, 17})) one(e);
    for (int n : H::deep() ? vector<int>{127, 128, 129, 255, 256, 257, 300, 600} : vector<int>{129, 257})
    {
        // the places of variables among many names, and many variables
        vector<E> a, b, c;
        for (int i = 0; i < n; i++) { a.push_back(i % 43 == 42 || i >= n - 2 ? var("$#?"[i % 3], "v" + std::to_string(i)) : word("n" + std::to_string(i))); b.push_back(var('#', "v" + std::to_string(i))); c.push_back(var("$?"[i % 2], "v" + std::to_string(i * 7 % n))); }
        one(prefix(M::PROD, a)); one(prefix(M::PROD, b)); one(prefix(M::SEQ, c)); one(set(M::EXTSET, a)); one(stat(prefix(M::PROD, b), 0, prefix(M::PROD, c)));
    }
    H::phase("wide and deep");
    for (int n = 1; n <= (H::deep() ? 120 : 40); n++)
    {
        vector<E> a;
        for (int i = 0; i < n; i++) a.push_back(i % 4 == 3 ? A : var("$#?"[i % 3], "v" + std::to_string(i * 5 % (n + 1))));
        one(prefix(M::PROD, a)); one(set(M::EXTSET, a)); one(opcall2("go", a));
        E e = vs[n % 4];
        for (int d = 0; d < n; d++) e = d % 3 == 0 ? stat(e, d % 12, vs[d % 5]) : d % 3 == 1 ? prefix(M::PROD, {vs[d % 4], e}) : set(M::EXTSET, {e, A});
        one(e);
    }
    return 0;
}
H_MAIN
