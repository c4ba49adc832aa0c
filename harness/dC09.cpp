// C09 (address sanitizer): clones are equal to and independent of their originals.
#include "h.h"
#include "vars.h"
using namespace V;
using INTERPRETER::interpreter;

static string flags(Term &t)
{
    char b[200];
    snprintf(b, sizeof b, "type %d var %d%d%d%d has %d%d%d%d ivl %d op %d ho %d closed %d cx %d con %d cop %d", t.type, t.is_var, t.is_ivar, t.is_dvar, t.is_qvar, t.has_var, t.has_ivar, t.has_dvar, t.has_qvar, t.is_interval, t.is_operation, t.is_higher_order, t.is_closed, t.complexity, (int)t.connector, (int)t.copula);
    string s = b;
    if (t.is_compound()) s += ((COMPOUND::Compound &)t).is_commutative ? " comm" : " ord";
    if (t.is_statement()) s += ((STATEMENT::Statement &)t).is_commutative ? " comm" : " ord";
    s += " " + std::to_string(t.hash_value) + (t.is_var ? " " + ((VARIABLE::Variable &)t).name + std::to_string(((VARIABLE::Variable &)t).prefix) : "");
    for (auto &iv : {t._vars_independent, t._vars_dependent, t._vars_query})
    {
        s += " [";
        for (auto &i : iv->indices) s += std::to_string(*i) + " ";
        for (auto &p : iv->positions) s += pos(p) + " ";
        for (int i : *iv->indices_normalized()) s += std::to_string(i) + " ";
        s += "]";
    }
    for (auto &k : kids(t)) s += " (" + flags(*k) + ")";
    return s;
}
static string all(Term &t) { return M::show(t) + " " + interpreter.interpret(t) + " " + interpreter.interpret(t, true) + " " + flags(t); }
static bool disjoint(Term &a, Term &b)
{
    std::set<int *> x, y;
    handles(a, x); handles(b, y);
    for (auto p : y) if (x.count(p)) return false;
    return true;
}
// Renumber each number of a in turn (through its own table and in its components): b must not change.
static bool renumber(Term &a, Term &b, const char *what)
{
    string before = all(b);
    std::set<int *> h;
    handles(a, h);
    bool ok = true;
    for (int *p : h)
    {
        int old = *p;
        *p = 1000 + old;
        if (all(b) != before) ok = false;
        *p = old;
        H::trans();
    }
    if (!ok) H::fail("shared", string("changing the number of a variable of the ") + what);
    return ok;
}
static void clone_of(std::function<pTerm()> mk, const string &how)
{
    if (!H::tick(how)) return;
    H::trace();
    pTerm t = mk();
    string before = all(*t);
    H::state(before);
    pTerm c = Term::clone(t);
    if (all(*t) != before) { H::fail("original", "cloning changed the original"); return; }
    string cs = all(*c);
    if (cs != before) { H::fail("same", "the clone is " + cs + " but the original " + before); return; }
    if (!(*c == *t) || !(*t == *c) || *c < *t || *t < *c || UTILS::hash(*c) != UTILS::hash(*t)) { H::fail("equal", "the clone is not equal to the original"); return; }
    if (!disjoint(*t, *c)) { H::fail("shared", "the clone shares the number of a variable with the original"); return; }
    if (t->has_var && c.get() == t.get()) { H::fail("shared", "a term with variables is its own clone"); return; }
    if (!renumber(*t, *c, "original changes the clone") || !renumber(*c, *t, "clone changes the original")) return;
    pTerm c2 = Term::clone(c);
    if (!disjoint(*c, *c2) || !disjoint(*t, *c2)) { H::fail("shared", "the clone of the clone shares the number of a variable"); return; }
    // after the numbers of the original were changed, a new clone has the changed numbers
    {
        std::set<int *> h;
        handles(*t, h);
        for (int *p : h) *p += 50;
        pTerm d = Term::clone(t);
        if (M::show(*d) != M::show(*t)) { H::fail("same", "a clone made after renumbering differs"); return; }
        for (int *p : h) *p -= 50;
    }
    // dropping in every order; parts of a dropped term stay valid
    vector<pTerm> parts = kids(*c), parts2 = kids(*t);
    vector<string> ps;
    for (auto &p : parts) ps.push_back(all(*p));
    t = pTerm();
    if (all(*c) != before) { H::fail("drop", "the clone changed when the original was dropped"); return; }
    c = pTerm();
    if (all(*c2) != before) { H::fail("drop", "the clone of the clone changed when the clone was dropped"); return; }
    c2 = pTerm();
    for (size_t i = 0; i < parts.size(); i++) if (all(*parts[i]) != ps[i] || (i < parts2.size() && all(*parts2[i]) != ps[i])) { H::fail("drop", "a component changed when its term was dropped"); return; }
    parts.clear(); parts2.clear();
    pTerm o = mk();
    before = all(*o); // atoms may be new ones
    { pTerm d = Term::clone(o); parts = kids(*d); }
    if (all(*o) != before) H::fail("drop", "the original changed when the clone was dropped");
}
// Terms built without is_input do not share variables with the components given.
static void fresh(const string &how, std::function<pTerm(pTerm, pTerm)> mk, const R &ra, const R &rb, bool same)
{
    if (!H::tick(how + " of " + M::canon(ra) + (same ? " twice" : " and " + M::canon(rb)))) return;
    H::trace();
    pTerm a = build(ra), b = same ? a : build(rb);
    string sa = all(*a), sb = all(*b);
    pTerm t = mk(a, b);
    H::state(M::show(*t));
    string st = all(*t);
    if (all(*a) != sa || all(*b) != sb) { H::fail("component", "building a term changed a component"); return; }
    if (!disjoint(*t, *a) || !disjoint(*t, *b)) { H::fail("shared", "the term shares the number of a variable with a component it was built from"); return; }
    if (!renumber(*a, *t, "component changes the term built from it") || !renumber(*t, *a, "term changes the component it was built from") || !renumber(*b, *t, "component changes the term built from it")) return;
    a = pTerm(); b = pTerm();
    if (all(*t) != st) H::fail("drop", "the term changed when its components were dropped");
}
int H::run()
{
    auto fam = family(H::deep() ? 1 : 0);
    H::phase("clones");
    for (auto &e : fam)
    {
        R r = numbered(e);
        bool ok; string line;
        { pTerm t = parse_term(e, ok, &line); }
        if (ok) clone_of([&] { bool k; return parse_term(e, k); }, "parsed " + line);
        clone_of([&] { return build(r); }, "built " + M::canon(r));
        if (M::has_var(r)) { Opt o; o.input = false; o.order = 1; o.way = 2; R s = shifted(r, 3, 1); clone_of([&] { return build(s, o); }, "built cloning components " + M::canon(s)); o.collide = 9; o.input = true; clone_of([&] { return build(s, o); }, "built with colliding hashes " + M::canon(s)); }
    }
    H::phase("operations and many components");
    {
        auto more = with_operations(H::deep()), w = wide(H::deep() ? vector<int>{5, 8, 9, 10, 16, 17, 33, 65, 129, 257} : vector<int>{5, 9, 17, 33});
        more.insert(more.end(), w.begin(), w.end());
        for (auto &e : more)
        {
            R r = numbered(e);
            bool ok; string line;
            { pTerm t = parse_term(e, ok, &line); }
            if (ok && H::deep()) clone_of([&] { bool k; return parse_term(e, k); }, "parsed " + line);
            clone_of([&] { return build(r); }, "built " + M::canon(r));
        }
        // more occurrences of variables and more atoms than a byte can count, in every kind of term
        for (int n : {130, 257, 300}) for (int con : {(int)M::PROD, (int)M::CONJ, (int)M::EXTSET, (int)M::SEQ})
        {
            vector<R> a; for (int i = 0; i < n; i++) a.push_back(i % 100 == 99 ? M::var("$#?"[i / 100], "v", i) : M::atom("n" + std::to_string(i)));
            clone_of([&] { return build(M::comp(con, a)); }, "built with " + std::to_string(n) + " components, " + M::CON[con]);
            clone_of([&] { return build(M::stat(M::comp(con, a), M::IMP, M::comp(M::PROD, a))); }, "built with " + std::to_string(n) + " components twice, " + M::CON[con]);
        }
    }
    E A = word("A");
    vector<E> vs = {var('$', "x"), var('$', "y"), var('#', "x"), var('?', "x"), A};
    H::phase("mixes of variables");
    for (int n = 1; n <= (H::deep() ? 5 : 4); n++) tuples(vs, n, [&](const vector<E> &a) {
        for (int con : {(int)M::PROD, (int)M::EXTSET, (int)M::CONJ}) { R r = numbered(prefix(con, a)); clone_of([&] { return build(r); }, "built " + M::canon(r)); }
        if (n == 4) { R r = numbered(stat(stat(a[0], 0, a[1]), M::IMP, prefix(M::SEQ, {a[2], a[3]}))); clone_of([&] { return build(r); }, "built " + M::canon(r)); }
    });
    H::phase("every form in every form");
    {
        auto F = forms();
        size_t n = 0;
        for (auto &f : F) for (auto &g : F) for (auto &v : vs)
        {
            vector<E> in = g.hi >= 2 ? vector<E>{v, A} : vector<E>{v}, in2 = g.hi >= 2 ? vector<E>{A, v} : vector<E>{v};
            vector<E> es{f.hi >= 2 ? f.f({g.f(in), A}) : f.f({g.f(in)})};
            if (f.hi >= 2) { es.push_back(f.f({A, g.f(in2)})); es.push_back(f.f({g.f(in), g.f(in2)})); }
            n++;
            for (size_t i = 0; i < es.size(); i++) if (H::deep() || i == n % es.size()) { R r = numbered(es[i]); clone_of([&] { return build(r); }, "built " + M::canon(r)); }
        }
    }
    H::phase("terms that are not inputs");
    vector<R> parts;
    for (auto &e : {vs[0], vs[2], vs[3], A, word("B"), stat(vs[0], 0, A), stat(vs[0], 0, vs[2]), set(M::EXTSET, {vs[0], A}), set(M::EXTSET, {A, word("B")}), set(M::INTSET, {vs[3]}), prefix(M::PROD, {vs[0], vs[1], vs[2], vs[3]}), prefix(M::CONJ, {stat(vs[0], 0, A), stat(vs[1], 0, A)}), prefix(M::SEQ, {vs[0], ivl("2"), vs[1]}), opcall1("go", {vs[2]}), stat(stat(vs[0], 0, A), M::IMP, stat(vs[0], 0, vs[2])), prefix(M::EXTINT, {vs[0], A}), prefix(M::INTINT, {vs[0], set(M::EXTSET, {vs[2]})}), neg(vs[0])}) parts.push_back(numbered(e));
    for (auto &a : parts) for (auto &b : parts) for (int same = 0; same < 2; same++)
    {
        if (same && &a != &b) continue;
        for (int c = 0; c < M::NCOP; c++) { if (!H::deep() && c % 3) continue; fresh(string("statement ") + M::COP[c], [&](pTerm x, pTerm y) { return pTerm(new STATEMENT::Statement(x, M::to_cop(c), y)); }, a, b, same); }
        fresh("Statement::create", [&](pTerm x, pTerm y) { return STATEMENT::Statement::create(x, COPULA::Copula::Inheritance, y); }, a, b, same);
        for (int c = 0; c < M::NCON; c++) for (int w = 0; w < 4; w++)
        {
            if (!H::deep() && (c + w) % 2 && c != M::EXTINT && c != M::PROD) continue;
            fresh(string("compound ") + M::CON[c] + " " + std::to_string(w), [&](pTerm x, pTerm y) {
                vector<pTerm> v{x, y}; std::list<pTerm> l{x, y};
                auto k = M::to_con(c);
                if (w == 0) return pTerm(new COMPOUND::Compound(k, v));
                if (w == 1) return pTerm(new COMPOUND::Compound(k, l));
                if (w == 2) return (pTerm)COMPOUND::Compound::create(k, v);
                return pTerm(new COMPOUND::Compound(k, {x, y}));
            }, a, b, same);
        }
    }
    H::phase("deep");
    for (int n = 1; n <= (H::deep() ? 60 : 20); n++)
    {
        E e = vs[n % 4];
        for (int d = 0; d < n; d++) e = d % 3 == 0 ? stat(e, d % 12, vs[d % 5]) : d % 3 == 1 ? prefix(M::PROD, {vs[d % 4], e}) : set(M::EXTSET, {e, A});
        R r = numbered(e);
        clone_of([&] { return build(r); }, "built, depth " + std::to_string(n));
    }
    return 0;
}
H_MAIN
