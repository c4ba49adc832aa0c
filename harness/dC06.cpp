// C06 equality and hash over all pairs; C07 order over all pairs and triples. Selected by -DORDER.
#include "h.h"
#include "fam.h"
using namespace FAM;
struct It { pTerm t; string c; string how; M::R r; };

// symmetric copulas: whether <A <-> B> equals <B <-> A> is not part of the property, so only one orientation is kept
static bool sym_swapped(const R &r)
{
    if (r.k == M::STAT && (r.op == M::SIM || r.op == M::EQU || r.op == M::CEQU || r.op == M::PEQU) && M::canon(r.c[0]) > M::canon(r.c[1])) return true;
    for (auto &x : r.c) if (sym_swapped(x)) return true;
    return false;
}
static vector<It> items(size_t collide, int level, bool variants)
{
    vector<It> v;
    std::set<string> seen;
    auto fam = family(level);
    // variables with other numbers: as components of larger terms they do not start at 0
    vector<R> rs;
    for (auto &e : fam) rs.push_back(numbered(e));
    for (auto &e : fam)
        if (M::has_var(e.r))
        {
            R r = numbered(e);
            struct F { static void go(R &r, int d) { if (r.k == M::VAR) r.idx += d; for (auto &x : r.c) go(x, d); } };
            F::go(r, 1);
            rs.push_back(r);
        }
    for (auto &r : rs)
    {
        if (sym_swapped(r)) continue;
        R n = M::norm(r);
        string c = M::canon(n);
        if (!seen.insert(c).second) continue;
        Opt o;
        o.collide = collide;
        v.push_back({build(r, o), c, "built", n});
        if (!variants) continue;
        o.input = false; o.order = 1; o.way = 1;
        v.push_back({build(r, o), c, "built, cloning its components in reverse order", n});
        o.input = true; o.order = 2; o.way = 0;
        v.push_back({build(n, o), c, "built from its normal form, rotated", n});
    }
    if (!collide && variants)
        for (auto &e : fam)
        {
            if (sym_swapped(numbered(e))) continue;
            bool ok;
            pTerm t = parse_term(e, ok);
            if (ok) v.push_back({t, M::canon(meaning(e)), "parsed", meaning(e)});
        }
    return v;
}
static void check_built(vector<It> &v)
{
    for (auto &i : v) if (M::show(*i.t) != i.c) { H::S.desc = i.c; /* not this property */ i.c = M::show(*i.t); }
}

// One case per first term: all pairs with it.
static void pairs(vector<It> &v, const string &mode)
{
    for (size_t i = 0; i < v.size(); i++)
    {
        auto &a = v[i];
        if (!H::tick(mode + ": " + a.c + " (" + a.how + ") and every other term")) continue;
        H::state(mode + a.c);
        for (size_t j = 0; j < v.size(); j++)
        {
            auto &b = v[j];
            auto bad = [&](const char *key, const char *what) { H::fail(key, string(what) + ": " + a.c + " (" + a.how + ") and " + b.c + " (" + b.how + ")"); };
            bool eq = a.c == b.c;
#ifndef ORDER
            if ((*a.t == *b.t) != eq) bad(eq ? "unequal" : "equal", eq ? "terms of the same structure are not equal" : "terms of different structure are equal");
            if (eq && UTILS::hash(*a.t) != UTILS::hash(*b.t)) bad("hash", "equal terms have different hashes");
            if (eq && a.t->hash_value != b.t->hash_value) bad("hash", "equal terms have different hash values");
#else
            bool lt = *a.t < *b.t, gt = *b.t < *a.t;
            if (lt && gt) bad("antisymmetry", "each is less than the other");
            else if (eq && lt) bad("irreflexive", "less than an equal term");
            else if (!eq && !lt && !gt) bad("total", "different terms are not ordered");
#endif
        }
        H::trans(v.size()); H::trace(v.size());
    }
}
#ifdef ORDER
static void triples(vector<It> &v, const string &mode)
{
    size_t n = v.size();
    vector<char> m(n * n);
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) m[i * n + j] = *v[i].t < *v[j].t;
    for (size_t i = 0; i < n; i++)
    {
        if (!H::tick(mode + ": all triples starting with " + v[i].c)) continue;
        for (size_t j = 0; j < n; j++) if (m[i * n + j])
            for (size_t k = 0; k < n; k++) if (m[j * n + k] && !m[i * n + k])
            { H::fail("transitive", v[i].c + " < " + v[j].c + " < " + v[k].c + " but not the first < the third"); goto out; }
        out:
        H::trans(n * n); H::trace();
    }
}
// The unordered collection keeps each different term once, whatever the order of insertion.
static void collections(vector<It> &v, const string &mode)
{
    size_t n = v.size();
    for (size_t s = 1; s < 40; s++)
    {
        if (!H::tick(mode + ": collection of the whole family, stride " + std::to_string(s))) continue;
        TERM::Terms t(true);
        std::set<string> want;
        size_t p = 0;
        for (size_t i = 0; i < n; i++)
        {
            t.push_back(v[p].t); want.insert(v[p].c);
            p += s; if (p >= n) p = (p + 1) % s;
            if (p >= n) p = i % n;
        }
        if (t.size() != want.size()) H::fail("collection", std::to_string(t.size()) + " of " + std::to_string(want.size()) + " different terms kept");
        H::trans(n); H::trace();
    }
}
#endif
// all colliding terms of one level: top-level statements and compounds with the same hash, real hashes below
static void collide_top(vector<It> &v, size_t h) { for (auto &i : v) if (!i.t->is_atom()) { i.t->hash_value = h; i.t->is_hashed = true; } }

// Alike terms with many components, and variables with large numbers: families small enough for all pairs (and triples).
static void alike()
{
    int nums[] = {0, 1, 2, 127, 128, 255, 256, 257, 258, 383, 32767, 32768, 65535, 65536, 65537, 131072, 16777216, 16777217, 2147483647, -1};
    auto add = [](vector<It> &v, const R &r, size_t collide) { Opt o; o.collide = collide; R n = M::norm(r); v.push_back({build(r, o), M::canon(n), "built", n}); };
    for (size_t h : {(size_t)0, (size_t)5}) for (int top = 0; top < (h ? 2 : 1); top++)
    {
        string mode = h ? top ? "top hashes collide: " : "hashes collide: " : "";
        auto all = [&](vector<It> &v, const string &m) {
            if (top) collide_top(v, 77);
            check_built(v); pairs(v, mode + m);
#ifdef ORDER
            triples(v, mode + m); collections(v, mode + m);
#endif
        };
        {
            vector<It> v;
            R A = M::atom("A");
            for (int i : nums) for (char k : {'$', '#', '?'})
            {
                R x = M::var(k, "x", i);
                add(v, x, h);
                if (k == '$' || i < 300) { add(v, M::stat(x, M::INH, A), h); add(v, M::stat(x, M::INH, M::var(k, "y", 256)), h); add(v, M::comp(M::PROD, {A, x}), h); }
            }
            for (int i : nums) add(v, M::ivl(i), h);
            add(v, M::ivl(-2147483648l), h);
            for (string p : {"A", "^A"}) for (int l : {1, 2, 15, 16, 17, 31, 32, 33, 64, 65, 130}) for (char c : {'a', 'b'})
            {
                string n = string(l, 'A') + (l > 1 ? string(1, c) : "");
                add(v, p[0] == '^' ? M::oper(n) : M::atom(n), h);
            }
            all(v, "large numbers and long names");
        }
        for (int n : H::deep() ? vector<int>{4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 18, 33} : vector<int>{5, 7, 8, 9, 11, 17})
            for (int con = 0; con < M::NCON; con++)
            {
                if (!H::deep() && (con == M::LIST || con == M::EXTDIFF || con == M::INTDIFF || con == M::DISJ || con == M::PAR || con == M::INTIMG || con == M::EXTIMG || con == M::NEG)) continue;
                vector<It> v;
                auto base = [&](int kind) { vector<R> c; for (int i = 0; i < n; i++) c.push_back(kind == 0 ? M::atom("n" + std::to_string(i)) : kind == 1 ? M::var('$', "x", i) : kind == 2 ? M::stat(M::var('#', "x", i), M::INH, M::atom("A")) : i % 2 ? M::stat(M::var('$', "x", i), M::SIM, M::var('#', "y", i)) : M::ivl(i)); return c; };
                for (int kind = 0; kind < 4; kind++)
                {
                    auto b = base(kind);
                    add(v, M::comp(con, b), h);
                    for (int i = 0; i < n; i++)
                    {
                        if (!H::deep() && i > 1 && i < n - 2 && i != n / 2) continue;
                        auto c = b;
                        c[i] = kind == 0 ? M::atom("m") : kind == 1 ? M::var('$', "x", n) : kind == 2 ? M::stat(M::var('#', "x", n), M::INH, M::atom("A")) : i % 2 ? M::stat(M::var('$', "x", i), M::SIM, M::var('#', "y", i + 1)) : M::ivl(-1);
                        add(v, M::comp(con, c), h);
                        if (i + 1 < n) { c = b; std::swap(c[i], c[i + 1]); R r = M::comp(con, c); add(v, r, h); }
                    }
                    auto c = b; c.pop_back(); add(v, M::comp(con, c), h);
                    std::reverse(b.begin(), b.end()); add(v, M::comp(con, b), h);
                }
                all(v, std::to_string(n) + " components of " + M::CON[con]);
            }
        for (int n : H::deep() ? vector<int>{65, 127, 128, 129, 130, 255, 256, 257, 258, 300, 513} : vector<int>{129, 257})
            for (int con : {(int)M::PROD, (int)M::EXTSET, (int)M::CONJ, (int)M::SEQ})
            {
                vector<It> v;
                for (int kind = 0; kind < 2; kind++)
                {
                    vector<R> b; for (int i = 0; i < n; i++) b.push_back(kind ? M::stat(M::var('#', "x", i), M::INH, M::atom("A")) : M::atom("n" + std::to_string(i)));
                    add(v, M::comp(con, b), h); add(v, M::comp(con, b), h);
                    for (int i : {0, 1, n / 2, 126, 127, 128, 254, 255, 256, n - 2, n - 1}) if (i < n)
                    {
                        auto c = b; c[i] = kind ? M::stat(M::var('#', "x", n), M::INH, M::atom("A")) : M::atom("m"); add(v, M::comp(con, c), h);
                        if (i + 1 < n) { c = b; std::swap(c[i], c[i + 1]); add(v, M::comp(con, c), h); }
                    }
                    auto c = b; c.pop_back(); add(v, M::comp(con, c), h); c = b; c.push_back(M::atom("m")); add(v, M::comp(con, c), h);
                }
                all(v, std::to_string(n) + " components of " + M::CON[con]);
            }
    }
}
int H::run()
{
    int lv = H::deep() ? 1 : 0;
    {
        H::phase("real hashes");
        auto v = items(0, lv, true); check_built(v);
        H::infon("family", v.size());
        pairs(v, "real hashes");
#ifdef ORDER
        auto w = items(0, lv, false); check_built(w);
        triples(w, "real hashes"); collections(v, "real hashes");
#endif
    }
    {
        H::phase("all hashes collide");
        for (size_t h : {(size_t)0x1234567, (size_t)1})
        {
            auto v = items(h, lv, h == 1 ? H::deep() : true); check_built(v);
            string m = "all statements and compounds have hash " + std::to_string(h);
            pairs(v, m);
#ifdef ORDER
            triples(v, m); collections(v, m);
#endif
        }
    }
    {
        H::phase("top hashes collide");
        auto v = items(0, lv, H::deep()); check_built(v);
        collide_top(v, 77);
        pairs(v, "the hashes of the terms, not of their components, collide");
#ifdef ORDER
        triples(v, "top hashes collide");
#endif
    }
    H::phase("alike");
    alike();
    return 0;
}
H_MAIN
