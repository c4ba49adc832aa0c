#include "h.h"
#include "gen.h"
#include "shim.h"
using namespace G;
using H::S;

static const char *PUNCT[] = {".", "?", "!", "@"};

// Runs one line on the implementation and compares it with what it means.
static void line(const E &e, int punct, const Toks &before = {}, const Toks &after = {}, int spacing = 0)
{
    if (!e.nonvar) return;
    Toks t = before;
    app(t, e.t);
    t.push_back(PUNCT[punct]);
    app(t, after);
    string s = text(t, spacing);
    if (!H::tick(s)) return;
    string want = M::canon(meaning(e));
    auto task = SHIM::parse(s);
    H::trace(); H::trans(e.t.size());
    if (task == nullptr) { H::fail("rejected", "a line of the grammar is rejected; expected " + want); return; }
    H::state(want);
    string got = M::show(*task->sentence->term);
    if (got != want) { H::fail("meaning", "got " + got + " expected " + want); return; }
    int p = (int)task->sentence->punct;
    auto &se = *task->sentence;
    H::expect(p == punct && se.is_judgement() == (punct == 0) && se.is_question() == (punct == 1) && se.is_goal() == (punct == 2) && se.is_quest() == (punct == 3), "punctuation", "wrong kind of sentence");
}

int H::run()
{
    auto F = forms();
    auto F2 = infix_operand_forms();
    auto L = leaves();
    E A = word("A"), B = word("B"), C = word("C"), x = var('$', "x"), y = var('$', "y"), dx = var('#', "x"), qx = var('?', "x");
    // 1. every leaf alone with every punctuation, and decorations of the sentence
    H::phase("1");
    vector<Toks> before = {{}, {"$", "0.5", "$"}, {"$", "0.5", ";", "0.4", "$"}, {"$", "0.5", ";", "0.4", ";", "0.3", "$"}};
    vector<Toks> tense = {{}, {":/:"}, {":|:"}, {":\\:"}, {":!", "7", ":"}, {":!", "-7", ":"}};
    vector<Toks> truth = {{}, {"%", "0.5", "%"}, {"%", "0.5", ";", "0.4", "%"}, {"%", "0.5", ";", "0.4", ";", "2", "%"}};
    vector<E> some = L;
    for (auto &f : F) if (f.hi >= 2) some.push_back(f.f({A, x}));
    for (auto &f : F) if (f.lo <= 1 && f.hi >= 1) some.push_back(f.f({A}));
    for (auto &f : F2) some.push_back(f.f({A, B, x, C}));
    some.push_back(opcall1("go", {}));
    for (auto &e : some)
        for (int p = 0; p < 4; p++)
            for (auto &b : before) for (auto &te : tense) for (auto &tr : truth)
            {
                if ((p == 1 || p == 3) && !tr.empty()) continue;
                Toks after = te;
                app(after, tr);
                line(e, p, b, after);
            }
    // 2. depth 1: every form over all pairs/triples of leaves, all spacings
    H::phase("2");
    vector<E> d1;
    for (auto &f : F)
        for (int n = std::max(f.lo, 0); n <= std::min(f.hi, 3); n++)
        {
            if (n == 0) { line(f.f({}), 0); continue; }
            vector<E> LL = n <= 2 ? L : vector<E>{A, B, x, dx, L[6]};
            tuples(LL, n, [&](const vector<E> &a) { for (int sp = 0; sp < (n < 3 ? 3 : 1); sp++) line(f.f(a), 0, {}, {}, sp); });
        }
    for (auto &f : F2)
        tuples({A, B, x, dx, L[6]}, f.lo, [&](const vector<E> &a) { line(f.f(a), 0); });
    // 3. depth 2: every form in every argument of every form (and in two arguments at once)
    H::phase("3");
    vector<E> inner;
    vector<vector<E>> args = {{A, B}, {x, A}, {dx, x}};
    if (H::deep()) for (auto a : vector<vector<E>>{{B, x}, {A, A}, {x, y}, {qx, dx}}) args.push_back(a);
    for (auto &f : F)
        for (auto &a : args) inner.push_back(f.f(f.hi >= 2 ? a : vector<E>{a[0]}));
    for (auto &f : F) if (f.lo <= 1 && f.hi >= 2) { inner.push_back(f.f({A})); inner.push_back(f.f({x})); inner.push_back(f.f({A, B, C})); }
    for (auto &f : F2) inner.push_back(f.f({A, x, B, y}));
    vector<E> part = {A, B, x, y};
    for (auto &f : F)
        for (auto &in : inner)
        {
            if (f.lo <= 1) line(f.f({in}), 0);
            if (f.hi < 2) continue;
            for (auto &q : part) { line(f.f({in, q}), 0); line(f.f({q, in}), 0); }
            if (f.hi >= 3) { line(f.f({A, in, x}), 0); line(f.f({x, B, in}), 0); line(f.f({in, B, x}), 0); }
        }
    for (auto &f : F2)
        for (auto &in : inner)
            for (int k = H::deep() ? 0 : (&in - inner.data()) % f.lo; k < (H::deep() ? f.lo : (&in - inner.data()) % f.lo + 1); k++) { vector<E> a = {A, x, B, y}; a.resize(f.lo); a[k] = in; line(f.f(a), 0); }
    for (auto &f : F) if (f.hi >= 2)
        for (size_t i = 0; i < inner.size(); i++)
            for (size_t j = H::deep() ? 0 : i % 71; j < inner.size(); j += H::deep() ? 1 : 71) line(f.f({inner[i], inner[j]}), 0);
    // 4. number of components of every form, with distinct, repeated and variable components
    H::phase("4");
    int N = H::deep() ? 300 : 70;
    for (auto &f : F) if (f.hi > 2)
        for (int n = std::max(1, f.lo); n <= N; n++)
        {
            vector<E> a, v, w;
            for (int i = 0; i < n; i++)
            {
                a.push_back(word("n" + std::to_string(i)));
                v.push_back(i % 3 == 0 ? var('$', "v" + std::to_string(i)) : i % 3 == 1 ? var('#', "v" + std::to_string(i)) : var('?', "v" + std::to_string(i / 2)));
                w.push_back(i % 4 == 3 ? stat(word("s" + std::to_string(i)), i % 12, A) : word("n" + std::to_string(i % 5)));
            }
            line(f.f(a), n % 4); line(f.f(v), 0); line(f.f(w), 0);
            std::reverse(a.begin(), a.end());
            line(f.f(a), 0);
        }
    for (auto &f : F) if (f.hi > 2)
        for (int n : {100, 127, 128, 129, 200, 255, 256, 257, 300})
        {
            vector<E> a, v;
            for (int i = 0; i < n; i++) { a.push_back(word("n" + std::to_string(i * 7 % n))); v.push_back(i % 40 ? var('$', "v" + std::to_string(i)) : var("#?"[i / 40 % 2], "v" + std::to_string(i))); }
            line(f.f(a), n % 4); line(f.f(v), n % 4);
        }
    // 5. depth: every form nested in itself, and pairs of forms alternating
    H::phase("5");
    int D = H::deep() ? 400 : 100;
    for (auto &f : F)
    {
        E e = A, g = x;
        for (int d = 1; d <= D; d++)
        {
            e = f.hi == 1 ? f.f({e}) : d % 2 ? f.f({e, word("n" + std::to_string(d))}) : f.f({word("n" + std::to_string(d)), e});
            g = f.hi == 1 ? f.f({g}) : d % 2 ? f.f({g, d % 3 ? x : y}) : f.f({d % 5 ? dx : y, g});
            if (d < 20 || d % 10 == 0) { line(e, 0); line(g, 1); }
        }
    }
    for (size_t i = 0; i < F.size(); i++) for (size_t j = 0; j < F.size(); j++)
    {
        E e = A;
        for (int d = 1; d <= (H::deep() ? 12 : 6); d++)
        {
            auto &f = d % 2 ? F[i] : F[j];
            e = f.hi == 1 ? f.f({e}) : f.f({e, d % 3 ? x : B});
            if (d >= 3) line(e, 0);
        }
    }
    // 6. variables: every word over names of every kind, in every position
    H::phase("6");
    {
        vector<E> vs = {var('$', "x"), var('$', "y"), var('#', "x"), var('#', "y"), var('?', "x"), var('?', "1")};
        for (int n = 1; n <= (H::deep() ? 6 : 5); n++) tuples(vs, n, [&](const vector<E> &a) { line(n == 1 ? set(M::EXTSET, a) : prefix(M::PROD, a), 0); });
        for (int n = 1; n <= 4; n++) tuples({vs[0], vs[1], vs[2], A}, 2 * n > 4 ? 4 : 2 * n, [&](const vector<E> &a) {
            if (a.size() == 2) line(stat(a[0], n, a[1]), 0);
            else { line(stat(stat(a[0], M::INH, a[1]), M::IMP, stat(a[2], n, a[3])), 0); line(prefix(M::CONJ, {stat(a[0], M::INH, a[1]), stat(a[2], n, a[3])}), 0); }
        });
        for (int n = 1; n <= 60; n++)
        {
            vector<E> a;
            for (int i = 0; i < n; i++) a.push_back(var("$#?"[i % 3], "w" + std::to_string(i * 7 % n)));
            line(product_new(n == 1 ? vector<E>{a[0], A} : a), 0);
        }
        // so many names of one kind, each of them twice
        for (char k : {'$', '#', '?'}) for (int n : H::deep() ? vector<int>{64, 65, 100, 127, 128, 129, 255, 256, 257, 513, 1025} : vector<int>{65, 101, 129, 257, 513})
        {
            vector<E> a, b;
            for (int i = 0; i < 2 * n; i++) { a.push_back(var(k, "w" + std::to_string(i % n))); b.push_back(stat(var(k, "w" + std::to_string(i < n ? i : 2 * n - 1 - i)), M::INH, A)); }
            line(product_new(a), n % 4); line(prefix(M::SEQ, b), n % 4);
        }
    }
    // 7. names: every printable character a name may have, lengths, and names that look like something else
    H::phase("7");
    {
        vector<string> names = {"0", "1", "01", "1e5", "a'b", "A_", "_", "__", "x1", "'", "`", "é", "日本", "\xf0\x9f\x98\x80", "\xff\xfe", "a\xc2\xa0b"};
        for (int c = 1; c < 256; c++) if (wordch((char)c)) { names.push_back(string(1, (char)c)); names.push_back(string("n") + (char)c); names.push_back(string(1, (char)c) + "n"); }
        for (int n = 1; n <= (H::deep() ? 3000 : 600); n++) names.push_back(string(n, 'a' + n % 26));
        for (int c = 1; c < 256; c++) if (c != '"' && c != '\\' && c != '\n' && c != '\t') { names.push_back(string("\"") + (char)c + "\""); names.push_back(string("\"k") + (char)c + "k\""); }
        names.push_back("\"\"");
        for (int n = 1; n < 300; n++) names.push_back("\"" + string(n, 'q') + "\"");
        for (auto &n : names)
        {
            line(word(n), 0);
            if (n.size() > 40 && n.size() % 16) continue;
            line(stat(word(n), 0, word("B")), 0); line(stat(var('$', n), 5, oper(n)), 0); line(opcall2(n, {word(n)}), 0); line(prefix(M::PROD, {var('#', n), var('?', n), var('#', n), var('$', n[0] == '"' ? string("z") : n + "z")}), 0);
        }
    }
    // pairs of names which are alike
    H::phase("pairs of names");
    {
        auto pair = [&](const string &m, const string &n) {
            for (char k : {'$', '#', '?'}) if (m[0] != '"' && n[0] != '"') line(prefix(M::PROD, {var(k, m), var(k, n), var(k, m)}), 0);
            line(prefix(M::PROD, {word(m), word(n), word(m)}), 0);
            line(set(M::EXTSET, {word(m), word(n)}), 0);
            line(prefix(M::PROD, {A, oper(m), oper(n), word(n)}), 0);
            line(stat(var('$', m[0] == '"' ? "a" : m), M::INH, var('?', n[0] == '"' ? "a" : n)), 1);
        };
        vector<string> some;
        for (string c : {"a", "A", "0", "1", "_", "b"}) { some.push_back(c); for (string d : {"a", "A", "0", "1", "_", "'"}) some.push_back(c + d); }
        for (string q : {"\"a\"", "\"A\"", "\"a \"", "\" a\"", "\"\"", "\" \"", "\"a b\"", "\"a  b\"", "01a", "001", "1e1", "1e01"}) some.push_back(q);
        for (auto &m : some) for (auto &n : some) pair(m, n);
        for (int l = 1; l <= (H::deep() ? 300 : 130); l += l < 40 || H::deep() ? 1 : 3)
        {
            string a(l, 'a');
            vector<string> v = {a, a + "a", a + "b", "b" + a, a.substr(1) + "ba", a + "A"};
            for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < v.size(); j++) pair(v[i], v[j]);
        }
    }
    // 8. intervals
    H::phase("8");
    for (string n : {"0", "1", "7", "10", "007", "-1", "-0", "2147483647", "-2147483648", "65536", "-40000", "99999999"})
    {
        line(ivl(n), 0); line(prefix(M::SEQ, {A, ivl(n), B}), 0); line(infix(M::SEQ, {A, ivl(n), x}), 0);
    }
    return 0;
}
H_MAIN
