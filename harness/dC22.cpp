// C22: trees of variable tables (utils/IndexVar): every small tree, every way to put it together, all short histories of changes, then a rebuild.
#include "h.h"
#include "vars.h"
#include <functional>
#include <optional>
using INDEXVAR::IndexVar; using INDEXVAR::pIndexVar; using INDEXVAR::pInt;
using std::string; using std::vector; using std::optional;
typedef vector<int> Path;
typedef vector<std::pair<Path, int>> Table; // (position, leaf)
static string show(const Path &p) { string s = "["; for (int i : p) s += (s.size() > 1 ? "," : "") + std::to_string(i); return s + "]"; }
static vector<int> ranks(const vector<int> &v)
{
    std::set<int> s(v.begin(), v.end());
    vector<int> r;
    for (int x : v) r.push_back(std::distance(s.begin(), s.find(x)));
    return r;
}

// The model: leaves hold at most one number, the others list their successors; a table may be the successor of several others, or twice of one.
struct Mod
{
    vector<vector<int>> kids;      // of every table; leaves come first
    int leaves = 0;
    vector<optional<int>> num;     // of the leaves
    bool leaf(int n) const { return n < leaves; }
    void list(int n, Path &p, Table &t) const
    {
        if (leaf(n)) { if (num[n]) t.push_back({p, n}); return; }
        for (size_t i = 0; i < kids[n].size(); i++) { p.push_back(i); list(kids[n][i], p, t); p.pop_back(); }
    }
    Table table(int n) const { Table t; Path p; list(n, p, t); return t; }
    vector<int> numbers(int n) const { vector<int> v; for (auto &x : table(n)) v.push_back(*num[x.second]); return v; }
    optional<Path> path(int from, int to) const
    {
        if (from == to) return Path{};
        if (leaf(from)) return {};
        for (size_t i = 0; i < kids[from].size(); i++) if (auto p = path(kids[from][i], to)) { p->insert(p->begin(), i); return p; }
        return {};
    }
    string show() const
    {
        string s;
        for (size_t n = leaves; n < kids.size(); n++) { s += (s.empty() ? "t" : " t") + std::to_string(n) + "("; for (int k : kids[n]) s += (s.back() == '(' ? "t" : " t") + std::to_string(k); s += ")"; }
        s += " with";
        for (int i = 0; i < leaves; i++) s += " " + (num[i] ? std::to_string(*num[i]) : string("-"));
        return s;
    }
};
struct Real
{
    vector<pIndexVar> t;
    vector<pInt> handle; // of the leaves
};
// puts the tables of a model together in one of several ways
static Real make(const Mod &m, int way)
{
    Real r;
    for (size_t i = 0; i < m.kids.size(); i++) r.t.push_back(IndexVar::create());
    r.handle.resize(m.leaves);
    auto fill = [&] { for (int i = 0; i < m.leaves; i++) if (m.num[i]) r.handle[i] = r.t[i]->add(*m.num[i], {}); };
    if (way != 1) fill();
    if (way == 1) for (int n = (int)m.kids.size() - 1; n >= m.leaves; n--) for (int k : m.kids[n]) IndexVar::connect(r.t[n], r.t[k]);
    else for (size_t n = m.leaves; n < m.kids.size(); n++)
    {
        for (int k : m.kids[n]) IndexVar::connect(r.t[n], r.t[k], way == 2);
        if (way == 0) r.t[n]->build();
    }
    if (way == 1) { fill(); r.t.back()->rebuild(); }
    return r;
}
// what a table lists
static string content(const Mod &m, const Real &r, int n)
{
    auto &t = *r.t[n];
    Table w = m.table(n);
    string at = "table " + std::to_string(n) + ": ";
    if (t.positions.size() != w.size() || t.indices.size() != w.size()) return at + std::to_string(t.positions.size()) + " positions and " + std::to_string(t.indices.size()) + " numbers of " + std::to_string(w.size()) + " occurrences";
    for (size_t i = 0; i < w.size(); i++)
    {
        if (t.positions[i] != w[i].first) return at + "occurrence " + std::to_string(i) + " is at " + show(t.positions[i]) + " instead of " + show(w[i].first);
        if (t.indices[i] != r.handle[w[i].second]) return at + "the number at " + show(w[i].first) + " is not that of the variable there";
        if (*t.indices[i] != *m.num[w[i].second]) return at + "the number at " + show(w[i].first) + " is " + std::to_string(*t.indices[i]) + " instead of " + std::to_string(*m.num[w[i].second]);
    }
    return "";
}
static size_t hash_of(const vector<int> &numbers, std::map<vector<int>, size_t> &known)
{
    auto rk = ranks(numbers);
    auto it = known.find(rk);
    if (it != known.end()) return it->second;
    // a fresh table with these normalised numbers
    pIndexVar f = IndexVar::create();
    vector<pIndexVar> keep;
    for (int x : rk) { auto l = IndexVar::create(); l->add(x, {}); keep.push_back(l); IndexVar::connect(f, l); }
    f->build();
    return known[rk] = f->__hash__();
}
static string normal(IndexVar &t, const vector<int> &numbers, std::map<vector<int>, size_t> &known, const string &at)
{
    if (*t.indices_normalized() != ranks(numbers)) return at + "the normalised numbers are " + show(*t.indices_normalized()) + " instead of " + show(ranks(numbers)) + " for " + show(numbers);
    if (t.__hash__() != hash_of(numbers, known)) return at + "the hash is not that of a table with the same normalised numbers";
    return "";
}
static std::map<vector<int>, size_t> known;
static string all(const Mod &m, const Real &r)
{
    for (size_t n = 0; n < m.kids.size(); n++)
    {
        if (!m.path(m.kids.size() - 1, n)) continue; // not below the root
        string e = content(m, r, n);
        if (e.empty()) e = normal(*r.t[n], m.numbers(n), known, "table " + std::to_string(n) + ": ");
        if (!e.empty()) return e;
        H::trans();
    }
    return "";
}
static string clones(const Mod &m, const Real &r)
{
    for (size_t n = 0; n < m.kids.size(); n++)
    {
        if (!m.path(m.kids.size() - 1, n)) continue;
        auto c = IndexVar::clone(r.t[n]);
        auto v = m.numbers(n);
        Table w = m.table(n);
        auto same = [&](const vector<int> &numbers) -> string {
            if (c->positions.size() != w.size() || c->indices.size() != w.size()) return "a clone has another number of occurrences";
            for (size_t i = 0; i < w.size(); i++) { if (c->positions[i] != w[i].first) return "a clone has other positions"; if (*c->indices[i] != numbers[i]) return "a clone has other numbers"; }
            return "";
        };
        string e = same(v);
        for (size_t i = 0; i < w.size(); i++) if (c->indices[i] == r.t[n]->indices[i]) e = "a clone shares a number";
        if (e.empty()) e = normal(*c, v, known, "");
        if (e.empty() && !(*c == r.t[n].get())) e = "a clone is not equal to its original";
        // changes of the clone leave the original as it is, and the other way round
        auto v2 = v;
        for (size_t i = 0; i < w.size(); i++) { v2[i] = 3 * v[i] % 5 + (int)i % 2; *c->indices[i] = v2[i]; }
        if (e.empty()) e = content(m, r, n);
        if (e.empty()) { c->rebuild(); e = same(v2); if (e.empty()) e = normal(*c, v2, known, ""); }
        if (e.empty() && m.leaf(n)) { c->remove({}); if (!c->positions.empty() || !c->indices.empty() || !c->indices_normalized()->empty()) e = "not empty after removing from a clone"; c->add(4, {}); if (e.empty() && (c->indices.size() != 1 || *c->indices[0] != 4)) e = "wrong number after adding to a clone"; if (e.empty()) e = normal(*c, {4}, known, ""); }
        if (e.empty()) { e = content(m, r, n); if (e.empty()) e = normal(*r.t[n], v, known, "after changing a clone: "); }
        H::trans(4);
        if (!e.empty()) return "clone of table " + std::to_string(n) + ": " + e;
    }
    return "";
}
// a change of the tables
struct Op { enum Kind { SET, REMOVE, ADD, LOOK, REBUILD, GRAFT, GRAFTPOS } k; int leaf, via, x; };
static string show(const Op &o)
{
    switch (o.k)
    {
    case Op::SET: return "number of t" + std::to_string(o.leaf) + " = " + std::to_string(o.x);
    case Op::REMOVE: return "remove t" + std::to_string(o.leaf) + " through t" + std::to_string(o.via);
    case Op::ADD: return "add " + std::to_string(o.x) + " to t" + std::to_string(o.leaf) + " through t" + std::to_string(o.via);
    case Op::LOOK: return "look at all";
    case Op::REBUILD: return "rebuild";
    case Op::GRAFT: case Op::GRAFTPOS: return string("connect t") + std::to_string(o.leaf) + " to t" + std::to_string(o.via) + (o.k == Op::GRAFTPOS ? " with positions" : "");
    }
    return "?";
}
static bool possible(const Mod &m, const Op &o)
{
    int root = m.kids.size() - 1;
    if (o.k == Op::LOOK || o.k == Op::REBUILD) return true;
    if (!m.path(root, o.via)) return false;
    if (o.k >= Op::GRAFT) return !m.path(o.leaf, o.via) && m.kids[o.via].size() < 4; // no cycles
    if (!m.path(o.via, o.leaf)) return false;
    if (o.k == Op::SET) return m.num[o.leaf].has_value();
    if (o.k == Op::ADD) return o.via == o.leaf || !m.num[o.leaf];
    return true;
}
static void apply(Mod &m, Real &r, const Op &o)
{
    switch (o.k)
    {
    case Op::SET: *r.handle[o.leaf] = o.x; m.num[o.leaf] = o.x; break;
    case Op::REMOVE: r.t[o.via]->remove(*m.path(o.via, o.leaf)); m.num[o.leaf].reset(); r.handle[o.leaf] = nullptr; break;
    case Op::ADD: r.handle[o.leaf] = r.t[o.via]->add(o.x, *m.path(o.via, o.leaf)); m.num[o.leaf] = o.x; break;
    case Op::LOOK: for (auto &t : r.t) { t->indices_normalized(); t->__hash__(); t->normalize(); } break;
    case Op::REBUILD: r.t.back()->rebuild(); break;
    case Op::GRAFT: case Op::GRAFTPOS: IndexVar::connect(r.t[o.via], r.t[o.leaf], o.k == Op::GRAFTPOS); m.kids[o.via].push_back(o.leaf); break;
    }
}
static void history(const Mod &m0, int way, const vector<Op> &h)
{
    string d = m0.show() + ", put together in way " + std::to_string(way);
    for (auto &o : h) d += "; " + show(o);
    if (!H::tick(d)) return;
    Mod m = m0;
    Real r = make(m, way);
    string e;
    if (h.empty()) for (size_t n = 0; n < m.kids.size() && e.empty(); n++) if (m.path(m.kids.size() - 1, n)) e = content(m, r, n);
    if (!e.empty()) e = "as put together: " + e;
    for (auto &o : h) { apply(m, r, o); H::trans(); }
    if (e.empty())
    {
        r.t.back()->rebuild();
        e = all(m, r);
        if (e.empty()) e = clones(m, r);
        if (e.empty()) { r.t.back()->build(); r.t.back()->rebuild(); e = all(m, r); if (!e.empty()) e = "after building again: " + e; }
    }
    if (!e.empty()) H::fail("tables", e);
    H::state(m.show()); H::trace();
}
static void histories(const Mod &m, int way, const vector<Op> &al, int n, vector<Op> &h, const Mod &now)
{
    history(m, way, h);
    if (n == 0) return;
    for (auto &o : al)
    {
        if (!possible(now, o)) continue;
        Mod next = now;
        if (o.k == Op::SET || o.k == Op::ADD) next.num[o.leaf] = o.x;
        else if (o.k == Op::REMOVE) next.num[o.leaf].reset();
        else if (o.k >= Op::GRAFT) next.kids[o.via].push_back(o.leaf);
        h.push_back(o);
        histories(m, way, al, n - 1, h, next);
        h.pop_back();
    }
}
static vector<Op> alphabet(const Mod &m, bool small)
{
    vector<Op> al;
    int N = m.kids.size();
    for (int l = 0; l < m.leaves; l++)
    {
        for (int x : small ? vector<int>{6} : vector<int>{0, 6, -3}) al.push_back({Op::SET, l, l, x});
        for (int v = 0; v < N; v++) if (v == l || v >= m.leaves) { al.push_back({Op::REMOVE, l, v, 0}); for (int x : small ? vector<int>{2} : vector<int>{2, -3}) al.push_back({Op::ADD, l, v, x}); }
    }
    al.push_back({Op::LOOK, 0, 0, 0});
    al.push_back({Op::REBUILD, 0, 0, 0});
    for (int v = m.leaves; v < N; v++) for (int k = 0; k < N; k++) if (k != v) { al.push_back({Op::GRAFT, k, v, 0}); if (!small) al.push_back({Op::GRAFTPOS, k, v, 0}); }
    return al;
}
static void sequences(int upto, int len, vector<int> &s, const std::function<void(const vector<int> &)> &f)
{
    if (len == 0) { f(s); return; }
    for (int i = 0; i < upto; i++) { s.push_back(i); sequences(upto, len - 1, s, f); s.pop_back(); }
}
int H::run()
{
    vector<vector<optional<int>>> nums = {{0, 1, 2}, {2, 0, 2}, {5, std::nullopt, -2}, {1, 1, 1}};
    auto trees = [&](int a, int b, const std::function<void(Mod &)> &f) {
        for (int la = 0; la <= a; la++) for (int lb = 1; lb <= b; lb++)
        {
            vector<int> s;
            sequences(3, la, s, [&](const vector<int> &inner) {
                vector<int> s2;
                sequences(4, lb, s2, [&](const vector<int> &outer) {
                    if (la == 0 && lb > 2 && std::find(outer.begin(), outer.end(), 3) == outer.end() && outer[0] > outer[1]) return;
                    Mod m; m.leaves = 3; m.kids = {{}, {}, {}, inner, outer};
                    f(m);
                });
            });
        }
    };
    H::phase("trees");
    trees(3, H::deep() ? 4 : 3, [&](Mod &m) { for (auto &n : nums) for (int way = 0; way < 3; way++) { m.num = n; history(m, way, {}); } });
    H::phase("one change");
    trees(2, 3, [&](Mod &m) { for (auto &n : nums) for (int way = 0; way < 3; way++) { m.num = n; vector<Op> h; histories(m, way, alphabet(m, false), 1, h, m); } });
    H::phase("histories of changes");
    trees(2, 2, [&](Mod &m) { for (size_t i = 1; i < 3; i++) for (int way = 0; way < (H::deep() ? 3 : 2); way++) { m.num = nums[i]; vector<Op> h; histories(m, way, alphabet(m, true), 2, h, m); } });
    {
        vector<vector<vector<int>>> shapes = {{{0, 1}, {3, 2}}, {{0}, {3, 3, 1}}, {{1, 2}, {0, 3}}};
        for (auto &k : shapes) { Mod m; m.leaves = 3; m.kids = {{}, {}, {}, k[0], k[1]}; m.num = {2, 0, 2}; vector<Op> h; histories(m, 0, alphabet(m, true), H::deep() ? 4 : 3, h, m); }
    }
    H::phase("deep and wide");
    for (int n : H::deep() ? vector<int>{3, 10, 64, 127, 128, 129, 255, 256, 257, 300} : vector<int>{3, 10, 129, 257})
        for (int kind = 0; kind < 3; kind++) for (int way = 0; way < 3; way++)
        {
            Mod m; m.leaves = 3; m.kids = {{}, {}, {}}; m.num = {3, -1, 3};
            if (kind == 0) { vector<int> k; for (int i = 0; i < n; i++) k.push_back(i % 3); m.kids.push_back(k); }
            else for (int i = 0; i < std::min(n, 129); i++) { vector<int> k; if (i) k.push_back((int)m.kids.size() - 1); k.insert(kind == 1 ? k.end() : k.begin(), i % 3); m.kids.push_back(k); }
            history(m, way, {});
            int top = m.kids.size() - 1;
            history(m, way, {{Op::REMOVE, 0, top, 0}, {Op::ADD, 0, top, 8}, {Op::SET, 1, 1, 9}});
            if (kind == 0) { m.leaves = n; m.kids.assign(n, {}); vector<int> k; m.num.clear(); for (int i = 0; i < n; i++) { k.push_back(i); m.num.push_back(i * 7 % 11 - 3); } m.kids.push_back(k); history(m, way, {}); history(m, way, {{Op::REMOVE, n / 2, n, 0}, {Op::SET, n - 1, n - 1, 44}, {Op::LOOK, 0, 0, 0}, {Op::ADD, n / 2, n, -9}}); }
        }
    // many tables below one, each with tables of its own below; changes in the first, the middle and the last of them
    for (int n : H::deep() ? vector<int>{4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 257} : vector<int>{4, 8, 9, 16, 17, 33, 65, 129})
        for (int way = 0; way < 3; way++) for (int levels = 1; levels < 3; levels++)
        {
            Mod m;
            m.leaves = 2 * n; m.kids.assign(2 * n, {});
            for (int i = 0; i < 2 * n; i++) m.num.push_back(i * 7 % 11 - 3);
            vector<int> top;
            for (int i = 0; i < n; i++)
            {
                m.kids.push_back({2 * i, 2 * i + 1});
                if (levels == 2) m.kids.push_back({2 * i, (int)m.kids.size() - 1});
                top.push_back(m.kids.size() - 1);
            }
            m.kids.push_back(top);
            int root = m.kids.size() - 1;
            for (int i : {0, n / 2, n - 1})
            {
                int l = 2 * i, k = 2 * i + 1;
                for (int via : {l, top[i], root})
                {
                    history(m, way, {{Op::REMOVE, l, via, 0}});
                    history(m, way, {{Op::REMOVE, l, via, 0}, {Op::ADD, l, via, 44}});
                    history(m, way, {{Op::REMOVE, k, via == l ? k : via, 0}, {Op::LOOK, 0, 0, 0}, {Op::ADD, k, via == l ? k : via, -9}, {Op::SET, l, l, 70}});
                }
                history(m, way, {{Op::SET, l, l, 30}});
                history(m, way, {{Op::GRAFT, (k + 2) % (2 * n), top[i], 0}});
                history(m, way, {{Op::LOOK, 0, 0, 0}, {Op::GRAFT, (k + 2) % (2 * n), top[i], 0}, {Op::SET, k, k, 12}});
            }
        }
    H::phase("tables which differ");
    {
        // up to 4 (5) occurrences: equal exactly if the normalised numbers are
        vector<vector<int>> seqs;
        for (int n = 0; n <= (H::deep() ? 5 : 4); n++) { vector<int> s; sequences(4, n, s, [&](const vector<int> &v) { seqs.push_back(v); }); }
        vector<pIndexVar> t;
        for (auto &v : seqs) { Mod m; m.leaves = v.size(); m.kids.assign(v.size(), {}); vector<int> k; for (size_t i = 0; i < v.size(); i++) { k.push_back(i); m.num.push_back(v[i] * 2 - 1); } m.kids.push_back(k); t.push_back(make(m, 0).t.back()); }
        // numbers far apart, and alike in some of their bits
        {
            const vector<int> far{INT_MIN, INT_MIN + 1, -65537, -65536, -257, -256, -255, -129, -128, -1, 0, 1, 127, 128, 255, 256, 257, 511, 512, 65535, 65536, 65537, 1 << 20, 1 << 30, INT_MAX - 1, INT_MAX};
            const int F = far.size();
            auto both = [&](vector<int> v) {
                if (!H::tick("the numbers " + show(v))) return;
                Mod m; m.leaves = v.size(); m.kids.assign(v.size(), {}); vector<int> k; for (size_t i = 0; i < v.size(); i++) { k.push_back(i); m.num.push_back(v[i]); } m.kids.push_back(k);
                auto x = make(m, 0).t.back(), y = IndexVar::clone(x);
                string e = normal(*x, v, known, "");
                if (e.empty()) e = normal(*y, v, known, "the clone: ");
                if (e.empty()) for (size_t i = 0; i < v.size() && e.empty(); i++) if (*x->indices[i] != v[i]) e = "the numbers were changed";
                if (!e.empty()) H::fail("normal", e);
                H::trans(2); H::trace(); H::state(show(v));
            };
            for (int a : far) for (int b : far) { both({a, b}); for (int c : far) { both({a, b, c}); if (H::deep()) for (int d : far) both({a, b, c, d}); } }
            vector<int> s = far; both(s); std::reverse(s.begin(), s.end()); both(s); for (int i = 0; i < F; i++) s.push_back(far[i * 7 % F]); both(s);
        }
        for (size_t i = 0; i < seqs.size(); i++)
        {
            if (!H::tick("equality of " + show(seqs[i]) + " with all others")) continue;
            for (size_t j = 0; j < seqs.size(); j++)
            {
                if ((*t[i] == t[j].get()) != (ranks(seqs[i]) == ranks(seqs[j]))) { H::fail("equality", show(seqs[i]) + " and " + show(seqs[j]) + " are " + (*t[i] == t[j].get() ? "equal" : "different")); break; }
                H::trans();
            }
            H::trace();
        }
    }
    H::phase("tables of terms");
    using namespace V;
    auto one = [&](const E &e) {
        R rr = numbered(e);
        if (!H::tick("renumbering " + M::canon(rr))) return;
        pTerm t = build(rr, {});
        auto o = occ(*t);
        string err;
        for (size_t k = 0; k <= o.size() && err.empty(); k++)
        {
            // all numbers at once, then each
            if (k == 0) for (auto &x : o) *x.handle = *x.handle * 5 % 7 + 3;
            else *o[k - 1].handle = 1 - *o[k - 1].handle;
            std::shared_ptr<INDEXVAR::IndexVar> tab[3] = {t->_vars_independent, t->_vars_dependent, t->_vars_query};
            if (t->is_atom()) break;
            for (int q = 0; q < 3 && err.empty(); q++)
            {
                tab[q]->rebuild();
                vector<int> v; size_t i = 0;
                for (auto &x : o) if (x.kind == "$#?"[q])
                {
                    v.push_back(*x.handle);
                    if (i >= tab[q]->indices.size() || tab[q]->indices[i] != x.handle || tab[q]->positions[i] != x.pos) { err = "the table lists something else than the term holds"; break; }
                    i++;
                }
                if (err.empty() && i != tab[q]->indices.size()) err = "the table lists more than the term holds";
                if (err.empty()) err = normal(*tab[q], v, known, "");
                H::trans();
            }
        }
        if (!err.empty()) H::fail("terms", err);
        H::trace();
    };
    for (auto &e : family(1)) one(e);
    return 0;
}
H_MAIN
