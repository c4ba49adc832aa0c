// C12 (address sanitizer): collections of components against sets and sequences; all short histories of iterator operations.
#include "h.h"
#include "fam.h"
#include <deque>
#include <functional>
#include <unordered_map>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using TERM::pTerm; using TERM::Term; using TERM::Terms; using TERM::pTerms; using TERM::Iterator;
using std::string; using std::vector; using std::set;

// the palette: terms and their classes of equality
static vector<pTerm> P;
static vector<int> cls;
static vector<pTerm> tasks_terms;
static void palette()
{
    auto add = [](pTerm t, int c) { P.push_back(t); cls.push_back(c); };
    auto parse = [](const string &s) { auto t = SHIM::parse(s + "."); return t->sentence->term; };
    add(parse("A"), 0);                             // 0
    add(parse("B"), 1);                             // 1
    add(parse("<A-->B>"), 2);                       // 2
    add(parse("<A-->B>"), 2);                       // 3: equal to 2
    add(FAM::mkvar('$', 0, "x"), 3);                // 4
    add(FAM::mkvar('$', 0, "y"), 3);                // 5: equal to 4
    add(parse("(&&,A,<$x-->B>)"), 4);               // 6
    add(parse("(&&,<$z-->B>,A)"), 4);               // 7: equal to 6
    add(parse("+7"), 5);                            // 8
    add(parse("^go"), 6);                           // 9
    add(parse("<B-->A>"), 7);                       // 10
    add(FAM::mkvar('#', 0, "x"), 8);                // 11
    add(parse("(*,A,B)"), 9);                       // 12
    add(parse("C"), 10); add(parse("{A,B}"), 11);   // 13 14
    for (int i = 0; i < 72; i++) { string n = std::to_string(i * 37 % 72); add(parse(i % 3 == 0 ? "w" + n : i % 3 == 1 ? "<w" + n + "-->A>" : "(*,B,w" + n + ")"), 12 + i); } // 15 ...
}
static void more(int n) { while ((int)P.size() < 15 + n) { int i = P.size() - 15; auto t = SHIM::parse((i % 3 == 0 ? "w" + std::to_string(i * 37 % 7919) : i % 3 == 1 ? "<w" + std::to_string(i) + "-->B>" : "(*,C,w" + std::to_string(i) + ")") + "."); P.push_back(t->sentence->term); cls.push_back(12 + i); } }
static string pshow(const vector<int> &v) { if (v.size() > 80) return "[" + std::to_string(v[0]) + " " + std::to_string(v[1]) + " ... " + std::to_string(v.back()) + ", " + std::to_string(v.size()) + "]"; string s = "["; for (int i : v) s += (s.size() > 1 ? " " : "") + std::to_string(i); return s + "]"; }
// what a collection of the terms v holds: the palette's indices in order (ordered), or a set of classes
static string contents(const Terms &t, const vector<int> &v, bool comm)
{
    Terms &tt = const_cast<Terms &>(t);
    vector<Term *> it1, it2, it3, it4;
    for (auto it = t.begin(); it != t.end(); ++it) { it1.push_back((*it).get()); if (it1.size() > 5000) return "iteration does not end"; }
    for (auto it = t.begin(); !(it == t.end()); it++) { it2.push_back((*it).get()); if (it2.size() > 5000) return "iteration (post-increment) does not end"; }
    for (auto x : t) it3.push_back(x.get());
    for (auto &x : (vector<pTerm>)t) it4.push_back(x.get());
    if (it1 != it2 || it1 != it3 || it1 != it4) return "the ways of iterating do not agree";
    if (it1.size() != tt.size()) return "size() is " + std::to_string(tt.size()) + ", but iteration gives " + std::to_string(it1.size());
    if (!comm)
    {
        if (it1.size() != v.size()) return "holds " + std::to_string(it1.size()) + " terms instead of " + std::to_string(v.size());
        for (size_t i = 0; i < v.size(); i++) if (it1[i] != P[v[i]].get()) return "position " + std::to_string(i) + " is another term than was put there";
    }
    else
    {
        set<int> want, got;
        std::unordered_map<Term *, int> own;
        for (int k : v) own[P[k].get()] = cls[k];
        for (int i : v) want.insert(cls[i]);
        for (size_t i = 0; i < it1.size(); i++)
        {
            int c = -1;
            auto f = own.find(it1[i]); if (f != own.end()) c = f->second;
            if (c < 0) return "holds a term which was not put into it";
            if (!got.insert(c).second) return "holds equal terms twice";
            if (i && !(*it1[i - 1] < *it1[i])) return "is not sorted";
        }
        if (got != want) return "holds " + std::to_string(got.size()) + " different terms instead of " + std::to_string(want.size());
    }
    return "";
}
static void make(const vector<int> &v)
{
    for (int comm = 0; comm < 2; comm++)
        for (int way = 0; way < 11; way++)
        {
            if (way == 5 && v.size() > 4) continue;
            static const char *W[] = {"push_back", "list", "vector", "create(vector)", "create(list)", "initializer list", "copy of an ordered one", "copy of an unordered one", "create(copy)", "create(), push_back", "set"};
            if (!H::tick(string(W[way]) + (comm ? " unordered " : " ordered ") + pshow(v))) continue;
            vector<pTerm> tv; for (int i : v) tv.push_back(P[i]);
            std::list<pTerm> tl(tv.begin(), tv.end());
            Terms *t = nullptr; pTerms pt;
            Terms o(tv, false), u(tv, true);
            bool as_set = comm;
            vector<int> w = v;
            switch (way)
            {
            case 0: t = new Terms(comm); for (auto &x : tv) t->push_back(x); break;
            case 1: t = new Terms(tl, comm); break;
            case 2: t = new Terms(tv, comm); break;
            case 3: pt = Terms::create(tv, comm); break;
            case 4: pt = Terms::create(tl, comm); break;
            case 5:
                t = v.size() == 0 ? new Terms(std::initializer_list<pTerm>{}, comm) : v.size() == 1 ? new Terms(std::initializer_list<pTerm>{tv[0]}, comm) : v.size() == 2 ? new Terms(std::initializer_list<pTerm>{tv[0], tv[1]}, comm) : v.size() == 3 ? new Terms(std::initializer_list<pTerm>{tv[0], tv[1], tv[2]}, comm) : new Terms(std::initializer_list<pTerm>{tv[0], tv[1], tv[2], tv[3]}, comm);
                break;
            case 6: t = new Terms(o, comm); break;
            case 7: t = new Terms(u, comm); break;
            case 8: pt = Terms::create<Terms &>(o, comm); break;
            case 9: pt = Terms::create(comm); for (auto &x : tv) pt->push_back(x); break;
            case 10: { set<pTerm, Terms::compare> s(tv.begin(), tv.end()); t = new Terms(s, comm); break; }
            }
            if ((way == 7 || way == 10) && !comm)
            {
                // the sequence of the set
                w.clear();
                std::unordered_map<Term *, int> at; if (v.size() >= 80) for (size_t i = v.size(); i-- > 0;) at[P[v[i]].get()] = v[i];
                for (auto &x : (vector<pTerm>)u) if (v.size() < 80) { for (int i : v) if (P[i].get() == x.get()) { w.push_back(i); break; } } else w.push_back(at[x.get()]);
            }
            string e = contents(pt ? *pt : *t, w, as_set);
            if (!e.empty()) H::fail("contents", e);
            if (!(e = contents(o, v, false)).empty() || !(e = contents(u, v, true)).empty()) H::fail("contents", "a copy changes its original: " + e);
            // a copy is independent
            (pt ? pt.get() : t)->push_back(P[13]);
            if (!(e = contents(o, v, false)).empty() || !(e = contents(u, v, true)).empty()) H::fail("contents", "a change of a copy changes its original: " + e);
            w.push_back(13);
            if (!(e = contents(pt ? *pt : *t, w, as_set)).empty()) H::fail("contents", "after another push_back: " + e);
            delete t;
            H::trans(v.size() + 1); H::trace(); H::state((comm ? "u" : "o") + pshow(w));
        }
}
static string ops_(vector<vector<int>> args, int op)
{
    vector<pTerms> a;
    for (auto &v : args) { vector<pTerm> tv; for (int i : v) tv.push_back(P[i]); a.push_back(Terms::create(tv, true)); }
    vector<vector<pTerm>> before;
    for (auto &x : a) before.push_back((vector<pTerm>)*x);
    pTerms r = op == 0 ? Terms::intersection(a) : op == 1 ? Terms::union_(a) : Terms::difference(a);
    set<int> want; for (int i : args[0]) want.insert(cls[i]);
    vector<int> all = args[0];
    for (size_t k = 1; k < args.size(); k++)
    {
        set<int> s; for (int i : args[k]) s.insert(cls[i]);
        all.insert(all.end(), args[k].begin(), args[k].end());
        set<int> n;
        for (int c = 0; c < (int)P.size(); c++) { bool x = want.count(c), y = s.count(c); if (op == 0 ? x && y : op == 1 ? x || y : x && !y) n.insert(c); }
        want = n;
    }
    vector<int> w;
    for (int i : all) if (want.count(cls[i])) w.push_back(i);
    if (!r->_is_commutative) return "the result is not unordered";
    string e = contents(*r, w, true);
    if (!e.empty()) return e;
    r->push_back(P[13]);
    for (size_t k = 0; k < a.size(); k++)
    {
        auto now = (vector<pTerm>)*a[k];
        if (now.size() != before[k].size()) return "argument " + std::to_string(k) + " is changed";
        for (size_t i = 0; i < now.size(); i++) if (now[i].get() != before[k][i].get()) return "argument " + std::to_string(k) + " is changed";
    }
    r = nullptr;
    for (size_t k = 0; k < a.size(); k++) if (!contents(*a[k], args[k], true).empty()) return "argument " + std::to_string(k) + " is spoiled";
    return "";
}
static const char *OPN[] = {"intersection", "union", "difference"};
static vector<int> subset(const vector<int> &U, int m) { vector<int> v; for (size_t i = 0; i < U.size(); i++) if (m >> i & 1) v.push_back(U[i]); return v; }
static void setops(const vector<vector<int>> &args)
{
    for (int op = 0; op < 3; op++)
    {
        string d = OPN[op]; for (auto &v : args) d += " " + pshow(v);
        if (!H::tick(d)) continue;
        string e = ops_(args, op);
        if (!e.empty()) H::fail("set operation", e);
        H::trans(args.size()); H::trace(); H::state(d);
    }
}
// ---- iterators ----
struct Step { int op, a, b, n; }; // 0 a=begin(coll b), 1 a=end(coll b), 2 a=b, 3 a=copy of b (new), 4 ++a, 5 a++, 6 a=b+n, 7 a=b-n, 8 a=b++ , 9 a=++b, 10 swap
static string show(const Step &s)
{
    string a = "i" + std::to_string(s.a), b = (s.op < 2 ? "c" : "i") + std::to_string(s.b), n = std::to_string(s.n);
    switch (s.op)
    {
    case 0: return a + "=" + b + ".begin()"; case 1: return a + "=" + b + ".end()"; case 2: return a + "=" + b; case 3: return a + "=copy(" + b + ")";
    case 4: return "++" + a; case 5: return a + "++"; case 6: return a + "=" + b + "+" + n; case 7: return a + "=" + b + "-" + n;
    case 8: return a + "=" + b + "++"; case 9: return a + "=++" + b;
    }
    return "swap(" + a + "," + b + ")";
}
struct Pos { int c = 0, i = 0; bool operator==(const Pos &o) const { return c == o.c && i == o.i; } };
static const int NI = 2;
static vector<pTerms> C; static vector<int> CN; // collections and their sizes
static bool mstep(vector<Pos> &p, const Step &s)
{
    auto in = [](Pos q) { return q.i >= 0 && q.i <= CN[q.c]; };
    switch (s.op)
    {
    case 0: p[s.a] = {s.b, 0}; return true;
    case 1: p[s.a] = {s.b, CN[s.b]}; return true;
    case 2: case 3: p[s.a] = p[s.b]; return true;
    case 4: case 5: if (p[s.a].i >= CN[p[s.a].c]) return false; p[s.a].i++; return true;
    case 6: { Pos q = p[s.b]; q.i += s.n; if (!in(q)) return false; p[s.a] = q; return true; }
    case 7: { Pos q = p[s.b]; q.i -= s.n; if (!in(q)) return false; p[s.a] = q; return true; }
    case 8: { if (s.a == s.b || p[s.b].i >= CN[p[s.b].c]) return false; p[s.a] = p[s.b]; p[s.b].i++; return true; }
    case 9: { if (p[s.b].i >= CN[p[s.b].c]) return false; p[s.b].i++; p[s.a] = p[s.b]; return true; }
    case 10: std::swap(p[s.a], p[s.b]); return true;
    }
    return false;
}
static void replay(const vector<Step> &h)
{
    string d; for (auto &s : h) d += (d.empty() ? "" : "; ") + show(s);
    if (!H::tick(d)) return;
    vector<vector<Term *>> seq;
    for (auto &c : C) { vector<Term *> q; for (auto &x : (vector<pTerm>)*c) q.push_back(x.get()); seq.push_back(q); }
    vector<Pos> p(NI);
    size_t mem = __sanitizer_get_current_allocated_bytes();
    string err;
    {
        Iterator *it[NI];
        for (int i = 0; i < NI; i++) it[i] = new Iterator(C[0]->begin());
        for (size_t k = 0; k < h.size() && err.empty(); k++)
        {
            auto &s = h[k];
            mstep(p, s);
            H::trans();
            switch (s.op)
            {
            case 0: *it[s.a] = C[s.b]->begin(); break;
            case 1: *it[s.a] = C[s.b]->end(); break;
            case 2: *it[s.a] = *it[s.b]; break;
            case 3: { Iterator *n = new Iterator(*it[s.b]); delete it[s.a]; it[s.a] = n; break; }
            case 4: { Iterator &r = ++*it[s.a]; if (&r != it[s.a]) err = "++i does not give the iterator itself"; break; }
            case 5: { Pos q = p[s.a]; q.i--; Iterator r = (*it[s.a])++; if ((*r).get() != seq[q.c][q.i]) err = "i++ does not give the old position"; break; }
            case 6: *it[s.a] = *it[s.b] + s.n; break;
            case 7: *it[s.a] = *it[s.b] - s.n; break;
            case 8: *it[s.a] = (*it[s.b])++; break;
            case 9: *it[s.a] = ++*it[s.b]; break;
            case 10: std::swap(*it[s.a], *it[s.b]); break;
            }
            for (int i = 0; i < NI && err.empty(); i++)
            {
                Pos &q = p[i];
                bool end = q.i == CN[q.c];
                if ((*it[i] == C[q.c]->end()) != end || (*it[i] != C[q.c]->end()) == end) err = "i" + std::to_string(i) + (end ? " should be at the end" : " is at the end");
                else if (!end && (**it[i]).get() != seq[q.c][q.i]) err = "i" + std::to_string(i) + " is not at position " + std::to_string(q.i);
                else if ((*it[i] == C[q.c]->begin()) != (q.i == 0)) err = "i" + std::to_string(i) + " compares wrongly with begin()";
                for (int j = 0; j < NI; j++) if (p[i].c == p[j].c && ((*it[i] == *it[j]) != (p[i].i == p[j].i) || (*it[i] != *it[j]) != (p[i].i != p[j].i))) err = "comparison of i" + std::to_string(i) + " and i" + std::to_string(j) + " is wrong";
            }
            if (!err.empty()) err = "after step " + std::to_string(k + 1) + ": " + err;
        }
        for (int i = 0; i < NI; i++) delete it[(i + h.size()) % NI];
    }
    size_t mem2 = __sanitizer_get_current_allocated_bytes();
    if (!err.empty()) H::fail("iterator", err);
    else if (mem2 != mem) H::fail("memory", "iterators do not give back their memory");
    string st; for (auto &q : p) st += std::to_string(q.c) + "." + std::to_string(q.i) + " ";
    H::state("it" + std::to_string(C.size()) + ":" + std::to_string(CN[0]) + ":" + st);
    H::trace();
}
static vector<Step> alphabet(int nc, int maxn)
{
    vector<Step> v;
    for (int a = 0; a < NI; a++)
    {
        for (int c = 0; c < nc; c++) { v.push_back({0, a, c, 0}); v.push_back({1, a, c, 0}); }
        v.push_back({4, a, 0, 0}); v.push_back({5, a, 0, 0});
        for (int b = 0; b < NI; b++)
        {
            v.push_back({2, a, b, 0}); v.push_back({3, a, b, 0}); v.push_back({8, a, b, 0}); v.push_back({9, a, b, 0});
            if (a < b) v.push_back({10, a, b, 0});
            for (int n = -maxn; n <= maxn; n++) { v.push_back({6, a, b, n}); v.push_back({7, a, b, n}); }
        }
    }
    return v;
}
static void histories(const vector<Step> &al, vector<Step> &h, const vector<Pos> &p, int n)
{
    if (n == 0) { replay(h); return; }
    for (auto &s : al) { auto q = p; if (!mstep(q, s)) continue; h.push_back(s); histories(al, h, q, n - 1); h.pop_back(); }
}
static void collections(const vector<std::pair<vector<int>, bool>> &cs)
{
    C.clear(); CN.clear();
    for (auto &[v, comm] : cs) { vector<pTerm> tv; for (int i : v) tv.push_back(P[i]); C.push_back(Terms::create(tv, comm)); CN.push_back(C.back()->size()); }
}
int H::run()
{
    SHIM::parse("A.");
    palette();
    H::phase("making collections");
    {
        int N = 13;
        make({});
        for (int a = 0; a < N; a++) { make({a}); for (int b = 0; b < N; b++) make({a, b}); }
        vector<int> few{0, 1, 2, 3, 4, 5, 6, 7};
        for (int a : few) for (int b : few) for (int c : few) { make({a, b, c}); if (H::deep()) for (int d : few) make({a, b, c, d}); }
        vector<int> fewer{0, 2, 3, 5};
        if (!H::deep()) for (int a : fewer) for (int b : fewer) for (int c : fewer) for (int d : fewer) make({a, b, c, d});
        for (int n = 5; n < 60; n += 6) { vector<int> v; for (int i = 0; i < n; i++) v.push_back((i * 5 + n) % 13); make(v); }
        // many different terms: every number, forwards, backwards, in turn, and each twice
        for (int n = 5; n <= 72; n += n < 40 || H::deep() ? 1 : 4)
        {
            vector<int> a, b, c, d;
            for (int i = 0; i < n; i++) { a.push_back(15 + i); b.push_back(14 + n - i); c.push_back(15 + i / 2 + (i % 2 ? (n + 1) / 2 : 0)); d.push_back(15 + i); }
            for (int i = 0; i < n; i++) d.push_back(15 + i);
            make(a); make(b); make(c); make(d);
        }
    }
    H::phase("operations on sets");
    {
        vector<int> U{0, 2, 4, 6, 8};
        vector<int> U2{1, 3, 5, 7, 8, 2};
        for (int i = 0; i < 32; i++) setops({subset(U, i)});
        for (int i = 0; i < 32; i++) for (int j = 0; j < 32; j++) setops({subset(U, i), subset(U, j)});
        for (int i = 0; i < 32; i++) for (int j = 0; j < 64; j++) setops({subset(U, i), subset(U2, j)});
        vector<int> V{0, 2, 5, 6}, W{0, 3, 4, 7};
        for (int i = 0; i < 16; i++) for (int j = 0; j < 16; j++) for (int k = 0; k < 16; k++) setops({subset(V, i), subset(W, j), subset(V, k)});
        vector<int> X{2, 4, 0}, Y{3, 5, 0};
        for (int i = 0; i < 8; i++) for (int j = 0; j < 8; j++) for (int k = 0; k < 8; k++) for (int l = 0; l < 8; l++) setops({subset(X, i), subset(Y, j), subset(X, k), subset(Y, l)});
        if (H::deep()) for (int i = 0; i < 32; i++) for (int j = 0; j < 64; j++) for (int k = 0; k < 32; k++) setops({subset(U, i), subset(U2, j), subset(U, k)});
        // the same object several times
        for (int op = 0; op < 3; op++) for (int i = 0; i < 32; i++) for (int n = 1; n < 4; n++)
        {
            if (!H::tick(string(OPN[op]) + " of a set with itself " + pshow(subset(U, i)))) continue;
            vector<pTerm> tv; for (int k : subset(U, i)) tv.push_back(P[k]);
            auto t = Terms::create(tv, true);
            vector<pTerms> a(n, t);
            auto r = op == 0 ? Terms::intersection(a) : op == 1 ? Terms::union_(a) : Terms::difference(a);
            string e = contents(*r, op == 2 && n > 1 ? vector<int>{} : subset(U, i), true);
            if (e.empty()) e = contents(*t, subset(U, i), true);
            if (e.empty() && r.get() == t.get()) e = "the result is the argument itself";
            if (!e.empty()) H::fail("set operation", e);
        }
        for (int n = 2; n < 12; n++) for (int op = 0; op < 3; op++)
        {
            vector<vector<int>> args;
            for (int k = 0; k < n; k++) { vector<int> v; for (int i = 0; i < 13; i++) if ((i * (k + 2) + k) % (n + 1) != 1) v.push_back(i); args.push_back(v); }
            setops(args);
        }
        // large sets: all ranges of a row of different terms
        int L = 40, st = H::deep() ? 3 : 5;
        vector<vector<int>> R;
        for (int i = 0; i <= L; i += st) for (int j = i; j <= L; j += st) { vector<int> v; for (int k = i; k < j; k++) v.push_back(15 + k); if (j > i || i == 0) R.push_back(v); }
        for (auto &x : R) for (auto &y : R) setops({x, y});
        for (size_t i = 0; i < R.size(); i += 4) for (size_t j = 1; j < R.size(); j += 4) for (size_t k = 2; k < R.size(); k += 4) setops({R[i], R[j], R[k]});
    }
    H::phase("histories of iterators");
    {
        vector<int> three{0, 2, 4}, four{0, 2, 4, 6};
        for (int comm = 0; comm < 2; comm++)
        {
            for (auto &v : {vector<int>{}, vector<int>{0}, vector<int>{0, 2}, three})
            {
                collections({{v, comm}});
                vector<Step> h;
                for (int n = 1; n <= (H::deep() ? 4 : 3); n++) histories(alphabet(1, v.size() > 2 ? 2 : 1), h, vector<Pos>(NI), n);
            }
            collections({{four, comm}, {{8, 9, 10}, !comm}});
            vector<Step> h;
            for (int n = 1; n <= (H::deep() ? 4 : 3); n++) histories(alphabet(2, H::deep() && n < 4 ? 4 : 2), h, vector<Pos>(NI), n);
        }
        // long collections: every distance from every position
        for (int comm = 0; comm < 2; comm++)
        {
            vector<int> v; for (int i = 0; i < 13; i++) if (i != 3 && i != 5 && i != 7) v.push_back(i);
            collections({{v, comm}});
            for (int i = 0; i <= CN[0]; i++) for (int j = 0; j <= CN[0]; j++) { replay({{6, 0, 0, i}, {6, 1, 0, j - i}}); replay({{1, 0, 0, 0}, {7, 1, 0, CN[0] - i}, {7, 0, 1, i - j}}); }
        }
        for (int comm = 0; comm < 2; comm++)
            for (int n : H::deep() ? vector<int>{11, 12, 13, 15, 16, 17, 23, 31, 32, 33, 50, 63, 64, 65, 70} : vector<int>{11, 16, 17, 33, 65})
            {
                vector<int> v; for (int i = 0; i < n; i++) v.push_back(15 + i);
                collections({{v, comm}});
                for (int i = 0; i <= n; i++) for (int j = 0; j <= n; j++) { replay({{6, 0, 0, i}, {6, 1, 0, j - i}}); replay({{1, 0, 0, 0}, {7, 1, 0, n - i}, {7, 0, 1, i - j}}); }
            }
        C.clear();
    }
    H::phase("many collections");
    for (int n : H::deep() ? vector<int>{12, 13, 14, 15, 16, 17, 18, 20, 24, 31, 32, 33, 34, 40, 63, 64, 65, 66, 100, 127, 128, 129, 130, 255, 256, 257, 258} : vector<int>{12, 15, 16, 17, 18, 24, 31, 32, 33, 34, 40, 64, 65, 66, 128, 129, 257})
    {
        more(2 * n + 40);
        for (int odd : {0, 1, n / 2, n - 2, n - 1})
        {
            vector<vector<int>> a, b, c, d, e;
            for (int i = 0; i < n; i++)
            {
                a.push_back({15 + i});                                                         // each adds one
                b.push_back(i == odd ? vector<int>{15, 16, 18} : vector<int>{15, 16, 17, 18}); // one lacks one
                c.push_back(i == odd ? vector<int>{15, 16} : i == 0 ? vector<int>{15, 16, 17, 18} : vector<int>{20 + i});
                d.push_back(i == odd ? vector<int>{} : vector<int>{15, 16 + i % 3});
                vector<int> v; for (int k = 0; k < n; k++) if (k != i) v.push_back(15 + k);
                e.push_back(v);
            }
            setops(a); setops(b); setops(c); setops(d);
            if (n < 70) setops(e);
            vector<int> all; for (int k = 0; k < n; k++) all.push_back(15 + k);
            auto f = a; f[0] = all; setops(f); // taken away one by one
        }
    }
    H::phase("large collections");
    {
        vector<int> sizes{100, 126, 127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 512, 513};
        if (H::deep()) for (int n : {1023, 1024, 1025, 2047, 2048, 2049}) sizes.push_back(n);
        more(2 * sizes.back() + 10);
        for (int n : sizes)
        {
            vector<int> a, b, c, d;
            for (int i = 0; i < n; i++) { a.push_back(15 + i); b.push_back(14 + n - i); c.push_back(15 + i / 2 + (i % 2 ? (n + 1) / 2 : 0)); d.push_back(15 + i); }
            for (int i = 0; i < n; i++) d.push_back(15 + i);
            make(a); make(b); make(c); make(d);
            // ranges of a row
            auto range = [&](int f, int t) { vector<int> v; for (int i = f; i < t; i++) v.push_back(15 + i); return v; };
            vector<vector<int>> R{range(0, n), range(0, 1), range(n - 1, n), range(1, n), range(0, n - 1), range(n / 2, n + n / 2), range(n, 2 * n), range(n - 1, 2 * n), range(0, n / 2), {}};
            for (auto &x : R) for (auto &y : R) setops({x, y});
            for (size_t k = 0; k < R.size(); k++) setops({R[0], R[k], R[(k * 3 + 1) % R.size()]});
            // positions
            for (int comm = 0; comm < 2; comm++)
            {
                collections({{a, comm}});
                for (int i = 0; i <= n; i += H::deep() || n < 130 ? 7 : 61) for (int j : {0, 1, n / 2, 127, 128, 129, 255, 256, 257, n - 1, n}) if (j <= n) { replay({{6, 0, 0, i}, {6, 1, 0, j - i}}); replay({{1, 0, 0, 0}, {7, 1, 0, n - i}, {7, 0, 1, i - j}}); }
            }
            C.clear();
        }
    }
    H::phase("end");
    P.clear(); FAM::ops().clear();
    return 0;
}
H_MAIN
