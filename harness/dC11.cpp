// C11 (address sanitizer): explicit-state exploration of the registry of names against a model, every transition replayed on the implementation.
#include "h.h"
#include "gen.h"
#include "shim.h"
#include "reg.h"
#include <deque>
using TERM::pTerm; using TERM::Term;
using INTERPRETER::Interpreter; using INTERPRETER::interpreter;
using std::string; using std::vector;

// ---- model ----
struct Val { int k = 0; int id = -1; vector<Val> c; }; // k: 0 empty, 1 atom, 2 product, 3 statement
static string str(const Val &v)
{
    if (v.k == 0) return "-";
    if (v.k == 1) return std::to_string(v.id);
    string s = v.k == 2 ? "(" : "<";
    for (auto &x : v.c) s += str(x) + " ";
    return s + ">";
}
static const int NS = 3; // handles; slot NS is the term of a task
struct State
{
    Val slot[NS + 1];
    std::map<std::pair<int, string>, int> reg; // (registry, name) -> atom
    int next = 0;
};
static void ids(const Val &v, std::set<int> &s) { if (v.k == 1) s.insert(v.id); for (auto &x : v.c) ids(x, s); }
static void collect(State &s)
{
    std::set<int> live;
    for (auto &v : s.slot) ids(v, live);
    for (auto it = s.reg.begin(); it != s.reg.end();) if (!live.count(it->second)) it = s.reg.erase(it); else ++it;
}
static string key(const State &s0)
{
    // atoms renumbered by first appearance
    State s = s0;
    std::map<int, int> m;
    struct F { static void go(Val &v, std::map<int, int> &m) { if (v.k == 1) { if (!m.count(v.id)) { int n = m.size(); m[v.id] = n; } v.id = m[v.id]; } for (auto &x : v.c) go(x, m); } };
    string r;
    for (auto &v : s.slot) { F::go(v, m); r += str(v) + "|"; }
    for (auto &p : s.reg) r += std::to_string(p.first.first) + p.first.second + "=" + std::to_string(m[p.second]) + " ";
    return r;
}
struct Op { int op, a, b; string name; };
enum { CREATE, CREATE2, PARSE, PARSE_ST, PARSE_OP, COPY, MOVE, DROP, EMBED, EMBED2, STAT, FIRST, CLONE, TASK_ATOM, TASK_ST, TASK_CALL, TASK_DROP, TASK_TERM, REMOVE, REMOVE_KEY, RESET, SWAP, ERASE };
static string show(const Op &o)
{
    auto A = std::to_string(o.a), B = std::to_string(o.b);
    switch (o.op)
    {
    case CREATE: return "h" + A + "=create(" + o.name + ")";
    case CREATE2: return "h" + A + "=create in second registry(" + o.name + ")";
    case PARSE: return "h" + A + "=parse(" + o.name + ".)";
    case PARSE_ST: return "h" + A + "=parse(<A --> B>.)";
    case PARSE_OP: return "h" + A + "=parse(" + o.name + ".)";
    case COPY: return "h" + A + "=h" + B;
    case MOVE: return "h" + A + "=move(h" + B + ")";
    case DROP: return "drop h" + A;
    case EMBED: return "h" + A + "=(*, h" + A + ")";
    case EMBED2: return "h" + A + "=(*, h" + A + ", h" + B + ")";
    case STAT: return "h" + A + "=<h" + A + " --> h" + B + ">";
    case FIRST: return "h" + A + "=first component of h" + B;
    case CLONE: return "h" + A + "=clone(h" + B + ")";
    case TASK_ATOM: return "task=parse(" + o.name + ".)";
    case TASK_ST: return "task=parse(<A --> B>?)";
    case TASK_CALL: return "task=parse((^A, A)!)";
    case TASK_DROP: return "drop task";
    case TASK_TERM: return "h" + A + "=term of task";
    case REMOVE: return "remove(" + o.name + ")";
    case REMOVE_KEY: return "remove key of h" + A;
    case ERASE: return "erase key of h" + A;
    case RESET: return "reset";
    case SWAP: return "swap h" + A + " h" + B;
    }
    return "";
}
static int size(const Val &v) { int n = 1; for (auto &x : v.c) n += size(x); return n; }
static Val named(State &s, int reg, const string &n)
{
    auto k = std::make_pair(reg, n);
    if (!s.reg.count(k)) s.reg[k] = s.next++;
    Val v; v.k = 1; v.id = s.reg[k];
    return v;
}
static Val comp(int k, vector<Val> c) { Val v; v.k = k; v.c = c; return v; }
// false: not applicable
static bool step(State &s, const Op &o)
{
    auto *h = s.slot;
    switch (o.op)
    {
    case CREATE: h[o.a] = named(s, 0, o.name); break;
    case CREATE2: h[o.a] = named(s, 1, o.name); break;
    case PARSE: case PARSE_OP: h[o.a] = named(s, 0, o.name); break;
    case PARSE_ST: { Val a = named(s, 0, "A"), b = named(s, 0, "B"); h[o.a] = comp(3, {a, b}); break; }
    case COPY: case CLONE: if (!h[o.b].k && !h[o.a].k) return false; if (o.op == CLONE && !h[o.b].k) return false; h[o.a] = Val(h[o.b]); break;
    case MOVE: if (!h[o.b].k || o.a == o.b) return false; { Val v = h[o.b]; h[o.b] = Val(); h[o.a] = v; } break;
    case DROP: if (!h[o.a].k) return false; h[o.a] = Val(); break;
    case EMBED: if (!h[o.a].k || size(h[o.a]) > 3) return false; h[o.a] = comp(2, {Val(h[o.a])}); break;
    case EMBED2: if (!h[o.a].k || !h[o.b].k || size(h[o.a]) + size(h[o.b]) > 4) return false; h[o.a] = comp(2, {Val(h[o.a]), Val(h[o.b])}); break;
    case STAT: if (!h[o.a].k || !h[o.b].k || size(h[o.a]) + size(h[o.b]) > 4) return false; h[o.a] = comp(3, {Val(h[o.a]), Val(h[o.b])}); break;
    case FIRST: if (h[o.b].k < 2) return false; h[o.a] = Val(h[o.b].c[0]); break;
    case TASK_ATOM: h[NS] = named(s, 0, o.name); break;
    case TASK_ST: { Val a = named(s, 0, "A"), b = named(s, 0, "B"); h[NS] = comp(3, {a, b}); break; }
    case TASK_CALL: { Val a = named(s, 0, "^A"), b = named(s, 0, "A"); h[NS] = comp(3, {comp(2, {b}), a}); break; }
    case TASK_DROP: if (!h[NS].k) return false; h[NS] = Val(); break;
    case TASK_TERM: if (!h[NS].k) return false; h[o.a] = Val(h[NS]); break;
    case REMOVE: s.reg.erase({0, o.name}); break;
    case REMOVE_KEY: case ERASE:
    {
        if (h[o.a].k != 1) return false;
        for (auto it = s.reg.begin(); it != s.reg.end();) if (it->second == h[o.a].id && it->first.first == 0) it = s.reg.erase(it); else ++it;
        break;
    }
    case RESET: for (auto it = s.reg.begin(); it != s.reg.end();) if (it->first.first == 0) it = s.reg.erase(it); else ++it; break;
    case SWAP: if (o.a == o.b || (!h[o.a].k && !h[o.b].k)) return false; std::swap(h[o.a], h[o.b]); break;
    }
    collect(s);
    return true;
}
// ---- implementation ----
static Interpreter second;
struct Impl
{
    pTerm slot[NS];
    TASK::pTask task;
    vector<TASK::pTask> none;
    void step(const Op &o)
    {
        auto *h = slot;
        auto parse = [](const string &l) { auto t = SHIM::parse(l); if (t == nullptr) throw std::runtime_error("rejected " + l); return t; };
        switch (o.op)
        {
        case CREATE: h[o.a] = Term::create(o.name.c_str()); break;
        case CREATE2: h[o.a] = Term::create(o.name.c_str(), &second); break;
        case PARSE: case PARSE_OP: h[o.a] = parse(o.name + ".")->sentence->term; break;
        case PARSE_ST: h[o.a] = parse("<A --> B>.")->sentence->term; break;
        case COPY: h[o.a] = h[o.b]; break;
        case CLONE: h[o.a] = Term::clone(h[o.b]); break;
        case MOVE: { pTerm t = std::move(h[o.b]); h[o.b] = pTerm(); h[o.a] = std::move(t); break; }
        case DROP: h[o.a] = pTerm(); break;
        case EMBED: { vector<pTerm> v{h[o.a]}; h[o.a] = pTerm(new COMPOUND::Compound(CONNECTOR::Connector::Product, v, true)); break; }
        case EMBED2: { vector<pTerm> v{h[o.a], h[o.b]}; h[o.a] = COMPOUND::Compound::create(CONNECTOR::Connector::Product, v); break; }
        case STAT: h[o.a] = STATEMENT::Statement::create(h[o.a], COPULA::Copula::Inheritance, h[o.b]); break;
        case FIRST: h[o.a] = h[o.b]->is_statement() ? pTerm(h[o.b]->subject) : pTerm(*h[o.b]->terms->begin()); break;
        case TASK_ATOM: task = parse(o.name + "."); break;
        case TASK_ST: task = parse("<A --> B>?"); break;
        case TASK_CALL: task = parse("(^A, A)!"); break;
        case TASK_DROP: task = nullptr; break;
        case TASK_TERM: h[o.a] = task->sentence->term; break;
        case REMOVE: interpreter.remove_by_name(o.name); break;
        case REMOVE_KEY: interpreter.remove(h[o.a]->hash_value); break;
        case ERASE: interpreter.erase(h[o.a]->hash_value); break;
        case RESET: interpreter.reset(); break;
        case SWAP: std::swap(h[o.a], h[o.b]); break;
        }
    }
};
static string compare_val(const Val &v, Term *t, std::map<int, Term *> &of, const State &s, const string &where)
{
    if (v.k == 0) return t ? where + " is not empty" : "";
    if (!t) return where + " is empty";
    if (v.k == 1)
    {
        if (!t->is_atom()) return where + " is not an atom";
        auto it = of.find(v.id);
        if (it == of.end()) { for (auto &p : of) if (p.second == t) return where + " is the same atom as another one"; of[v.id] = t; }
        else if (it->second != t) return where + " is another atom";
        for (auto &p : s.reg)
            if (p.second == v.id)
            {
                auto &in = p.first.first ? second : interpreter;
                string n = in.interpret(*t);
                if (n != p.first.second) return where + " is printed as " + n + " instead of " + p.first.second;
                if (t->is_operation != (p.first.second[0] == '^')) return where + ": operation and atom are confused";
            }
        bool registered = false;
        for (auto &p : s.reg) registered = registered || p.second == v.id;
        if (!registered) { string n = interpreter.interpret(*t); for (auto &p : s.reg) if (n == p.first.second && p.first.first == 0) return where + " is printed with a name it does not have any more"; }
        return "";
    }
    if (v.k == 2 && !t->is_compound() || v.k == 3 && !t->is_statement()) return where + " is another kind of term";
    vector<pTerm> k;
    if (v.k == 3) k = {t->subject, t->predicate};
    else for (auto it = t->terms->begin(); it != t->terms->end(); ++it) k.push_back(*it);
    if (k.size() != v.c.size()) return where + " has " + std::to_string(k.size()) + " components";
    for (size_t i = 0; i < k.size(); i++) { string e = compare_val(v.c[i], k[i].get(), of, s, where + "." + std::to_string(i)); if (!e.empty()) return e; }
    return "";
}
static string compare_reg(const State &s, int which)
{
    auto &in = which ? second : interpreter;
    size_t n = 0;
    string r = which ? "second registry: " : "";
    for (auto &p : s.reg)
        if (p.first.first == which)
        {
            n++;
            string nm = p.first.second;
            if (!in.check_by_name(nm)) return r + "name " + nm + " is in use but not registered";
            size_t k = in.get_by_name(nm);
            if (!in.check(k) || in.get(k) != nm) return r + "name " + nm + " has no entry";
            if (!REG::has_handle(in, k)) return r + "name " + nm + " has no handle";
            if (!REG::counted(in, k)) return r + "name " + nm + " is not counted";
        }
    for (auto &p : REG::sizes(in)) if (p.second != n) return r + std::to_string(p.second) + " entries of " + p.first + " for " + std::to_string(n) + " names in use";
    return "";
}
static string compare(const State &s, Impl &im, std::map<int, Term *> &of)
{
    std::set<int> live;
    for (auto &v : s.slot) ids(v, live);
    for (auto it = of.begin(); it != of.end();) if (!live.count(it->first)) it = of.erase(it); else ++it;
    for (int i = 0; i <= NS; i++)
    {
        Term *t = i < NS ? im.slot[i].get() : im.task ? im.task->sentence->term.get() : nullptr;
        string e = compare_val(s.slot[i], t, of, s, i < NS ? "h" + std::to_string(i) : string("the term of the task"));
        if (!e.empty()) return e;
    }
    string e = compare_reg(s, 0);
    return e.empty() ? compare_reg(s, 1) : e;
}
static bool replay(const vector<Op> &h, bool check_all)
{
    string d;
    for (auto &o : h) d += (d.empty() ? "" : "; ") + show(o);
    if (!H::tick(d)) return true;
    bool ok = true;
    {
        State s;
        Impl im;
        std::map<int, Term *> of;
        try
        {
            for (size_t i = 0; i < h.size(); i++)
            {
                step(s, h[i]);
                im.step(h[i]);
                H::trans();
                string e = compare(s, im, of);
                if (!e.empty()) { H::fail("registry", "after step " + std::to_string(i + 1) + " (" + show(h[i]) + "): " + e); ok = false; break; }
            }
        }
        catch (std::exception &e) { H::fail("throws", e.what()); ok = false; }
        // drop everything, in an order which depends on the history
        for (int i = 0; i < NS; i++) im.slot[(i + h.size()) % NS] = pTerm();
        im.task = nullptr;
    }
    if (ok && REG::total(interpreter) + REG::total(second))
    { H::fail("left", "names are left in the registry after everything was dropped"); ok = false; }
    if (!ok) { interpreter.reset(); second.reset(); }
    H::trace();
    return ok;
}
static vector<Op> alphabet(bool big)
{
    vector<Op> v;
    for (int a = 0; a < (big ? NS : 2); a++)
    {
        v.push_back({CREATE, a, 0, "A"}); v.push_back({PARSE, a, 0, "A"});
        v.push_back({CREATE, a, 0, "B"}); v.push_back({PARSE_OP, a, 0, "^A"}); v.push_back({PARSE_ST, a, 0, ""});
        v.push_back({DROP, a, 0, ""}); v.push_back({EMBED, a, 0, ""}); v.push_back({TASK_TERM, a, 0, ""}); v.push_back({REMOVE_KEY, a, 0, ""}); v.push_back({ERASE, a, 0, ""});
        if (a < 2) v.push_back({CREATE2, a, 0, "A"});
        for (int b = 0; b < (big ? NS : 2); b++)
        {
            v.push_back({COPY, a, b, ""}); v.push_back({FIRST, a, b, ""});
            if (a != b) { v.push_back({MOVE, a, b, ""}); v.push_back({CLONE, a, b, ""}); v.push_back({SWAP, a, b, ""}); }
            if (a <= b) { v.push_back({EMBED2, a, b, ""}); v.push_back({STAT, a, b, ""}); }
        }
    }
    v.push_back({TASK_ATOM, 0, 0, "A"}); v.push_back({TASK_ATOM, 0, 0, "^A"}); v.push_back({TASK_ST, 0, 0, ""}); v.push_back({TASK_CALL, 0, 0, ""}); v.push_back({TASK_DROP, 0, 0, ""});
    v.push_back({REMOVE, 0, 0, "A"}); v.push_back({REMOVE, 0, 0, "^A"}); v.push_back({REMOVE, 0, 0, "Z"}); v.push_back({RESET, 0, 0, ""});
    return v;
}
// all histories of length n (without steps that are not applicable)
static void histories(const vector<Op> &al, vector<Op> &h, const State &s, int n)
{
    if (n == 0) { replay(h, true); return; }
    for (auto &o : al)
    {
        State t = s;
        if (!step(t, o)) continue;
        h.push_back(o);
        histories(al, h, t, n - 1);
        h.pop_back();
    }
}
// all transitions of all states reachable in n-1 steps
static void states(const vector<Op> &al, int n, size_t cap)
{
    std::map<string, int> seen;
    std::deque<std::pair< ::State, vector<Op>>> q;
    q.push_back({::State(), {}}); seen[key(::State())] = 0;
    size_t fails = 0;
    int complete = n;
    while (!q.empty())
    {
        auto [s, h] = q.front(); q.pop_front();
        if ((int)h.size() >= n) continue;
        for (auto &o : al)
        {
            ::State t = s;
            if (!step(t, o)) continue;
            auto h2 = h; h2.push_back(o);
            string k = key(t);
            bool fresh = seen.insert({k, (int)h2.size()}).second;
            H::state(k);
            if (!replay(h2, false) && ++fails > 50) return;
            if (fresh) { if (seen.size() < cap) q.push_back({t, h2}); else complete = std::min(complete, (int)h2.size()); }
        }
    }
    H::infon("model_states", seen.size());
    H::infon("depth_complete", complete);
}
int H::run()
{
    SHIM::parse("A."); SHIM::parse("^A.");
    vector<Op> h;
    H::phase("all short histories");
    histories(alphabet(true), h, ::State(), 1); histories(alphabet(true), h, ::State(), 2); histories(alphabet(H::deep()), h, ::State(), 3);
    H::phase("all transitions of the reachable states");
    states(alphabet(true), H::deep() ? 6 : 4, H::deep() ? 60000 : 8000);
    H::phase("many names");
    {
        vector<string> names;
        for (int c = 33; c < 127; c++) for (auto &f : {string(1, (char)c), string(2, (char)c), string("n") + (char)c, string(1, (char)c) + "n"}) names.push_back(f);
        for (int i = 0; i < 1500; i++) names.push_back("name" + std::to_string(i));
        for (int n = 1; n < 200; n++) names.push_back(string(n, 'L'));
        std::sort(names.begin(), names.end());
        names.erase(std::unique(names.begin(), names.end()), names.end());
        for (size_t stride : {1, 2, 3, 7})
        {
            if (!H::tick("many names, dropping every " + std::to_string(stride) + "th")) continue;
            vector<pTerm> v;
            std::set<Term *> u;
            for (auto &n : names) { v.push_back(Term::create(n.c_str())); u.insert(v.back().get()); }
            if (u.size() != names.size()) H::fail("names", "different names are the same atom");
            for (int round = 0; round < 2; round++)
            {
                for (size_t i = 0; i < v.size(); i++)
                {
                    if (v[i] == nullptr) continue;
                    if (interpreter.interpret(*v[i]) != names[i]) { H::fail("names", names[i] + " is printed as " + interpreter.interpret(*v[i])); break; }
                    if (Term::create(names[i].c_str()).get() != v[i].get()) { H::fail("names", names[i] + " is another atom when used again"); break; }
                    H::trans();
                }
                size_t left = 0;
                for (size_t i = 0; i < v.size(); i++) { if (i % stride == 0) v[i] = pTerm(); left += v[i] != nullptr; }
                if (!REG::all(interpreter, left)) { H::fail("names", "the registry has another number of names than are in use"); break; }
            }
            H::trace();
        }
        // very many names at once, and one name used very many times
        for (int n : H::deep() ? vector<int>{1000, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 200000} : vector<int>{4097, 65537})
        {
            if (!H::tick(std::to_string(n) + " names at once")) continue;
            vector<pTerm> v;
            for (int i = 0; i < n; i++) v.push_back(Term::create(("q" + std::to_string(i)).c_str()));
            std::set<Term *> u; for (auto &t : v) u.insert(t.get());
            if ((int)u.size() != n) H::fail("names", "different names are the same atom");
            else if (!REG::all(interpreter, n)) H::fail("names", "the registry has another number of names than are in use");
            else for (int i = 0; i < n; i++)
            {
                if (interpreter.interpret(*v[i]) != "q" + std::to_string(i)) { H::fail("names", "q" + std::to_string(i) + " is printed as " + interpreter.interpret(*v[i])); break; }
                if (Term::create(("q" + std::to_string(i)).c_str()).get() != v[i].get()) { H::fail("names", "q" + std::to_string(i) + " is another atom when used again"); break; }
            }
            for (int i = 0; i < n; i += 2) v[i] = pTerm();
            if (!REG::all(interpreter, n / 2)) H::fail("names", "the registry has another number of names than are in use after every other was dropped");
            v.clear();
            if (REG::total(interpreter)) H::fail("left", "names are left");
            H::trans(4 * n); H::trace();
        }
        for (int n : H::deep() ? vector<int>{127, 128, 129, 255, 256, 257, 32767, 32768, 32769, 65535, 65536, 65537, 100000} : vector<int>{127, 128, 129, 255, 256, 257, 32768, 65536, 65537}) for (int way = 0; way < 4; way++)
        {
            if (!H::tick("one name used " + std::to_string(n) + " times, way " + std::to_string(way))) continue;
            pTerm first = Term::create("much");
            vector<pTerm> v;
            if (way == 0) for (int i = 0; i < n; i++) v.push_back(Term::create("much"));
            else if (way == 1) for (int i = 0; i < n; i++) v.push_back(first);
            else if (way == 2) for (int i = 0; i < n; i++) v.push_back(i % 2 ? Term::create("much") : v.empty() ? first : v.back());
            else { string l = "(*"; for (int i = 0; i < std::min(n, 5000); i++) l += ", much"; auto t = SHIM::parse(l + ")."); if (t) for (auto x : *t->sentence->term->terms) v.push_back(x); }
            auto same = [&] { for (auto &t : v) if (t.get() != first.get()) return false; return interpreter.interpret(*first) == "much" && Term::create("much").get() == first.get(); };
            if (!same()) H::fail("names", "it is several atoms, or printed in another way");
            if (!REG::all(interpreter, 1)) H::fail("names", "the registry has another number of names than are in use");
            while (v.size() > 1) { v.resize(v.size() / 2); if (!same() || !REG::all(interpreter, 1)) { H::fail("names", "it is lost while it is in use"); break; } }
            v.clear();
            if (!same() || !REG::all(interpreter, 1)) H::fail("names", "it is lost while it is in use");
            first = pTerm();
            if (REG::total(interpreter)) H::fail("left", "names are left");
            H::trans(n); H::trace();
        }
        // names which are alike, in one line and created
        auto alike = [&](const string &m, const string &n) {
            if (!H::tick("the names " + m + " and " + n)) return;
            auto t = SHIM::parse("(*, " + m + ", " + n + ", (^" + m + ", A), (^" + n + ", A), <B --> ^" + m + ">).");
            if (t == nullptr) { H::fail("rejected", "rejected"); return; }
            vector<pTerm> k;
            for (auto it = t->sentence->term->terms->begin(); it != t->sentence->term->terms->end(); ++it) k.push_back(*it);
            std::set<Term *> u{k[0].get(), k[1].get(), k[2]->predicate.get(), k[3]->predicate.get()};
            if (u.size() != (m == n ? 2 : 4)) H::fail("names", "different names are the same atom, or a name is two");
            if (k[2]->predicate.get() != k[4]->predicate.get()) H::fail("names", "one operation is two");
            if (Term::create(m.c_str()).get() != k[0].get() || Term::create(n.c_str()).get() != k[1].get()) H::fail("names", "the name of the line is another atom when used again");
            if (interpreter.interpret(*k[0]) != m || interpreter.interpret(*k[1]) != n || interpreter.interpret(*k[2]->predicate) != "^" + m || interpreter.interpret(*k[3]->predicate) != "^" + n) H::fail("names", "the name is printed in another way");
            k.clear(); t = nullptr;
            if (REG::total(interpreter)) H::fail("left", "names are left");
            H::trans(6); H::trace();
        };
        vector<string> some{"\"a\"", "\"A\"", "\"a \"", "\" a\"", "\"\"", "\" \""};
        for (string c : {"a", "Q", "0", "1", "_"}) { some.push_back(c); for (string d : {"a", "Q", "0", "1", "_"}) some.push_back(c + d); }
        for (auto &m : some) for (auto &n : some) alike(m, n);
        for (int l = 1; l <= (H::deep() ? 300 : 140); l += l < 40 || H::deep() ? 1 : 5)
        {
            string a(l, 'a');
            for (string b : {a + "a", a + "b", "b" + a, a.substr(1) + "ba", string(l, 'Q'), string(1, 'a') + string(l, 'Q')}) { alike(a, b); alike(b, a); }
        }
        // long lists of names in one line
        for (int n : {2, 10, 100, 400})
        {
            if (!H::tick("a line with " + std::to_string(n) + " names, each twice")) continue;
            string l = "(*";
            for (int i = 0; i < n; i++) l += ", nm" + std::to_string(i) + ", (^nm" + std::to_string(i) + ", nm" + std::to_string((i + 1) % n) + ")";
            auto t = SHIM::parse(l + ").");
            if (t == nullptr) { H::fail("rejected", "rejected"); continue; }
            if (!REG::all(interpreter, 2 * n)) H::fail("names", "the registry has another number of names than are in use");
            vector<pTerm> k;
            for (auto it = t->sentence->term->terms->begin(); it != t->sentence->term->terms->end(); ++it) k.push_back(*it);
            for (int i = 0; i < n; i++)
            {
                Term *next = k[2 * ((i + 1) % n)].get();
                if ((*k[2 * i + 1]->subject->terms->begin()).get() != next) { H::fail("names", "one name is two atoms in a line"); break; }
                if (Term::create(("nm" + std::to_string(i)).c_str()).get() != k[2 * i].get()) { H::fail("names", "the name of the line is another atom when used again"); break; }
            }
            k.clear(); t = nullptr;
            if (REG::total(interpreter)) H::fail("left", "names are left");
            H::trace();
        }
    }
    return 0;
}
H_MAIN
