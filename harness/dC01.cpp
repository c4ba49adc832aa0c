// C01: which lines are accepted. The grammar is a table; a memoising recogniser on characters (the reference) decides every line;
// the states and transitions of the grammar's LR(0) automaton direct the enumeration.
#include "h.h"
#include "shim.h"
#include <algorithm>
#include <functional>
#include <set>
using std::string; using std::vector; using std::map; using std::set; using std::pair;

// ---- the grammar ----
// words in quotes are literal tokens, @x are lexical tokens, others are nonterminals
static const char *GRAMMAR = R"(
task: sentence
task: budget sentence
sentence: main '.' otense otruth
sentence: main '?' otense
sentence: main '!' otense otruth
sentence: main '@' otense
main: interval
main: word
main: compound
main: statement
main: op
otense:
otense: ':!' @integer ':'
otense: ':/:'
otense: ':|:'
otense: ':\:'
otruth:
otruth: '%' @ratio '%'
otruth: '%' @ratio ';' @open '%'
otruth: '%' @ratio ';' @open ';' @natural '%'
budget: '$' @ratio '$'
budget: '$' @ratio ';' @open '$'
budget: '$' @ratio ';' @open ';' @ratio '$'
statement: '<' term copula term '>'
statement: '(' term copula term ')'
statement: '(' op ')'
statement: '(' op ',' terms ')'
statement: word '(' terms ')'
copula: '-->'
copula: '<->'
copula: '{--'
copula: '--]'
copula: '{-]'
copula: '==>'
copula: '=/>'
copula: '=|>'
copula: '=\>'
copula: '<=>'
copula: '</>'
copula: '<|>'
terms: term
terms: term ',' terms
term: variable
term: main
variable: '$' word
variable: '#' word
variable: '?' word
op: '^' word
interval: '+' @integer
word: @string
word: @name
compound: '[' terms ']'
compound: '{' terms '}'
compound: '--' term
compound: '(' '--' ',' term ')'
compound: '(' '\' ',' terms ')'
compound: '(' '/' ',' terms ')'
compound: '(' infix ')'
compound: '(' term ',' terms ')'
compound: '(' multi ',' term ',' terms ')'
compound: '(' '*' ',' terms ')'
compound: '(' single ',' operand ',' operand ')'
compound: '(' operand single operand ')'
multi: '&&'
multi: '||'
multi: '&|'
multi: '&/'
multi: '|'
multi: '&'
single: '-'
single: '~'
operand: term
operand: infix
infix: term '&' i1
infix: term '|' i2
infix: term '&|' i3
infix: term '&/' i4
infix: term '&&' i5
infix: term '||' i6
infix: term '*' i7
i1: term
i1: term '&' i1
i2: term
i2: term '|' i2
i3: term
i3: term '&|' i3
i4: term
i4: term '&/' i4
i5: term
i5: term '&&' i5
i6: term
i6: term '||' i6
i7: term
i7: term '*' i7
)";
// symbols: nonterminals 0..; terminals are numbered after them
static vector<string> names;            // of symbols
static map<string, int> num;
static int NT;                          // number of nonterminals
static vector<pair<int, vector<int>>> prods;
static vector<vector<int>> of;          // productions of a nonterminal
static vector<int> minlen;              // of symbols
static vector<vector<int>> minyield;
static int sym(const string &s) { auto it = num.find(s); return it->second; }
static bool isterm(int x) { return x >= NT; }
static void load()
{
    vector<pair<string, vector<string>>> ps;
    string g = GRAMMAR, line;
    for (size_t i = 0; i <= g.size(); i++)
    {
        if (i < g.size() && g[i] != '\n') { line += g[i]; continue; }
        if (!line.empty())
        {
            size_t c = line.find(':');
            vector<string> r; string w;
            for (size_t k = c + 1; k <= line.size(); k++) { if (k < line.size() && line[k] != ' ') w += line[k]; else if (!w.empty()) { r.push_back(w); w.clear(); } }
            ps.push_back({line.substr(0, c), r});
        }
        line.clear();
    }
    for (auto &p : ps) if (!num.count(p.first)) { num[p.first] = names.size(); names.push_back(p.first); }
    NT = names.size();
    for (auto &p : ps) for (auto &w : p.second) if (!num.count(w)) { num[w] = names.size(); names.push_back(w); }
    of.resize(NT);
    for (auto &p : ps) { vector<int> r; for (auto &w : p.second) r.push_back(sym(w)); of[sym(p.first)].push_back(prods.size()); prods.push_back({sym(p.first), r}); }
    minlen.assign(names.size(), 1 << 20); minyield.resize(names.size());
    for (size_t x = NT; x < names.size(); x++) { minlen[x] = 1; minyield[x] = {(int)x}; }
    for (bool ch = true; ch;)
    {
        ch = false;
        for (auto &p : prods) { int n = 0; for (int x : p.second) n += minlen[x]; if (n < minlen[p.first]) { minlen[p.first] = n; vector<int> y; for (int x : p.second) y.insert(y.end(), minyield[x].begin(), minyield[x].end()); minyield[p.first] = y; ch = true; } }
    }
}
// ---- the reference ----
static bool isdig(char c) { return c >= '0' && c <= '9'; }
static bool blank(char c) { return c == ' ' || c == '\t'; }
static bool namechar(char c) { return c != 0 && c != '\n' && !strchr("\t-+<>=\"&|!.?@~%;,:/\\*#$[]{}()^ ", c); }
// all ends of the token at i (without blanks)
static void ends(int t, const string &s, size_t i, vector<size_t> &e)
{
    const string &n = names[t];
    size_t N = s.size(), k = i;
    if (n[0] == '\'') { string lit = n.substr(1, n.size() - 2); if (s.compare(i, lit.size(), lit) == 0) e.push_back(i + lit.size()); return; }
    if (n == "@integer") { if (k < N && s[k] == '-') k++; while (k < N && isdig(s[k])) e.push_back(++k); return; }
    if (n == "@natural") { if (k < N && s[k] >= '1' && s[k] <= '9') { e.push_back(++k); while (k < N && isdig(s[k])) e.push_back(++k); } return; }
    if (n == "@ratio")
    {
        if (k < N && (s[k] == '0' || s[k] == '1')) e.push_back(k + 1);
        if (k < N && s[k] == '1') { k++; if (k < N && s[k] == '.') { e.push_back(++k); while (k < N && s[k] == '0') e.push_back(++k); } return; }
        if (k < N && s[k] == '0') k++;
        if (k < N && s[k] == '.') { k++; while (k < N && isdig(s[k])) e.push_back(++k); }
        return;
    }
    if (n == "@open")
    {
        if (k < N && s[k] == '0') k++;
        if (k < N && s[k] == '.') { k++; bool nz = false; while (k < N && isdig(s[k])) { nz = nz || s[k] != '0'; k++; if (nz) e.push_back(k); } }
        return;
    }
    if (n == "@name") { while (k < N && namechar(s[k])) e.push_back(++k); return; }
    if (n == "@string")
    {
        if (k >= N || s[k] != '"') return;
        k++;
        while (k < N && s[k] != '\\' && s[k] != '"') { k++; if (k + 1 < N && s[k] == '\\' && (s[k + 1] == '\\' || s[k + 1] == '"')) k += 2; }
        if (k < N && s[k] == '"') e.push_back(k + 1);
        return;
    }
    abort();
}
struct Ref
{
    const string &s;
    map<pair<int, size_t>, vector<size_t>> memo;
    const vector<size_t> &at(int x, size_t i)
    {
        auto it = memo.find({x, i});
        if (it != memo.end()) return it->second;
        vector<size_t> r;
        if (isterm(x))
        {
            vector<size_t> e;
            ends(x, s, i, e);
            for (size_t k : e) { r.push_back(k); while (k < s.size() && blank(s[k])) r.push_back(++k); }
        }
        else for (int p : of[x])
        {
            vector<size_t> cur{i};
            for (int y : prods[p].second)
            {
                vector<size_t> next;
                for (size_t k : cur) { auto &e = at(y, k); next.insert(next.end(), e.begin(), e.end()); }
                std::sort(next.begin(), next.end()); next.erase(std::unique(next.begin(), next.end()), next.end());
                cur.swap(next);
                if (cur.empty()) break;
            }
            r.insert(r.end(), cur.begin(), cur.end());
        }
        std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end());
        return memo[{x, i}] = r;
    }
};
static bool accepted(const string &s)
{
    Ref r{s};
    size_t i = 0;
    while (i < s.size() && blank(s[i])) i++; // blanks before the first token
    static int TASK = sym("task");
    auto &e = r.at(TASK, i);
    return !e.empty() && e.back() == s.size();
}
// ---- the automaton ----
typedef set<pair<int, int>> Items; // (production, position)
static vector<Items> states;
static map<pair<int, int>, int> go;
static Items closure(Items I)
{
    vector<pair<int, int>> w(I.begin(), I.end());
    while (!w.empty())
    {
        auto [p, k] = w.back(); w.pop_back();
        if (k >= (int)prods[p].second.size()) continue;
        int x = prods[p].second[k];
        if (isterm(x)) continue;
        for (int q : of[x]) if (I.insert({q, 0}).second) w.push_back({q, 0});
    }
    return I;
}
static vector<vector<int>> path; // a shortest path of symbols to each state
static void automaton()
{
    Items I; for (int q : of[sym("task")]) I.insert({q, 0});
    states.push_back(closure(I)); path.push_back({});
    map<Items, int> id{{states[0], 0}};
    // by length of yield
    set<pair<int, int>> q{{0, 0}};
    vector<int> dist{0};
    while (!q.empty())
    {
        auto [d, s] = *q.begin(); q.erase(q.begin());
        map<int, Items> nx;
        for (auto &[p, k] : states[s]) if (k < (int)prods[p].second.size()) nx[prods[p].second[k]].insert({p, k + 1});
        for (auto &[x, J] : nx)
        {
            Items C = closure(J);
            auto it = id.find(C);
            int t;
            if (it == id.end()) { t = states.size(); id[C] = t; states.push_back(C); dist.push_back(1 << 20); path.push_back({}); } else t = it->second;
            go[{s, x}] = t;
            if (d + minlen[x] < dist[t]) { q.erase({dist[t], t}); dist[t] = d + minlen[x]; path[t] = path[s]; path[t].push_back(x); q.insert({dist[t], t}); }
        }
    }
}
// all configurations (stacks of states) which reductions lead to from a stack, with the shortest completion of each
typedef vector<int> Stack;
static Stack stack_of(const vector<int> &syms) { Stack s{0}; for (int x : syms) s.push_back(go.at({s.back(), x})); return s; }
static void complete(const Stack &st, set<Stack> &seen, vector<int> &acc, vector<int> &best, bool &found, int depth = 0)
{
    if (found && acc.size() >= best.size()) return;
    if (depth > 60) return;
    // kernel items, the shortest rest first
    vector<pair<int, pair<int, int>>> c;
    for (auto &it : states[st.back()])
    {
        if (it.second == 0 && !(st.size() == 1 || prods[it.first].second.empty())) continue;
        if (it.second == 0 && st.size() > 1) { } // empty production
        int n = 0; for (size_t k = it.second; k < prods[it.first].second.size(); k++) n += minlen[prods[it.first].second[k]];
        c.push_back({n, it});
    }
    std::sort(c.begin(), c.end());
    static int TASK = sym("task");
    for (auto &[n, it] : c)
    {
        if (found && acc.size() + n >= best.size()) continue;
        size_t old = acc.size();
        for (size_t k = it.second; k < prods[it.first].second.size(); k++) { auto &y = minyield[prods[it.first].second[k]]; acc.insert(acc.end(), y.begin(), y.end()); }
        int lhs = prods[it.first].first;
        if (lhs == TASK) { if (!found || acc.size() < best.size()) { best = acc; found = true; } }
        else
        {
            Stack s2(st.begin(), st.end() - it.second);
            auto g = go.find({s2.back(), lhs});
            if (g != go.end()) { s2.push_back(g->second); if (n > 0 || seen.insert(s2).second) complete(s2, seen, acc, best, found, depth + 1); }
        }
        acc.resize(old);
    }
}
static bool completion(const Stack &st, vector<int> &best)
{
    static map<Stack, pair<bool, vector<int>>> memo;
    auto it = memo.find(st);
    if (it == memo.end())
    {
        set<Stack> seen; vector<int> acc, b; bool found = false;
        complete(st, seen, acc, b, found);
        it = memo.insert({st, {found, b}}).first;
    }
    best = it->second.second;
    return it->second.first;
}
// all stacks after reductions and then the terminal t
static void shifts(const Stack &st, int t, vector<Stack> &out, set<Stack> &seen)
{
    if (!seen.insert(st).second) return;
    auto g = go.find({st.back(), t});
    if (g != go.end()) { Stack s2 = st; s2.push_back(g->second); out.push_back(s2); }
    for (auto &it : states[st.back()])
        if (it.second == (int)prods[it.first].second.size() && prods[it.first].first != sym("task"))
        {
            Stack s2(st.begin(), st.end() - it.second);
            auto g = go.find({s2.back(), prods[it.first].first});
            if (g != go.end()) { s2.push_back(g->second); shifts(s2, t, out, seen); }
        }
}
static vector<Stack> shifted(const Stack &st, int t) { vector<Stack> o; set<Stack> seen; shifts(st, t, o, seen); return o; }

// viable prefixes, told apart by their last K states only: one shortest prefix for each
struct Node { Stack st; vector<int> syms; int len; };
static map<Stack, Node> contexts(size_t K)
{
    auto last = [&](const Stack &s) { return Stack(s.size() > K ? s.end() - K : s.begin(), s.end()); };
    map<Stack, Node> nodes;
    set<pair<int, Stack>> q;
    nodes[Stack{0}] = Node{Stack{0}, {}, 0}; q.insert({0, Stack{0}});
    while (!q.empty())
    {
        auto [d, key] = *q.begin(); q.erase(q.begin());
        Node n = nodes[key];
        for (auto g = go.lower_bound({n.st.back(), 0}); g != go.end() && g->first.first == n.st.back(); ++g)
        {
            int x = g->first.second;
            Node m = n; m.st.push_back(g->second); m.syms.push_back(x); m.len += minlen[x];
            Stack k2 = last(m.st);
            auto it = nodes.find(k2);
            if (it == nodes.end() || m.len < it->second.len) { if (it != nodes.end()) q.erase({it->second.len, k2}); nodes[k2] = m; q.insert({m.len, k2}); }
        }
    }
    return nodes;
}

// ---- lines ----
static string text(int t)
{
    const string &n = names[t];
    if (n[0] == '\'') return n.substr(1, n.size() - 2);
    if (n == "@integer") return "3";
    if (n == "@natural") return "2";
    if (n == "@ratio") return "0.5";
    if (n == "@open") return "0.4";
    if (n == "@name") return "a";
    return "\"q\"";
}
// other spellings of a token: every class of characters in every position
static const vector<string> &spellings(int t)
{
    static map<string, vector<string>> m = {
        {"@name", {"Z", "Aa", "aB", "a7Z", "7", "8a", "0", "10", "0A", "__", "_b", "b_9", "'", "a'", "''0", "`", "a`B", "1A", "1'", "0'", "9'", "9A", "9_", "90'", "90A", "90_", "99A", "990", "99'", "99b"}},
        {"@string", {"\"\"", "\"a#\"", "\"#b \"", "\"a\\\"\"", "\"a\\\\\"", "\"a\\\"b\"", "\"a\\\\]\"", "\" \\\"\\\"\"", "\"!\\\\!\\\\\"", "\"~\\\"~\"", "\"a\\\"B\"", "\"a\\\\B\"", "\"A\\\"!\""}},
        {"@integer", {"0", "10", "-1", "-0", "-40", "007"}},
        {"@natural", {"1", "90", "11", "100"}},
        {"@ratio", {"0", "1", "1.", "1.0", "1.00", ".0", "0.0", ".37", "0.101", "0.09"}},
        {"@open", {".1", "0.01", ".10", "0.909", ".0090", "0.99"}},
    };
    static const vector<string> none;
    auto it = m.find(names[t]);
    return it == m.end() ? none : it->second;
}
static string render(const vector<int> &y, const string &gap = "") { string s; for (int t : y) s += text(t) + gap; return s; }
static vector<int> yieldof(const vector<int> &syms) { vector<int> y; for (int x : syms) y.insert(y.end(), minyield[x].begin(), minyield[x].end()); return y; }
static std::unordered_set<string> done;
static uint64_t nacc, nrej;
static void line(const string &s)
{
    if (!done.insert(s).second) return;
    if (!H::tick(s)) return;
    bool want = accepted(s);
    (want ? nacc : nrej)++;
    auto t = SHIM::parse(s);
    H::trans(); H::trace();
    if (want != (t != nullptr)) H::fail(want ? "rejects" : "accepts", want ? "a line of the grammar is rejected" : "a line which is not of the grammar is accepted");
}
static void strings(const string &alphabet, int n, const std::function<void(const string &)> &f, const string &pre = "")
{
    f(pre);
    if (n > 0) for (char c : alphabet) strings(alphabet, n - 1, f, pre + c);
}
int H::run()
{
    load(); automaton();
    vector<int> terms; for (size_t t = NT; t < names.size(); t++) terms.push_back(t);
    H::infon("grammar_states", ::states.size()); H::infon("grammar_transitions", go.size()); H::infon("terminals", terms.size());
    for (size_t i = 0; i < ::states.size(); i++) H::state(std::to_string(i));
    H::phase("every token in every state after every symbol");
    for (auto &[k, to] : go)
    {
        auto [s, x] = k;
        vector<int> p = path[s]; p.push_back(x);
        Stack st = stack_of(p);
        string pre = render(yieldof(p)), pre2 = render(yieldof(p), " ");
        vector<string> rest{""};
        vector<int> c;
        if (completion(st, c)) rest.push_back(render(c));
        for (int u : terms) for (auto &s2 : shifted(st, u)) if (completion(s2, c)) { line(pre + text(u) + render(c)); line(pre2 + text(u) + " " + render(c, " ")); rest.push_back(render(c)); }
        std::sort(rest.begin(), rest.end()); rest.erase(std::unique(rest.begin(), rest.end()), rest.end());
        for (auto &r : rest) { line(pre + r); if (H::deep() || !isterm(x)) for (int u : terms) line(pre2 + text(u) + " " + r); else for (int u : terms) line(pre + text(u) + r); }
    }
    H::phase("every token in every context");
    {
        auto nodes = contexts(H::deep() ? 4 : 3);
        H::infon("contexts", nodes.size());
        for (auto &[key, n] : nodes)
        {
            string pre = render(yieldof(n.syms));
            vector<int> c;
            for (int u : terms) for (auto &s2 : shifted(n.st, u)) if (completion(s2, c))
            {
                line(pre + text(u) + render(c));
                for (auto &w : spellings(u)) { line(pre + w + render(c)); line(pre + " " + w + render(c)); if (pre.empty()) line("\t " + w + render(c)); }
                line(pre + " " + text(u) + render(c));
            }
        }
    }
    H::phase("every character of a word in every context");
    {
        for (auto &[key, n] : contexts(H::deep() ? 2 : 1))
        {
            string pre = render(yieldof(n.syms));
            vector<int> c;
            for (int u : terms)
            {
                if (names[u] != "@name" && names[u] != "@string") continue;
                for (auto &s2 : shifted(n.st, u)) if (completion(s2, c)) for (string gap : {"", " "}) for (int ch = 1; ch < 256; ch++)
                {
                    if (ch == '\n') continue;
                    string x(1, (char)ch);
                    if (names[u] == "@name") for (string w : {"a" + x, x + "a", "1" + x, "9" + x, "0" + x, "90" + x, "99" + x, "a" + x + x}) line(pre + gap + w + render(c));
                    else for (string w : {"\"" + x + "\"", "\"a" + x + "b\"", "\"\\" + x + "\"", "\"a\\" + x + "\"", "\"a\\\"" + x + "\"", "\"a\\\\" + x + "\""}) line(pre + gap + w + render(c));
                }
            }
        }
    }
    H::phase("every two tokens in every state");
    for (size_t i = 0; i < ::states.size(); i++)
    {
        Stack st = stack_of(path[i]);
        string pre = render(yieldof(path[i]));
        vector<int> c;
        for (int u : terms) for (auto &s2 : shifted(st, u)) for (int v : terms) for (auto &s3 : shifted(s2, v)) if (completion(s3, c)) line(pre + text(u) + text(v) + render(c));
    }
    H::phase("every character in every state");
    for (size_t i = 0; i < ::states.size(); i++)
    {
        Stack st = stack_of(path[i]);
        string pre = render(yieldof(path[i]));
        vector<string> rest;
        vector<int> c;
        if (completion(st, c)) rest.push_back(render(c));
        for (int u : terms) for (auto &s2 : shifted(st, u)) if (completion(s2, c)) { rest.push_back(render(c)); if (text(u).size() > 1) rest.push_back(text(u).substr(1) + render(c)); }
        std::sort(rest.begin(), rest.end()); rest.erase(std::unique(rest.begin(), rest.end()), rest.end());
        for (auto &r : rest) for (int ch = 1; ch < 256; ch++) if (ch != 10) line(pre + string(1, (char)ch) + r);
    }
    H::phase("every short operator");
    {
        string P = "-<>{}[]=/\\|&~*,.:;!?@%$#^+()\"", Q = "-<>{}[]=/\\|&~*,:";
        string nopair[] = {"<a", "(a", "(a*", "(", "{a", "<a-->", "a", ""};
        for (auto &[l, r] : vector<pair<string, string>>{{"<a", "b>."}, {"(a", "b)."}, {"(", ",a,b)."}, {"(", ",a)."}, {"", "a."}, {"(", "a)."}, {"a.", ""}, {"a", ""}})
        {
            strings(P, 2, [&](const string &s) { line(l + s + r); });
            strings(H::deep() ? P : Q, 3, [&](const string &s) { line(l + s + r); });
            strings(P, 2, [&](const string &s) { line(l + " " + s + " " + r); });
        }
        strings("-<>{}[]=/\\|&", 4, [&](const string &s) { line("<a" + s + "b>."); });
        if (H::deep()) strings("-<>{}[]=/\\|&", 4, [&](const string &s) { line("(a" + s + "b)."); });
        strings(":/|\\!13-", 5, [&](const string &s) { line("a." + s); });
        // two operators in a row
        vector<string> op{"&", "|", "&|", "&/", "&&", "||", "*", "-", "~", ",", "-->", "<=>", "--]", "{--", "\\", "/", "=\\>", ""};
        for (auto &a : op) for (auto &b : op) for (auto &c : op)
        {
            line("(a" + a + "b" + b + "c" + c + "d)."); line("(a " + a + " b " + b + " c)."); line("(" + a + ",b" + b + "c" + c + "d)."); line("(" + a + ",b" + b + "c," + "d" + c + "e).");
            line("<a" + a + "b" + b + "c>."); line("(a" + a + "(b" + b + "c)" + c + "--d).");
            if (H::deep()) for (auto &d : op) line("(a" + a + "b" + b + "c" + c + "d" + d + "e).");
        }
    }
    H::phase("numbers");
    {
        int n = H::deep() ? 7 : 5;
        for (auto &[l, r] : vector<pair<string, string>>{{"$", "$a."}, {"$0.5;", "$a."}, {"$0.5;0.5;", "$a."}, {"a.%", "%"}, {"a!%", "%"}, {"a.%1;", "%"}, {"a.%1;0.9;", "%"}, {"a.:|:%0.5;", "%"}})
        {
            strings("0159.", n, [&](const string &s) { line(l + s + r); });
            strings("019.-+ ;%$e", 3, [&](const string &s) { line(l + s + r); });
        }
        for (auto &[l, r] : vector<pair<string, string>>{{"+", "."}, {"a.:!", ":"}, {"<+", "-->b>."}, {"a?:!", ":"}})
        {
            strings("-0129", 4, [&](const string &s) { line(l + s + r); });
            strings("-+09. :a", 3, [&](const string &s) { line(l + s + r); });
        }
        for (int k = 1; k < 9; k++) for (char d : {'1', '9', '5'}) for (auto &[l, r] : vector<pair<string, string>>{{"+", "."}, {"a.:!", ":"}, {"a.%1;0.9;", "%"}, {"$.", "$a."}, {"a.%0.", ";0.9%"}})
            line(l + string(k, d) + r);
        // the largest numbers of the places which hold integers (larger ones are rejected: C17)
        for (auto &[l, r] : vector<pair<string, string>>{{"+", "."}, {"a.:!", ":"}, {"<+", "-->b>."}, {"a?:!", ":"}, {"(a,+", ",b)!"}, {"$0.5$a@:!", ":"}})
            for (auto n : {"2147483647", "2147483646", "2147483640", "1999999999", "-2147483648", "-2147483647", "-2147483646", "-1999999999", "1073741824", "-1073741825", "0000000000002147483647", "-0000000002147483648", "16777217", "-16777217"})
                for (auto e : {"", " ", "."}) line(l + n + e + r);
    }
    H::phase("names and quoted strings");
    {
        string all; for (int c = 1; c < 256; c++) if (c != '\n') all += (char)c;
        strings(all, 2, [&](const string &s) { line(s + "."); line(s + ".\r"); line("<" + s + "-->b>."); });
        strings(all, 2, [&](const string &s) { line("(^" + s + ",b)!"); line("$0.5$" + s + "(a)?"); line("{$" + s + "}."); });
        strings(all, 2, [&](const string &s) { line("\"" + s + "\"."); line("<a-->\"" + s + "\">."); });
        strings("a\\\" .(", H::deep() ? 7 : 6, [&](const string &s) { line("\"" + s + "\"."); });
        strings("a\\\".", 5, [&](const string &s) { line("<\"" + s + "\"-->\"" + s + "\">."); });
        strings("a1 _'`", 4, [&](const string &s) { line(s + "."); line("(" + s + "*b)."); });
    }
    H::phase("sequences of tokens");
    {
        vector<int> t1 = terms;
        std::function<void(const vector<string> &, int, const string &)> seq = [&](const vector<string> &al, int n, const string &p) { line(p); if (n > 0) for (auto &a : al) seq(al, n - 1, p + a); };
        vector<string> every; for (int t : terms) every.push_back(text(t));
        for (auto &a : every) for (auto &b : every) for (auto &c : every) { line(a + b + c + "."); }
        for (auto &a : every) for (auto &b : every) for (auto &c : every) { line("(" + a + b + c + ")."); if (H::deep()) { line("<" + a + b + c + ">."); line("{" + a + " " + b + " " + c + "}."); } }
        vector<string> few{"a", "(", ")", ",", "*", "^", "--", "-", "&"};
        seq(few, 5, "");
        std::function<void(int, const string &)> seqd = [&](int n, const string &p) { line("(" + p + ")."); if (n > 0) for (auto &a : few) seqd(n - 1, p + a); };
        seqd(H::deep() ? 6 : 5, "");
        std::function<void(int, const string &)> seqe = [&](int n, const string &p) { line("a" + p); if (n > 0) for (auto &a : {".", "?", "!", "@", ":|:", "%1%", ":!3:", "%", ";", "a"}) seqe(n - 1, p + a); };
        seqe(4, "");
        std::function<void(int, const string &)> seqb = [&](int n, const string &p) { line(p + "a."); if (n > 0) for (auto &a : {"$", ".5", ";", "1", "a", "(", " "}) seqb(n - 1, p + a); };
        seqb(H::deep() ? 7 : 5, "");
    }
    H::phase("blanks");
    {
        for (auto &[k, to] : go)
        {
            auto [s, x] = k;
            vector<int> p = path[s]; p.push_back(x);
            Stack st = stack_of(p);
            vector<int> c;
            if (!completion(st, c)) continue;
            auto y = yieldof(p);
            y.insert(y.end(), c.begin(), c.end());
            for (auto &g : {" ", "\t", "  ", " \t \t", "     "}) line(g + render(y, g));
            string plain = render(y);
            for (size_t i = 0; i <= plain.size(); i++) for (auto &g : {" ", "\t", " \t "}) line(plain.substr(0, i) + g + plain.substr(i));
        }
        for (int n = 0; n < 400; n += n < 20 ? 1 : 37) line(string(n, ' ') + "<" + string(n, ' ') + "a" + string(n, '\t') + "-->" + string(n, ' ') + "b>" + string(n, ' ') + "." + string(n, ' '));
    }
    H::phase("sizes");
    {
        vector<string> open{"{", "[", "(*,", "(&&,", "(|,", "(/,", "(\\,", "(^go,", "go(", "(", "(--,", "(-,"}, close{"}", "]", ")", ")", ")", ")", ")", ")", ")", ")", ")", ")"};
        for (size_t i = 0; i < open.size(); i++)
            for (int n = 0; n < (H::deep() ? 300 : 60); n++) { string m; for (int j = 0; j < n; j++) m += (j ? ",a" : "a"); for (auto &e : {"", ",", " , "}) line(open[i] + m + e + close[i] + "."); }
        for (auto &o : {"&", "|", "&|", "&/", "&&", "||", "*", "-", "~"}) for (int n = 1; n < 60; n++) { string m; for (int j = 0; j < n; j++) m += (j ? string(o) + "a" : "a"); line("(" + m + ")."); line("(" + m + o + ")."); line("(a-" + m + ")."); line("(~,b," + m + ")."); line("(~," + m + ",b)."); line("(" + m + "~" + m + ")."); }
        vector<int> large = H::deep() ? vector<int>{64, 100, 127, 128, 129, 255, 256, 257, 400, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 9000} : vector<int>{64, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2049, 4097};
        for (int n : large)
        {
            string m, o;
            for (int j = 0; j < n; j++) { m += j ? ",a" : "a"; o += j ? "*a" : "a"; }
            for (size_t i = 0; i < open.size(); i++) if (n < 600 || i % 4 == size_t(n) % 4) { line(open[i] + m + close[i] + "."); line(open[i] + m + close[i] + close[i] + "."); }
            line("(" + o + ")."); line("(" + o + "*)!");
            string a(n, 'a'), d(n, '1');
            for (auto t : {".", "? ", "@:|:"}) line(a + t);
            line("\"" + a + "\"."); line("\"" + a + "."); line("(^" + a + "," + a + ")."); line(a + "(" + a + "," + a + ")."); line("<$" + a + "-->#" + a + ">?"); line("a.%0." + d + ";0." + d + "%"); line("a.%1." + string(n, '0') + ";0." + d + "%"); line("a.%1." + d + "%"); line("$0." + d + "$a."); line("+" + string(n, '0') + "."); line("+" + string(n, '0') + "7."); line(string(n, ' ') + "a" + string(n, '\t') + "." + string(n, ' ')); line(string(n, ' ') + "a" + string(n, '\t') + ")" + string(n, ' '));
            if (n <= (H::deep() ? 1100 : 600)) for (auto &[l, r] : vector<pair<string, string>>{{"(--,", ")"}, {"--", ""}, {"{", "}"}, {"<", "-->b>"}, {"<b<=>", ">"}, {"(a*", ")"}, {"go(", ")"}, {"(^go,a,", ")"}, {"[b,", "]"}})
            {
                string x, y;
                for (int j = 0; j < n; j++) { x += l; y += r; }
                line(x + "a" + y + "."); line(x + "a" + y + r + (r.empty() ? "," : "."));
            }
        }
        vector<pair<string, string>> nest{{"(--,", ")"}, {"--", ""}, {"{", "}"}, {"[", "]"}, {"(*,", ")"}, {"<", "-->b>"}, {"<b<=>", ">"}, {"(a*", ")"}, {"(b-", ")"}, {"go(", ")"}, {"(^go,", ")"}, {"(/,", ")"}, {"(a,", ")"}, {"(", "==>b)"}};
        for (auto &a : nest) for (auto &b : nest) for (int n = 0; n < (H::deep() ? 40 : 12); n++)
        {
            string l, r;
            for (int j = 0; j < n; j++) { l += a.first + b.first; r = b.second + a.second + r; }
            line(l + "a" + r + "."); line(l + "a" + r + ")."); line(l + "a" + r.substr(0, r.empty() ? 0 : r.size() - 1) + "."); line("(" + l + "a" + r + ").");
        }
    }
    H::phase("end");
    H::infon("lines_accepted", nacc); H::infon("lines_rejected", nrej);
    return 0;
}
H_MAIN
