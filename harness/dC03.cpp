// C03: what is printed can be read back. C18 (-DCOLOR): coloured output says the same as plain output.
#include "h.h"
#include "fam.h"
#include <cmath>
using namespace FAM;
using INTERPRETER::interpreter;
using TASK::Task; using TASK::pTask;
using SENTENCE::Sentence; using SENTENCE::pSentence;

static bool singleton(const R &r)
{
    if (r.k == M::COMP)
    {
        bool two = r.op == M::CONJ || r.op == M::DISJ || r.op == M::PAR || r.op == M::SEQ || r.op == M::INTINT || r.op == M::EXTINT || r.op == M::EXTDIFF || r.op == M::INTDIFF;
        if (two && r.c.size() < 2) return true;
        if ((r.op == M::EXTDIFF || r.op == M::INTDIFF) && r.c.size() != 2) return true;
        if (r.op == M::NEG && r.c.size() != 1) return true;
        if (r.op == M::LIST) return true;
    }
    for (auto &x : r.c) if (singleton(x)) return true;
    return false;
}
static string strip(const string &s)
{
    string r;
    for (size_t i = 0; i < s.size(); i++)
    {
        if (s[i] == 27 && i + 1 < s.size() && s[i + 1] == '[')
        {
            size_t j = i + 2;
            while (j < s.size() && (isdigit(s[j]) || s[j] == ';')) j++;
            if (j < s.size() && s[j] == 'm') { i = j; continue; }
        }
        r += s[i];
    }
    return r;
}
static string print(Term &t, bool c = false) { return interpreter.interpret(t, c); }
static string print(Sentence &t, bool c = false) { return interpreter.interpret(t, c); }
static string print(Task &t, bool c = false) { return interpreter.interpret(t, c); }

// plain, coloured, plain again
template <class T> static bool colours(T &t, const char *kind, bool task = false)
{
    string a, b, c;
    try { a = print(t); b = print(t, true); c = print(t); print(t, true); }
    catch (std::exception &e) { H::fail("throws", string("printing a ") + kind + " fails: " + e.what()); return false; }
    if (a != c) { H::fail("changes", string("printing a ") + kind + " again gives " + c + " after " + a); return false; }
    if (!task)
    {
        if (strip(b) != a) { H::fail("colour", string("coloured ") + kind + " says " + strip(b) + " but plain " + a); return false; }
        return true;
    }
    // " p  d  q  sentence" against "$p;d;q$ sentence"
    string s = strip(b), want;
    size_t e = a.find("$ ", 1);
    string nums = a.substr(1, e - 1);
    want = " ";
    for (char ch : nums) if (ch == ';') want += "  "; else want += ch;
    want += "  " + a.substr(e + 2);
    if (s != want) { H::fail("colour", "coloured task says " + s + " but plain " + a); return false; }
    return true;
}

static R shown(Term &t) { return M::extract(t); }
// The printed term read back.
static void term(pTerm t, const string &how)
{
    string before = M::show(*t);
    if (!H::tick(how + " " + before)) return;
    H::trace(); H::trans();
#ifdef COLOR
    if (!colours(*t, "term")) return;
    H::state(print(*t));
    if (M::show(*t) != before) H::fail("changes", "printing changed the term");
#else
    R r;
    try { r = shown(*t); } catch (M::Bad &b) { return; }
    if (singleton(r)) { H::S.executed--; return; }
    string p;
    try { p = print(*t); } catch (std::exception &e) { H::fail("throws", string("printing fails: ") + e.what()); return; }
    H::state(p);
    bool wrap = t->is_atom() && t->is_var;
    auto u = SHIM::parse(wrap ? "(*, " + p + ")." : p + ".");
    if (u == nullptr) { H::fail("unreadable", "printed as " + p + ", which is rejected"); return; }
    pTerm b = u->sentence->term;
    if (wrap) { if (!b->is_compound() || b->terms->size() != 1) { H::fail("different", p); return; } b = *b->terms->begin(); }
    R rb = shown(*b);
    if (!M::alpha_eq(r, rb)) { H::fail("different", "printed as " + p + ", which is read as " + M::canon(rb)); return; }
    string p2 = print(*b);
    if (!M::has_var(r) && p2 != p) { H::fail("fixpoint", "printed as " + p + ", which is read and printed as " + p2); return; }
    auto v = SHIM::parse(wrap ? "(*, " + p2 + ")." : p2 + ".");
    if (v == nullptr) { H::fail("unreadable", "printed as " + p2 + ", which is rejected"); return; }
    pTerm b2 = v->sentence->term;
    if (wrap) b2 = *b2->terms->begin();
    if (!M::alpha_eq(r, shown(*b2))) H::fail("fixpoint", "read the second time as " + M::show(*b2));
#endif
}
static bool numbers(const string &s, vector<double> &v)
{
    v.clear();
    for (size_t i = 0; i < s.size();)
    {
        char *e;
        double d = strtod(s.c_str() + i, &e);
        if (e == s.c_str() + i) return false;
        v.push_back(d);
        i = e - s.c_str();
        if (i < s.size()) { if (s[i] != ';') return false; i++; }
    }
    return true;
}
static void task(pTask t, const string &how)
{
    if (!H::tick(how)) return;
    H::trace(); H::trans();
    auto &se = *t->sentence;
#ifdef COLOR
    if (!colours(*t, "task", true) || !colours(se, "sentence") || !colours(*se.term, "term")) return;
    H::state(print(*t));
#else
    string p, ps;
    try { p = print(*t); ps = print(se); } catch (std::exception &e) { H::fail("throws", string("printing fails: ") + e.what()); return; }
    H::state(p);
    auto back = [&](const string &p, bool budget) {
        auto u = SHIM::parse(p);
        if (u == nullptr) { H::fail("unreadable", "printed as " + p + ", which is rejected"); return; }
        auto &s2 = *u->sentence;
        if (!M::alpha_eq(shown(*se.term), shown(*s2.term))) { H::fail("different", "printed as " + p + ", which has the term " + M::show(*s2.term)); return; }
        if (s2.punct != se.punct) { H::fail("punct", "printed as " + p + ", which has another punctuation"); return; }
        if (s2.stamp->is_eternal != se.stamp->is_eternal || s2.stamp->tense() != se.stamp->tense()) { H::fail("tense", "printed as " + p + ", which has another tense"); return; }
        bool has_truth = se.is_judgement() || se.is_goal();
        vector<double> v;
        if (has_truth)
        {
            size_t e = p.rfind('%'), b = p.rfind('%', e - 1);
            if (e == string::npos || b == string::npos || !numbers(p.substr(b + 1, e - b - 1), v) || v.size() != 2) { H::fail("truth", "no truth value shown in " + p); return; }
            if (fabs(v[0] - se.truth->f) > 0.000501 || fabs(v[1] - std::min(std::max(se.truth->c, 0.001f), 0.999f)) > 0.000501) { H::fail("truth", "shows another truth value than the sentence has: " + p); return; }
            if (s2.truth == nullptr || s2.truth->f != (float)v[0] || s2.truth->c != (float)v[1]) { H::fail("truth", "read with another truth value than shown in " + p); return; }
        }
        else if (s2.truth != nullptr) { H::fail("truth", "a question with a truth value: " + p); return; }
        if (budget)
        {
            size_t e = p.find('$', 1);
            if (p[0] != '$' || !numbers(p.substr(1, e - 1), v) || v.size() != 3) { H::fail("budget", "no budget shown in " + p); return; }
            auto &b = *t->budget;
            auto cl = [](double x, double lo) { return x >= lo ? (x <= 1 - lo ? x : 1 - lo) : lo; };
            if (fabs(v[0] - cl(b.priority, 0)) > 0.00551 || fabs(v[1] - cl(b.durability, 0.01)) > 0.00551 || fabs(v[2] - cl(b.quality, 0)) > 0.00551) { H::fail("budget", "shows another budget than the task has: " + p); return; }
            auto &b2 = *u->budget;
            if ((float)b2.priority != (float)v[0] || (float)b2.durability != (float)v[1] || b2.quality != (float)v[2]) { H::fail("budget", "read with another budget than shown in " + p); return; }
        }
        string p2 = budget ? print(*u) : print(s2);
        if (!M::has_var(shown(*se.term)) && p2 != p) H::fail("fixpoint", "printed as " + p + ", which is read and printed as " + p2);
    };
    back(p, true);
    back(ps, false);
#endif
}

int H::run()
{
    auto fam = family(H::deep() ? 2 : 1);
    H::phase("terms");
    for (auto &e : fam)
    {
        R r = numbered(e);
        bool ok;
        pTerm p = parse_term(e, ok);
        if (ok) term(p, "parsed");
        term(build(r), "built");
        struct F { static void go(R &r, int d) { if (r.k == M::VAR) r.idx = r.idx * 7 + d; for (auto &x : r.c) go(x, d); } };
        F::go(r, 3);
        Opt o; o.input = false; o.order = 1;
        term(build(r, o), "built with other numbers");
        term(Term::clone(build(r)), "cloned");
    }
    H::phase("operations and many components");
    {
        auto more = with_operations(true), w = wide(H::deep() ? vector<int>{3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 31, 33, 65, 120} : vector<int>{3, 5, 8, 9, 10, 11, 13, 17, 33});
        if (!H::deep()) for (auto &e : wide({130})) if (e.t.size() < 500) w.push_back(e);
        more.insert(more.end(), w.begin(), w.end());
        for (auto &e : more)
        {
            bool ok;
            pTerm p = parse_term(e, ok);
            if (ok) term(p, "parsed");
            term(build(numbered(e)), "built");
        }
    }
    H::phase("many variables");
    for (char k : {'$', '#', '?'}) for (int n : H::deep() ? vector<int>{10, 11, 99, 100, 101, 102, 127, 128, 129, 130, 255, 256, 257, 258, 999, 1001} : vector<int>{11, 101, 102, 129, 130, 257})
    {
        vector<E> a;
        for (int i = 0; i < n; i++) a.push_back(var(k, "w" + std::to_string(i)));
        a.push_back(a[0]); a.push_back(a[n - 1]);
        bool ok; E e = prefix(M::PROD, a);
        pTerm t = parse_term(e, ok);
        if (ok) term(t, "parsed"); else if (H::tick("many variables")) H::fail("rejected", "rejected");
        term(build(numbered(e)), "built");
    }
    H::phase("names");
    {
        vector<string> in; // inside quotes
        for (int c = 1; c < 256; c++)
        {
            if (c == '"' || c == '\\' || c == '\n' || c == '\t') continue;
            in.push_back(string(1, (char)c)); in.push_back(string("a") + (char)c + "b");
            for (int d = 32; d < 127 && c >= 32 && c < 127; d++) if (d != '"' && d != '\\') in.push_back(string() + (char)c + (char)d);
        }
        for (auto s : {"", "{}", "{{}}", "{0}", "{:d}", "{0:>10}", "%s%n", "A --> B", "<A --> B>.", "$1", "a, b", ")", "^op", "x\\\\", "\\\"", "a\\\"b"}) in.push_back(s);
        vector<string> names;
        for (auto &s : in) names.push_back("\"" + s + "\"");
        for (auto s : {"é", "日本", "\xf0\x9f\x98\x80", "\xff\xfe", "a\xc2\xa0" "b"}) { names.push_back(s); names.push_back(string("\"") + s + " " + s + "\""); }
        for (int c = 1; c < 256; c++) if (wordch((char)c)) { names.push_back(string(1, (char)c)); names.push_back(string("n") + (char)c); for (int d = 33; d < 127 && c > 32 && c < 127; d++) if (wordch((char)d)) names.push_back(string() + (char)c + (char)d); }
        for (int n = 1; n < 200; n += 13) names.push_back(string(n, 'l'));
        vector<E> v;
        for (auto &n : names)
        {
            bool esc = n.find('\\') != string::npos;
            for (auto &e : {word(n), oper(n), opcall1(n, {word(n)}), set(M::EXTSET, {word(n), word("B")}), stat(oper(n), 0, word(n)), opcall2(n, {word(n), var('$', n)})})
            {
                bool ok; string line;
                pTerm t = parse_term(e, ok, &line);
                if (ok) term(t, "parsed " + line);
                else if (H::tick(line) && !esc) H::fail("rejected", "rejected");
                if (n.size() > 3 && n.size() < 20) continue;
                if (n.size() == 4 && n[0] == '"') break;
            }
        }
#ifdef COLOR
        // names that only the constructors can give
        for (int c = 1; c < 256; c++) for (auto &f : {string(1, (char)c), string("a") + (char)c, string("{") + (char)c + "}", string() + (char)c + (char)c + "z"})
        {
            pTerm a = Term::create(f.c_str());
            term(a, "created by name"); term(FAM::mkcomp(M::EXTSET, {a}, {}), "set of it"); term(pTerm(new STATEMENT::Statement(a, COPULA::Copula::Inheritance, a, true)), "statement of it");
            task(pTask(new Task(BUDGET::Budget::create(0.5, 0.5, 0.5), pSentence(new SENTENCE::Question(a)))), "question of " + f);
        }
#endif
    }
    H::phase("tasks");
    {
        vector<E> some = {word("A"), stat(word("A"), 0, var('?', "x")), opcall1("go", {word("A")}), opcall1("go", {}), set(M::INTSET, {word("\"%f;$\"")}), infix(M::SEQ, {word("A"), ivl("-4"), word("B")}), oper("go"), ivl("5"), neg(word("A"))};
        vector<string> tense = {"", ":/:", ":|:", ":\\:", ":!0:", ":!7:", ":!-7:", ":!4:", ":!5:", ":!-5:", ":!-4:", ":!2147483647:", ":!-2147483648:"};
        vector<string> budg = {"", "$0.5$", "$0.5;0.4$", "$1.0;0.9;0.0$", "$0;0.004;1$", "$0.995;0.995;0.995$", "$0.005;0.005;0.005$", "$0.125;0.125;0.125$", "$.9999;.9999;.9999$", "$0.015;0.014999;0.0149$"};
        vector<string> tru = {"", "%1%", "%0%", "%0.5%", "%0.5;0.5%", "%1.0;0.9995%", "%0;0.0004%", "%0.9996;0.99999%", "%0.0005;0.0005%", "%0.3333;0.6666;2%", "%1;0.000001%", "%0.1235;0.8765%"};
        for (long now : {0, 3, 100}) for (auto &e : some) for (int p = 0; p < 4; p++) for (auto &te : tense) for (auto &b : budg) for (auto &tr : tru)
        {
            if ((p == 1 || p == 3) && !tr.empty()) continue;
            if (!H::deep() && now && &e != &some[1]) continue;
            string line = b + (b.empty() ? "" : " ") + text(e.t) + ".?!@"[p] + " " + te + " " + tr;
            if (H::S.only >= 0 && (long)H::S.n + 1 != H::S.only) { task(pTask(), line); continue; }
            GLOBAL::time = now;
            auto t = SHIM::parse(line);
            if (t == nullptr) { if (H::tick(line)) H::fail("rejected", "rejected"); continue; }
            task(t, line + " at " + std::to_string(now));
        }
        GLOBAL::time = 0;
        // built tasks: values on a fine grid, and values out of range
        vector<float> g = {0, 1, 0.5f, 1e-9f, 0.0004f, 0.0005f, 0.00051f, 0.001f, 0.9989f, 0.9994f, 0.9995f, 0.9999f, 0.9999999f, 0.005f, 0.0149f, 0.015f, 0.994f, 0.995f, 0.9951f, 0.99949f};
        int N = H::deep() ? 1000 : 100;
        for (int i = 0; i <= N; i++) { g.push_back(i / (float)N); g.push_back(i / (float)N + 0.00049f > 1 ? 1 : i / (float)N + 0.00049f); }
        vector<float> bad = {-1, 2, 1e30f, -1e30f, NAN, INFINITY, -0.0001f, 1.0001f};
        pTerm A = Term::create("A");
        for (auto x : g) for (int w = 0; w < 4; w++)
        {
            float y = w % 2 ? 1 - x : 0.3f;
            auto tr = TRUTH::Truth::create(w < 2 ? x : y, w < 2 ? y : x, 1.0f);
            auto b = BUDGET::Budget::create(w == 0 ? x : 0.25f, w == 1 ? x : 0.25f, w == 2 ? x : 0.25f);
            char d[200]; snprintf(d, sizeof d, "task built with value %.9g, %d", x, w);
            for (int p = 0; p < 2; p++)
                task(pTask(new Task(b, p ? pSentence(new SENTENCE::Goal(A, tr)) : pSentence(new SENTENCE::Judgement(A, tr)))), string(d) + (p ? "!" : "."));
        }
        for (auto x : bad) for (int w = 0; w < 3; w++)
        {
            auto b = BUDGET::Budget::create(w == 0 ? x : 0.25f, w == 1 ? x : 0.25f, w == 2 ? x : 0.25f);
            char d[200]; snprintf(d, sizeof d, "task built with budget out of range %.9g, %d", x, w);
            task(pTask(new Task(b, pSentence(new SENTENCE::Quest(A)))), d);
        }
        // built sentences without truth values, with every time of occurrence around the clock
        for (int now : {0, 5, 6, 1000}) for (int occ = now - 12; occ <= now + 12; occ++) for (int p = 0; p < 4; p++)
        {
            GLOBAL::time = now;
            auto st = SENTENCE::Stamp::create((int)occ);
            char d[200]; snprintf(d, sizeof d, "sentence %c built with time of occurrence %d at %d", ".?!@"[p], occ, now);
            auto se = pSentence(new Sentence(A, (SENTENCE::PUNCTUATION::Punctuation)p, nullptr, st));
            task(pTask(new Task(BUDGET::Budget::create(0.5, 0.5, 0.5), se)), d);
        }
        GLOBAL::time = 0;
    }
#ifndef COLOR
    H::phase("one-operand junctions");
    for (auto c : {"&&", "||", "&|", "|", "&"})
    {
        string line = string("(") + c + ", A, A).";
        if (!H::tick(line)) continue;
        H::trace(); H::trans();
        auto t = SHIM::parse(line);
        if (t == nullptr) { H::fail("rejected", "rejected"); continue; }
        string p = print(*t->sentence->term);
        auto u = SHIM::parse(p + ".");
        if (u == nullptr) { H::fail(p == string("(") + c + ", A)" ? "singleton(" + string(c) + ", A, A)" : string("unreadable"), "printed as " + p + ", which is rejected"); continue; }
        if (!M::alpha_eq(shown(*t->sentence->term), shown(*u->sentence->term))) H::fail("different", "printed as " + p + ", which is read as something else");
    }
#endif
    return 0;
}
H_MAIN
