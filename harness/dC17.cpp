// C17: numbers arrive as written, what is not written gets its default. The reference reads the numerals with strtod/strtof.
#include "h.h"
#include "shim.h"
#include "Narsese/include/Interval.h"
#include <cmath>
#include <cfloat>
#include <climits>
#include <functional>
using std::string; using std::vector;
enum Kind { Unit, Open, Horizon, Int };
// does the grammar allow the numeral?
static bool allowed(Kind k, const string &s)
{
    size_t i = 0, n = s.size();
    auto dig = [&](size_t j) { return j < n && s[j] >= '0' && s[j] <= '9'; };
    auto all = [&](size_t j) { for (; j < n; j++) if (!dig(j)) return false; return true; };
    if (k == Int) { if (n && s[0] == '-') i = 1; return i < n && all(i); }
    if (k == Horizon) return n && s[0] != '0' && all(0);
    if (k == Unit)
    {
        if (s == "1" || s == "0") return true;
        if (n >= 2 && s[0] == '1' && s[1] == '.') { for (i = 2; i < n; i++) if (s[i] != '0') return false; return true; }
        if (n && s[0] == '0') i = 1;
        return i + 1 < n && s[i] == '.' && all(i + 1);
    }
    if (n && s[0] == '0') i = 1;
    if (!(i + 1 < n && s[i] == '.' && all(i + 1))) return false;
    return s.find_first_of("123456789", i) != string::npos;
}
static string num(double x) { char b[40]; snprintf(b, sizeof b, "%.17g", x); return b; }
// is the value the one written?
static bool written(Kind k, double got, const string &s)
{
    double d = strtod(s.c_str(), nullptr); float f = strtof(s.c_str(), nullptr);
    if (k == Int) return got == d;
    if (k == Open)
    {
        if (!(got > 0 && got < 1)) return false;
        if (f > 0 && f < 1 && (float)d > 0 && (float)d < 1) return got == f || got == (float)d || got == d;
        return fabs(got - d) < 1e-6;
    }
    return got == f || got == (float)d || got == d;
}
// is it beyond the type? 1 yes, 0 no, -1 may be rounded down
static int beyond(Kind k, const string &s)
{
    double d = strtod(s.c_str(), nullptr);
    if (k == Int) return d < INT_MIN || d > INT_MAX;
    if (k == Horizon) return d <= FLT_MAX ? 0 : std::isinf((float)d) ? 1 : -1;
    return 0;
}
struct Place { const char *name; Kind kind; string pre, post; std::function<double(TASK::Task &)> get; };
static TERM::pTerm at(TERM::pTerm t, int i) { if (t && t->subject) return i ? t->predicate : t->subject; if (t && t->terms) for (auto c : *t->terms) { if (i-- == 0) return c; } return nullptr; }
static double length(TERM::pTerm t) { auto v = t ? dynamic_cast<INTERVAL::Interval *>(&*t) : nullptr; return v ? (double)v->interval : NAN; }
static vector<Place> places()
{
    typedef TASK::Task &T;
    auto p = [](T t) { return (double)t.budget->priority; }; auto d = [](T t) { return (double)t.budget->durability; }; auto q = [](T t) { return (double)t.budget->quality; };
    auto f = [](T t) { return (double)t.sentence->truth->f; }; auto c = [](T t) { return (double)t.sentence->truth->c; }; auto k = [](T t) { return (double)t.sentence->truth->k; };
    auto o = [](T t) { return t.sentence->stamp->is_eternal ? NAN : (double)t.sentence->stamp->t_occurrence; };
    vector<Place> r{
        {"priority", Unit, "$", "$ A.", p}, {"priority of three", Unit, "$", ";.25;.75$ A? :|:", p}, {"durability", Open, "$.5;", "$ A!", d}, {"durability of three", Open, "$.5;", ";.75$ A.", d}, {"quality", Unit, "$.5;.25;", "$ A@", q},
        {"frequency", Unit, "A. %", "%", f}, {"frequency of a goal", Unit, "A! :/: %", ";.75;3%", f}, {"confidence", Open, "A. %.5;", "%", c}, {"confidence of a goal", Open, "A! %.5;", ";3%", c}, {"horizon", Horizon, "A. %.5;.75;", "%", k}, {"horizon of a goal", Horizon, "A! :!3: %.5;.75;", "%", k},
        {"time", Int, "A. :!", ":", o}, {"time of a question", Int, "A? :!", ":", o}, {"time of a goal", Int, "A! :!", ": %.5;.75%", o}, {"time of a quest", Int, "A@ :!", ":", o},
        {"interval", Int, "+", ".", [](T t) { return length(t.sentence->term); }}, {"first interval", Int, "(&/, +", ", B, +8)!", [](T t) { return length(at(t.sentence->term, 0)); }}, {"second interval", Int, "<(+6 &/ +", ") =/> C>?", [](T t) { return length(at(at(t.sentence->term, 0), 1)); }},
        {"interval of a product", Int, "(*, B, +", ").", [](T t) { return length(at(t.sentence->term, 1)); }}};
    return r;
}
static void one(Place &P, const string &s)
{
    if (!allowed(P.kind, s)) return;
    string l = P.pre + s + P.post;
    if (!H::tick(l.size() > 200 ? l.substr(0, 200) + "... (" + std::to_string(l.size()) + " characters)" : l)) return;
    H::trans(); H::trace(); H::state(string(P.name) + s);
    auto t = SHIM::parse(l);
    int b = beyond(P.kind, s);
    string e;
    if (!t) { if (!b) e = "the line is rejected"; }
    else if (b > 0) e = "the number is beyond its type, but the line is accepted, with " + num(P.get(*t));
    else if (!b) { double g = P.get(*t); if (!written(P.kind, g, s)) e = string(P.name) + " is " + num(g); }
    if (!e.empty()) H::fail(string(P.name) + (b ? " beyond its type" : ""), e);
}
// ---- missing values ----
struct Conf { const char *name; float *at; };
static vector<Conf> confs()
{
    using namespace CONFIG;
#define X(n) {#n, &CONFIG::n}
    return {X(priority), X(durability), X(quality), X(f), X(c), X(c_judgement), X(c_goal), X(k), X(p_judgement), X(d_judgement), X(p_question), X(d_question), X(p_quest), X(d_quest), X(p_goal), X(d_goal)};
#undef X
}
static bool near(double a, double b) { return fabs(a - b) < 1e-6; }
static void task(const string &what, int punct, const vector<string> &b, const string &tense, const vector<string> &tr, const string &term = "A")
{
    string l;
    auto put = [&](const vector<string> &v, char c) { l += c; for (size_t i = 0; i < v.size(); i++) l += (i ? ";" : "") + v[i]; l += c; };
    if (!b.empty()) { put(b, '$'); l += " "; }
    l += term + ".?!@"[punct];
    if (!tense.empty()) l += " " + tense;
    if (!tr.empty()) { l += " "; put(tr, '%'); }
    if (!H::tick(what + l)) return;
    H::trans(); H::trace(); H::state(what + l);
    auto t = SHIM::parse(l);
    if (!t) { H::fail("rejected", "the line is rejected"); return; }
    auto &S = *t->sentence;
    string e;
    auto is = [&](const char *n, Kind k, double got, const vector<string> &v, size_t i, double def)
    {
        if (!e.empty()) return;
        if (i < v.size()) { if (!written(k, got, v[i])) e = string(n) + " is " + num(got) + " instead of " + v[i]; }
        else if (!near(got, def)) e = string(n) + " is " + num(got) + " instead of the default " + num(def);
    };
    bool truth = punct == 0 || punct == 2; // judgement, question, goal, quest
    double Q = 1;
    using namespace CONFIG;
    if (truth)
    {
        if (!S.truth) e = "there is no truth value";
        else
        {
            bool none = tr.empty();
            is("frequency", Unit, S.truth->f, tr, 0, CONFIG::f); is("confidence", Open, S.truth->c, tr, 1, none ? CONFIG::c : punct == 0 ? c_judgement : c_goal); is("horizon", Horizon, S.truth->k, tr, 2, CONFIG::k);
            double x = (double)S.truth->c * (S.truth->f - 0.5) + 0.5;
            Q = std::max(x, (1 - x) * 0.75);
        }
    }
    else if (S.truth) e = "a question has a truth value";
    if (e.empty() && !t->budget) e = "there is no budget";
    if (e.empty())
    {
        auto &B = *t->budget;
        bool none = b.empty();
        is("priority", Unit, B.priority, b, 0, none ? priority : punct == 0 ? p_judgement : punct == 1 ? p_question : punct == 2 ? p_goal : p_quest);
        is("durability", Open, B.durability, b, 1, none ? durability : punct == 0 ? d_judgement : punct == 1 ? d_question : punct == 2 ? d_goal : d_quest);
        is("quality", Unit, B.quality, b, 2, none ? quality : Q);
    }
    if (e.empty() && S.stamp->is_eternal != tense.empty()) e = "eternal or not, wrongly";
    if (e.empty() && tense.size() > 3 && S.stamp->t_occurrence != strtol(tense.c_str() + 2, nullptr, 10)) e = "the time is " + std::to_string(S.stamp->t_occurrence);
    if (!e.empty()) H::fail(e.substr(0, e.find(' ')) + (e.find("default") != string::npos ? " by default" : ""), e);
}
int H::run()
{
    auto P = places();
    H::phase("short numerals");
    {
        const string A = H::deep() ? "0123456789.-" : "01259.-";
        string s;
        for (auto &p : P)
        {
            std::function<void(int)> go = [&](int d) { if (!s.empty()) one(p, s); if (d) for (char c : A) { if (c == '-' && (!s.empty() || p.kind != Int)) continue; if (c == '.' && (p.kind >= Horizon || s.find('.') != string::npos)) continue; s += c; go(d - 1); s.pop_back(); } };
            go(H::deep() ? 6 : 5);
        }
    }
    H::phase("three and four decimals, integers");
    for (auto &p : P)
    {
        if (p.kind <= Open) for (int i = 0; i <= 10000; i += (H::deep() || i % 10 || i < 200 || i > 9800) && (i < 200 || i >= 9800 || H::deep()) ? 1 : 10) { char b[20]; snprintf(b, sizeof b, "%.4f", i / 10000.0); one(p, b); snprintf(b, sizeof b, "%.3f", i / 10000.0); if (i % 10 == 0) one(p, b); }
        else for (long i = -3000; i <= 3000; i += H::deep() ? 1 : 7) one(p, std::to_string(i));
    }
    H::phase("long and extreme numerals");
    for (auto &p : P)
    {
        auto rep = [](const char *s, int n) { string r; while (n-- > 0) r += s; return r; };
        vector<int> lens; for (int i = 0; i <= 60; i++) lens.push_back(i);
        for (int i : {100, 126, 127, 128, 255, 256, 300, 310, 320, 330, 400, 1000, 5000}) lens.push_back(i);
        for (int n : lens)
        {
            if (p.kind <= Open) for (string z : {"", "0"}) for (string tail : {"1", "5", "9", "123456789", "987654321012345678901234567890"})
            {
                one(p, z + "." + rep("0", n) + tail); one(p, z + "." + rep("9", n) + tail); one(p, z + "." + rep("5", n) + tail); one(p, z + "." + tail + rep("0", n)); one(p, z + "." + tail + rep("12", n));
            }
            if (p.kind == Unit) { one(p, "1." + rep("0", n)); one(p, "." + rep("0", n + 1)); one(p, "0." + rep("0", n + 1)); }
            if (p.kind == Horizon) for (string h : {"1", "9", "123", "340282", "3402823466385288598", "3402823669209384634"}) { one(p, h + rep("0", n)); one(p, h + rep("9", n)); }
            if (p.kind == Int) for (string sg : {"", "-"}) { one(p, sg + rep("0", n + 1)); one(p, sg + rep("0", n) + "7"); one(p, sg + "1" + rep("0", n)); one(p, sg + rep("9", n + 1)); one(p, sg + rep("0", n) + "2147483647"); }
        }
        if (p.kind == Int) for (int b = 0; b < 70; b++) for (int d = -2; d <= 2; d++) for (int sg : {1, -1})
        {
            __int128 v = (((__int128)1 << b) + d) * sg; bool neg = v < 0; if (neg) v = -v;
            string s; do { s = char('0' + (int)(v % 10)) + s; v /= 10; } while (v); one(p, (neg ? "-" : "") + s);
        }
        if (p.kind == Horizon)
        {
            for (const char *s : {"340282346638528859811704183484516925440", "340282346638528859811704183484516925441", "340282346638528859811704183484516925439", "340282356779733661637539395458142568447", "340282356779733661637539395458142568448", "340282366920938463463374607431768211456", "340282366920938463463374607431768211455", "340282366920938463463374607431768211457", "16777215", "16777216", "16777217", "33554433", "33554435", "179769313486231570000000000000"}) one(p, s);
            for (int b = 0; b < 120; b++) for (int d = -1; d <= 1; d++) { unsigned __int128 v = ((unsigned __int128)1 << b) + d; if (!v) continue; string s; do { s = char('0' + (int)(v % 10)) + s; v /= 10; } while (v); one(p, s); }
        }
    }
    H::phase("what is written and what is not");
    vector<vector<string>> bs{{}}, ts{{}};
    auto fill = [](vector<vector<string>> &to, vector<vector<string>> v) { for (auto &a : v[0]) { to.push_back({a}); for (auto &b : v[1]) { to.push_back({a, b}); for (auto &c : v[2]) to.push_back({a, b, c}); } } };
    fill(bs, {{"0", "1", "0.3", ".62"}, {"0.01", "0.99", ".41"}, {"0", "1.0", "0.77"}});
    fill(ts, {{"0", "1", "0.35", ".5"}, {"0.02", ".98", "0.45"}, {"1", "7", "100"}});
    vector<string> tenses{"", ":!12:", ":!-5:", ":|:", ":/:", ":\\:"};
    for (int p = 0; p < 4; p++) for (auto &b : bs) for (auto &tn : tenses) for (auto &t : ts) if (t.empty() || p == 0 || p == 2) task("", p, b, tn, t);
    for (const char *term : {"<A --> B>", "(&&, A, B)", "^go", "+4", "<A ==> (--, B)>"}) for (int p = 0; p < 4; p++) for (size_t i = 0; i < bs.size(); i += 3) for (size_t j = 0; j < ts.size(); j += 3) if (!j || p == 0 || p == 2) task("", p, bs[i], "", ts[j], term);
    H::phase("configured defaults");
    auto C = confs();
    vector<vector<string>> b4{{}, {".62"}, {".62", ".41"}, {".62", ".41", ".77"}}, t4{{}, {".35"}, {".35", ".45"}, {".35", ".45", "7"}};
    auto all = [&](const string &what) { for (int p = 0; p < 4; p++) for (auto &b : b4) for (auto &tn : {tenses[0], tenses[1]}) for (auto &t : t4) if (t.empty() || p == 0 || p == 2) task(what, p, b, tn, t); };
    // the documented defaults themselves
    {
        struct D { const char *n; float *at; float want; };
        for (auto &d : vector<D>{{"f", &CONFIG::f, 1}, {"c", &CONFIG::c, .9f}, {"c_judgement", &CONFIG::c_judgement, .9f}, {"c_goal", &CONFIG::c_goal, .9f}, {"k", &CONFIG::k, 1}, {"priority", &CONFIG::priority, .8f}, {"durability", &CONFIG::durability, .8f}, {"quality", &CONFIG::quality, .5f}, {"p_judgement", &CONFIG::p_judgement, .8f}, {"d_judgement", &CONFIG::d_judgement, .5f}, {"p_question", &CONFIG::p_question, .9f}, {"d_question", &CONFIG::d_question, .9f}, {"p_quest", &CONFIG::p_quest, .9f}, {"d_quest", &CONFIG::d_quest, .9f}, {"p_goal", &CONFIG::p_goal, .9f}, {"d_goal", &CONFIG::d_goal, .9f}})
        {
            if (!H::tick(string("default of CONFIG::") + d.n)) continue;
            H::trace();
            if (!near(*d.at, d.want)) H::fail("documented", string("CONFIG::") + d.n + " is " + num(*d.at) + " instead of " + num(d.want));
        }
        all("");
    }
    for (auto &a : C) for (float v : {0.125f, 0.6875f, 64.f})
    {
        if (v > 1 && string(a.name) != "k") continue;
        float o = *a.at; *a.at = v;
        all(string("CONFIG::") + a.name + " " + num(v) + ": ");
        if (H::deep()) for (auto &b : C) if (a.at != b.at) { float o2 = *b.at; *b.at = 0.3125f; all(string("CONFIG::") + a.name + " " + num(v) + ", " + b.name + ": "); *b.at = o2; }
        *a.at = o;
    }
    {
        vector<float> old; float v = 0.03125f; for (auto &a : C) { old.push_back(*a.at); *a.at = v; v += 0.0546875f; }
        all("all CONFIG values distinct: ");
        for (size_t i = 0; i < C.size(); i++) *C[i].at = old[i];
    }
    return 0;
}
H_MAIN
