// C04: histories of lines on one or several parsers, compared with a fresh parser.
#include "h.h"
#include "gen.h"
#include "shim.h"
#include "describe.h"
using namespace G;
using TASK::pTask;

static std::map<string, string> alone; // outcome on a fresh parser
static const string &fresh(const string &line)
{
    auto it = alone.find(line);
    if (it != alone.end()) return it->second;
    void *p = SHIM::new_parser();
    string d;
    { pTask t = SHIM::parse(p, line); d = D::task(t); }
    SHIM::del_parser(p);
    return alone[line] = d;
}
typedef vector<std::pair<int, string>> Hist; // which parser, line
static string show(const Hist &h)
{
    string s;
    for (auto &x : h) s += (s.empty() ? "" : " | ") + std::to_string(x.first) + ": " + (x.second.size() > 120 ? x.second.substr(0, 120) + "..." : x.second);
    return s;
}
static vector<pTask> keep;
static void hist(const Hist &h, int checklast, bool held, vector<void *> *ps = nullptr)
{
    if (!H::tick(show(h) + (held ? " (results held)" : ""))) return;
    vector<void *> own(3, nullptr);
    auto &p = ps ? *ps : own;
    vector<std::pair<pTask, string>> res;
    string state;
    for (size_t i = 0; i < h.size(); i++)
    {
        auto &[k, l] = h[i];
        if (!p[k]) p[k] = SHIM::new_parser();
        pTask t = SHIM::parse(p[k], l);
        H::trans();
        if ((int)(h.size() - i) <= checklast)
        {
            string d = D::task(t);
            const string &want = fresh(l);
            state += d;
            if (d != want) { H::fail("differs", "line " + std::to_string(i + 1) + " gives " + d + " but on a fresh parser " + want); break; }
        }
        if (held && t != nullptr) res.push_back({t, fresh(l)});
    }
    for (auto &r : res) if (D::task(r.first) != r.second) { H::fail("changed", "the result of an earlier line became " + D::task(r.first) + " instead of " + r.second); break; }
    res.clear();
    H::trace(); H::state(show(h));
    if (!ps) for (auto x : own) if (x) SHIM::del_parser(x);
}

int H::run()
{
    string deep = string(60, '(') + "--, A" + string(60, ')'), longline = "<(*", manyvars = "(*";
    for (int i = 0; i < 200; i++) { longline += ", word" + std::to_string(i); manyvars += string(", ") + "$#?"[i % 3] + "v" + std::to_string(i % 37); }
    longline += ") --> B>. :|: %0.5%"; manyvars += ").";
    deep = "A"; for (int i = 0; i < 70; i++) deep = "(--, " + deep + ")";
    vector<string> good = {"A.", "<$x --> B>. %0.5;0.4%", "<(*, #y, $x, ?z, #y) --> ^go>! :|: %0.3%", "$0.5;0.4;0.3$ (^go, {A}, $x)? :/:", "<<$x --> $y> ==> <$y --> #x>>.", "(&&, <$1 --> A>, <$2 --> B>, <$1 <-> $2>)@", "{A, B}. :!17:", "(A &/ +3 &/ $y). ", "  \"q r\" .  ", "op(a, b)!", manyvars, longline, deep + ".", "[A, [B]]. :\\:", "<A {-] B>? ", "$1.0$ (--, --A). %1.0;0.99;2%", "<\u65e5\u672c --> $\u8a9e>!", "(\xe9, #\xff, \"\x80 \xc3\").", "($\x81 &/ #\x81)?"};
    vector<string> bad = {"", " ", "<A -->", "<A --> B>", "<$x --> #y> . %0.5", "$x.", "((((((", "A. B.", "<A --> \x80>.", "$0.5;0.4 A.", "\"abc", "A. %2%", "(+99999999999, A).", "A.\nB.", "<A =", ")", "<{$x, #y} --> (^go, ?z", string(300, '('), "A. :!", string("A\0.", 3), deep, "(&&, A)."};
    vector<string> all = good;
    all.insert(all.end(), bad.begin(), bad.end());
    size_t n = all.size();
    H::infon("lines", n);
    for (auto &l : all) fresh(l);
    H::phase("the first line of a fresh parser, again");
    for (auto &l : all) { alone.erase(l); for (int i = 0; i < 3; i++) hist({{0, l}}, 1, false); }
    H::phase("pairs");
    for (auto &a : all) for (auto &b : all) { hist({{0, a}, {0, b}}, 1, true); hist({{0, a}, {1, b}, {0, b}}, 2, false); }
    H::phase("triples");
    vector<void *> three(3, nullptr); // two parsers which keep reading
    vector<string> some(good.begin(), good.begin() + 6);
    for (int i : {2, 4, 9, 12, 13, 16, 17, 19}) some.push_back(bad[i]);
    if (H::deep()) some = all;
    size_t stride = 1;
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) for (size_t k = 0; k < good.size(); k += stride) hist({{0, all[i]}, {0, all[j]}, {0, all[k]}}, 1, (i + j) % 2, &three);
    for (auto &a : some) for (auto &b : some) for (auto &c : some) hist({{0, a}, {0, b}, {0, c}}, 1, true);
    for (auto &a : some) for (auto &b : some) for (auto &c : some) for (int m = 1; m < 7; m++) hist({{m & 1, a}, {m >> 1 & 1, b}, {m >> 2 & 1, c}, {0, a}}, 3, false, &three);
    if (H::deep()) for (auto &a : good) for (auto &b : bad) for (auto &c : some) for (auto &d : good) hist({{0, a}, {0, b}, {0, c}, {0, d}}, 1, true, &three);
    H::phase("a line of every kind, then another");
    vector<string> kinds;
    {
        auto add = [&](const string &l) { if (std::find(kinds.begin(), kinds.end(), l) == kinds.end()) kinds.push_back(l); };
        vector<E> v = {word("A"), var('$', "x"), var('#', "x"), var('?', "x"), var('$', "y"), var('#', "y"), var('?', "y")};
        tuples(v, 2, [&](const vector<E> &a) { add(text(stat(a[0], M::INH, a[1]).t) + "."); }); // every set of variables
        for (auto &f : forms()) // every notation
        {
            vector<E> a;
            for (int i = 0; i < std::max(1, f.lo); i++) a.push_back(i ? word("A") : var('$', "x"));
            add(text(f.f(a).t) + ".");
            a.back() = word("B"); if (a.size() == 1) a[0] = var('?', "z");
            add(text(f.f(a).t) + "?");
        }
        for (auto &l : leaves()) if (l.nonvar) add(text(l.t) + ".");
        for (string p : {".", "!", "?", "@"}) for (string t : {"", " :|:", " :/:", " :\\:", " :!5:"}) for (string b : {"", "$0.1$ ", "$0.1;0.2$ ", "$0.1;0.2;0.3$ "}) for (string f : {"", " %0.1%", " %0.1;0.2%", " %0.1;0.2;3%"}) if (f.empty() || p == "." || p == "!") if (H::deep() || b.empty() || f.empty() || t.empty()) add(b + "A" + p + t + f);
    }
    H::infon("kinds of lines", kinds.size());
    for (auto &a : kinds) for (auto &b : kinds) hist({{0, a}, {0, b}}, 1, false, &three);
    for (size_t i = 0; i < 49; i++) for (size_t j = 0; j < 49; j++) for (size_t k = 0; k < 49; k++) hist({{0, kinds[i]}, {0, kinds[j]}, {0, kinds[k]}}, 1, false, &three);
    H::phase("every truncation and every spoiled character, then a good line");
    for (size_t g = 0; g < good.size(); g++)
    {
        auto &l = good[g];
        size_t step = l.size() > 100 ? (H::deep() ? 3 : 37) : 1;
        for (size_t i = 0; i <= l.size(); i += step)
        {
            string cut = l.substr(0, i), tail = l.substr(i);
            for (size_t k = 0; k < good.size(); k += H::deep() ? 1 : 3) hist({{0, cut}, {0, good[(k + i) % good.size()]}}, 1, false, &three);
            hist({{0, cut}, {0, tail}}, 2, false, &three);
            hist({{0, cut}, {0, cut}, {0, l}}, 1, false);
            for (char c : {'(', ')', '<', '>', '$', '%', ':', '.', '{', ']', '"', ' ', '-', '\\', ',', '0', 'a', '\t', '\n', '\x01', '\x7f', '\xff', '\0'})
            {
                string ins = l, rep = l;
                ins.insert(i, 1, c);
                hist({{0, ins}, {0, good[(i + g) % good.size()]}}, 2, false, &three);
                if (i < l.size()) { rep[i] = c; hist({{0, rep}, {0, good[(i + g + 1) % good.size()]}}, 2, false, &three); }
            }
        }
    }
    H::phase("a very long line, then others");
    for (int big : H::deep() ? vector<int>{1000, 10000, 20000} : vector<int>{1000, 10000})
        for (int kind = 0; kind < 6; kind++)
        {
            string l = kind == 2 ? "\"" : kind == 4 ? "" : "(*";
            for (int i = 0; i < big; i++) l += kind == 0 ? ", w" + std::to_string(i) : kind == 1 ? ", $v" + std::to_string(i % 1000) : kind == 2 || kind == 5 ? string("x y") : kind == 3 ? string(" ") : string("w");
            l += kind == 2 ? "\"." : kind == 4 ? "." : kind == 5 ? "" : ", A).";
            alone.clear();
            for (auto &b : all) hist({{0, l}, {0, b}, {0, l.substr(0, l.size() / 2)}, {0, b}}, 4, false);
            hist({{0, l}, {0, l}, {1, l}, {0, good[1]}, {1, good[2]}}, 5, true);
        }
    alone.clear();
    H::phase("many lines");
    for (auto &b : all) for (auto &g : {good[1], good[2], good[4]})
    {
        Hist h;
        for (int i = 0; i < (H::deep() ? 400 : 40); i++) h.push_back({i % 7 == 6, b});
        h.push_back({0, g}); h.push_back({1, g});
        hist(h, 2, true);
    }
    return 0;
}
H_MAIN
