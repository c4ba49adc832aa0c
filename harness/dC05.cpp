// C05 (built with the address sanitizer): every line is parsed, printed and dropped without memory errors, and all memory is given back.
#include "h.h"
#include "gen.h"
#include "shim.h"
#include "reg.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace G;
using TASK::pTask;
using INTERPRETER::interpreter;

static size_t bytes() { return __sanitizer_get_current_allocated_bytes(); }
static void *P = nullptr;
static size_t names() { return REG::total(interpreter); }
static volatile size_t sink;

static void use(const pTask &t)
{
    if (t == nullptr) return;
    sink += interpreter.interpret(*t, false).size();
    sink += interpreter.interpret(*t, true).size();
    sink += interpreter.interpret(*t->sentence->term, true).size();
    try { sink += M::canon(M::extract(*t->sentence->term)).size(); } catch (M::Bad &) {}
}
static bool once(const string &l) { pTask t = SHIM::parse(P, l); use(t); return t != nullptr; }
static void one(const string &l, const char *what = "")
{
    if (!H::tick(string(what) + l)) return;
    if (!P) P = SHIM::new_parser();
    size_t n0 = names();
    bool ok;
    try { ok = once(l); } catch (std::exception &e) { H::fail("throws", string("exception: ") + e.what()); return; }
    H::trans(); H::trace();
    if (names() != n0) { H::fail("names", "entries are left in the registry of names"); return; }
    once(l); // buffers have their size now
    size_t a = bytes();
    bool ok2 = once(l);
    size_t b = bytes();
    if (b != a) { once(l); a = bytes(); once(l); once(l); once(l); b = bytes(); }
    if (b > a) H::fail("leak", std::to_string(b - a) + " bytes are not released when the line is repeated");
    if (ok != ok2) H::fail("changes", "accepted only sometimes");
    H::state(string(ok ? "+" : "-") + l);
}
// whole life of a parser
static void life(const vector<string> &ls, int order)
{
    string d; for (auto &l : ls) d += l.substr(0, 60) + " | ";
    if (!H::tick("life of a parser, order of dropping " + std::to_string(order) + ": " + d)) return;
    size_t b[4] = {0, 0, 0, 0}, n0 = names();
    for (int i = 0; i < 4; i++)
    {
        {
            void *p = SHIM::new_parser();
            vector<pTask> t;
            for (auto &l : ls) t.push_back(SHIM::parse(p, l));
            vector<pTask> copies(t);
            vector<TERM::pTerm> parts;
            for (auto &x : t) if (x && x->sentence->term->terms) for (auto it = x->sentence->term->terms->begin(); it != x->sentence->term->terms->end(); ++it) parts.push_back(*it);
            for (auto &x : t) if (x && x->sentence->term->subject) parts.push_back(x->sentence->term->subject);
            vector<size_t> perm(ls.size());
            for (size_t k = 0; k < perm.size(); k++) perm[k] = k;
            for (int k = 0; k < order; k++) std::next_permutation(perm.begin(), perm.end());
            if (order & 1) { SHIM::del_parser(p); p = nullptr; }
            if (order & 2) parts.clear();
            copies.clear();
            for (size_t k : perm) { t[k] = nullptr; for (auto &x : t) use(x); for (auto &x : parts) sink += interpreter.interpret(*x, true).size(); }
            t.clear();
            for (auto &x : parts) sink += interpreter.interpret(*x).size();
            parts.clear();
            if (p) SHIM::del_parser(p);
        }
        b[i] = bytes();
    }
    H::trans(ls.size() * 4); H::trace(); H::state(d + std::to_string(order));
    if (names() != n0) H::fail("names", "entries are left in the registry of names");
    if (b[3] > b[2] && b[2] > b[1]) H::fail("leak", std::to_string(b[3] - b[2]) + " bytes are not released at the end");
}

int H::run()
{
    string manyvars = "(*", longline = "<(*";
    for (int i = 0; i < 100; i++) { longline += ", word" + std::to_string(i); manyvars += string(", ") + "$#?"[i % 3] + "v" + std::to_string(i % 37); }
    longline += ") --> B>. :|: %0.5%"; manyvars += ").";
    vector<string> good = {"A.", "<$x --> B>. %0.5;0.4%", "<(*, #y, $x, ?z, #y) --> ^go>! :|: %0.3%", "$0.5;0.4;0.3$ (^go, {A}, $x)? :/:", "<<$x --> $y> ==> <$y --> #x>>.", "(&&, <$1 --> A>, <$2 --> B>, <$1 <-> $2>)@", "{A, {B}}. :!17:", "(A &/ +3 &/ $y). ", "  \"q r\" .  ", "op(a, b)!", "[A, [B]]. :\\:", "<A {-] B>? ", "$1.0$ (--, --A). %1.0;0.99;2%", "(A & B - C | D)? :!-3:", "(/, A, _, B). %1%", "(^go).", "(&, {A, B}, {B, C}).", "(|, {A}, [B], [C]).", "<{A} <-> [B]>! %0.1;0.2;3%", "(^\"a\", +1, (^b))@", "<A =\\> B>.", manyvars, longline};
    P = SHIM::new_parser();
    for (auto &l : good) // warm up
        if (H::tick("a line of the grammar: " + l) && !once(l)) H::fail("rejected", "rejected, so that nothing would be explored");
    H::phase("bytes");
    for (int c = 0; c < 256; c++)
    {
        one(string(1, (char)c)); one(string("A") + (char)c); one(string("A") + (char)c + "."); one(string("<A -") + (char)c + "> B>."); one(string("\"") + (char)c + "\"."); one(string("%") + (char)c); one(string("A.") + (char)c + "B.");
        one(string("$0.") + (char)c + "$ A."); one(string(20, (char)c)); one(string(300, (char)c));
    }
    H::phase("all short lines");
    {
        string a = "A0.<>-=|&(),{}[]$#?%:;!@^+\"\\ /*~_\n";
        for (char c : a) for (char d : a) { one(string() + c + d); for (char e : a) one(string() + c + d + e); }
        string s = "A.<>(,)$\"%:1";
        for (char c : s) for (char d : s) for (char e : s) for (char f : s) one(string() + c + d + e + f);
    }
    H::phase("truncated and spoiled lines");
    for (auto &l : good)
    {
        size_t step = l.size() > 100 ? (H::deep() ? 3 : 29) : 1;
        for (size_t i = 0; i <= l.size(); i += step)
        {
            one(l.substr(0, i)); one(l.substr(i));
            string t = l; if (i < l.size()) t.erase(i, 1); one(t);
            for (char c : {'(', ')', '<', '$', '%', ':', '.', '"', ' ', '-', '\\', ',', '0', 'a', '\n', '\x80', '\0'})
            {
                if (!H::deep() && (i + c) % 4) continue;
                string u = l; u.insert(i, 1, c); one(u);
            }
        }
    }
    H::phase("numbers");
    {
        vector<string> ns = {"", "0", "1", "-1", "7", "2147483647", "2147483648", "-2147483648", "-2147483649", "9999999999", "99999999999999999999999999", "0.5", "1.0", "1.5", ".0", ".000", ".5", ".99999999999999999999", "1.", "-", "1" + string(50, '0'), "." + string(60, '0') + "1"};
        for (auto &a : ns)
        {
            one("+" + a + "."); one("A. :!" + a + ":"); one("A. %" + a + "%"); one("$" + a + "$ A."); one("(A, +" + a + ")!"); one("<+" + a + " --> A>? :!" + a + ":"); one("A. %0.5;" + a + "%"); one("A. %0.5;0.5;" + a + "%"); one("$0.5;" + a + "$ A@"); one("$0.5;0.5;" + a + "$ A@");
            for (auto &b : ns) { one("<$x --> +" + a + ">. :!" + b + ":"); one("{+" + a + ", +" + b + "}@"); one("A. :!" + a + ": %" + b + "%"); one("$0.5;0.5$ (^go, +" + a + ")! %" + b + "%"); one("A! :!" + a + ": %0.5;0.5;" + b + "%"); one("$" + a + "$ A. %" + b + "%"); }
        }
    }
    H::phase("lengths");
    {
        int N = H::deep() ? 1500 : 300;
        for (int n = 1; n <= N; n++)
        {
            string w(n, 'w');
            one(w); one(w + "."); one("\"" + w + "\"."); one("\"" + w); one("<A --> " + w + ">. :|:"); one(string(n, ' ') + "A."); one("A" + string(n, ' ') + "."); one("A." + string(n, ' '));
            one("$0." + string(n, '1') + "$ A."); one("A. %0." + string(n, '9') + "%"); one("+" + string(n, '1') + ".");
            if (n % 3 == 0 || H::deep()) { one("^" + w + "."); one("(^" + w + ", " + w + ")."); one(w + "(" + w + ")!"); one("<$" + w + " --> #" + w + ">."); one("A. :!" + string(n, '0') + ":"); one("A. %1;0.9;" + string(n, '1') + "%"); }
            if (n % 7 == 0) { string l = "{A0"; for (int i = 1; i < n; i++) l += ", A" + std::to_string(i); one(l + "}."); one(l); l = "(*"; for (int i = 0; i < n; i++) l += ", $v" + std::to_string(i % 50); one(l + ")."); l = "(A0"; for (int i = 1; i < n; i++) l += " && A" + std::to_string(i % 17); one(l + ")?"); }
        }
        for (size_t n : {1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 65535, 65536, 100000}) { one(string(n, 'w') + "."); one("\"" + string(n, 'w')); one("A." + string(n, ' ') + "x"); one(string(n, '"')); }
    }
    H::phase("depths");
    {
        struct N { const char *a, *b; };
        vector<N> ns = {{"(--, ", ")"}, {"--", ""}, {"{", "}"}, {"[", "]"}, {"<A --> ", ">"}, {"<", " ==> B>"}, {"(*, ", ")"}, {"(&&, A, ", ")"}, {"(", " || B)"}, {"(^op, ", ")"}, {"op(", ")"}, {"(-, A, ", ")"}, {"(", " - B)"}, {"(\\, ", ", _)"}, {"(A, ", ")"}, {"<$x --> ", ">"}, {"(#y &/ ", ")"}};
        vector<int> ds;
        for (int d = 1; d <= (H::deep() ? 130 : 40); d++) ds.push_back(d);
        if (H::deep()) for (int d : {400, 401, 500, 700, 1000}) ds.push_back(d);
        for (int d : {97, 100, 101, 127, 128, 129, 150, 199, 200, 201, 255, 256, 257, 300}) ds.push_back(d);
        for (auto &n : ns) for (int d : ds)
        {
            if (d > (H::deep() ? 300 : 130) && (&n - &ns[0]) % 4) continue;
            if (d > 300 && strpbrk(n.a, "$#")) continue;
            string a, b;
            for (int i = 0; i < d; i++) { a += n.a; b += n.b; }
            one(a + "A" + b + "."); one(a); if (d % 4 == 0) { one(a + "A" + b); one(a + "$x" + b + "."); if (d <= 200) one(a + "A" + b.substr(0, b.size() / 2)); }
        }
    }
    H::phase("lives of parsers and orders of dropping");
    vector<string> some = {good[0], good[1], good[2], good[3], good[5], good[6], good[16], good[20], "", "<A -->", "<$x --> #y", "((((", "A. B.", "\x80", "A. %2%", "\"q", longline};
    for (auto &a : some) { life({a}, 0); life({a}, 1); }
    for (auto &a : some) for (auto &b : some) for (int o = 0; o < 2; o++) life({a, b}, o);
    for (auto &a : some) for (auto &b : some) for (auto &c : some) for (int o = 0; o < 6; o++) if (H::deep() || (&a - &some[0] + 2 * (&b - &some[0]) + 3 * (&c - &some[0]) + o) % 12 == 0) life({a, b, c}, o);
    return 0;
}
H_MAIN
