// C21: histories of additions of intervals against plain numbers.
#include "h.h"
#include "shim.h"
#include "Narsese/include/Interval.h"
#include "Narsese/include/Compound.h"
#include <climits>
#include <functional>
using std::string; using std::vector;
using INTERVAL::Interval; using TERM::Term; using TERM::pTerm;
static auto &I = INTERPRETER::interpreter;
static string plain(const string &s) { string r; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '\x1b') { while (i < s.size() && s[i] != 'm') i++; continue; } r += s[i]; } return r; }
// is it an interval of that length in every respect?
static string proper(Interval &v, long n, bool read = false)
{
    string at = " (of length " + std::to_string(n) + ")";
    if (v.interval != n) return "its length is " + std::to_string(v.interval) + at;
    if ((signed int)v != n) return "it converts to " + std::to_string((signed int)v) + at;
    Interval w((int)n);
    if (!v.is_interval) return "it is not marked as an interval" + at;
    if (!v.is_atom() || v.is_var || v.has_var || v.is_operation || v.is_higher_order) return "its flags are wrong" + at;
    if (!(v == w) || !(w == v)) return "it is not equal to an interval built with its length" + at;
    if (hash(v) != hash(w)) return "it does not hash like an interval built with its length" + at;
    if (v < w || w < v) return "it is not ordered like an interval built with its length" + at;
    if (v.complexity != w.complexity) return "its complexity is " + std::to_string(v.complexity) + at;
    if (I.interpret(v) != I.interpret(w)) return "it is printed as " + I.interpret(v) + at;
    if (plain(I.interpret(v, true)) != I.interpret(w)) return "in colours it is printed as " + plain(I.interpret(v, true)) + at;
    if (read)
    {
        auto t = SHIM::parse(I.interpret(v) + ".");
        if (!t) return "it is printed as " + I.interpret(v) + ", which is rejected" + at;
        auto r = dynamic_cast<Interval *>(&*t->sentence->term);
        if (!r) return "it is printed as " + I.interpret(v) + ", which is not read as an interval" + at;
        if (r->interval != n || !(*r == v) || hash(*r) != hash(v)) return "it is read back with length " + std::to_string(r->interval) + at;
    }
    return "";
}
static bool fits(long n) { return n >= INT_MIN && n <= INT_MAX; }
int H::run()
{
    vector<long> L;
    for (long i = -70; i <= 70; i++) L.push_back(i);
    for (int b = 7; b <= 31; b++) for (int d = -2; d <= 2; d++) for (int s : {1, -1}) { long v = s * ((1l << b) + d); if (fits(v)) L.push_back(v); }
    for (long p = 100; p < INT_MAX; p *= 10) for (int d = -1; d <= 1; d++) { L.push_back(p + d); L.push_back(-p - d); }
    std::sort(L.begin(), L.end()); L.erase(std::unique(L.begin(), L.end()), L.end());
    H::phase("one interval");
    for (long n : L)
    {
        if (!H::tick("+" + std::to_string(n))) continue;
        H::trans(3); H::trace(); H::state(std::to_string(n));
        Interval v((int)n);
        string e = proper(v, n, true);
        if (e.empty()) { Interval c(v); e = proper(c, n, true); if (!e.empty()) e = "its copy: " + e; }
        if (e.empty()) { Interval c(1); c = v; e = proper(c, n); if (!e.empty()) e = "assigned: " + e; }
        if (e.empty()) e = proper(v, n);
        // read in every place
        if (e.empty()) for (string l : {"(&/, A, +" + std::to_string(n) + ", B).", "(A &/ +" + std::to_string(n) + " &/ B)!", "(*, +" + std::to_string(n) + ", + " + std::to_string(n) + ")?"})
        {
            auto t = SHIM::parse(l);
            if (!t) { e = l + " is rejected"; break; }
            int k = 0;
            for (auto c : *t->sentence->term->terms) if (c->is_interval) { k++; auto r = dynamic_cast<Interval *>(&*c); e = !r ? "an interval in " + l + " is none" : proper(*r, n); }
            if (e.empty() && k == 0) e = "no interval in " + l;
            if (e.empty()) // and printed and read back
            {
                string p = I.interpret(*t->sentence->term);
                auto u = SHIM::parse(p + ".");
                if (!u) e = p + " is rejected"; else if (!(*u->sentence->term == *t->sentence->term)) e = p + " is read as another term";
            }
            if (!e.empty()) break;
        }
        if (!e.empty()) H::fail("one", e);
    }
    H::phase("two intervals");
    for (long a : L) for (long b : L)
    {
        if (!H::tick("+" + std::to_string(a) + " and +" + std::to_string(b))) continue;
        H::trace(); H::state(std::to_string(a) + "," + std::to_string(b));
        Interval x((int)a), y((int)b);
        string e;
        if ((x == y) != (a == b)) e = "equality is wrong";
        if (a == b && hash(x) != hash(y)) e = "they hash differently";
        if ((a == b && (x < y || y < x)) || (a != b && (x < y) == (y < x))) e = "the order is wrong";
        if (fits(a + b) && e.empty())
        {
            H::trans(4);
            Interval s = x + y; e = proper(s, a + b);
            if (e.empty()) e = proper(x, a); if (e.empty()) e = proper(y, b);
            Interval z((int)a);
            Interval &r = (z += y);
            if (e.empty()) e = &r != &z ? "+= does not return the interval" : proper(z, a + b);
            if (e.empty()) e = proper(y, b);
            if (e.empty() && !(z == s && s == z && hash(z) == hash(s))) e = "the sums differ";
            // it differs from every other one
            if (e.empty() && b && (z == x || s == x)) e = "the sum is equal to the first";
            if (e.empty() && a && (z == y || s == y)) e = "the sum is equal to the second";
        }
        if (!e.empty()) H::fail("two", e);
    }
    H::phase("added to itself");
    for (long a : L) if (fits(2 * a) && H::tick("+" + std::to_string(a) + " added to itself"))
    {
        H::trans(2); H::trace();
        Interval x((int)a); Interval s = x + x; string e = proper(s, 2 * a); if (e.empty()) e = proper(x, a);
        x += x; if (e.empty()) e = proper(x, 2 * a);
        if (!e.empty()) H::fail("itself", e);
    }
    H::phase("histories");
    {
        // two intervals and one as a component of a compound
        vector<long> start{0, 3, -7};
        struct Op { int k; string name; };
        vector<Op> ops{{0, "x += y"}, {1, "y += x"}, {2, "x += +5"}, {3, "y += +-3"}, {4, "x = x + y"}, {5, "y = x + y"}, {6, "x += x"}, {7, "hash and compare"}, {8, "z = x + +1, z in a product"}, {9, "parse +4 and add x to it"}, {10, "copy x, add y to the copy"}};
        vector<int> h;
        auto play = [&](long a, long b) -> string
        {
            Interval x((int)a), y((int)b); long X = a, Y = b;
            vector<std::pair<pTerm, long>> kept;
            string e;
            for (int o : h)
            {
                switch (ops[o].k)
                {
                case 0: x += y; X += Y; break;
                case 1: y += x; Y += X; break;
                case 2: x += Interval(5); X += 5; break;
                case 3: y += Interval(-3); Y -= 3; break;
                case 4: x = x + y; X += Y; break;
                case 5: y = x + y; Y += X; break;
                case 6: x += x; X += X; break;
                case 7: if (hash(x) == 0 || (x == y) != (X == Y)) return "hash or equality is wrong"; break;
                case 8: { pTerm z(new Interval(x + Interval(1))); pTerm c(new COMPOUND::Compound(CONNECTOR::Connector::Product, {z, z}, true)); kept.push_back({z, X + 1}); for (auto t : *c->terms) { auto r = dynamic_cast<Interval *>(&*t); if (!r) return "no interval in the product"; e = proper(*r, X + 1); if (!e.empty()) return e; } break; }
                case 9: { auto t = SHIM::parse("+4."); if (!t) return "+4. is rejected"; pTerm u = t->sentence->term; auto r = dynamic_cast<Interval *>(&*u); if (!r) return "+4. is no interval"; *r += x; kept.push_back({u, X + 4}); auto t2 = SHIM::parse("+4."); auto r2 = dynamic_cast<Interval *>(&*t2->sentence->term); e = r2 ? proper(*r2, 4) : "+4 is read wrongly afterwards"; if (!e.empty()) return e; break; }
                case 10: { Interval c(x); c += y; e = proper(c, X + Y); if (!e.empty()) return e; break; }
                }
                H::trans();
                e = proper(x, X); if (e.empty()) e = proper(y, Y);
                for (auto &k : kept) if (e.empty()) e = proper(*dynamic_cast<Interval *>(&*k.first), k.second);
                if (!e.empty()) return e;
            }
            return "";
        };
        std::function<void(int)> go = [&](int d)
        {
            for (long a : start) for (long b : start)
            {
                if (h.empty()) break;
                string s = "x = +" + std::to_string(a) + ", y = +" + std::to_string(b); for (int o : h) s += "; " + ops[o].name;
                if (!H::tick(s)) continue;
                H::trace(); H::state(s);
                string e = play(a, b);
                if (!e.empty()) H::fail("history", e);
            }
            if (d) for (size_t i = 0; i < ops.size(); i++) { h.push_back(i); go(d - 1); h.pop_back(); }
        };
        go(H::deep() ? 5 : 4);
    }
    return 0;
}
H_MAIN
