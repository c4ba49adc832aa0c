// C16: truth functions on complete grids, against the definitions of NAL in long double; histories of revisions.
#include "h.h"
#include "NAL/Functions/include/TruthFunctions.h"
#include "NAL/Functions/include/TemporalFunctions.h"
#include "Narsese/include/Budget.h"
#include <algorithm>
#include <cmath>
#include <functional>
using namespace TRUTH_FUNCTIONS;
using TRUTH::Truth; using TRUTH::pTruth;
using std::string; using std::vector;
typedef long double L;
static string num(L x) { char b[40]; snprintf(b, sizeof b, "%.9Lg", x); return b; }
static string show(const Truth &t) { return "%" + num(t.f) + ";" + num(t.c) + ";" + num(t.k) + "%"; }
static bool near(L a, L b, L tol = 2e-6L) { return std::isfinite((double)a) && fabsl(a - b) <= tol * std::max((L)1, fabsl(b)); }
// relative: also for values close to 0
static bool rel(L a, L b, L tol = 2e-6L) { return std::isfinite((double)a) && fabsl(a - b) <= tol * fabsl(b) + 1e-30L; }
static string range(const Truth &t)
{
    if (!(t.f >= 0 && t.f <= 1)) return "the frequency " + num(t.f) + " is out of [0,1]";
    if (!(t.c >= 0 && t.c < 1)) return "the confidence " + num(t.c) + " is out of [0,1)";
    return "";
}
static string eq(const Truth &t, L f, L c, L k, L tc = 2e-6L)
{
    string e = range(t);
    if (!e.empty()) return e;
    if (!near(t.f, f, 1e-5L)) return "the frequency is " + num(t.f) + " instead of " + num(f);
    if (!rel(t.c, c, tc)) return "the confidence is " + num(t.c) + " instead of " + num(c);
    if (t.k != (float)k) return "the evidential horizon is " + num(t.k) + " instead of " + num(k);
    return "";
}
static bool same(const Truth &a, const Truth &b) { return a.f == b.f && a.c == b.c && a.k == b.k; }
static vector<float> F{0, 1e-3f, 0.1f, 0.25f, 0.3f, 1.0f / 3, 0.5f, 0.7f, 0.75f, 0.9f, 0.999f, 1}, C{1e-4f, 0.01f, 0.1f, 0.3f, 0.5f, 0.7f, 0.9f, 0.99f, 0.999f, 0.9999f}, K{1, 2, 5, 0.5f, 100};
static L W(const Truth &t) { return (L)t.k * t.c / (1 - (L)t.c); }
int H::run()
{
    if (H::deep())
    {
        F.clear(); for (int i = 0; i <= 40; i++) F.push_back(i / 40.0f);
        C.clear(); for (int i = 1; i < 40; i++) C.push_back(i / 40.0f);
        for (float c : {1e-4f, 1e-3f, 0.01f, 0.99f, 0.999f, 0.9999f}) C.push_back(c);
    }
    H::phase("one truth value");
    for (float k : K) for (int fi = 0; fi <= 200; fi++) for (int ci = 1; ci <= 400; ci++)
    {
        float f = fi / 200.0f, c = ci <= 100 ? ci / 101.0f : ci <= 200 ? 1 - 1.0f / (ci * ci) : ci <= 300 ? 1.0f / (ci * ci) : (ci - 300) / 100.0f * 0.999f;
        Truth t(f, c, k);
        if (!H::tick("amounts of evidence of " + show(t))) continue;
        H::trans(10); H::trace(); H::state(show(t));
        string e;
        L w = (L)k * c / (1 - (L)c), wp = f * w, wm = (1 - (L)f) * w;
        auto is = [&](L got, L want, const char *n) { if (e.empty() && !(near(got, want, 1e-5L) && (want < 1e-3L || rel(got, want, 1e-5L)))) e = string(n) + " is " + num(got) + " instead of " + num(want); };
        is(t.w(), w, "w"); is(t.w_p(), wp, "w_p"); is(t.w_m(), wm, "w_m"); is(t.e(), (L)c * ((L)f - 0.5L) + 0.5L, "the expectation");
        is(fc_to_w(f, c, k), w, "fc_to_w"); is(fc_to_w_plus(f, c, k), wp, "fc_to_w_plus"); is(fc_to_w_minus(f, c, k), wm, "fc_to_w_minus");
        float a = -1, b = -1; w_from_truth(t, a, b); is(a, wp, "w+ of w_from_truth"); is(b, wm, "w- of w_from_truth");
        auto [x, y] = UNCERTAINTY_MAPPING_FUNCTIONS::w_from_truth(t); is(x, wp, "w+ of w_from_truth()"); is(y, wm, "w- of w_from_truth()");
        is(w_to_c(w, k), c, "w_to_c"); if (w > 1e-6L) is(w_to_f(wp, w), f, "w_to_f");
        auto dense = [&](float c1) { return c1 >= 0 && c1 < 1; };
        if (e.empty() && !dense(w_to_c(w, k))) e = "w_to_c is out of range";
        if (e.empty() && w > 1e-6L) { e = eq(truth_from_w(wp, w, k), f, c, k, 1e-5L); if (!e.empty()) e = "truth_from_w: " + e; }
        // back and forth
        if (e.empty() && c < 0.9999f && w > 1e-6L)
        {
            Truth r(0.123f, 0.456f, k);
            r.set_w(t.w_p(), t.w());
            e = eq(r, f, c, k, 1e-5L); if (!e.empty()) e = "set_w of the amounts of evidence: " + e;
            Truth q = truth_from_w(t.w_p(), t.w(), k); auto e2 = eq(q, f, c, k, 1e-5L); if (e.empty() && !e2.empty()) e = "truth_from_w of the amounts: " + e2;
        }
        if (e.empty() && !same(t, Truth(f, c, k))) e = "the truth value has changed";
        L ex = (L)c * ((L)f - 0.5L) + 0.5L;
        is(BUDGET::Budget::quality_from_truth(t), std::max(ex, (1 - ex) * 0.75L), "the quality of a truth");
        if (!e.empty()) H::fail("evidence", e);
    }
    H::phase("evidence to truth");
    for (float k : K) for (float w : {0.0f, 1e-3f, 0.5f, 1.0f, 3.0f, 1e3f, 1e6f, 1e7f, 1e8f, 1e9f, 1e12f, 1e20f, 1e30f}) for (float p : {0.0f, 0.25f, 0.5f, 1.0f})
    {
        if (!H::tick("truth of w+=" + num(w * p) + " w=" + num(w) + " k=" + num(k))) continue;
        H::trans(3); H::trace();
        Truth t = truth_from_w(w * p, w, k);
        string e = w == 0 ? eq(t, 0.5, 0, k) : eq(t, p, std::min((L)w / ((L)w + k), (L)std::nextafter(1.0f, 0.0f)), k);
        if (e.empty() && !(w_to_c(w, k) < 1)) e = "w_to_c gives 1";
        Truth s(0.3f, 0.4f, k); s.set_w(w * p, w); // (huge amounts are rounded to confidence 1 by set_w, which is not claimed)
        if (e.empty() && w <= 1e6f) e = w == 0 ? eq(s, 0.5, 0, k) : eq(s, p, (L)w / ((L)w + k), k);
        if (!e.empty()) H::fail("from evidence", e);
    }
    H::phase("two truth values");
    for (float k : K) for (float f1 : F) for (float c1 : C) for (float f2 : F) for (float c2 : C)
    {
        Truth A(f1, c1, k), B(f2, c2, k);
        if (!H::tick(show(A) + " and " + show(B))) continue;
        H::trans(6); H::trace(); H::state(show(A) + show(B));
        auto a = Truth::create(f1, c1, k), b = Truth::create(f2, c2, k);
        auto unchanged = [&](const char *n) { return same(*a, A) && same(*b, B) ? string() : string(n) + " changes a premise"; };
        auto check = [&](const char *n, pTruth r, L f, L c) -> string { string e = r ? r == a || r == b ? "is a premise itself" : eq(*r, f, c, k, 1e-5L) : "no result"; if (!e.empty()) return string(n) + ": " + e; return unchanged(n); };
        string e;
        L F1 = f1, F2 = f2, C1 = c1, C2 = c2;
        e = check("deduction", truth_deduction(a, b), F1 * F2, F1 * F2 * C1 * C2);
        L w = F2 * C1 * C2;
        if (e.empty()) e = check("induction", truth_induction(a, b), w > 0 ? F1 : 0.5L, w / (w + k));
        L o = 1 - (1 - F1) * (1 - F2);
        w = o * C1 * C2;
        if (e.empty()) e = check("comparison", truth_comparison(a, b), o > 0 ? F1 * F2 / o : 0.5L, w / (w + k));
        // revision
        L w1 = W(A), w2 = W(B);
        L fr = (F1 * w1 + F2 * w2) / (w1 + w2), cr = (w1 + w2) / (w1 + w2 + k);
        truth_revision(a, b);
        string r = eq(*a, fr, std::min(cr, (L)std::nextafter(1.0f, 0.0f)), k, 1e-5L);
        if (r.empty() && !same(*b, B)) r = "the second truth is changed";
        if (r.empty() && a->c < std::max(c1, c2)) r = "the confidence " + num(a->c) + " is less than before";
        if (r.empty() && cr > std::max(C1, C2) + 1e-6L && cr < 0.999999L && !(a->c > std::max(c1, c2))) r = "no confidence is gained";
        Truth A2 = A, B2 = B;
        truth_revision(B2, A2);
        if (r.empty() && (!near(B2.f, a->f, 1e-5L) || !rel(B2.c, a->c, 1e-5L) || B2.k != a->k)) r = "is not symmetric: " + show(*a) + " and " + show(B2);
        if (r.empty() && !same(A2, A)) r = "the second truth is changed";
        if (e.empty() && !r.empty()) e = "revision: " + r;
        if (!e.empty()) H::fail(e.substr(0, e.find(':')), e);
    }
    H::phase("a truth value with itself, and different horizons");
    for (float k : K) for (float f : F) for (float c : C)
    {
        Truth A(f, c, k);
        if (!H::tick(show(A) + " with itself")) continue;
        H::trans(4); H::trace();
        L F1 = f, C1 = c, w = F1 * C1 * C1, o = 1 - (1 - F1) * (1 - F1), wa = W(A);
        auto a = Truth::create(f, c, k);
        string e = eq(*truth_deduction(a, a), F1 * F1, F1 * F1 * C1 * C1, k, 1e-5L);
        if (e.empty()) e = eq(*truth_induction(a, a), w > 0 ? F1 : 0.5L, w / (w + k), k, 1e-5L);
        w = o * C1 * C1;
        if (e.empty()) e = eq(*truth_comparison(a, a), o > 0 ? F1 * F1 / o : 0.5L, w / (w + k), k, 1e-5L);
        if (e.empty() && !same(*a, A)) e = "a premise is changed";
        truth_revision(a, a);
        if (e.empty()) e = eq(*a, F1, std::min(2 * wa / (2 * wa + k), (L)std::nextafter(1.0f, 0.0f)), k, 1e-5L);
        if (e.empty() && !(a->c >= c)) e = "confidence is lost in revision";
        if (!e.empty()) H::fail("itself", e);
    }
    // the horizon of a result is that of one of the arguments, and its confidence is the one for that horizon
    for (float k1 : K) for (float k2 : K) if (k1 != k2) for (float f1 : F) for (float c1 : C) for (float f2 : {0.0f, 0.3f, 1.0f}) for (float c2 : {0.01f, 0.5f, 0.9f})
    {
        Truth A(f1, c1, k1), B(f2, c2, k2);
        if (!H::tick(show(A) + " and " + show(B))) continue;
        H::trans(4); H::trace();
        auto a = Truth::create(f1, c1, k1), b = Truth::create(f2, c2, k2);
        L F1 = f1, F2 = f2, C1 = c1, C2 = c2;
        string e;
        auto is = [&](const char *n, const Truth &r, L f, std::function<L(L)> c) { if (!e.empty()) return; if (r.k != k1 && r.k != k2) e = "the horizon is " + num(r.k); else e = eq(r, f, c(r.k), r.k, 1e-5L); if (!e.empty()) e = string(n) + ": " + e; };
        is("deduction", *truth_deduction(a, b), F1 * F2, [&](L) { return F1 * F2 * C1 * C2; });
        L w = F2 * C1 * C2;
        is("induction", *truth_induction(a, b), w > 0 ? F1 : 0.5L, [&](L k) { return w / (w + k); });
        L o = 1 - (1 - F1) * (1 - F2), w2 = o * C1 * C2;
        is("comparison", *truth_comparison(a, b), o > 0 ? F1 * F2 / o : 0.5L, [&](L k) { return w2 / (w2 + k); });
        if (e.empty() && (!same(*a, A) || !same(*b, B))) e = "a premise is changed";
        L wa = W(A), wb = W(B);
        truth_revision(a, b);
        is("revision", *a, (F1 * wa + F2 * wb) / (wa + wb), [&](L k) { return std::min((wa + wb) / (wa + wb + k), (L)std::nextafter(1.0f, 0.0f)); });
        if (e.empty() && !same(*b, B)) e = "the second truth is changed";
        if (!e.empty()) H::fail("horizons", e);
    }
    H::phase("histories of revisions");
    {
        vector<Truth> T{{1, 0.9f}, {0, 0.9f}, {0.5f, 0.5f}, {0.25f, 0.1f}, {1, 0.999f}, {0.1f, 0.01f}};
        int n = T.size();
        vector<int> h;
        std::function<void(int)> go = [&](int d)
        {
            if (!h.empty())
            {
                string s; for (int i : h) s += show(T[i]) + " ";
                if (H::tick("revise in turn " + s))
                {
                    H::trans(h.size() - 1); H::trace(); H::state(s);
                    Truth t = T[h[0]];
                    L w = W(t), wp = w * t.f;
                    string e;
                    for (size_t i = 1; i < h.size() && e.empty(); i++)
                    {
                        float c = t.c;
                        truth_revision(t, T[h[i]]);
                        w += W(T[h[i]]); wp += W(T[h[i]]) * T[h[i]].f;
                        e = eq(t, wp / w, w / (w + 1), 1, 1e-4L);
                        if (e.empty() && t.c < c) e = "confidence is lost";
                    }
                    if (!e.empty()) H::fail("history", e);
                }
            }
            if (d > 0) for (int i = 0; i < n; i++) { h.push_back(i); go(d - 1); h.pop_back(); }
        };
        go(H::deep() ? 7 : 5);
        // very many revisions with itself
        for (float c : {0.5f, 0.9f, 0.99f}) for (float f : {0.0f, 0.3f, 1.0f})
        {
            if (!H::tick("revised 60 times with itself, f=" + num(f) + " c=" + num(c))) continue;
            Truth t(f, c);
            string e;
            for (int i = 0; i < 60 && e.empty(); i++) { float old = t.c; Truth u = t; truth_revision(t, u); e = range(t); if (e.empty() && t.c < old) e = "confidence is lost"; if (e.empty() && !near(t.f, f, 1e-4L)) e = "the frequency drifts to " + num(t.f); }
            if (!e.empty()) H::fail("history", e);
            H::trans(60); H::trace();
        }
    }
    H::phase("projection");
    {
        vector<int64_t> T{0, 1, 2, 5, 10, 999, 1000, 1001, 50000, 1000000, -1, -7, -1000, (int64_t)1 << 33};
        for (float f : {0.0f, 0.3f, 1.0f}) for (float c : {0.01f, 0.5f, 0.9f, 0.999f}) for (float k : {1.0f, 2.0f})
            for (auto s : T) for (auto n : T) for (auto g : T) for (size_t d : {(size_t)1000, (size_t)0, (size_t)1, (size_t)100000})
            {
                auto t = Truth::create(f, c, k);
                if (!H::tick("project " + show(*t) + " from " + std::to_string(s) + " to " + std::to_string(g) + " at " + std::to_string(n) + ", decay " + std::to_string(d))) continue;
                H::trans(); H::trace();
                auto dist = [](int64_t a, int64_t b) { return fabsl((L)a - (L)b); };
                auto r = d == 1000 ? TEMPORAL_FUNCTIONS::project(t, s, n, g) : TEMPORAL_FUNCTIONS::project(t, s, n, g, d);
                L D = dist(s, n) + dist(g, n) + d;
                L kc = D > 0 ? dist(s, g) / D : 0;
                string e = eq(*r, f, (1 - kc) * c, k, 1e-4L);
                if (!e.empty() && kc > 0.9L && range(*r).empty() && near(r->c, (1 - kc) * c, 1e-6L) && r->f == f) e = ""; // cancellation
                if (e.empty() && r->c > c) e = "the confidence is raised";
                if (e.empty() && s == g && r->c != c) e = "source and target are the same, the confidence changes to " + num(r->c);
                if (e.empty() && r->f != f) e = "the frequency changes";
                if (e.empty() && (r == t || !same(*t, Truth(f, c, k)))) e = "the argument is changed";
                if (!e.empty()) H::fail("projection", e);
            }
    }
    H::phase("extended boolean functions");
    {
        vector<double> X{0, 1e-6, 0.1, 0.25, 0.5, 0.7, 0.9, 0.999, 1};
        for (double a : X) for (double b : X) for (double c : X) for (double d : X)
        {
            if (!H::tick("And/Or of " + num(a) + " " + num(b) + " " + num(c) + " " + num(d))) continue;
            H::trans(7); H::trace(); H::state("bool" + num(a) + num(b) + num(c) + num(d));
            string e;
            auto is = [&](const char *n, double got, L want) { if (e.empty() && !near(got, want, 1e-12L)) e = string(n) + " is " + num(got) + " instead of " + num(want); if (e.empty() && !(got >= 0 && got <= 1)) e = string(n) + " is out of [0,1]"; };
            L A = a, B = b, CC = c, DD = d;
            is("And/2", And(a, b), A * B); is("And/3", And(a, b, c), A * B * CC); is("And/4", And(a, b, c, d), A * B * CC * DD);
            is("Or/2", Or(a, b), 1 - (1 - A) * (1 - B)); is("Or/3", Or(a, b, c), 1 - (1 - A) * (1 - B) * (1 - CC)); is("Or/4", Or(a, b, c, d), 1 - (1 - A) * (1 - B) * (1 - CC) * (1 - DD));
            is("Or of a list of 4", Or({a, b, c, d}), 1 - (1 - A) * (1 - B) * (1 - CC) * (1 - DD));
            if (d == 0) is("Or of a list of 3", Or(std::initializer_list<double>{a, b, c}), 1 - (1 - A) * (1 - B) * (1 - CC));
            if (c == 0 && d == 0) is("Or of a list of 2", Or(std::initializer_list<double>{a, b}), 1 - (1 - A) * (1 - B));
            if (b == 0 && c == 0 && d == 0) { is("Or of a list of 1", Or(std::initializer_list<double>{a}), A); is("Or of no values", Or(std::initializer_list<double>{}), 0); }
            auto [p, q] = revision(a, b, c, d);
            if (e.empty() && (p != a + b || q != c + d)) e = "revision of amounts of evidence is wrong";
            if (!e.empty()) H::fail("boolean", e);
        }
    }
    H::phase("end");
    return 0;
}
H_MAIN
