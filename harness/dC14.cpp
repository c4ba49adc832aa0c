// C14: every sentence made in any way has a complete stamp and evidence of its own: all short histories of ways to make one, with the clock moving.
#include "h.h"
#include "shim.h"
#include <functional>
#include <set>
using namespace SENTENCE;
using TERM::pTerm; using TERM::Term; using TRUTH::Truth; using TRUTH::pTruth;
using std::string; using std::vector;
namespace OTHER { pSentence make(int way, const pTerm &t); pStamp stamp(int way, int t); const int N = 8, NS = 4; } // from another translation unit (dC14b.cpp)

struct Made { pSentence s; TASK::pTask t; pStamp st; };
struct Way { string name; int punct; bool eternal; int occ; /* -1: any */ std::function<Made()> f; };
static void *pa, *pb;
static pTerm A;
static vector<Way> ways()
{
    vector<Way> w;
    const char *P[] = {".", "?", "!", "@"};
    const char *tense[] = {"", ":!7:", ":!-3:", ":|:", ":/:", ":\\:", ":!0:"};
    for (int p = 0; p < 4; p++)
        for (int t = 0; t < 7; t++)
            for (int truth = 0; truth < (p % 2 == 0 ? 2 : 1); truth++)
            {
                string l = string("<a-->b>") + P[p] + " " + tense[t] + (truth ? " %0.3;0.4%" : "");
                for (int which = 0; which < 2; which++)
                    w.push_back({(which ? "parser 2: " : "parser 1: ") + l, p, t == 0, t == 1 ? 7 : t == 2 ? -3 : t == 6 ? 0 : -1, [=] { Made m; m.t = SHIM::parse(which ? pb : pa, l); if (m.t) m.s = m.t->sentence; return m; }});
            }
    for (int p = 0; p < 4; p++)
    {
        auto P2 = (PUNCTUATION::Punctuation)p;
        auto tr = [p](int k) { return p % 2 == 0 && k ? pTruth(new Truth(0.3, 0.4)) : pTruth(); };
        for (int k = 0; k < (p % 2 == 0 ? 2 : 1); k++)
        {
            string n = std::to_string(p) + (k ? " with truth" : "");
            w.push_back({"Sentence " + n, p, true, -1, [=] { Made m; m.s = pSentence(new Sentence(A, P2, tr(k))); return m; }});
            w.push_back({"Sentence::create " + n, p, true, -1, [=] { Made m; m.s = Sentence::create(A, P2, tr(k)); return m; }});
            w.push_back({"Sentence::create with stamp " + n, p, false, 9, [=] { Made m; m.s = Sentence::create(A, P2, tr(k), Stamp::create(9)); return m; }});
            w.push_back({"Sentence::create without stamp " + n, p, true, -1, [=] { Made m; m.s = Sentence::create(A, P2, tr(k), nullptr); return m; }});
            if (p == 0) w.push_back({"Judgement " + n, p, true, -1, [=] { Made m; m.s = pSentence(new Judgement(A, tr(k))); return m; }});
            if (p == 1) w.push_back({"Question " + n, p, true, -1, [=] { Made m; m.s = pSentence(new Question(A)); return m; }});
            if (p == 2) w.push_back({"Goal " + n, p, true, -1, [=] { Made m; m.s = pSentence(new Goal(A, tr(k))); return m; }});
            if (p == 3) w.push_back({"Quest " + n, p, true, -1, [=] { Made m; m.s = pSentence(new Quest(A)); return m; }});
            if (p == 0) w.push_back({"Judgement with stamp " + n, p, false, -5, [=] { Made m; m.s = pSentence(new Judgement(A, tr(k), Stamp::create(-5))); return m; }});
            if (p == 1) w.push_back({"Question with stamp " + n, p, false, 4, [=] { Made m; m.s = pSentence(new Question(A, pStamp(new Stamp(4)))); return m; }});
            if (p == 2) w.push_back({"Goal with stamp " + n, p, true, -1, [=] { Made m; m.s = pSentence(new Goal(A, tr(k), pStamp(new Stamp(true)))); return m; }});
            if (p == 3) w.push_back({"Quest with stamp " + n, p, false, -1, [=] { Made m; m.s = pSentence(new Quest(A, Stamp::create())); return m; }});
        }
    }
    for (int i = 0; i < OTHER::N; i++) w.push_back({"another unit, way " + std::to_string(i), i % 4, true, -1, [=] { Made m; m.s = OTHER::make(i, A); return m; }});
    // stamps alone
    w.push_back({"Stamp()", -1, false, -1, [] { Made m; m.st = pStamp(new Stamp()); return m; }});
    w.push_back({"Stamp(true)", -1, true, -1, [] { Made m; m.st = pStamp(new Stamp(true)); return m; }});
    w.push_back({"Stamp(false)", -1, false, -1, [] { Made m; m.st = pStamp(new Stamp(false)); return m; }});
    w.push_back({"Stamp(12)", -1, false, 12, [] { Made m; m.st = pStamp(new Stamp(12)); return m; }});
    w.push_back({"Stamp(0)", -1, false, 0, [] { Made m; m.st = pStamp(new Stamp((signed int)0)); return m; }});
    w.push_back({"Stamp::create()", -1, false, -1, [] { Made m; m.st = Stamp::create(); return m; }});
    w.push_back({"Stamp::create(true)", -1, true, -1, [] { Made m; m.st = Stamp::create(true); return m; }});
    w.push_back({"Stamp::create(-8)", -1, false, -8, [] { Made m; m.st = Stamp::create((signed int)-8); return m; }});
    w.push_back({"Stamp(6, now, -1, nullptr, false)", -1, false, 6, [] { Made m; m.st = pStamp(new Stamp(6, GLOBAL::time, -1, nullptr, false)); return m; }});
    w.push_back({"Stamp(6, now, -1, nullptr)", -1, true, -1, [] { Made m; m.st = pStamp(new Stamp(6, GLOBAL::time, -1, nullptr)); return m; }});
    w.push_back({"Stamp::create(6, now, -1, nullptr, true)", -1, true, -1, [] { Made m; m.st = Stamp::create(6, GLOBAL::time, -1, nullptr, true); return m; }});
    for (int i = 0; i < OTHER::NS; i++) w.push_back({"another unit, stamp " + std::to_string(i), -1, i % 2 == 1, i % 2 ? -1 : 3, [=] { Made m; m.st = OTHER::stamp(i, 3); return m; }});
    return w;
}
static string check(const Way &w, const Made &m, unsigned long now, bool fresh)
{
    if (w.punct >= 0 && !m.s) return "no sentence is made";
    if (m.s)
    {
        if (m.s->punct != w.punct) return "the punctuation is wrong";
        bool need = w.punct == 0 || w.punct == 2;
        if (need && !m.s->truth) return "there is no truth value";
        if (!need && m.s->truth) return "a question or quest has a truth value";
        if (m.s->is_judgement() != (w.punct == 0) || m.s->is_question() != (w.punct == 1) || m.s->is_goal() != (w.punct == 2) || m.s->is_quest() != (w.punct == 3)) return "the kind of sentence is wrong";
        if (!m.s->stamp) return "there is no stamp";
    }
    auto &st = m.s ? m.s->stamp : m.st;
    if (!st) return "there is no stamp";
    if (!st->evidential_base) return "there is no evidential base";
    if (!st->evidential_base->_set || st->evidential_base->_set->size() != 1) return "the evidential base has not one id";
    if (st->t_creation != (long)now) return "the time of creation is " + std::to_string(st->t_creation) + " at " + std::to_string(now);
    if (st->is_eternal != w.eternal) return w.eternal ? "it is not eternal though no time was given" : "it is eternal though a time was given";
    if (w.occ != -1 && st->t_occurrence != w.occ) return "the time of occurrence is " + std::to_string(st->t_occurrence) + " instead of " + std::to_string(w.occ);
    if ((st->tense() == TENSE::Eternal) != w.eternal) return "the tense does not tell whether it is eternal";
    return "";
}
static vector<Way> W;
static std::set<size_t> ever; // every id this process has seen: a new one is none of these
static void history(const vector<int> &h, const vector<int> &dt)
{
    string d; for (size_t i = 0; i < h.size(); i++) d += (i ? "; " : "") + string(dt[i] ? "+" + std::to_string(dt[i]) + " " : "") + W[h[i]].name;
    if (!H::tick(d)) return;
    GLOBAL::time = 3;
    vector<Made> all;
    vector<unsigned long> when;
    string e;
    std::set<size_t> seen;
    for (size_t i = 0; i < h.size() && e.empty(); i++)
    {
        GLOBAL::time += dt[i];
        all.push_back(W[h[i]].f()); when.push_back(GLOBAL::time);
        H::trans();
        // also the earlier ones: they must not change
        for (size_t k = 0; k <= i && e.empty(); k++) { e = check(W[h[k]], all[k], when[k], k == i); if (!e.empty()) e = "sentence " + std::to_string(k + 1) + " after step " + std::to_string(i + 1) + ": " + e; }
        if (!e.empty()) break;
        auto &st = all[i].s ? all[i].s->stamp : all[i].st;
        size_t id = *st->evidential_base->_set->begin();
        if (!seen.insert(id).second) e = "its id of evidence, " + std::to_string(id) + ", is that of an earlier one";
        else if (!ever.insert(id).second) e = "its id of evidence, " + std::to_string(id) + ", is that of one made in an earlier history";
        for (size_t k = 0; k < i && e.empty(); k++)
        {
            auto &s2 = all[k].s ? all[k].s->stamp : all[k].st;
            if (st == s2) e = "it shares its stamp with an earlier one";
            else if (st->evidential_base->is_overlaped(*s2->evidential_base)) e = "its evidence overlaps with that of an earlier one";
        }
    }
    if (!e.empty()) H::fail("stamp", e);
    string st = "t" + std::to_string(GLOBAL::time); for (int i : h) st += " " + std::to_string(i);
    H::state(st); H::trace();
    GLOBAL::time = 0;
}
int H::run()
{
    pa = SHIM::new_parser(); pb = SHIM::new_parser();
    auto ta = SHIM::parse(pa, "A.");
    A = ta->sentence->term;
    W = ways();
    int N = W.size();
    H::infon("ways", N);
    H::phase("histories");
    for (int i = 0; i < N; i++) for (int d : {0, 1, 100000}) history({i}, {d});
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) for (int d : {0, 2}) history({i, j}, {0, d});
    // triples: a smaller alphabet in the quick tier
    int s = H::deep() ? 1 : 3;
    for (int r = 0; r < s && (H::deep() || r < 1); r++)
        for (int i = 0; i < N; i += s) for (int j = 0; j < N; j += s) for (int k = 0; k < N; k += s) history({i, j, k}, {0, 1, 0});
    H::phase("times, values and terms");
    {
        // more ways, each twice, with the next one, and with the clock moving far
        const char *P[] = {".", "?", "!", "@"};
        vector<long> ts;
        for (long t : {1L, 2L, 4L, 5L, 6L, 10L, 100L, 127L, 128L, 255L, 256L, 999L, 1000L, 1003L, 1004L, 5000L, 32767L, 32768L, 65535L, 65536L, 99999L, 1000000L, 123456789L, 2147483647L}) { ts.push_back(t); ts.push_back(-t); }
        for (int p = 0; p < 4; p++)
        {
            for (long t : ts)
            {
                string l = string("A") + P[p] + " :!" + std::to_string(t) + ":";
                W.push_back({"parser 1: " + l, p, false, (int)t, [=] { Made m; m.t = SHIM::parse(pa, l); if (m.t) m.s = m.t->sentence; return m; }});
                if (p == 0) W.push_back({"Stamp::create(" + std::to_string(t) + ")", -1, false, (int)t, [=] { Made m; m.st = Stamp::create((signed int)t); return m; }});
                if (p == 1) W.push_back({"Stamp(" + std::to_string(t) + ", now, -1, nullptr, false)", -1, false, (int)t, [=] { Made m; m.st = pStamp(new Stamp((signed int)t, GLOBAL::time, -1, nullptr, false)); return m; }});
            }
            for (string term : {"A", "^go", "(^go, A)", "(--, A)", "<$x-->A>", "(&&, <#x-->A>, <?y-->B>)", "{A, B}", "(*, A)", "<<A-->B>==><B=/>C>>", "+5", "(&/, A, +5, B)", "(*, #1)"})
                for (string budget : {"", "$0.9$ ", "$0.1;0.2;0.3$ ", "$1.0;0.5;0.0$ "})
                    for (string truth : {"", "%1.0%", "%0.0;0.01%", "%0.5;0.99;7%"})
                        for (string tense : {"", ":|: ", ":/: ", ":!-8: "})
                        {
                            if (p % 2 == 1 && !truth.empty()) continue;
                            string l = budget + term + P[p] + " " + tense + truth;
                            W.push_back({"parser 2: " + l, p, tense.empty(), tense == ":!-8: " ? -8 : -1, [=] { Made m; m.t = SHIM::parse(pb, l); if (m.t) m.s = m.t->sentence; return m; }});
                        }
        }
        for (int i = N; i < (int)W.size(); i++)
            for (int d : {0, 2, 4000}) { history({i}, {d}); history({i, i}, {0, d}); history({i, i + 1 < (int)W.size() ? i + 1 : N}, {d, 0}); history({i, i * 7 % N, i}, {0, 1, d}); }
        W.resize(N);
    }
    H::phase("many sentences");
    for (int stride : {1, 7, 11})
    {
        if (!H::tick("2000 sentences in turn, stride " + std::to_string(stride))) continue;
        std::set<size_t> ids;
        vector<Made> all;
        for (int i = 0; i < 2000; i++)
        {
            all.push_back(W[(i * stride) % N].f());
            auto &st = all.back().s ? all.back().s->stamp : all.back().st;
            if (!st || !st->evidential_base || !ids.insert(*st->evidential_base->_set->begin()).second) { H::fail("ids", "sentence " + std::to_string(i) + " has no id of its own"); break; }
        }
        H::trans(2000); H::trace();
    }
    if (H::tick("140000 sentences in one process"))
    {
        // more than 16 bits can tell apart
        std::set<size_t> ids;
        for (int i = 0; i < 140000; i++)
        {
            auto m = W[i % 64 ? N - 1 - i % 4 : i / 64 % N].f();
            auto &st = m.s ? m.s->stamp : m.st;
            if (!st || !st->evidential_base || st->evidential_base->_set->size() != 1 || !ids.insert(*st->evidential_base->_set->begin()).second) { H::fail("ids", "sentence " + std::to_string(i) + " has no id of its own"); break; }
        }
        H::trans(140000); H::trace();
    }
    H::phase("other sentences are kept apart");
    // a rejected line, and merging of bases in between
    for (int i = 0; i < N; i++)
    {
        if (!H::tick("merge, rejected line, then " + W[i].name)) continue;
        auto x = W[0].f(), y = W[3].f();
        auto m = EVIDENCE::Base::interleave(*x.s->stamp->evidential_base, *y.s->stamp->evidential_base);
        SHIM::parse(pa, "<a-->b"); SHIM::parse(pb, "<a-->b>. %2%");
        auto z = W[i].f();
        auto &st = z.s ? z.s->stamp : z.st;
        if (st->evidential_base->is_overlaped(*m)) H::fail("ids", "new evidence overlaps with a merge of earlier");
        x.s->stamp->extend_evidenital_base(*y.s->stamp->evidential_base);
        if (st->evidential_base->is_overlaped(*x.s->stamp->evidential_base)) H::fail("ids", "new evidence overlaps with extended evidence");
        auto z2 = W[i].f();
        auto &st2 = z2.s ? z2.s->stamp : z2.st;
        if (st2->evidential_base->is_overlaped(*x.s->stamp->evidential_base) || st2->evidential_base->is_overlaped(*st->evidential_base)) H::fail("ids", "new evidence overlaps with earlier");
        H::trans(6); H::trace();
    }
    W.clear(); A = pTerm();
    return 0;
}
H_MAIN
