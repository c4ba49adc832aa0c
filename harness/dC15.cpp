// C15: tenses against a model of the clock: all combinations of clocks, durations, tenses and times, and short histories with a moving clock.
#include "h.h"
#include "shim.h"
using namespace SENTENCE;
using std::string; using std::vector;
static string want(bool eternal, long occ, long now, long dur)
{
    if (eternal) return "";
    return occ >= now + dur ? ":/: " : occ <= now - dur ? ":\\: " : ":|: ";
}
static string plain(const string &s) { string r; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '\x1b') { while (i < s.size() && s[i] != 'm') i++; continue; } r += s[i]; } return r; }
static const char *P[] = {".", "?", "!", "@"};
static const char *TR[] = {"%1.000;0.900%", "", "%1.000;0.900%", ""};
struct Dur { unsigned old; Dur(unsigned d) { old = CONFIG::temporal_duration; CONFIG::temporal_duration = d; } ~Dur() { CONFIG::temporal_duration = old; } };
// what a sentence of the time occ shows now
static string shown(Sentence &s, bool eternal, long occ, long now, long dur)
{
    GLOBAL::time = now;
    string w = want(eternal, occ, now, dur);
    TENSE::Tense t = s.stamp->tense(), wt = eternal ? TENSE::Eternal : w == ":/: " ? TENSE::Future : w == ":|: " ? TENSE::Present : TENSE::Past;
    string at = " at " + std::to_string(now) + " (occurrence " + std::to_string(occ) + ", duration " + std::to_string(dur) + ")";
    if (t != wt) return "the tense is " + std::to_string(t) + " instead of " + std::to_string(wt) + at;
    if (!eternal && s.stamp->t_occurrence != occ) return "the time of occurrence is " + std::to_string(s.stamp->t_occurrence) + at;
    if (s.stamp->is_eternal != eternal) return "it is eternal or not, wrongly" + at;
    string line = string("A") + P[s.punct] + " " + w + TR[s.punct];
    auto &I = INTERPRETER::interpreter;
    string o = I.interpret(s), c = plain(I.interpret(s, true));
    if (o != line) return "it is shown as \"" + o + "\" instead of \"" + line + "\"" + at;
    if (c != line) return "in colours it is shown as \"" + c + "\" instead of \"" + line + "\"" + at;
    H::trans(2);
    return "";
}
struct Tense { string text; int kind; long n; }; // 0 none, 1 absolute, 2 future, 3 present, 4 past
static bool occurrence(const Tense &t, long now, long dur, long &occ)
{
    occ = t.kind == 1 ? t.n : t.kind == 2 ? now + dur : t.kind == 3 ? now : t.kind == 4 ? now - dur : 0;
    return t.kind != 0;
}
int H::run()
{
    SHIM::parse("A.");
    vector<long> clocks{0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 100, 1000000, 1l << 30, (1l << 31) - 100};
    vector<unsigned> durs{5, 0, 1, 2, 3, 10};
    vector<Tense> T{{"", 0, 0}, {":/:", 2, 0}, {":|:", 3, 0}, {":\\:", 4, 0}};
    for (long n = -12; n <= 24; n++) T.push_back({":!" + std::to_string(n) + ":", 1, n});
    for (long n : {94l, 95l, 96l, 99l, 100l, 101l, 104l, 105l, 106l, 999995l, 1000005l, -1000000l, 2147483647l, -2147483648l, 1l << 30, (1l << 30) - 5, (1l << 30) + 5}) T.push_back({":!" + std::to_string(n) + ":", 1, n});
    T.push_back({":!007:", 1, 7}); T.push_back({":!-0:", 1, 0}); T.push_back({":! 3 :", 1, 3});
    H::phase("read and shown at every clock");
    for (unsigned dur : durs) for (size_t p = 0; p < 4; p++) for (auto &t : T) for (long now : clocks)
    {
        if (dur != 5 && p != 0 && !H::deep()) continue;
        string l = string("A") + P[p] + " " + t.text;
        if (!H::tick("at " + std::to_string(now) + ", duration " + std::to_string(dur) + ": " + l)) continue;
        Dur d(dur);
        GLOBAL::time = now;
        auto k = SHIM::parse(l);
        H::trans(); H::trace();
        if (!k) { H::fail("rejected", "the line is rejected"); continue; }
        long occ; bool timed = occurrence(t, now, dur, occ);
        string e = shown(*k->sentence, !timed, occ, now, dur);
        // a sentence entered with a tense has that tense when it is entered
        if (e.empty() && t.kind >= 2 && (dur > 0 || t.kind == 2) && want(false, occ, now, dur) != t.text + " ") e = "model";
        if (!e.empty()) { H::fail("entered", e); continue; }
        // and later (the clock may also be set back)
        for (long now2 : clocks) { e = shown(*k->sentence, !timed, occ, now2, dur); if (!e.empty()) { H::fail("later", e); break; } }
        H::state(t.text + std::to_string(now) + "/" + std::to_string(dur));
    }
    H::phase("stamps built");
    for (unsigned dur : durs) for (long occ = -25; occ <= 45; occ++) for (int eternal = 0; eternal < 2; eternal++)
        for (int way = 0; way < 3; way++)
        {
            if (way == 0 && eternal) continue;
            if (!H::tick("stamp of occurrence " + std::to_string(occ) + (eternal ? ", eternal" : "") + ", way " + std::to_string(way) + ", duration " + std::to_string(dur))) continue;
            Dur d(dur);
            GLOBAL::time = 4;
            pStamp st = way == 0 ? Stamp::create((signed int)occ) : way == 1 ? Stamp::create((signed int)occ, 4, -1, nullptr, (bool)eternal) : pStamp(new Stamp((signed int)occ, 4, -1, nullptr, (bool)eternal));
            auto a = SHIM::parse("A.");
            Sentence s(a->sentence->term, PUNCTUATION::Judgement, nullptr, st);
            string e;
            for (long now = 0; now <= 24 && e.empty(); now++) e = shown(s, eternal, occ, now, dur);
            if (e.empty())
            {
                // eternalised, it only ceases to have a tense
                auto base = st->evidential_base; auto ids = *base->_set; auto cr = st->t_creation, oc = st->t_occurrence, pu = st->t_put;
                for (int k = 0; k < 2 && e.empty(); k++)
                {
                    st->eternalize();
                    if (!st->is_eternal || st->t_creation != cr || st->t_occurrence != oc || st->t_put != pu || st->evidential_base != base || *base->_set != ids) e = "eternalising it changes more than its tense";
                }
            }
            if (e.empty()) { for (long now = 0; now <= 12 && e.empty(); now++) e = shown(s, true, occ, now, dur); }
            if (e.empty()) { auto q = pStamp(new Stamp(true)); if (q->tense() != TENSE::Eternal) e = "Stamp(true) is not eternal"; }
            if (!e.empty()) H::fail("built", e);
            H::trace(); H::state(std::to_string(occ) + "." + std::to_string(dur) + std::to_string(eternal));
        }
    H::phase("histories");
    // three sentences entered one after the other while the clock moves; all are looked at after each step
    {
        vector<size_t> few{0, 1, 2, 3, 4 + 12 + 3, 4 + 12 + 9};
        for (size_t i : few) for (size_t j : few) for (size_t k : few) for (long d1 : {0, 1, 4, 5}) for (long d2 : {0, 1, 5, 6}) for (int other = 0; other < 2; other++)
        {
            if (!H::tick(T[i].text + " +" + std::to_string(d1) + " " + T[j].text + " +" + std::to_string(d2) + " " + T[k].text + (other ? " (a rejected line between)" : ""))) continue;
            size_t ix[3] = {i, j, k}; long dt[3] = {0, d1, d2};
            vector<TASK::pTask> ts; vector<long> occs; vector<bool> timed;
            long now = 2;
            string e;
            for (int s = 0; s < 3 && e.empty(); s++)
            {
                now += dt[s]; GLOBAL::time = now;
                if (other) SHIM::parse("A. :/: :|:");
                ts.push_back(SHIM::parse(string("A") + P[s] + T[ix[s]].text));
                long occ; timed.push_back(occurrence(T[ix[s]], now, 5, occ)); occs.push_back(occ);
                if (!ts.back()) { e = "rejected"; break; }
                for (int q = 0; q <= s && e.empty(); q++) e = shown(*ts[q]->sentence, !timed[q], occs[q], now, 5);
            }
            if (!e.empty()) H::fail("history", e);
            H::trace();
        }
    }
    GLOBAL::time = 0;
    return 0;
}
H_MAIN
