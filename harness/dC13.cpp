// C13: evidential bases against sets of ids: all pairs of small sets, all maximum lengths, all short histories on two bases.
#include "h.h"
#include "shim.h"
#include <algorithm>
#include <set>
using EVIDENCE::Base; using EVIDENCE::pBase;
using std::string; using std::vector; using std::set;
typedef set<size_t> Ids;
static string show(const Ids &s) { string r = "{"; for (auto i : s) r += (r.size() > 1 ? "," : "") + std::to_string(i); return r + "}"; }
static Ids both(const Ids &a, const Ids &b) { Ids u = a; u.insert(b.begin(), b.end()); return u; }
static bool common(const Ids &a, const Ids &b) { for (auto i : a) if (b.count(i)) return true; return false; }
// the merge of a and b
static string merged(const Ids &r, const Ids &a, const Ids &b, size_t max)
{
    Ids u = both(a, b);
    for (auto i : r) if (!u.count(i)) return "the merge holds " + std::to_string(i) + ", which is in neither base";
    if (a.size() + b.size() <= max && r != u) return "the merge is " + show(r) + " though all of " + show(u) + " fits";
    if (r.size() > max) return "the merge is longer than the maximum";
    if (a.size() + b.size() > max && !common(a, b))
    {
        if (r.size() != max) return "the merge has " + std::to_string(r.size()) + " ids of two disjoint bases, " + std::to_string(max) + " would fit";
        size_t ra = 0, rb = 0; for (auto i : r) (a.count(i) ? ra : rb)++;
        if (ra < std::min(a.size(), max / 2) || rb < std::min(b.size(), max / 2)) return "the room is not shared evenly: " + std::to_string(ra) + " and " + std::to_string(rb) + " ids";
    }
    return "";
}
static string hashok(Base &b)
{
    Base fresh(*b._set);
    if (fresh.__hash__() != b.__hash__()) return "the hash is not that of a base with the same ids";
    return "";
}
struct Max { unsigned old; Max(unsigned m) { old = CONFIG::maximum_evidential_base_length; CONFIG::maximum_evidential_base_length = m; } ~Max() { CONFIG::maximum_evidential_base_length = old; } };

static void pair(const Ids &a, const Ids &b, unsigned max)
{
    Max m(max);
    for (int op = 0; op < 5; op++)
        for (int hashed = 0; hashed < 2; hashed++)
        {
            static const char *N[] = {"extend", "interleave into a new base", "interleave into an empty base", "overlap", "extend the base of a stamp"};
            if (!H::tick(string(N[op]) + " " + show(a) + " " + show(b) + " max " + std::to_string(max) + (hashed ? ", hashed before" : ""))) continue;
            H::trans(); H::trace(); H::state(show(a) + show(b) + std::to_string(max));
            Base A(a), B(b);
            if (hashed) { A.__hash__(); B.__hash__(); }
            string e;
            switch (op)
            {
            case 0: A.extend(B); e = merged(*A._set, a, b, max); if (e.empty() && *B._set != b) e = "the base merged into the other has changed"; break;
            case 1: case 2:
            {
                pBase R;
                if (op == 1) R = Base::interleave(A, B); else { R = pBase(new Base(Ids{})); if (hashed) R->__hash__(); Base::interleave(*R, A, B); }
                e = merged(*R->_set, a, b, max);
                if (e.empty() && (*A._set != a || *B._set != b)) e = "an input of the merge has changed";
                if (e.empty()) e = hashok(*R);
                R->add(999);
                if (e.empty() && (*A._set != a || *B._set != b)) e = "adding to the merge changes an input";
                if (e.empty()) e = hashok(*R);
                break;
            }
            case 3:
                if (A.is_overlaped(B) != common(a, b) || B.is_overlaped(A) != common(a, b)) e = string("overlap is said to be ") + (common(a, b) ? "false" : "true");
                if (e.empty() && (*A._set != a || *B._set != b)) e = "asking for the overlap changes a base";
                break;
            case 4:
            {
                auto s = SENTENCE::Stamp::create(3, 2, 1, pBase(new Base(a)), false);
                s->extend_evidenital_base(B);
                e = merged(*s->evidential_base->_set, a, b, max);
                if (e.empty() && *B._set != b) e = "the base merged into a stamp has changed";
                if (e.empty()) e = hashok(*s->evidential_base);
                break;
            }
            }
            if (e.empty()) e = hashok(A);
            if (e.empty()) e = hashok(B);
            if (e.empty() && (A.size() != A._set->size())) e = "size() is wrong";
            if (!e.empty()) H::fail(N[op], e);
        }
}
// histories on two bases; after a merge which did not fit the model takes the ids over from the implementation (which were checked)
struct Op { int op, x; };
static string show(const Op &o)
{
    static const char *N[] = {"A.add ", "B.add ", "A.extend(B)", "B.extend(A)", "A.extend(A)", "A=interleave(A,B)", "B=interleave(B,A)", "hash A", "hash B", "overlap", "A=fresh", "overlap of each with itself", "A=interleave(A,A)"};
    return N[o.op] + (o.op < 2 ? std::to_string(o.x) : string());
}
static void replay(const vector<Op> &h, unsigned max)
{
    string d; for (auto &o : h) d += (d.empty() ? "" : "; ") + show(o);
    if (!H::tick("max " + std::to_string(max) + ": " + d)) return;
    Max m(max);
    pBase A(new Base(Ids{5})), B(new Base(Ids{}));
    Ids a{5}, b{};
    string e;
    for (size_t k = 0; k < h.size() && e.empty(); k++)
    {
        auto &o = h[k];
        H::trans();
        Ids na = a, nb = b;
        switch (o.op)
        {
        case 0: A->add(o.x); na.insert(o.x); break;
        case 1: B->add(o.x); nb.insert(o.x); break;
        case 2: A->extend(*B); e = merged(*A->_set, a, b, max); na = *A->_set; break;
        case 3: B->extend(*A); e = merged(*B->_set, b, a, max); nb = *B->_set; break;
        case 4: { A->extend(*A); if (a.size() * 2 <= max && *A->_set != a) e = "extending a base by itself changes it"; na = *A->_set; for (auto i : na) if (!a.count(i)) e = "new id"; break; }
        case 5: A = Base::interleave(*A, *B); e = merged(*A->_set, a, b, max); na = *A->_set; break;
        case 6: B = Base::interleave(*B, *A); e = merged(*B->_set, b, a, max); nb = *B->_set; break;
        case 7: A->__hash__(); break;
        case 8: B->__hash__(); break;
        case 9: if (A->is_overlaped(*B) != common(a, b)) e = "wrong overlap"; break;
        case 11: if (A->is_overlaped(*A) != !a.empty() || B->is_overlaped(*B) != !b.empty()) e = "wrong overlap of a base with itself"; else { Base c(A->_set); if (c.is_overlaped(*A) != !a.empty() || A->is_overlaped(c) != !a.empty()) e = "wrong overlap of a base with one of the same ids"; } break;
        case 12: A = Base::interleave(*A, *A); if (a.size() * 2 <= max && *A->_set != a) e = "merging a base with itself changes the ids"; na = *A->_set; for (auto i : na) if (!a.count(i)) e = "new id"; if (na.size() > max) e = "too many ids"; break;
        case 10:
            A = pBase(new Base());
            if (A->_set->size() != 1) e = "a base made without ids has " + std::to_string(A->_set->size());
            A->_set->clear(); A->add(7); na = {7};
            break;
        }
        a = na; b = nb;
        if (e.empty() && (*A->_set != a || *B->_set != b)) e = "the bases are " + show(*A->_set) + " and " + show(*B->_set) + " instead of " + show(a) + " and " + show(b);
        // looking at the hash would renew it: look at that of the last step only
        if (e.empty() && k + 1 == h.size()) { e = hashok(*A); if (e.empty()) e = hashok(*B); }
        if (!e.empty()) e = "after step " + std::to_string(k + 1) + ": " + e;
    }
    if (!e.empty()) H::fail("history", e);
    H::state(show(a) + show(b) + "h"); H::trace();
}
static void histories(const vector<Op> &al, vector<Op> &h, int n, unsigned max)
{
    if (n == 0) { replay(h, max); return; }
    for (auto &o : al) { h.push_back(o); histories(al, h, n - 1, max); h.pop_back(); }
}
int H::run()
{
    H::phase("pairs of sets");
    vector<size_t> U{0, 1, 2, 7, 1ul << 31, (1ul << 32) + 1, ~0ul};
    for (unsigned max : {20000u, 0u, 1u, 2u, 3u, 4u, 5u, 6u, 7u, 14u})
    {
        int bits = max == 20000 || H::deep() ? 7 : 6;
        for (int i = 0; i < 1 << bits; i++) for (int j = 0; j < 1 << bits; j++)
        {
            Ids a, b;
            for (int k = 0; k < bits; k++) { size_t id = bits == 6 && k > 3 ? U[k + 1] : U[k]; if (i >> k & 1) a.insert(id); if (j >> k & 1) b.insert(id); }
            pair(a, b, max);
        }
    }
    H::phase("large sets");
    for (unsigned max : {20000u, 100u})
        for (long da : {-3L, -1L, 0L, 1L, 3L}) for (size_t nb : {(size_t)0, (size_t)1, (size_t)2, (size_t)5, (size_t)max / 2, (size_t)max})
            for (int lay = 0; lay < 3; lay++)
            {
                if (max > 1000 && lay == 2 && !H::deep()) continue;
                size_t na = max + da > 0 ? (lay == 0 ? max - std::min((size_t)max, nb) + da + (da < 0 && nb >= max ? 3 : 0) : max / (lay + 1) + da) : 0;
                if ((long)na < 0 || na > 3 * max) continue;
                if (!H::tick("merge of " + std::to_string(na) + " and " + std::to_string(nb) + " ids, max " + std::to_string(max) + ", layout " + std::to_string(lay))) continue;
                Max m(max);
                Ids a, b;
                for (size_t i = 0; i < na; i++) a.insert(lay == 1 ? i * 2 : i);
                for (size_t i = 0; i < nb; i++) b.insert(lay == 1 ? i * 2 + 1 : lay == 2 ? i * 3 + 5 : 100000 + i);
                Base A(a), B(b);
                auto R = Base::interleave(A, B);
                string e = merged(*R->_set, a, b, max);
                if (e.empty()) e = hashok(*R);
                if (e.empty() && A.is_overlaped(B) != common(a, b)) e = "wrong overlap";
                if (e.empty() && (A.is_overlaped(A) != !a.empty() || B.is_overlaped(B) != !b.empty())) e = "wrong overlap of a base with itself";
                A.extend(B);
                if (e.empty()) e = merged(*A._set, a, b, max);
                for (int how = 0; how < 3 && e.empty(); how++)
                {
                    // the same through a stamp
                    auto s = how == 0 ? SENTENCE::Stamp::create(3, 2, 1, pBase(new Base(a)), true) : how == 1 ? SENTENCE::Stamp::create((signed int)3) : SENTENCE::Stamp::create(true);
                    Ids before = *s->evidential_base->_set;
                    s->extend_evidenital_base(B);
                    e = merged(*s->evidential_base->_set, before, b, max);
                    if (e.empty() && *B._set != b) e = "the base merged into a stamp has changed";
                    if (e.empty()) e = hashok(*s->evidential_base);
                    if (!e.empty()) e = "through a stamp, way " + std::to_string(how) + ": " + e;
                }
                if (!e.empty()) H::fail("large", e.substr(0, 300));
                H::trans(3); H::trace();
            }
    H::phase("histories");
    vector<Op> al; for (int x : {1, 5, 9}) { al.push_back({0, x}); al.push_back({1, x}); }
    for (int o = 2; o <= 12; o++) al.push_back({o, 0});
    vector<Op> h;
    for (unsigned max : {20000u, 3u, 2u, 1u}) for (int n = 1; n <= (H::deep() ? 5 : max == 20000 ? 4 : 4); n++) histories(al, h, n, max);
    H::phase("end");
    return 0;
}
H_MAIN
