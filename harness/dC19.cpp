// C19: the whole vocabulary against the tables of NAL: attributes, printing, reading.
#include "h.h"
#include "shim.h"
#include "Narsese/include/Compound.h"
#include "Narsese/include/Statement.h"
#include "Narsese/include/Tense.h"
#include <set>
using std::string; using std::vector;
using TERM::pTerm; using TERM::Term;
using COPULA::Copula; using CONNECTOR::Connector;
static string squeeze(const string &s) { string r; for (char c : s) if (c != ' ') r += c; return r; }
static string plain(const string &s) { string r; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '\x1b') { while (i < s.size() && s[i] != 'm') i++; continue; } r += s[i]; } return r; }
struct Cop { Copula c; const char *name, *spell; bool comm, high, temp; Copula sym, rev; int sugar; }; // sugar: bit 0 subject in an extensional set, bit 1 predicate in an intensional set
static vector<Cop> copulas()
{
    using enum Copula;
    return {{Inheritance, "Inheritance", "-->", 0, 0, 0, Similarity, None, 0}, {Similarity, "Similarity", "<->", 1, 0, 0, Similarity, None, 0}, {Instance, "Instance", "{--", 0, 0, 0, None, None, 1}, {Property, "Property", "--]", 0, 0, 0, None, None, 2}, {InstanceProperty, "InstanceProperty", "{-]", 0, 0, 0, None, None, 3},
            {Implication, "Implication", "==>", 0, 1, 0, Equivalence, None, 0}, {PredictiveImplication, "PredictiveImplication", "=/>", 0, 1, 1, PredictiveEquivalence, RetrospectiveImplication, 0}, {ConcurrentImplication, "ConcurrentImplication", "=|>", 0, 1, 1, ConcurrentEquivalence, ConcurrentImplication, 0}, {RetrospectiveImplication, "RetrospectiveImplication", "=\\>", 0, 1, 1, None, PredictiveImplication, 0},
            {Equivalence, "Equivalence", "<=>", 1, 1, 0, Equivalence, None, 0}, {PredictiveEquivalence, "PredictiveEquivalence", "</>", 0, 1, 1, PredictiveEquivalence, None, 0}, {ConcurrentEquivalence, "ConcurrentEquivalence", "<|>", 1, 1, 1, ConcurrentEquivalence, ConcurrentEquivalence, 0}};
}
struct Con { Connector c; const char *name, *spell; bool comm, assoc, temp, one, two, many; int read; }; // read: how it is read: 0 several, infix and prefix; 1 two, infix and prefix; 2 negation; 3 set; 4 prefix with one or more; 5 not read
static vector<Con> connectors()
{
    using enum Connector;
    return {{Conjunction, "Conjunction", "&&", 1, 1, 0, 0, 0, 1, 0}, {Disjunction, "Disjunction", "||", 1, 1, 0, 0, 0, 1, 0}, {Product, "Product", "*", 0, 0, 0, 0, 0, 1, 0}, {ParallelEvents, "ParallelEvents", "&|", 1, 1, 1, 0, 0, 1, 0}, {SequentialEvents, "SequentialEvents", "&/", 0, 1, 1, 0, 0, 1, 0}, {IntensionalIntersection, "IntensionalIntersection", "|", 1, 1, 0, 0, 0, 1, 0}, {ExtensionalIntersection, "ExtensionalIntersection", "&", 1, 1, 0, 0, 0, 1, 0},
            {ExtensionalDifference, "ExtensionalDifference", "-", 0, 0, 0, 0, 1, 1, 1}, {IntensionalDifference, "IntensionalDifference", "~", 0, 0, 0, 0, 1, 1, 1}, {Negation, "Negation", "--", 0, 0, 0, 1, 0, 0, 2}, {IntensionalSet, "IntensionalSet", "[", 1, 1, 0, 0, 0, 0, 3}, {ExtensionalSet, "ExtensionalSet", "{", 1, 1, 0, 0, 0, 0, 3}, {IntensionalImage, "IntensionalImage", "\\", 0, 0, 0, 0, 0, 1, 4}, {ExtensionalImage, "ExtensionalImage", "/", 0, 0, 0, 0, 0, 1, 4}, {List, "List", "#", 0, 0, 0, 0, 0, 0, 5}};
}
static auto &I = INTERPRETER::interpreter;
static pTerm at(pTerm t, int i) { if (t && t->subject) return i ? t->predicate : t->subject; if (t && t->terms) for (auto c : *t->terms) { if (i-- == 0) return c; } return nullptr; }
static string atom(pTerm t, const char *n) { return !t ? "a component is missing" : t->is_atom() && I.interpret(*t) == n ? "" : "a component is " + I.interpret(*t) + " instead of " + n; }
static string in_set(pTerm t, Connector c, const char *n) { return !t ? "a component is missing" : t->is_compound() && t->connector == c && t->terms->size() == 1 ? atom(at(t, 0), n) : "a component is " + I.interpret(*t) + " instead of a set of " + n; }
// the components in any order
static string parts(pTerm t, vector<string> want, bool ordered)
{
    vector<string> got; for (auto c : *t->terms) got.push_back(I.interpret(*c));
    if (!ordered) { std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); }
    return got == want ? "" : "the components are wrong";
}
static void ok(const string &what, const string &e) { H::trans(); H::trace(); H::state(what); if (!e.empty()) H::fail(what.substr(0, what.find(':')), e); }
static string eq(const char *n, bool got, bool want) { return got == want ? "" : string(n) + " is " + (got ? "true" : "false"); }
template <typename... A> static string first(const A &...a) { string r; ((r.empty() ? r = a : r), ...); return r; }
int H::run()
{
    auto C = copulas(); auto K = connectors();
    pTerm A = Term::create("A"), B = Term::create("B"), D = Term::create("D");
    auto spelled = [](Copula c) { for (auto &x : copulas()) if (x.c == c) return string(x.spell); return std::to_string((int)c); };
    H::phase("copulas");
    for (auto &c : C)
    {
        if (H::tick(string("attributes of ") + c.name)) ok(string("attributes of copulas: ") + c.name, first(eq("is_commutative", COPULA::is_commutative(c.c), c.comm), eq("is_higher_order", COPULA::is_higher_order(c.c), c.high), eq("is_temporal", COPULA::is_temporal(c.c), c.temp),
            COPULA::symmetrize(c.c) == c.sym ? string() : "its symmetric counterpart is " + spelled(COPULA::symmetrize(c.c)), COPULA::reverse(c.c) == c.rev ? string() : "its reverse is " + spelled(COPULA::reverse(c.c))));
        for (int in = 0; in < 2; in++) for (auto mk : {0, 1})
        {
            if (!H::tick(string("statement built with ") + c.name)) continue;
            pTerm s = mk ? pTerm(new STATEMENT::Statement(A, c.c, B, in)) : (pTerm)STATEMENT::Statement::create(A, c.c, B);
            auto p = static_cast<STATEMENT::Statement *>(&*s);
            string t = squeeze(I.interpret(*s)), u = squeeze(plain(I.interpret(*s, true))), w1 = string("<A") + c.spell + "B>", w2 = string("(A") + c.spell + "B)";
            ok(string("built statement: ") + c.name, first(t == w1 || t == w2 ? string() : "it is printed as " + t, u == w1 || u == w2 ? string() : "in colours it is printed as " + u, s->copula == c.c ? string() : "the copula is " + spelled(s->copula), eq("is_higher_order", s->is_higher_order, c.high), eq("is_commutative", p->is_commutative, c.comm), s->is_statement() ? string() : "it is not a statement"));
        }
        for (int f = 0; f < 5; f++)
        {
            string l = f == 0 ? string("<A") + c.spell + "B>." : f == 1 ? string("(A ") + c.spell + " B)?" : f == 2 ? string("<A ") + c.spell + " B>!" : f == 3 ? string("(A") + c.spell + "B)@" : string("(*, <A ") + c.spell + " B>, D).";
            if (!H::tick(l)) continue;
            auto t = SHIM::parse(l);
            string e;
            if (!t) e = "the line is rejected";
            else
            {
                pTerm s = t->sentence->term; if (f == 4) s = at(s, 0);
                Copula want = c.sugar ? Copula::Inheritance : c.c;
                e = first(s && s->is_statement() ? string() : "it is not a statement");
                if (e.empty()) e = first(s->copula == want ? string() : "the copula is " + spelled(s->copula), c.sugar & 1 ? in_set(s->subject, Connector::ExtensionalSet, "A") : atom(s->subject, "A"), c.sugar & 2 ? in_set(s->predicate, Connector::IntensionalSet, "B") : atom(s->predicate, "B"), eq("is_higher_order", s->is_higher_order, c.high));
            }
            ok(string("read copula: ") + l, e);
        }
    }
    if (H::tick("relations between copulas"))
    {
        string e; std::set<string> seen;
        for (auto &c : C)
        {
            auto r = COPULA::reverse(c.c), s = COPULA::symmetrize(c.c);
            if (r != Copula::None && COPULA::reverse(r) != c.c) e = string("the reverse of the reverse of ") + c.spell + " is another one";
            if (s != Copula::None && COPULA::symmetrize(s) != s) e = string("the symmetric counterpart of ") + c.spell + " is not symmetric";
            if (r != Copula::None && (COPULA::is_temporal(r) != COPULA::is_temporal(c.c) || COPULA::is_higher_order(r) != COPULA::is_higher_order(c.c))) e = string("the reverse of ") + c.spell + " is of another kind";
            pTerm t = STATEMENT::Statement::create(A, c.c, B);
            if (!seen.insert(I.interpret(*t)).second) e = string("two copulas are printed as ") + I.interpret(*t);
        }
        ok("relations", e);
    }
    H::phase("connectors");
    std::set<string> seen;
    for (auto &k : K)
    {
        if (H::tick(string("attributes of ") + k.name)) ok(string("attributes of connectors: ") + k.name, first(eq("is_commutative", CONNECTOR::is_commutative(k.c), k.comm), eq("is_reducible", CONNECTOR::is_reducible(k.c), k.assoc), eq("is_temporal", CONNECTOR::is_temporal(k.c), k.temp), eq("is_single_only", CONNECTOR::is_single_only(k.c), k.one), eq("is_double_only", CONNECTOR::is_double_only(k.c), k.two), eq("is_multiple_only", k.two || CONNECTOR::is_multiple_only(k.c), k.two || k.many)));
        for (unsigned n : {0u, 1u, 2u, 3u, 4u, 5u, 6u, 7u, 8u, 100u, 255u, 256u, 257u, 65536u, 65537u, 0x7fffffffu, 0x80000000u, 0xffffffffu})
            if (H::tick(string(k.name) + " of " + std::to_string(n) + " components"))
                ok(string("number of components: ") + k.name + std::to_string(n), eq("check_valid", CONNECTOR::check_valid(k.c, n), n > 0 && (!k.one || n == 1) && (!k.two || n == 2) && (!k.many || n > 1)));
        for (int n : {1, 2, 3})
        {
            if (k.one && n != 1 || k.two && n != 2) continue;
            vector<pTerm> cs; vector<string> names; for (int i = 0; i < n; i++) { cs.push_back(i == 0 ? A : i == 1 ? B : D); names.push_back(i == 0 ? "A" : i == 1 ? "B" : "D"); }
            string lst; // as printed, in the order they are in
            auto shown = [&](pTerm t, string txt) -> string
            {
                string l1, l2; for (auto c : *t->terms) { if (!l1.empty()) { l1 += ","; l2 += k.spell; } l1 += I.interpret(*c); l2 += I.interpret(*c); }
                string s = k.spell;
                if (k.read == 3) return txt == (s == "{" ? "{" + l1 + "}" : "[" + l1 + "]") ? "" : "it is printed as " + txt;
                if (txt == "(" + s + "," + l1 + ")" || (k.read <= 1 && n > 1 && txt == "(" + l2 + ")") || (k.read == 2 && txt == s + l1)) return "";
                return "it is printed as " + txt;
            };
            for (int in = 0; in < 2; in++)
            {
                if (!H::tick(string("compound of ") + std::to_string(n) + " built with " + k.name)) continue;
                pTerm t = in ? pTerm(new COMPOUND::Compound(k.c, cs, true)) : (pTerm)COMPOUND::Compound::create(k.c, cs);
                auto p = static_cast<COMPOUND::Compound *>(&*t);
                bool single = k.many && k.assoc && n == 1 && !(t->is_compound() && t->connector == k.c); // a junction of one component may be anything with it
                string e;
                if (!single) e = first(t->is_compound() ? string() : "it is not a compound", t->connector == k.c ? string() : "the connector is number " + std::to_string((int)t->connector), parts(t, names, !k.comm), eq("is_commutative", p->is_commutative, k.comm), eq("is_higher_order", t->is_higher_order, false), shown(t, squeeze(I.interpret(*t))), shown(t, squeeze(plain(I.interpret(*t, true)))));
                if (e.empty() && in && n == (k.one ? 1 : 2) && !seen.insert(I.interpret(*t)).second) e = "another connector is printed the same";
                ok(string("built compound: ") + k.name, e);
            }
            vector<string> ls;
            string s = k.spell, l1, l2; for (auto &x : names) { if (!l1.empty()) { l1 += ","; l2 += " " + s + " "; } l1 += x; l2 += x; }
            if (k.read == 0 && (n > 1 || k.c == Connector::Product) || k.read == 1 || k.read == 2 || k.read == 4) ls.push_back("(" + s + "," + l1 + ")"), ls.push_back("( " + s + " , " + l1 + " )");
            if (k.read <= 1 && n > 1) ls.push_back("(" + l2 + ")"), ls.push_back("(" + squeeze(l2) + ")");
            if (k.read == 2) ls.push_back("--A"), ls.push_back("-- A");
            if (k.read == 3) ls.push_back(s == "{" ? "{" + l1 + "}" : "[" + l1 + "]");
            for (auto &l0 : ls) for (int f = 0; f < 3; f++)
            {
                string l = f == 0 ? l0 + "." : f == 1 ? "<" + l0 + " --> B>?" : "<B ==> " + l0 + ">!";
                if (!H::tick(l)) continue;
                auto t = SHIM::parse(l);
                string e;
                if (!t) e = "the line is rejected";
                else
                {
                    pTerm c = t->sentence->term; if (f) c = at(c, f - 1);
                    e = !c || !c->is_compound() ? string("it is not a compound") : first(c->connector == k.c ? string() : "the connector is number " + std::to_string((int)c->connector), parts(c, names, !k.comm), eq("is_commutative", static_cast<COMPOUND::Compound *>(&*c)->is_commutative, k.comm));
                }
                ok(string("read connector: ") + l, e);
            }
        }
    }
    H::phase("punctuations, tenses, variables");
    {
        struct P { SENTENCE::PUNCTUATION::Punctuation p; char c; };
        using namespace SENTENCE;
        struct T { TENSE::Tense t; const char *spell; long occ; };
        vector<T> ts{{TENSE::Eternal, "", 0}, {TENSE::Past, ":\\:", 4}, {TENSE::Present, ":|:", 100}, {TENSE::Future, ":/:", 200}};
        GLOBAL::time = 100;
        for (auto &p : vector<P>{{PUNCTUATION::Judgement, '.'}, {PUNCTUATION::Question, '?'}, {PUNCTUATION::Goal, '!'}, {PUNCTUATION::Quest, '@'}})
            for (auto &t : ts)
            {
                string l = string("A") + p.c + (*t.spell ? " " : "") + t.spell;
                if (H::tick(l))
                {
                    auto k = SHIM::parse(l);
                    string e;
                    if (!k) e = "the line is rejected";
                    else e = first(k->sentence->punct == p.p ? string() : "the punctuation is number " + std::to_string((int)k->sentence->punct), k->sentence->stamp->tense() == t.t ? string() : "the tense is number " + std::to_string((int)k->sentence->stamp->tense()), eq("is_judgement", k->sentence->is_judgement(), p.c == '.'), eq("is_question", k->sentence->is_question(), p.c == '?'), eq("is_goal", k->sentence->is_goal(), p.c == '!'), eq("is_quest", k->sentence->is_quest(), p.c == '@'));
                    ok("read sentence: " + l, e);
                }
                if (H::tick("built " + l))
                {
                    auto st = *t.spell ? pStamp(new Stamp((signed int)t.occ, 100, -1, nullptr, false)) : pStamp(new Stamp(true));
                    Sentence s(A, p.p, nullptr, st);
                    string w = squeeze(l) + (p.c == '.' || p.c == '!' ? "%1.000;0.900%" : ""), a = squeeze(I.interpret(s)), b = squeeze(plain(I.interpret(s, true)));
                    ok("built sentence: " + l, first(a == w ? string() : "it is printed as " + a, b == w ? string() : "in colours it is printed as " + b));
                }
            }
        struct V { VARIABLE::VarPrefix p; char c; };
        for (auto &v : vector<V>{{VARIABLE::VarPrefix::Independent, '$'}, {VARIABLE::VarPrefix::Dependent, '#'}, {VARIABLE::VarPrefix::Qeury, '?'}})
        {
            string l = string("<") + v.c + "x --> A>?";
            if (H::tick(l))
            {
                auto k = SHIM::parse(l);
                string e;
                if (!k) e = "the line is rejected";
                else
                {
                    pTerm x = k->sentence->term->subject;
                    auto q = dynamic_cast<VARIABLE::Variable *>(&*x);
                    string a = I.interpret(*x), b = plain(I.interpret(*x, true));
                    e = !q ? "it is no variable" : first(q->prefix == v.p ? string() : "the kind is number " + std::to_string((int)q->prefix), eq("is_ivar", x->is_ivar, v.c == '$'), eq("is_dvar", x->is_dvar, v.c == '#'), eq("is_qvar", x->is_qvar, v.c == '?'), a[0] == v.c ? string() : "it is printed as " + a, b[0] == v.c ? string() : "in colours it is printed as " + b);
                }
                ok("read variable: " + l, e);
            }
        }
        for (auto &o : vector<string>{"^go", "+7", "+-7"}) if (H::tick(o))
        {
            auto k = SHIM::parse(o + ".");
            ok("read mark: " + o, !k ? string("the line is rejected") : squeeze(I.interpret(*k->sentence->term)) == o && squeeze(plain(I.interpret(*k->sentence->term, true))) == o ? string() : "it is printed as " + I.interpret(*k->sentence->term));
        }
    }
    return 0;
}
H_MAIN
