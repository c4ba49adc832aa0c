// The C++ core as the reference of the Python module: prints what it makes of every line.
#include "fam.h"
#include <cstdio>
using namespace FAM;
static auto &I = INTERPRETER::interpreter;
int main(int argc, char **argv)
{
    bool deep = argc > 1 && string(argv[1]) == "thorough";
    vector<string> lines;
    auto fam = family(deep ? 1 : 0);
    for (auto &e : fam) if (e.nonvar) { lines.push_back(text(e.t) + "."); if (lines.size() % 7 == 0) lines.push_back(text(e.t, 1) + "?"); }
    for (string b : {"", "$0.3$ ", "$.5;0.25$ ", "$1;0.75;0$ "}) for (string p : {".", "?", "!", "@"}) for (string tn : {"", " :|:", " :/:", " :\\:", " :!3:", " :!-70:"}) for (string tr : {"", " %0%", " %0.5;0.25%", " %1.0;.125;3%"}) for (string t : {"<A --> (B * $x)>", "A", "(&&, A, <B ==> {A, C}>)", "(^go, A)", "+4"}) lines.push_back(b + t + p + tn + tr);
    vector<string> good{"$0.5;0.5;0.5$ <A --> (*, B, #y)>. :|: %1.0;0.9%", "(^go, {A, B}, \"q r\")! %0.5%", "<(A && --B) ==> [C]>? :\\:", "(go(a, b) - (c | d))@ :!12:"};
    for (auto &g : good) for (size_t i = 0; i <= g.size(); i++) { lines.push_back(g.substr(0, i)); for (char c : {'$', ')', '%', 'x', '<', ',', ';', '"', ' '}) { string s = g; if (i < s.size()) s[i] = c; lines.push_back(s); lines.push_back(g.substr(0, i) + c + g.substr(i)); } }
    // words of every script
    for (string w : {"\u00e9", "\u00df1", "\u65e5\u672c", "a\u0416_b", "\U0001d11e", "\U0001f600x", "\u00a0", "\uffff", "\u0080"})
        for (string l : {"<W --> B>.", "<$W --> #W>!", "(^W, {W, [W]}, \"W W\", ?W)!", "^W.", "W@", "(*, B, W, \"W\")? :|:", "W(W, W).", "<(W && --W) ==> <W <-> B>>. %0.5%", "(&/, W, +3, #W)!"})
        {
            for (size_t i; (i = l.find('W')) != string::npos;) l.replace(i, 1, w);
            lines.push_back(l);
        }
    for (auto &l : lines)
    {
        auto t = SHIM::parse(l);
        if (!t) { printf("%s\t0\n", l.c_str()); continue; }
        auto term = t->sentence->term;
        int kind = term->is_statement() ? 2 : term->is_compound() ? 3 : term->is_var ? 1 : 0;
        string comps;
        if (kind == 2) comps = I.interpret(*term->subject) + "\x1f" + I.interpret(*term->predicate) + "\x1f";
        if (kind == 3) for (auto c : *term->terms) comps += I.interpret(*c) + "\x1f";
        printf("%s\t1\t%d\t%s\t%s\t%s\t%d\t%d\t%s\n", l.c_str(), (int)t->sentence->punct, I.interpret(*t).c_str(), I.interpret(*t->sentence).c_str(), I.interpret(*term).c_str(), kind, kind == 2 ? (int)term->copula : -1, comps.c_str());
    }
    fflush(stdout);
    _exit(0);
}
