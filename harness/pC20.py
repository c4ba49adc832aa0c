"""C20: histories of operations of the Python module against a model of its objects, and against the C++ core.
The module is built with the address sanitizer, so that every use of freed memory stops the explorer."""
import hpy as H
import os, subprocess, gc, itertools
MARK = {0: "Term", 1: "Variable", 2: "Statement", 3: "Compound"}
COMM = {"&&", "||", "&|", "|", "&"}
# ---- canonical form of printed terms ----
def canon(s):
    t, i = _term(s, 0)
    if i != len(s): raise ValueError("cannot read the printed term %r" % s)
    return t
def _list(s, i, end):
    out = []
    if s[i] == end: return out, i + 1
    while True:
        t, i = _term(s, i); out.append(t)
        if s[i] == end: return out, i + 1
        if s[i:i + 2] != ", ": raise ValueError("cannot read the printed term %r at %d" % (s, i))
        i += 2
def _term(s, i):
    c = s[i]
    if c == "<":
        a, i = _term(s, i + 1); j = s.index(" ", i + 1); cop = s[i + 1:j]
        b, i = _term(s, j + 1)
        if s[i] != ">": raise ValueError("cannot read the printed term %r at %d" % (s, i))
        return "<%s %s %s>" % (a, cop, b), i + 1
    if c == "{" or c == "[":
        l, i = _list(s, i + 1, "}" if c == "{" else "]")
        return c + ", ".join(sorted(l)) + ("}" if c == "{" else "]"), i
    if c == "(":
        j = i + 1
        if s[j] == "^": l, i = _list(s, j, ")"); return "(" + ", ".join(l) + ")", i
        while s[j] not in ",)": j += 1
        con = s[i + 1:j]
        l, i = _list(s, j + 2 if s[j:j + 2] == ", " else j, ")")
        return "(" + ", ".join([con] + (sorted(l) if con in COMM else l)) + ")", i
    j = i
    if c == '"':
        j += 1
        while s[j] != '"': j += 2 if s[j] == "\\" else 1
        return s[i:j + 1], j + 1
    while j < len(s) and s[j] not in " ,)]}>": j += 1
    return s[i:j], j
def strip(r):
    mark, _, t = r.partition(": ")
    return mark[1:], t[:-1]
# ---- agreement with the core ----
def walk(t, depth=0):
    """is the term consistent with its components?"""
    mark, txt = strip(repr(t)); c = canon(txt)
    H.trans()
    if mark == "Statement":
        s, p = t.subject, t.predicate
        l = list(t.terms)
        if [repr(x) for x in l] != [repr(s), repr(p)]: return "the terms of %s are %r" % (txt, l)
        e = walk(s, depth + 1) or walk(p, depth + 1)
        if e: return e
        if txt.startswith("("): return None # an operation
        n = [k for k, v in COPULAS.items() if getattr(M.Copula, v) == t.copula]
        if len(n) != 1 or c != "<%s %s %s>" % (canon(strip(repr(s))[1]), n[0], canon(strip(repr(p))[1])): return "%s has the subject %r, the copula %r and the predicate %r" % (txt, s, t.copula, p)
        return None
    if t.copula is not None or t.subject is not None or t.predicate is not None: return "%s has a copula, subject or predicate" % txt
    if mark == "Compound":
        l = list(t.terms)
        for x in l:
            e = walk(x, depth + 1)
            if e: return e
        cs = ", ".join(strip(repr(x))[1] for x in l)
        if not (txt == "{" + cs + "}" or txt == "[" + cs + "]" or txt.startswith("(") and txt.endswith(", " + cs + ")")): return "%s has the components %s" % (txt, cs)
        return None
    if t.terms is not None: return "%s has components" % txt
    return None
COPULAS = {"-->": "Inheritance", "<->": "Similarity", "{--": "Instance", "--]": "Property", "{-]": "InstanceProperty", "==>": "Implication", "=/>": "PredictiveImplication", "=|>": "ConcurrentImplication", "=\\>": "RetrospectiveImplication", "<=>": "Equivalence", "</>": "PredictiveEquivalence", "<|>": "ConcurrentEquivalence"}
def agreement():
    core = subprocess.run([os.environ["NARSESE_CORE"], "thorough" if H.thorough else "quick"], stdout=subprocess.PIPE, env={k: v for k, v in os.environ.items() if k != "LD_PRELOAD"}).stdout.decode("utf-8")
    rows = [l.split("\t") for l in core.split("\n") if l]
    if len(rows) < 1000: H.tick("core"); H.fail("core", "the C++ core gives only %d lines" % len(rows)); return
    for row in rows:
        line = row[0]
        if not H.tick("parse " + repr(line)): continue
        H.trace(); H.trans(); H.state(line)
        try: t = M.parse(line)
        except RuntimeError as e: t = None
        if row[1] == "0":
            if t is not None: H.fail("agreement", "accepted as %r, but the core rejects it" % t)
            elif repr(M.parse("A.")) != "<Task: $0.80;0.80;0.50$ A. %1.000;0.900%>": H.fail("agreement", "afterwards A. is read as %r" % M.parse("A."))
            continue
        if t is None: H.fail("agreement", "rejected, but the core accepts it"); continue
        punct, task, sent, term, kind, cop, comps = row[2:]
        s, u = t.sentence, t.term
        mark, tt = strip(repr(u))
        e = None
        if mark != MARK[int(kind)]: e = "the term is shown as %r" % u
        elif canon(tt) != canon(term): e = "the term is %s instead of %s" % (tt, term)
        elif repr(s) != "<Sentence: %s>" % sent.replace(term, tt, 1): e = "the sentence is %r instead of %s" % (s, sent)
        elif repr(t) != "<Task: %s>" % task.replace(term, tt, 1): e = "the task is %r instead of %s" % (t, task)
        elif (u.copula is None) != (cop == "-1") or u.copula is not None and int(u.copula) != int(cop): e = "the copula is %r" % u.copula
        else:
            l = u.terms
            got = [] if l is None else [canon(strip(repr(x))[1]) for x in l]
            want = [canon(x) for x in comps.split("\x1f")[:-1]]
            if got != want and sorted(got) != sorted(want): e = "the components are %r instead of %r" % (got, want)
            elif len(got) > 1 and int(kind) == 2 and got != want: e = "the components are exchanged"
            else: e = walk(u)
        if e: H.fail("agreement", e)
# ---- histories ----
# A model value is a tuple; terms: (kind, text, components, copula)
def atom(n): return ("term", 0, n, None, None)
def stat(a, c, b): return ("term", 2, "<%s %s %s>" % (a[2], c, b[2]), [a, b], c)
def comp(con, cs):
    if con == "*": return ("term", 3, "(*, %s)" % ", ".join(c[2] for c in cs), cs, None)
    flat = []
    for c in cs:
        same = c[1] == 3 and (c[2].startswith("{") if con == "{" else c[2].startswith("(&&,"))
        for x in (c[3] if same else [c]):
            if all(canon(x[2]) != canon(y[2]) for y in flat): flat.append(x)
    cs = flat
    if con == "&&" and len(cs) == 1: return None # what a conjunction of one component is, is not part of this model
    return ("term", 3, "{%s}" % ", ".join(c[2] for c in cs) if con == "{" else "(&&, %s)" % ", ".join(c[2] for c in cs), cs, None)
A, B = atom("A"), atom("B")
VX = ("term", 1, "$0", None, None)
T1 = stat(A, "-->", comp("*", [B, A]))
T2 = comp("&&", [B, stat(comp("{", [A]), "==>", VX)])
T3 = ("term", 2, "(^go, A, +3)", [comp("*", [A, atom("+3")]), atom("^go")], "-->")
LINES = [("A.", ("task", "$0.80;0.80;0.50$ ", A, ". %1.000;0.900%")), ("$0.3$ <A --> (*, B, A)>? :|:", ("task", "$0.30;0.90;1.00$ ", T1, "? :|: ")), ("(&&, B, <{A} ==> $x>)! %.5;.5%", ("task", "$0.80;0.80;0.50$ ", T2, "! %0.500;0.500%")), ("(^go, A, +3)@ :\\:", ("task", "$0.80;0.80;0.50$ ", T3, "@ :\\: "))]
class Iter:
    def __init__(self, comps, ordered): self.left = list(comps); self.ordered = ordered
def shown(o, m):
    """how the object differs from the model, if it does"""
    k = m[0]
    if k == "iter": return None
    r = repr(o)
    if k == "term":
        mark, t = strip(r)
        if mark != MARK[m[1]] or canon(t) != canon(m[2]): return "%s instead of %s" % (r, m[2])
        if m[1] < 2:
            if o.subject is not None or o.predicate is not None or o.copula is not None or o.terms is not None: return "%s has parts" % r
        elif m[1] == 2 and canon(strip(repr(o.subject))[1]) != canon(m[3][0][2]): return "the subject of %s is %r" % (r, o.subject)
        return None
    if k == "truth":
        w = "<Truth: %%%.2f, %.2f%% (k=%g)>" % (m[1][0], m[1][1], m[1][2])
        return None if r == w and [o.f, o.c, o.k] == m[1] and abs(o.e - (m[1][1] * (m[1][0] - .5) + .5)) < 1e-6 else "%s instead of %s" % (r, w)
    if k == "budget":
        w = "<Budget: $%.2f;%.2f;%.2f$>" % tuple(m[1])
        return None if r == w and [o.p, o.d, o.q] == m[1] else "%s instead of %s" % (r, w)
    # sentences and tasks: up to the order of components
    head = "<Sentence: " if k == "sent" else "<Task: " + m[1]
    if not r.startswith(head) or not r.endswith(m[3] + ">") or canon(r[len(head):len(r) - len(m[3]) - 1]) != canon(m[2][2]): return "%s instead of %s%s%s>" % (r, head, m[2][2], m[3])
    return None
NS = 3
def operations(deep):
    """(name, applies(models) -> bool, run(objects, models))"""
    ops = []
    def op(name, cond, run): ops.append((name, cond, run))
    S = range(NS)
    def put(i, f, g):
        """slot i := object, model"""
        def run(o, m): x, y = f(o), g(m); o[i] = x; m[i] = y
        return run
    free = lambda i: lambda m: True
    term = lambda m, i: m[i] is not None and m[i][0] == "term"
    for i in S:
        for l, w in LINES: op("x%d = parse(%r)" % (i, l), free(i), put(i, lambda o, l=l: M.parse(l), lambda m, w=w: w))
        op("x%d = Term('A')" % i, free(i), put(i, lambda o: M.Term("A"), lambda m: A))
        op("del x%d" % i, lambda m, i=i: m[i] is not None, put(i, lambda o: None, lambda m: None))
        op("x%d = Truth(.25, .5, 2)" % i, free(i), put(i, lambda o: M.Truth(.25, .5, 2), lambda m: ("truth", [.25, .5, 2])))
        op("x%d = Budget(.25, .5, .75)" % i, free(i), put(i, lambda o: M.Budget(.25, .5, .75), lambda m: ("budget", [.25, .5, .75])))
        def setf(o, m, i=i):
            o[i].f = .75; o[i].c = .125; m[i] = ("truth", [.75, .125, m[i][1][2]])
        op("x%d.f = .75; x%d.c = .125" % (i, i), lambda m, i=i: m[i] is not None and m[i][0] == "truth" and len(m[i]) == 2, setf)
        def setp(o, m, i=i):
            o[i].p = .125; o[i].q = .5; m[i] = ("budget", [.125, m[i][1][1], .5])
        op("x%d.p = .125; x%d.q = .5" % (i, i), lambda m, i=i: m[i] is not None and m[i][0] == "budget", setp)
    for i in S:
        for j in S:
            task = lambda m, j=j: m[j] is not None and m[j][0] == "task"
            op("x%d = x%d.sentence" % (i, j), task, put(i, lambda o, j=j: o[j].sentence, lambda m, j=j: ("sent", "", m[j][2], m[j][3])))
            op("x%d = x%d.term" % (i, j), task, put(i, lambda o, j=j: o[j].term, lambda m, j=j: m[j][2]))
            op("x%d = x%d.subject" % (i, j), lambda m, j=j: term(m, j) and m[j][1] == 2, put(i, lambda o, j=j: o[j].subject, lambda m, j=j: m[j][3][0]))
            op("x%d = x%d.predicate" % (i, j), lambda m, j=j: term(m, j) and m[j][1] == 2, put(i, lambda o, j=j: o[j].predicate, lambda m, j=j: m[j][3][1]))
            op("x%d = x%d.terms" % (i, j), lambda m, j=j: term(m, j) and m[j][1] >= 2, put(i, lambda o, j=j: o[j].terms, lambda m, j=j: ("iter", Iter(m[j][3], m[j][1] == 2 or m[j][2].startswith("(*")))))
            op("x%d = Sentence(x%d, Goal)" % (i, j), lambda m, j=j: term(m, j) and m[j][1] != 1, put(i, lambda o, j=j: M.Sentence(o[j], M.Punctuation.Goal, None, None), lambda m, j=j: ("sent", "", m[j], "! %1.000;0.900%")))
            op("x%d = Compound(ExtensionalSet, x%d)" % (i, j), lambda m, j=j: term(m, j), put(i, lambda o, j=j: M.Compound(M.Connector.ExtensionalSet, o[j]), lambda m, j=j: comp("{", [m[j]])))
            def nxt(o, m, i=i, j=j):
                it, mi = o[j], m[j][1]
                try: x = next(it)
                except StopIteration:
                    if mi.left: raise AssertionError("the iteration ends before %s" % mi.left[0][2])
                    return
                if not mi.left: raise AssertionError("the iteration goes on with %r" % x)
                c = canon(strip(repr(x))[1])
                for y in mi.left[:1] if mi.ordered else mi.left:
                    if canon(y[2]) == c: break
                else: raise AssertionError("the iteration gives %r" % x)
                mi.left.remove(y); o[i], m[i] = x, y
            op("x%d = next(x%d)" % (i, j), lambda m, j=j: m[j] is not None and m[j][0] == "iter", nxt)
            for k in S:
                two = lambda m, j=j, k=k: term(m, j) and term(m, k)
                op("x%d = Statement(x%d, Implication, x%d)" % (i, j, k), two, put(i, lambda o, j=j, k=k: M.Statement(o[j], M.Copula.Implication, o[k]), lambda m, j=j, k=k: stat(m[j], "==>", m[k])))
                op("x%d = Compound(Product, x%d, x%d)" % (i, j, k), two, put(i, lambda o, j=j, k=k: M.Compound(M.Connector.Product, o[j], o[k]), lambda m, j=j, k=k: comp("*", [m[j], m[k]])))
                op("x%d = Compound(Conjunction, x%d, x%d)" % (i, j, k), lambda m, j=j, k=k: term(m, j) and term(m, k) and comp("&&", [m[j], m[k]]) is not None, put(i, lambda o, j=j, k=k: M.Compound(M.Connector.Conjunction, o[j], o[k]), lambda m, j=j, k=k: comp("&&", [m[j], m[k]])))
                if j != k:
                    def sent(o, m, i=i, j=j, k=k):
                        x = M.Sentence(o[j], M.Punctuation.Judgement, o[k], None); y = ("sent", "", m[j], ". %%%.3f;%.3f%%" % tuple(m[k][1][:2]))
                        m[k] = ("truth", m[k][1], "shared") # not changed any more: whether the sentence follows is not claimed
                        o[i] = x; m[i] = y
                    op("x%d = Sentence(x%d, Judgement, x%d)" % (i, j, k), lambda m, j=j, k=k: term(m, j) and m[j][1] != 1 and m[k] is not None and m[k][0] == "truth", sent)
    def bad(l):
        def run(o, m):
            try: t = M.parse(l)
            except RuntimeError: return
            raise AssertionError("parse(%r) gives %r" % (l, t))
        return run
    for l in ("", "<A --> .", "(&&, A"): op("parse(%r) fails" % l, lambda m: True, bad(l))
    return ops
def play(ops, h):
    """replays the history on the module; checks everything after the last operation"""
    o, m = [None] * NS, [None] * NS
    for i in h: ops[i][2](o, m)
    H.trans(len(h))
    for i in range(NS):
        if m[i] is not None:
            e = shown(o[i], m[i])
            if e: return "x%d is shown as %s" % (i, e)
    # what the iterators are left with
    for i in range(NS):
        if m[i] is not None and m[i][0] == "iter":
            mi, got = m[i][1], [canon(strip(repr(x))[1]) for x in o[i]]
            want = [canon(x[2]) for x in mi.left]
            if got != want if mi.ordered else sorted(got) != sorted(want): return "the rest of the iteration x%d is %r instead of %r" % (i, got, want)
    # every order of dropping
    return None
def model_only(ops, h):
    """the models after the history, None if it does not apply"""
def key(m):
    return repr([None if x is None else ("iter", [y[2] for y in x[1].left]) if x[0] == "iter" else x[:1] + ((x[1],) if x[0] in ("truth", "budget") else (x[2][2],) if x[0] in ("sent", "task") else (x[2],)) + x[3:4 if x[0] == "sent" else 3] for x in m])
def histories(depth, ops):
    """depth-first over the operations which apply; slots are used in order (they are symmetric)"""
    h = []
    def go(d):
        o, m = [None] * NS, [None] * NS
        try:
            for i in h: ops[i][2](o, m)
        except BaseException: return # reported when it was the last operation
        H.state(key(m))
        used = sum(x is not None for x in m); fresh = next((i for i in range(NS) if m[i] is None), None)
        todo = []
        for i, (name, cond, run) in enumerate(ops):
            if not cond(m): continue
            if name[0] == "x" and " = " in name and name[2] == " ":
                t = int(name[1])
                if m[t] is None and t != fresh: continue # a free slot is as good as another
            todo.append(i)
        o = m = None
        for i in todo:
            h.append(i)
            if H.tick("; ".join(ops[j][0] for j in h)):
                H.trace()
                try: e = play(ops, h)
                except H.Stop: raise
                except BaseException as x: e = "%s: %s" % (type(x).__name__, x)
                if e: H.fail("history", e)
            elif H.only >= 0 and H.n > H.only: return
            if d > 1: go(d - 1)
            h.pop()
    go(depth)
# ---- lifetimes: an object obtained through others stays valid when all others are gone ----
def lifetimes():
    def paths(t, p, d):
        yield p
        if d == 0: return
        if t.subject is not None:
            yield from paths(t.subject, p + ["subject"], d - 1); yield from paths(t.predicate, p + ["predicate"], d - 1)
        if t.terms is not None:
            for i, x in enumerate(t.terms): yield from paths(x, p + [i], d - 1)
    for line in ["<<A --> (*, B, {C, D})> ==> (&&, <$x --> A>, (--, <#y --> [E]>), F)>. :|: %.5;.5%", "(^go, (*, A, +3), <B <-> {C}>)!", "(&/, A, +3, (|, B, C, (&, D, E)))?", "((A * B) - (C && $z))@"]:
        ref = M.parse(line)
        for p in list(paths(ref.term, [], 6)):
            for via in ("term", "sentence kept", "task kept", "iterator kept"):
                for junk in (0, 3):
                    if not H.tick("%s of %s, %s, %d other lines in between" % (".".join(map(str, p)) or "term", line, via, junk)): continue
                    H.trace(); H.state(H.desc)
                    task = M.parse(line); x = task.term; sent = task.sentence; keep = []
                    want = ref.term
                    for a in p:
                        it = x.terms; l = list(it)
                        x = getattr(x, a) if isinstance(a, str) else l[a]
                        if via == "iterator kept": keep.append(l)
                        H.trans()
                    w0 = repr(x)
                    if via == "sentence kept": del task
                    elif via == "task kept": del sent
                    else: del task, sent
                    try: del it, l
                    except NameError: pass
                    gc.collect()
                    js = [M.parse("<A%d --> B%d>." % (i, i)) for i in range(junk)]
                    del js
                    if repr(x) != w0: H.fail("lifetime", "%r was %s" % (x, w0)); continue
                    e = walk(x)
                    if e: H.fail("lifetime", e); continue
                    y = M.Statement(x, M.Copula.Inheritance, x)
                    del x; gc.collect()
                    e = walk(y)
                    if e: H.fail("lifetime", "used in a statement: " + e)
                    if canon(strip(repr(y.subject))[1]) != canon(strip(w0)[1]): H.fail("lifetime", "in a statement it is %r" % y.subject)
                    keep.clear(); del y
# ---- every constructor with every kind of argument ----
CONNECTORS = {"Conjunction": "&&", "Disjunction": "||", "Product": "*", "ParallelEvents": "&|", "SequentialEvents": "&/", "IntensionalIntersection": "|", "ExtensionalIntersection": "&", "ExtensionalDifference": "-", "IntensionalDifference": "~", "Negation": "--", "IntensionalSet": "[", "ExtensionalSet": "{", "IntensionalImage": "\\", "ExtensionalImage": "/"}
TERMS = ["A", "B", "+3", "^go", "$x", "#y", "{A}", "[A, B]", "<A --> B>", "(*, A, B)", "(&&, A, B)", "(&/, A, B)", "(&, A, B)", "(|, B, C)", "(||, A, C)", "(&|, C, B)", "(--, A)", "{B, {C}}", "(-, A, B)", "(^go, A)", "(/, A, B)"]
def fl(x):
    import struct
    return struct.unpack("f", struct.pack("f", x))[0]
def constructors():
    def term(l):
        if l[0] in "$#?": return M.parse("{%s}." % l).term.terms.__next__()
        return M.Term(l) if l.isalpha() else M.parse(l + ".").term
    def check(what, got, line):
        """the object is the one which the line stands for"""
        w = M.parse(line + ".").term
        e = walk(got)
        if e: H.fail("constructor", e); return
        if repr(got).partition(": ")[0] != repr(w).partition(": ")[0] or canon(strip(repr(got))[1]) != canon(strip(repr(w))[1]): H.fail("constructor", "it is %r instead of %r" % (got, w))
    def num(l): return l in TERMS[:4] or l[0] in "([{<"
    for w in ("\u00e9", "\u65e5\u672c", "a\u0416_b", "\U0001d11e", "\uffff", "w" * 300, "\u8a9e" * 200):
        for k in range(4):
            if not H.tick("a term of the word %r, %d" % (w, k)): continue
            H.trace(); H.trans(); H.state(H.desc)
            t = M.Term(w); a = M.Term("A")
            if k == 0: check("Term", t, w)
            elif k == 1: check("Statement", M.Statement(t, M.Copula.Inheritance, a), "<%s --> A>" % w)
            elif k == 2: check("Compound", M.Compound(M.Connector.Product, a, t), "(*, A, %s)" % w)
            else: check("Compound", M.Compound(M.Connector.ExtensionalSet, M.Compound(M.Connector.Product, t, t), a), "{(*, %s, %s), A}" % (w, w))
    for c, n in COPULAS.items():
        if c in ("{--", "--]", "{-]"): continue # what the shorthands mean in a statement that is built is not claimed
        for a in TERMS:
            for b in TERMS:
                if not H.tick("Statement(%s, %s, %s)" % (a, n, b)): continue
                H.trace(); H.trans(); H.state(H.desc)
                x, y = term(a), term(b)
                got = M.Statement(x, getattr(M.Copula, n), y)
                r = repr(x), repr(y)
                check(H.desc, got, "<%s %s %s>" % (a, c, b)) if (a[0] not in "$#?" or b[0] not in "$#?") else None
                if got.copula != getattr(M.Copula, n): H.fail("constructor", "the copula is %r" % got.copula)
                if (repr(x), repr(y)) != r: H.fail("constructor", "the arguments were changed")
    for n, con in CONNECTORS.items():
        lo, hi = (1, 1) if n == "Negation" else (2, 2) if "Difference" in n else (1, 3) if n in ("IntensionalSet", "ExtensionalSet", "Product", "IntensionalImage", "ExtensionalImage") else (2, 3)
        for k in range(lo, hi + 1):
            for args in itertools.product(TERMS if k < 3 else TERMS[::3], repeat=k):
                if sum(a[0] in "$#?" for a in args) > 1: continue
                if not H.tick("Compound(%s, %s)" % (n, ", ".join(args))): continue
                H.trace(); H.trans(); H.state(H.desc)
                cs = [term(a) for a in args]; r = [repr(x) for x in cs]
                got = M.Compound(getattr(M.Connector, n), *cs)
                body = ", ".join(args)
                check(H.desc, got, "{%s}" % body if con == "{" else "[%s]" % body if con == "[" else "(%s, %s)" % (con, body))
                if [repr(x) for x in cs] != r: H.fail("constructor", "the arguments were changed")
    for n, con in CONNECTORS.items(): # many components, also repeated ones
        if n == "Negation" or "Difference" in n: continue
        for k in list(range(4, 40)) + [63, 64, 65, 127, 128, 129, 255, 256, 257] + ([1000] if H.thorough else []):
            for kinds in range(3):
                args = [("n%d" % i, "<n%d --> B>" % i, "n%d" % (i * 2 // 3) if i % 3 else "(*, n%d, C)" % i)[kinds] for i in range(k)]
                if not H.tick("Compound(%s) of %d components of kind %d" % (n, k, kinds)): continue
                H.trace(); H.trans(k); H.state(H.desc)
                cs = [M.Term(a) if a.isalnum() else M.parse(a + ".").term for a in args]; r = [repr(x) for x in cs]
                got = M.Compound(getattr(M.Connector, n), *cs)
                body = ", ".join(args)
                check(H.desc, got, "{%s}" % body if con == "{" else "[%s]" % body if con == "[" else "(%s, %s)" % (con, body))
                if [repr(x) for x in cs] != r: H.fail("constructor", "the arguments were changed")
    grid = [0., .001, .25, .5, .75, .999, 1.]
    for f in grid:
        for c in grid:
            for k in (None, .5, 1, 2.5, 7):
                if not H.tick("Truth(%r, %r, %r)" % (f, c, k)): continue
                H.trace(); H.trans(); H.state(H.desc)
                for t in [M.Truth(f, c) if k is None else M.Truth(f, c, k), M.Truth(c=c, f=f) if k is None else M.Truth(k=k, c=c, f=f)]:
                    kk = 1. if k is None else k
                    if abs(t.f - f) > 1e-6 or abs(t.c - c) > 1e-6 or abs(t.k - kk) > 1e-6: H.fail("truth", "it has the values %r" % [t.f, t.c, t.k]); continue
                    e = c * (f - .5) + .5
                    if abs(t.e - e) > 1e-5: H.fail("truth", "the expectation is %r instead of %r" % (t.e, e))
                    if repr(t) != "<Truth: %%%.2f, %.2f%% (k=%g)>" % (fl(f), fl(c), kk): H.fail("truth", "it is shown as %r" % t)
                    q = M.Budget.quality_from_truth(t)
                    if abs(q - max(e, (1 - e) * .75)) > 1e-5: H.fail("truth", "the quality is %r for the expectation %r" % (q, e))
                    for n in ("f", "c", "k"):
                        old = [t.f, t.c, t.k]; old[("f", "c", "k").index(n)] = .125
                        setattr(t, n, .125)
                        if [t.f, t.c, t.k] != old: H.fail("truth", "after setting %s to .125 the values are %r" % (n, [t.f, t.c, t.k]))
                for p, mark in (("Judgement", "."), ("Question", "?"), ("Goal", "!"), ("Quest", "@")):
                    for a in ("A", "<A --> B>"):
                        s = M.Sentence(term(a), getattr(M.Punctuation, p), M.Truth(f, c, kk), None)
                        w = "<Sentence: %s%s %s>" % (a, mark, "%%%.3f;%.3f%%" % (fl(f), min(max(c, .001), .999)) if mark in ".!" else "")
                        if repr(s) != w: H.fail("sentence", "Sentence(%s, %s, truth) is %r instead of %s" % (a, p, s, w))
    for p, mark in (("Judgement", "."), ("Question", "?"), ("Goal", "!"), ("Quest", "@")):
        for a in TERMS:
            if a[0] in "$#?": continue
            if not H.tick("Sentence(%s, %s, None, None)" % (a, p)): continue
            H.trace(); H.trans(); H.state(H.desc)
            s, w = M.Sentence(term(a), getattr(M.Punctuation, p), None, None), M.parse(a + mark).sentence
            f = lambda x: (lambda t: (t[:t.rindex(mark)], t[t.rindex(mark):]) if mark != "." else (t[:t.index(". ")], t[t.index(". "):]))(repr(x)[11:-1])
            if canon(f(s)[0]) != canon(f(w)[0]) or f(s)[1] != f(w)[1]: H.fail("sentence", "it is %r instead of %r" % (s, w))
    def budget(what, b, p, d, q):
        if abs(b.p - p) > 1e-6 or abs(b.d - d) > 1e-6 or abs(b.q - q) > 1e-6: H.fail("budget", "%s has the values %r" % (what, [b.p, b.d, b.q])); return
        if repr(b) != "<Budget: $%.2f;%.2f;%.2f$>" % (b.p, b.d, b.q): H.fail("budget", "%s is shown as %r" % (what, b))
        for n in ("p", "d", "q"):
            old = [b.p, b.d, b.q]; old[("p", "d", "q").index(n)] = .125
            setattr(b, n, .125)
            if [b.p, b.d, b.q] != old: H.fail("budget", "after setting %s of %s to .125 the values are %r" % (n, what, [b.p, b.d, b.q]))
    for p in [None] + grid:
        for d in [None] + grid:
            for q in [None] + grid:
                if not H.tick("Budget(%r, %r, %r)" % (p, d, q)): continue
                H.trace(); H.trans(); H.state(H.desc)
                kw = {n: v for n, v in (("q", q), ("p", p), ("d", d)) if v is not None}
                w = [.9 if p is None else p, .9 if d is None else d, .5 if q is None else q]
                budget("with names", M.Budget(**kw), *w)
                pos = []
                for v in (p, d, q):
                    if v is None: break
                    pos.append(v)
                if len(pos) == len(kw): budget("in order", M.Budget(*pos), *w)
# ---- misuse raises an exception ----
def misuse():
    a = M.Term("A"); t = M.parse("<A --> B>."); s = t.sentence; tr = M.Truth(.5, .5); b = M.Budget()
    vals = [("None", None), ("5", 5), ("-1", -1), ("1e300", 1e300), ("'x'", "x"), ("''", ""), ("b'x'", b"x"), ("[]", []), ("Term", a), ("Term()", M.Term()), ("Statement", t.term), ("Task", t), ("Sentence", s), ("Truth", tr), ("Budget", b), ("Copula", M.Copula.Inheritance), ("Connector", M.Connector.Product), ("Punctuation", M.Punctuation.Goal), ("object", object()), ("iterator", t.term.terms)]
    fs = [("Term", lambda *x: M.Term(*x), 2), ("parse", lambda *x: M.parse(*x), 2), ("Statement(., Inheritance, .)", lambda x, y=a: M.Statement(x, M.Copula.Inheritance, y), 2), ("Statement(A, ., .)", lambda x, y=a: M.Statement(a, x, y), 2), ("Compound(Product, ., .)", lambda *x: M.Compound(M.Connector.Product, *x), 2), ("Compound(ExtensionalSet, ., .)", lambda *x: M.Compound(M.Connector.ExtensionalSet, *x), 2), ("Compound(Conjunction, ., .)", lambda *x: M.Compound(M.Connector.Conjunction, *x), 2), ("Compound(., .)", lambda *x: M.Compound(*x), 2), ("Sentence(A, ., ., None)", lambda x=M.Punctuation.Goal, y=None: M.Sentence(a, x, y, None), 2), ("Sentence(., ., None, None)", lambda x=a, y=M.Punctuation.Goal: M.Sentence(x, y, None, None), 2), ("Sentence(A, Goal, None, .)", lambda x=None: M.Sentence(a, M.Punctuation.Goal, None, x), 1), ("Truth", lambda *x: M.Truth(*x), 2), ("Budget", lambda *x: M.Budget(*x), 2), ("Budget.quality_from_truth", lambda *x: M.Budget.quality_from_truth(*x), 1), ("Task", lambda *x: M.Task(*x), 1), ("Stamp", lambda *x: M.Stamp(*x), 1), ("NarseseParser", lambda *x: M.NarseseParser(*x), 1), ("Copula", lambda x=0: M.Copula(x), 1), ("set truth", lambda x=0: setattr(M.Truth(.5, .5), "f", x), 1), ("set budget", lambda x=0: setattr(M.Budget(), "p", x), 1), ("set subject", lambda x=0: setattr(t.term, "subject", x), 1)]
    def sane(o):
        if isinstance(o, (int, float, str, type(None))): return
        r = repr(o)
        if isinstance(o, M.Term):
            if r.startswith("<Term: "): o.subject, o.predicate, o.copula
            if o.terms is not None: [repr(x) for x in o.terms]
    for name, f, n in fs:
        for k in range(n + 1):
            for args in itertools.product(vals, repeat=k):
                if not H.tick("%s with (%s)" % (name, ", ".join(x[0] for x in args))): continue
                H.trace(); H.trans(); H.state(H.desc)
                if name == "Copula" and args: 
                    # an enumeration may be made from any number; it must not be used then
                    try: M.Copula(args[0][1])
                    except Exception: pass
                    continue
                try: sane(f(*[x[1] for x in args]))
                except H.Stop: raise
                except Exception: pass
    for attr in ("sentence", "term"):
        if H.tick("Task has no settable " + attr):
            H.trace()
            try: setattr(t, attr, None); H.fail("misuse", "set")
            except AttributeError: pass
    if H.tick("after misuse"):
        H.trace()
        if repr(t) != "<Task: $0.80;0.80;0.50$ <A --> B>. %1.000;0.900%>" or repr(M.parse("A.")) != "<Task: $0.80;0.80;0.50$ A. %1.000;0.900%>": H.fail("misuse", "afterwards %r" % t)
def run():
    global M
    M = H.load()
    H.phase("agreement with the core"); agreement()
    H.phase("constructors"); constructors()
    H.phase("lifetimes"); lifetimes()
    H.phase("misuse"); misuse()
    H.phase("histories"); histories(5 if H.thorough else 4, operations(H.thorough))
H.main(run)
