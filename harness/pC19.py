"""C19: the vocabulary as the Python module offers it."""
import hpy as H
def plainrepr(o): return repr(o).split(": ", 1)[1][:-1].replace(" ", "")
COPULAS = dict(Inheritance="-->", Similarity="<->", Instance="{--", Property="--]", InstanceProperty="{-]", Implication="==>", PredictiveImplication="=/>", ConcurrentImplication="=|>", RetrospectiveImplication="=\\>", Equivalence="<=>", PredictiveEquivalence="</>", ConcurrentEquivalence="<|>")
CONNECTORS = dict(Conjunction="&&", Disjunction="||", Product="*", ParallelEvents="&|", SequentialEvents="&/", IntensionalIntersection="|", ExtensionalIntersection="&", ExtensionalDifference="-", IntensionalDifference="~", Negation="--", IntensionalSet="[", ExtensionalSet="{", IntensionalImage="\\", ExtensionalImage="/", List="#")
PUNCT = dict(Judgement=".", Question="?", Goal="!", Quest="@")
def run():
    m = H.load()
    a, b = m.Term("A"), m.Term("B")
    def ok(key, cond, msg):
        H.trans(); H.trace(); H.state(H.desc)
        if not cond: H.fail(key, msg)
    for E, want in ((m.Copula, COPULAS), (m.Connector, CONNECTORS), (m.Punctuation, PUNCT)):
        if H.tick("members of " + E.__name__):
            got = E.__members__
            ok("members", set(got) == set(want), "the members are " + ", ".join(got))
            ok("members", len({int(v) for v in got.values()}) == len(got), "two members are the same")
            for k, s in want.items():
                lines = [l.strip() for l in (E.__doc__ or "").splitlines()]
                ok("documentation", "%s : %s" % (k, s) in lines, "%s is not documented as %s" % (k, s))
    for k, s in COPULAS.items():
        if H.tick("Statement(A, Copula.%s, B)" % k):
            c = getattr(m.Copula, k)
            t = m.Statement(a, c, b); r = plainrepr(t)
            ok("statement", r in ("<A%sB>" % s, "(A%sB)" % s), "it is shown as " + r)
            ok("statement", t.copula == c, "its copula is %r" % t.copula)
        if H.tick("parse <A %s B>." % s):
            t = m.parse("<A %s B>." % s).term
            w = "Inheritance" if k in ("Instance", "Property", "InstanceProperty") else k
            ok("parsed statement", t.copula == getattr(m.Copula, w), "its copula is %r" % t.copula)
    for k, s in CONNECTORS.items():
        n = 1 if k == "Negation" else 2
        for x in ((a,) if n == 1 else (a, b), (b,) if n == 1 else (b, a)):
            if H.tick("Compound(Connector.%s, ...)" % k):
                t = m.Compound(getattr(m.Connector, k), *x); r = plainrepr(t)
                ns = [plainrepr(c) for c in t.terms]
                comm = k in ("Conjunction", "Disjunction", "ParallelEvents", "IntensionalIntersection", "ExtensionalIntersection", "IntensionalSet", "ExtensionalSet")
                order = [plainrepr(c) for c in x]
                ok("compound", ns == order or comm and sorted(ns) == sorted(order), "its components are " + " ".join(ns))
                l = ",".join(ns)
                w = ["{%s}" % l] if s == "{" else ["[%s]" % l] if s == "[" else ["(%s,%s)" % (s, l), "(%s)" % s.join(ns)] if n == 2 else ["(%s,%s)" % (s, l), s + l]
                ok("compound", r in w, "it is shown as " + r)
    for k, s in PUNCT.items():
        if H.tick("Sentence(A, Punctuation.%s, ...)" % k):
            t = m.Sentence(a, getattr(m.Punctuation, k), m.Truth(1, .5) if s in ".!" else None, None)
            r = plainrepr(t)
            ok("sentence", r == "A" + s + ("%1.000;0.500%" if s in ".!" else ""), "it is shown as " + r)
H.main(run)
