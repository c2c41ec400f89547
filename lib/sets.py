"""C15: set expressions. Eight node types cover the Venn diagram of three base sets, so that two
expressions over the base sets agree on all sets if and only if they agree here."""
import itertools
from astspec import *

TYPES = ["Zero", "Alpha", "bEta", "mid", "Omega", "n9", "N_under", "last"]
A, B, C = [[t for i, t in enumerate(TYPES) if i >> k & 1] for k in range(3)]
BASE = {"A": ("SetA", A), "B": ("setb", B), "C": ("Cset", C)}


def lit(xs):
    return "{%s}" % ", ".join(xs)


def evaluate(e):
    """e: ('ref', name, members) | ('lit', names) | (op, left, right)"""
    if e[0] == "ref":
        return frozenset(e[2])
    if e[0] == "lit":
        low = {t.lower(): t for t in TYPES}
        return frozenset(low[x.lower()] for x in e[1])
    l, r = evaluate(e[1]), evaluate(e[2])
    return l | r if e[0] == "|" else l & r if e[0] == "&" else l - r


def show(e, full=False, top=True):
    """Left associative operators: only right operands need parentheses (full: all of them)."""
    if e[0] == "ref":
        return e[1]
    if e[0] == "lit":
        return lit(e[1])
    s = "%s %s %s" % (show(e[1], full, False) if e[1][0] in ("ref", "lit") or full else show(e[1], full, True), e[0], show(e[2], full, False))
    return s if top else "(%s)" % s


def exprs(k, atoms):
    if k == 0:
        yield from atoms
        return
    for i in range(k):
        for op in "|&-":
            for l in exprs(i, atoms):
                for r in exprs(k - 1 - i, atoms):
                    yield (op, l, r)


class Sets:
    """A specification with sets under test; each is seen through a child, a traversal and (for some) another set."""
    def __init__(self, label):
        self.label, self.defs, self.tests = label, [], []   # defs: text of nodesets; tests: (set name, members)
        self.inline = []                                     # (expression text, members): as nodes of a traversal

    def add(self, name, text, members, long=False):
        self.defs.append("nodeset %s { nodes = %s }" % (name, text) if long else "nodeset %s = %s" % (name, text))
        self.tests.append((name, frozenset(members)))

    def render(self):
        trs = ["traversal tv%d { uid = U%dx, nodes = %s }" % (i, i, e) for i, (e, m) in enumerate(self.inline)]
        top = ["start phase Main { actions { pass ppp; %s} }" % "".join("tv%d; " % i for i in range(len(trs)))] + trs
        top += ["root node Root { }"] + ["node %s { }" % t for t in TYPES]
        top += ["node K%d { children { %s c } }" % (i, n) for i, (n, m) in enumerate(self.tests)]
        return ";\n".join(top + self.defs) + ";\n"

    def glue(self):
        mask = lambda m: sum(1 << i for i, t in enumerate(TYPES) if t in m)
        s = ["#define NT %d\n#define NSET %d\n#define NTRAV %d" % (len(TYPES), len(self.tests), len(self.inline))]
        s.append("static const unsigned SM[] = {%s 0};" % "".join("%d, " % mask(m) for n, m in self.tests))
        s.append("static const unsigned TM[] = {%s 0};" % "".join("%d, " % mask(m) for n, m in self.inline))
        s.append("static const int TV[] = {%s 0};" % "".join("TRAV_U%dX, " % i for i in range(len(self.inline))))
        s.append("static node_st *mk(int t) { switch (t) { %s } return 0; }" % " ".join("case %d: return AST%s();" % (i, t.lower()) for i, t in enumerate(TYPES)))
        s.append("static node_st *mkk(int i) { switch (i) { %s } return 0; }" % " ".join("case %d: return ASTk%d();" % (i, i) for i in range(len(self.tests))))
        s.append("static node_st **slot(int i, node_st *n) { switch (i) { %s } return 0; }" % " ".join("case %d: return &K%d_C(n);" % (i, i) for i in range(len(self.tests))))
        s.append("static int called, with; static node_st *which;")
        for i, (e, m) in enumerate(self.inline):
            for t in TYPES + ["Root"] + ["k%d" % j for j in range(min(2, len(self.tests)))]:
                s.append("node_st *U%dX%s(node_st *n) { called++; with = %d; which = n; return n; }" % (i, t.lower(), i))
        return "\n".join(s) + "\n"
