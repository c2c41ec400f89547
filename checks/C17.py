"""C17: attributes and equations are accepted exactly if they follow the rules of attribute grammars."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from ccn import *
import itertools

# A specification: nodes {name: (children [(name, type, mandatory)], attributes [Attr], equations [(target, [args])])},
# sets {name: (expression, members, attributes)}
KIND = {"c": "", "k": " { constructor }", "i": " { inherited }", "s": " { synthesized }", "ki": " { constructor, inherited }", "ks": " { constructor, synthesized }",
        "li": " { inherited, lifetime allowed }", "ls": " { synthesized, lifetime disallowed }"}
CASES = [str, str.upper, str.lower, str.swapcase]


def render(nodes, sets, root="Root", order=1):
    defs = []
    at = lambda xs: "attributes { %s }" % ", ".join("%s %s%s" % (t, n, KIND[k]) for t, n, k in xs)
    for n, (kids, attrs, eqs) in nodes.items():
        b = []
        if kids:
            b.append("children { %s }" % ", ".join("%s %s { constructor%s }" % (t, c, ", mandatory" if m else "") for c, t, m in kids))
        if attrs:
            b.append(at(attrs))
        if eqs:
            b.append("equations { %s }" % ", ".join("%s = { args = { %s } }" % (t, ", ".join(a)) for t, a in eqs))
        defs.append("%snode %s { %s }" % ("root " if n == root else "", n, ",\n ".join(b)))
    for s, (e, _, attrs) in sets.items():
        defs.append("nodeset %s { nodes = %s%s }" % (s, e, ", " + at(attrs) if attrs else ""))
    return ";\n".join(["start phase Main { actions { pass ppp; } }"] + defs[::order]) + ";\n"


class Judge:
    def __init__(self, c):
        self.c, self.count = c, {}

    def __call__(self, job):
        label, text, why, probe = job
        c = self.c
        g = generate(c, text, variant="asan" if THOROUGH else "rel")
        files = [f for _, _, fs in os.walk(os.path.join(g.dir, "gen")) for f in fs if f.endswith((".c", ".h"))]
        want = None if why is None else not why
        if g.crashed:
            c.violation(label, "cocogen ends abnormally: rc=%s timeout=%s %s" % (g.rc, g.r.timeout, g.r.text[-400:]), text)
        elif want is True and not g.ok:
            c.violation(label, "rejected, although it follows the rules: " + g.r.err[-400:], text)
        elif want is False and g.ok:
            c.violation(label, "accepted, although " + why, text)
        elif not g.ok and "error" not in g.r.err.lower():
            c.violation(label, "rejected without a diagnostic: %r" % g.r.text[-300:], text)
        elif not g.ok and want is False and files:
            c.violation(label, "rejected, but files are generated: %s" % files[:4], text)
        elif g.ok and probe is not None:
            self.probe(label, g, text, probe)
        k = (label.split(":")[0], want, g.ok)
        self.count[k] = self.count.get(k, 0) + 1
        if self.count[k] == 3:
            c.sample({"case": label, "rule broken": why, "cocogen": "accepts" if g.ok else "rejects: " + " ".join(g.r.err.split())[:140]}, 12)
        c.add(1, 1, 1)
        shutil.rmtree(g.dir, ignore_errors=True)

    def probe(self, label, g, text, probe):
        """the declared attributes exist in all members and are reached through node and set alike"""
        src = os.path.join(g.dir, "main.c")
        with open(src, "w") as f:
            f.write(PROBE % probe)
        r = run([GCC, "-O0", "-w", "-I" + os.path.join(g.dir, "gen"), "-I" + os.path.join(REPO, "copra"), "-I" + os.path.join(REPO, "palm", "include"),
                 os.path.join(g.dir, "gen", "ast.c"), src, self.c.palm("rel"), "-o", src[:-2]], timeout=60)
        if r.rc:
            self.c.violation(label, "accepted, but using the attributes does not compile: " + r.text[-500:], text)
            return
        r = run([src[:-2]], cwd=g.dir)
        if r.rc or r.out != "ok\n":
            self.c.violation(label, "accepted, but attributes disagree: rc=%s %s" % (r.rc, r.text[-400:]), text)


PROBE = r'''
#include <stdio.h>
#include <stdbool.h>
#include "ccn/ccn.h"
#include "ccngen/ast.h"
#define SAME(node, macro, over, value) do { node_st *n = node; macro(n) = value; if (over(n) != value) { printf("%%s set through %%s reads otherwise\n", #over, #macro); return 1; } } while (0)
#define DECLARED(expr) (void)sizeof(expr)
node_st *test(void);
int main(void) { node_st *n = 0; (void)n; %s puts("ok"); return 0; }
'''


# ------------------------------------------------------------------ which equations
def equations():
    """the child of A is called as no other, or as a child of the root of another type, and the definitions are in either order"""
    for kid, ty, order in (("n", "A", 1), ("z", "A", 1), ("z", "A", -1), ("a", "S", 1), ("a", "S", -1)):
        for label, text, why, probe in equations_of(kid, ty, order):
            yield label + ("" if kid == "n" else " (A has the child %s %s%s)" % (ty, kid, "" if order > 0 else ", reversed")), text, why, probe


def equations_of(kid, ty, order):
    """every subset of candidate equations in every node, one node at a time"""
    ren = lambda xs: [x.replace("n.", kid + ".") if x.startswith("n.") else x for x in xs]
    def spec(eqs, label, why):
        nodes = {"Root": ([("a", "A", False), ("z", "S", True)], [("int", "out", "s"), ("int", "cl", "c")], eqs["Root"]),
                 "A": ([(kid, ty, False)], [("int", "t", "s"), ("int", "cl", "k")], eqs["A"]),
                 "B": ([], [("int", "u", "s")], eqs["B"])}
        sets = {"S": ("{A, B}", ["A", "B"], [("int", "i", "i"), ("int", "s", "s")])}
        return label, render(nodes, sets, order=order), why, None
    need = {"Root": ["this.out", "a.i", "z.i"], "A": ren(["this.s", "this.t", "n.i"]), "B": ["this.s", "this.u"]}
    bad = {"Root": ["this.cl", "a.s", "z.s", "z.t", "q.i"], "A": ren(["this.i", "n.s", "n.cl", "this.u", "this.nothing"]), "B": ren(["this.i", "this.t", "n.i"])}
    base = {n: [(t, []) for t in ts] for n, ts in need.items()}
    for n in need:
        cand = need[n] + bad[n]
        for bits in itertools.product([0, 1], repeat=len(cand)):
            sel = [t for t, b in zip(cand, bits) if b]
            miss = [t for t in need[n] if t not in sel]
            extra = [t for t in sel if t in bad[n]]
            why = "%s of %s has no equation" % (miss[0], n) if miss else "%s cannot have an equation in %s" % (extra[0], n) if extra else ""
            yield spec(dict(base, **{n: [(t, []) for t in sel]}), "equations: %s has %s" % (n, " ".join(sel) or "none"), why)
        for t in need[n]:                              # the same target twice, in every letter case and place
            for k, v in itertools.product(range(4), range(len(need[n]) + 1)):
                tt = ".".join([t.split(".")[0] if t.startswith("this") else CASES[k](t.split(".")[0]), CASES[k](t.split(".")[1])])
                es = [(x, []) for x in need[n]]
                es.insert(v, (tt, []))
                yield spec(dict(base, **{n: es}), "equations: %s twice in %s, as %s at %d" % (t, n, tt, v), "%s has two equations" % t)
            for k in range(4):
                es = [(".".join([x.split(".")[0] if x.startswith("this") else CASES[k](x.split(".")[0]), CASES[k](x.split(".")[1])]) if x == t else x, []) for x in need[n]]
                yield spec(dict(base, **{n: es}), "equations: %s in %s written as %s" % (t, n, es), "")
    # arguments
    good = {"Root": ["this.cl", "a.s", "a.t", "a.i", "a.cl", "z.s", "z.i"], "A": ren(["this.i", "this.cl", "n.s", "n.i"] + (["n.t", "n.cl"] if ty == "A" else [])), "B": ["this.i"]}
    wrong = {"Root": ["z.t", "z.u", "z.cl", "q.s", "this.i", "b.s"], "A": ren(["n.u", "m.s", "this.out"] + (["n.t", "n.cl"] if ty == "S" else [])), "B": ren(["n.s", "this.t", "this.cl"])}
    targets = {"Root": ["this.out"], "A": ["this.t"], "B": ["this.u"]}
    for n in need:
        cand = good[n] + wrong[n]
        lists = [[x] for x in cand] + [list(p) for p in itertools.product(cand, repeat=2)] + ([list(p) for p in itertools.combinations_with_replacement(cand, 3)] if THOROUGH else [])
        for args in lists:
            for t in targets[n]:
                es = [(x, args if x == t else []) for x in need[n]]
                w = [a for a in args if a in wrong[n]]
                why = "%s in %s does not exist" % (w[0], n) if w else "an argument is repeated" if len(set(args)) < len(args) else ""
                yield spec(dict(base, **{n: es}), "arguments: %s.%s(%s)" % (n, t, " ".join(args)), why)
        for a in good[n]:
            for k in range(1, 4):
                x, y = a.split(".")
                aa = (x if x == "this" else CASES[k](x)) + "." + CASES[k](y)
                yield spec(dict(base, **{n: [(y, [aa] if y == targets[n][0] else []) for y in need[n]]}), "arguments: %s written as %s in %s" % (a, aa, n), "")
                yield spec(dict(base, **{n: [(y, [a, aa] if y == targets[n][0] else []) for y in need[n]]}), "arguments: %s and %s in %s" % (a, aa, n), "an argument is repeated")


# ------------------------------------------------------------------ which attributes
def eqs_for(kids, attrs_of, own):
    es = [("this." + a, []) for _, a, k in own if k.endswith("s")]
    for c, t, _ in kids:
        es += [("%s.%s" % (c, a), []) for _, a, k in attrs_of(t) if k.endswith("i")]
    return es


def build(nodes, sets, label, why, probe=None, root="Root"):
    """nodes: {name: (kids, own attributes)}; adds the equations that the attributes need"""
    def attrs(t):
        out = list(nodes[t][1]) if t in nodes else list(sets[t][2])
        for s, (e, ms, at) in sets.items():
            if s != t and (t in ms if t in nodes else t in e.replace("|", " ").split()):
                out += [a for a in at if a[1].lower() not in [x[1].lower() for x in out]]
        return out
    full = {n: (k, a, eqs_for(k, attrs, attrs(n))) for n, (k, a) in nodes.items()}
    for order in (1, -1):
        yield label + (" (reversed)" if order < 0 else ""), render(full, sets, root, order), why, probe


def declarations():
    kids = [("a", "S", False)]
    ts = ["int", "bool", "string", "A", "S"]
    for sk in ("c", "i", "s", "k", "ki", "ks", "li", "ls"):          # one attribute of a set, of a node, of the root
        illegal = {"k": "an attribute of a nodeset is in the constructor", "ki": "an inherited attribute is in the constructor", "ks": "a synthesized attribute is in the constructor",
                   "li": "an inherited attribute has a lifetime", "ls": "a synthesized attribute has a lifetime"}
        for t in ts:
            w = illegal.get(sk, "")
            use = "DECLARED(A_X(n)); DECLARED(B_X(n)); DECLARED(S_X(n));"
            if sk == "c":
                v = {"A": "n", "S": "n", "int": "7", "bool": "true", "string": '(char *)"t"'}[t]
                use += "".join("SAME(AST%s(), %s_X, %s_X, %s);" % (m, u, o, v) for m in "ab" for u, o in ((m.upper(), "S"), ("S", m.upper())))
            yield from build({"Root": (kids, []), "A": ([], []), "B": ([], [])}, {"S": ("{A, B}", ["A", "B"], [(t, "x", sk)])}, "set attribute: %s %s" % (t, sk), w, use)
            yield from build({"Root": ([("a", "A", False)], []), "A": ([], [(t, "x", sk)]), "B": ([], [])}, {"S": ("{A, B}", ["A", "B"], [])}, "node attribute: %s %s" % (t, sk), "" if sk == "k" else w, "DECLARED(A_X(n));")
            rw = ("" if sk == "k" else w) or ("the root has an inherited attribute" if sk == "i" else "")
            yield from build({"Root": (kids, [(t, "x", sk)]), "A": ([], []), "B": ([], [])}, {"S": ("{A, B}", ["A", "B"], [])}, "root attribute: %s %s" % (t, sk), rw, "DECLARED(ROOT_X(n));")
            rw = w or ("the root has an inherited attribute" if sk == "i" else "")
            yield from build({"Root": (kids, []), "A": ([], []), "B": ([], [])}, {"S": ("{A, B, Root}", ["A", "B", "Root"], [(t, "x", sk)])}, "set with the root: %s %s" % (t, sk), rw, "DECLARED(ROOT_X(n)); DECLARED(A_X(n));")
    # an attribute of the set again in a member, in the same or another letter case, of the same or another kind and type
    for sk, nk, (t, u), nm in itertools.product("cis", ("c", "k", "i", "s"), (("int", "int"), ("int", "bool"), ("A", "A"), ("A", "B"), ("A", "int"), ("Hue", "Hue"), ("Hue", "Tone"), ("string", "string")), ("x", "X")):
        ok = sk == "c" and nk == "k" and t == u
        extra = {"Root": (kids, []), "A": ([], [(u, nm, nk)]), "B": ([], [])}
        why = "" if ok else "an attribute of a nodeset is declared again in a member"
        for l, text, wh, p in build(extra, {"S": ("{A, B}", ["A", "B"], [(t, "x", sk)])}, "declared again: %s x %s in S, %s %s %s in A" % (t, sk, u, nm, nk), why, "DECLARED(S_X(n));"):
            yield l, text + "enum Hue { prefix = HU, values { red } };\nenum Tone { prefix = TO, values { low } };\n", wh, p
    # an attribute of a set and a child of a member
    for sk, cn in itertools.product("cis", ("x", "X", "y")):
        yield from build({"Root": (kids, []), "A": ([(cn, "B", False)], []), "B": ([], [])}, {"S": ("{A, B}", ["A", "B"], [("int", "x", sk)])}, "child %s of a member, attribute x %s of the set" % (cn, sk),
                         "" if cn == "y" else "a child has the name of an attribute of the set")
    # two sets with or without common members, or one in the other, with the same or different attributes
    for k1, k2, n2, (e1, m1, e2, m2, common) in itertools.product("cis", "cis", ("x", "X", "y"), (
            ("{A, B}", "AB", "{B, C}", "BC", True), ("{A}", "A", "{B, C}", "BC", False), ("{A, B}", "AB", "{A, B}", "AB", True),
            ("{A}", "A", "S | {B}", "AB", True), ("T | {B}", "BC", "{C}", "C", True))):
        inh = lambda ms, other, mo: None
        same = n2.lower() == "x"
        why = "an attribute is declared in two sets with a common member" if same and common else ""
        nodes = {"Root": ([], []), "A": ([], []), "B": ([], []), "C": ([], [])}
        yield from build(nodes, {"S": (e1, list(m1), [("int", "x", k1)]), "T": (e2, list(m2), [("int", n2, k2)])}, "two sets: S=%s x %s, T=%s %s %s" % (e1, k1, e2, n2, k2), why,
                         "" if why else "".join("DECLARED(%s_X(n));" % m for m in m1) + "".join("DECLARED(%s_%s(n));" % (m, n2.upper()) for m in m2))
    # set expressions with attributes
    for e, ok in (("{A, B}", 1), ("{A} | {B}", 1), ("P", 1), ("P | Q", 1), ("{A, B} & P", 0), ("P - Q", 0), ("(P | Q) & P", 0), ("P | (Q - P)", 0), ("D", 0), ("D | P", 0), ("E", 0)):
        for k in ("c", "i", "s", None):
            sets = {"S": (e, ["A", "B"], [("int", "x", k)] if k else []), "P": ("{A, B}", ["A", "B"], []), "Q": ("{B}", ["B"], []), "D": ("P - {C}", ["A", "B"], []), "E": ("P | (P & Q)", ["A", "B"], [])}
            why = None if e in ("D", "D | P", "E") and k else "" if ok or not k else "the set of attributes uses & or -"
            nodes = {"Root": (kids, []), "A": ([], []), "B": ([], []), "C": ([], [])}
            for job in build(nodes, sets, "expression: %s %s" % (e, k), why, "DECLARED(A_X(n)); DECLARED(B_X(n)); DECLARED(S_X(n));" if ok and k else None):
                yield job
    # inherited attributes that members have in addition
    for s_at, a_at, b_at, ty in itertools.product(([], [("int", "p", "i")], [("int", "p", "s")]), ([], [("int", "q", "i")], [("int", "q", "s")], [("int", "q", "c")]), ([], [("int", "q", "i")], [("int", "r", "i")]), ("S", "A", "B")):
        add = ty == "S" and (("int", "q", "i") in a_at or b_at)
        yield from build({"Root": ([("a", ty, False)], []), "A": ([], a_at), "B": ([], b_at)}, {"S": ("{A, B}", ["A", "B"], s_at)}, "additional: S %s, A %s, B %s, child of %s" % (s_at, a_at, b_at, ty),
                         "a member of the set of a child has an inherited attribute that the set lacks" if add else "")


def main():
    c = Check("C17")
    c.build("asan" if THOROUGH else "rel")
    c.build()
    j = Judge(c)
    jobs = list(equations()) + list(declarations())
    pmap(j, jobs)
    groups = {}
    for (g, w, ok), n in j.count.items():
        groups.setdefault((w, ok), 0)
        groups[(w, ok)] += n
    c.assumptions = ["%d specifications; rule followed / accepted: %s" % (len(jobs), ", ".join("%s/%s %d" % (w, ok, n) for (w, ok), n in sorted(groups.items(), key=str))),
                     "equations without arguments have no dependencies, so that no rule of C19 interferes; attributes on a set that refers to a set defined with & or - are not decided by the documentation"]
    c.finish()
main()
