"""C16: specifications are accepted exactly if they follow the rules of the language."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from wf import *


def judge(c, label, text, want, why):
    """want: True accepted, False rejected, None: only an orderly end is demanded."""
    g = generate(c, text)
    files = [f for _, _, fs in os.walk(os.path.join(g.dir, "gen")) for f in fs]
    if g.crashed:
        c.violation(label, "cocogen ends abnormally: rc=%s timeout=%s %s" % (g.rc, g.r.timeout, g.r.text[-500:]), text)
    elif want is True and not g.ok:
        c.violation(label, "rejected, although it follows the rules: " + g.r.err[-400:], text)
    elif want is True and "ast.h" not in files:
        c.violation(label, "accepted, but nothing is generated", text)
    elif want is False and g.ok:
        c.violation(label, "accepted, although %s" % why, text)
    elif not g.ok and "error" not in g.r.err.lower():
        c.violation(label, "rejected without a diagnostic: %r" % g.r.text[-300:], text)
    elif not g.ok and any(f.endswith((".c", ".h")) for f in files):
        c.violation(label, "rejected, but files are generated: %s" % files[:5], text)
    c.add(1, 1, 1)
    drop(g)
    return g.ok


def drop(g):
    shutil.rmtree(g.dir, ignore_errors=True)


def assignments(c, b):
    n = len(b.top)
    work = [("the base", {}, None)]
    for x in b.slots:
        for v in b.domain(x):
            work.append(("%s := %s" % (x.label, v), {x.i: v}, None))
    rev = list(range(n))[::-1]
    work += [(l + " (reversed)", a, rev) for l, a, _ in work[::1 if THOROUGH else 5]]
    for x, y in itertools.combinations(b.names, 2):          # two names exchanged, references follow
        work.append(("%s and %s exchanged" % (x.label, y.label), {x.i: y.text, y.i: x.text}, None))
    for x, y in itertools.combinations([z for z in b.slots if z.kind == "uid" and not b.rich], 2):
        work.append(("%s and %s exchanged" % (x.label, y.label), {x.i: y.text, y.i: x.text}, None))
    kinds = {}
    for x in b.slots:
        k = x.kind + ":" + (x.label.split(" in ")[0] if x.kind == "ref" else "")
        kinds.setdefault(k, x)
    for x in (b.slots if THOROUGH or b.rich else kinds.values()):
        if b.rich and x.kind != "fref":
            continue
        for w in KEYWORDS + C_KEYWORDS:
            work.append(("%s := keyword %s" % (x.label, w), {x.i: w}, None))
            if x.kind != "value":
                w = w.capitalize()
                work.append(("%s := %s" % (x.label, w), {x.i: w}, None))
    if THOROUGH and not b.rich:
        few = [x for x in b.slots if x.kind in ("name", "uid")]
        for x, y in itertools.combinations(few, 2):
            for v in (y.text, y.text.upper(), "Fresh1", "TRV"):
                for w in (x.text, x.text.swapcase(), "Fresh1", "fresh1", "Fresh2", "ccn"):
                    work.append(("%s := %s, %s := %s" % (x.label, v, y.label, w), {x.i: v, y.i: w}, None))
        refs = [x for x in b.slots if x.kind == "ref"]
        for x, y in itertools.product(refs, refs):
            if x.i < y.i:
                for v, w in itertools.product(["Leaf", "pAIR", "BOTH", "any", "Kind", "Loop", "second", "Prog"], repeat=2):
                    work.append(("%s := %s, %s := %s" % (x.label, v, y.label, w), {x.i: v, y.i: w}, None))
    def one(w):
        label, asg, order = w
        want, why = b.verdict(asg)
        return want, judge(c, label, b.render(asg, order), want, why)
    r = pmap(one, work)
    c.sample({"enumeration": "every identifier of a %sspecification replaced by every other identifier in three letter cases, reserved words and keywords" % ("rich " * b.rich),
              "specifications": len(work), "accepted by the rules": sum(w is True for w, _ in r), "rejected by the rules": sum(w is False for w, _ in r)})
    assert b.verdict({})[0] is True


def parts(c):
    pmap(lambda x: judge(c, x[0], x[1], True, ""), part_specs())


def missing(c):
    """Parts that are not optional, empty lists, several or no roots and starts."""
    tail = "root node Root { }; node Aa { }; nodeset Ss = {Aa}; enum Ee { prefix = EP, values { v1, v2 } };\n"
    st = "start phase Main { actions { pass Pp; } };\n"
    bad = ["phase Zz { }", "phase Zz { uid = UU }", "phase Zz", "cycle Zz { info = \"x\" }", "phase Zz { actions { } }", "traversal Zz { }", "traversal Zz", "traversal Zz { nodes = {Aa} }",
           "traversal Zz { uid = UU, nodes = {} }", "traversal Zz { uid = UU, travdata { } }", "pass Zz { }", "enum Zz { }", "enum Zz { prefix = Q }", "enum Zz { values { a } }", "enum Zz { prefix = Q, values { } }",
           "nodeset Zz", "nodeset Zz { }", "nodeset Zz = {}", "nodeset Zz { attributes { int a } }", "nodeset Zz = ", "nodeset Zz = {Aa} |", "nodeset Zz = {Aa} {Aa}", "nodeset Zz = ({Aa} | Ss",
           "node Zz { children { } }", "node Zz { attributes { } }", "node Zz { equations { } }", "node Zz { children { Aa } }", "node Zz { attributes { int } }", "node Zz { attributes { int a, children } }",
           "node Zz { lifetime { sometimes } }", "node Zz { children { Aa a { constructor constructor } } }", "node Zz { attributes { int a { foo } } }", "node", "node Zz {", "node Zz { } }", "Zz", "root Zz { }",
           "node Zz { equations { this.a } }", "node Zz { equations { a = { } } }", "start node Zz { }", "root phase Zz { actions { Main; } }", "phase Zz { actions { Pp } }", "phase Zz { actions { Pp, Pp; } }",
           "pass 1a", "pass a-b", "pass _a", "pass \"a\"", "enum Zz { prefix = Q, values { 1 } }", "pass Zz { uid = UU } pass Yy", "nodeset Zz = {Aa;}", "traversal Zz { uid = UU, nodes = Aa }"]
    for b in bad:
        judge(c, "specification with " + b, st + tail + b + ";", False, "it is malformed")
    for r in itertools.product([0, 1], repeat=3):
        for s in itertools.product([0, 1], repeat=3):
            t = ["%sphase P1 { actions { pass q1; } }" % ("start " * s[0]), "%scycle P2 { actions { pass q2; } }" % ("start " * s[1]), "%sphase P3 { actions { pass q3; } }" % ("start " * s[2])]
            t += ["%snode N%d { }" % ("root " * r[i], i) for i in range(3)]
            for o in (1, -1):
                judge(c, "roots %s starts %s" % (r, s), ";\n".join(t[::o]) + ";", sum(r) == 1 and sum(s) == 1, "it does not have exactly one root and one start phase")
    judge(c, "the empty specification", "", False, "it has no root node")
    judge(c, "only comments", "// x\n/* y\n */", False, "it has no root node")


def graphs(c):
    """All reference graphs over phases."""
    names = ["Main", "second", "THIRD", "Fourth"]
    n = 4 if THOROUGH else 3
    def one(bits):
        g = [[j for j in range(n) if bits >> (i * n + j) & 1] for i in range(n)]
        reach = [set(x) for x in g]
        for _ in range(n):
            for i in range(n):
                for j in list(reach[i]):
                    reach[i] |= reach[j]
        cyc = any(i in reach[i] for i in range(n))
        t = ["%s%s %s { actions { pass p%d; %s} }" % ("start " * (i == 0), ("phase", "cycle")[bits >> i & 1], names[i], i, "".join("%s; " % names[j] for j in g[i])) for i in range(n)]
        t.append("root node Root { }")
        judge(c, "phases " + " ".join("%s->%s" % (names[i], "+".join(names[j] for j in g[i]) or "none") for i in range(n)), ";\n".join(t) + ";", not cyc, "a phase contains itself")
    if n == 3:
        pmap(one, range(1 << 9))
    else:   # no edges back to the start phase other than the loop are needed for a full set of graphs over the other three, plus one edge each back
        pmap(one, range(1 << 16))


def orders(c):
    """Definitions may come in any order."""
    b = Base(rich=True)
    n = len(b.top)
    work = [list(range(i, n)) + list(range(i)) for i in range(n)]
    work += [w[::-1] for w in work]
    for i, j in itertools.combinations(range(n), 2):
        w = list(range(n))
        w[i], w[j] = w[j], w[i]
        work.append(w)
    pmap(lambda o: judge(c, "definitions in the order %s" % o, b.render({}, o), True, ""), work)
    t = ["start phase Main { actions { Tt; Zz; } }", "phase Zz { actions { pass p1; } }", "traversal Tt { uid = TU, nodes = Any }", "root node Root { children { Any c }, attributes { Ee e } }",
         "node Leaf { attributes { Root up } }", "nodeset Any = {Leaf} | Sub", "nodeset Sub = {Root, Leaf}", "enum Ee { prefix = EP, values { v1 } }"]
    k = 8 if THOROUGH else 6
    pmap(lambda o: judge(c, "small specification in the order %s" % (o,), ";\n".join([t[i] for i in o] + t[k:]) + ";", True, ""), list(itertools.permutations(range(k))))


def main():
    c = Check("C16")
    c.build()
    assignments(c, Base())
    assignments(c, Base(rich=True))
    parts(c)
    missing(c)
    graphs(c)
    orders(c)
    c.assumptions = ["one specification with every kind of definition, every identifier replaced by every other in three letter cases, by reserved names and by all keywords; all exchanges of two names or uids%s; all combinations of optional parts; all root and start patterns over three; all reference graphs over %d phases; %s orders of definitions" % ("; all pairs of replacements of names, uids and references" if THOROUGH else "", 4 if THOROUGH else 3, "all 40320 of eight" if THOROUGH else "all 720 of six")]
    c.finish()


if __name__ == "__main__":
    main()
