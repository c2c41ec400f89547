"""C15: node sets are exactly what their set expression denotes."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from sets import *


def chunks(it, n):
    it = iter(it)
    while True:
        x = list(itertools.islice(it, n))
        if not x:
            return
        yield x


def bases(s):
    for k in "ABC":
        s.defs.append("nodeset %s = %s" % (BASE[k][0], lit(BASE[k][1])))


def algebra(maxops, size):
    """All expressions over three sets in general position."""
    refs = [("ref", n, m) for n, m in BASE.values()]
    def forms():
        for k in range(1, maxops + 1):
            for e in exprs(k, refs):
                yield e, show(e)
                if k <= 2 and show(e, True) != show(e):
                    yield e, show(e, True)
        lits = [("lit", m) for n, m in BASE.values()]
        for k in range(1, 3):
            for i, e in enumerate(exprs(k, refs[:2] + lits[2:])):
                yield e, show(e)
    for b, part in enumerate(chunks(forms(), size)):
        s = Sets("expressions %d" % b)
        first = b % 2 == 0          # the base sets are defined before or after their uses
        if first:
            bases(s)
        for i, (e, txt) in enumerate(part):
            s.add("S%d" % i, txt, evaluate(e), long=i % 3 == 2)
            if i % 4 == 1 and evaluate(e):
                s.inline.append((txt, evaluate(e)))
        if not first:
            bases(s)
        yield s


def literals(size):
    """Literals in every order of four and in both letter cases, with repetitions and all subsets; all ordered triples."""
    def forms():
        for sub in itertools.chain.from_iterable(itertools.combinations(TYPES, k) for k in range(1, 9)):
            yield list(sub)
        for p in itertools.permutations(["mid", "Alpha", "n9", "last"]):
            yield list(p)
        for p in itertools.product(["Omega", "omega", "OMEGA", "bEta"], repeat=3):
            yield list(p)
        yield TYPES[::-1]
    for b, part in enumerate(chunks(forms(), size)):
        s = Sets("literals %d" % b)
        for i, xs in enumerate(part):
            e = ("lit", xs)
            s.add("L%d" % i, lit(xs), evaluate(e))
            if i % 2:
                s.inline.append((lit(xs), evaluate(e)))
        yield s


def chains(size):
    """References to references, in both orders of definition, in another letter case, used more than once."""
    def forms():
        for ops in itertools.product("|&-", repeat=2):
            for order in itertools.permutations(range(4)):
                for sh in range(3):
                    yield ops, order, sh
    for b, part in enumerate(chunks(forms(), size)):
        s = Sets("chains %d" % b)
        bases(s)
        for k, (ops, order, sh) in enumerate(part):
            ra, rb, rc = [("ref", n, m) for n, m in BASE.values()]
            e1 = (ops[0], ra, rb)
            e2 = (ops[1], ("ref", "P%d" % k, evaluate(e1)), rc) if sh != 1 else (ops[1], rc, ("ref", "p%d" % k, evaluate(e1)))
            e3 = ("-", ("ref", "Q%d" % k, evaluate(e2)), ("ref", "P%d" % k, evaluate(e1))) if sh != 2 else ("|", ("ref", "q%d" % k, evaluate(e2)), ("ref", "Q%d" % k, evaluate(e2)))
            e4 = ("&", ("ref", "R%d" % k, evaluate(e3)), ("-", ("ref", "SETA", A), ("ref", "Q%d" % k, evaluate(e2))))
            d = list(zip("PQRS", (e1, e2, e3, e4)))
            for o in order:
                s.add("%s%d" % (d[o][0], k), show(d[o][1]), evaluate(d[o][1]))
            if evaluate(e4):
                s.inline.append((show(e4), evaluate(e4)))
        yield s


def recursion(c):
    """All reference graphs over three sets: accepted if and only if acyclic."""
    n = 3
    names = ["RecA", "recb", "RECC"]
    def cyclic(g):
        reach = [set(g[i]) for i in range(n)]
        for _ in range(n):
            for i in range(n):
                for j in list(reach[i]):
                    reach[i] |= reach[j]
        return any(i in reach[i] for i in range(n))
    def one(bits):
        g = [[j for j in range(n) if bits >> (i * n + j) & 1] for i in range(n)]
        top = ["start phase Main { actions { pass ppp; } }", "root node Root { }"] + ["node %s { }" % t for t in TYPES]
        for i in range(n):
            ops = ["{%s}" % TYPES[i]] + [names[j] for j in g[i]]
            top.append("nodeset %s = %s" % (names[i], (" | ", " & ", " - ")[(bits >> 3) % 3].join(reversed(ops) if bits & 1 else ops)))
        gen = generate(c, ";\n".join(top) + ";\n")
        label = "references " + " ".join("%s->%s" % (names[i], "+".join(names[j] for j in g[i]) or "none") for i in range(n))
        if gen.crashed:
            c.violation(label, "cocogen ends abnormally: rc=%s timeout=%s %s" % (gen.rc, gen.r.timeout, gen.r.text[-400:]), gen.spec)
        elif cyclic(g) and gen.ok:
            c.violation(label, "a set that depends on itself is accepted", gen.spec)
        elif cyclic(g) and "error" not in gen.r.err.lower():
            c.violation(label, "rejected without a diagnostic", gen.spec)
        elif not cyclic(g) and not gen.ok:
            c.violation(label, "rejected although no set depends on itself: " + gen.r.err[-300:], gen.spec)
        c.add(1, 1, 1)
        drop(gen)
    pmap(one, range(1 << (n * n)))


def empty(c):
    """A traversal whose set of nodes is empty is rejected, or visits nothing."""
    refs = [("ref", n, m) for n, m in BASE.values()]
    es = [e for k in (1, 2) for e in exprs(k, refs) if not evaluate(e)]
    def one(x):
        i, e = x
        s = Sets("traversal over the empty set %s" % show(e))
        bases(s)
        if i % 2:
            s.add("Nil", show(e), [])
        s.inline.append(("Nil" if i % 2 else show(e), []))
        g = generate(c, s.render())
        if not g.crashed and not g.ok and "error" in g.r.err:
            c.add(1, 1, 1)
            drop(g)
        else:
            run_harness(c, Spec([]), "sets.c", (), s.label, glue=s.glue(), text=s.render())
    pmap(one, list(enumerate(es))[:None if THOROUGH else 24])


def main():
    c = Check("C15")
    c.build()
    work = list(algebra(3, 300) if THOROUGH else algebra(2, 150)) + list(literals(120)) + list(chains(54))
    pmap(lambda s: run_harness(c, Spec([]), "sets.c", (), s.label, glue=s.glue(), text=s.render()), work)
    c.cov["samples"].append({"specifications with many sets each": len(work), "first": work[0].label, "last": work[-1].label})
    recursion(c)
    empty(c)
    c.assumptions = ["expressions of up to %d operators over three sets in general position (all eight regions inhabited), with minimal and full parentheses, sets defined before and after use; literals of all subsets, orders and letter cases; chains of four references in all orders of definition; all 512 reference graphs over three sets" % (3 if THOROUGH else 2)]
    c.finish()
main()
