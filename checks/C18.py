"""C18: evaluation gives every attribute of every tree the value its equations define."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from ag import *


def families():
    t = THOROUGH
    yield chain1(2 if t else 1), 5 if t else 4
    yield chain2(full=False, quick=not t), 5 if t else 4
    for m in itertools.product([True, False], repeat=2):
        yield siblings(m, t), 2
    yield twins(t), 3
    yield setvisits(t), 3
    yield setmix(), 4 if t else 3
    yield nested(), 5 if t else 4
    yield bare(), 5 if t else 4
    yield typed(), 4 if t else 3
    yield wide(), 3
    if t:
        yield setring(), 4
        yield ring(3), 6
        yield chain2(full=True), 4


def main():
    c = Check("C18")
    c.build()
    count = {}
    def one(x):
        i, (g, depth) = x
        gen = generate(c, g.render(), args=["--ag-scheduler-max-iter", "1000000"])
        c.add(1)
        if gen.ok:          # what is accepted is the subject of C19
            ts = [t for s in g.starts()[0] for t in trees(g, s, depth)]
            for release in ((False, True) if THOROUGH else (i % 2 == 1,)):
                n = execute(c, g, gen, ts, release=release)
                c.add(len(ts), n, n)
            count[g.label.split(":")[0].split(" ")[0]] = count.get(g.label.split(":")[0].split(" ")[0], 0) + 1
            if count[g.label.split(":")[0].split(" ")[0]] == 3:
                c.sample({"grammar": g.label, "trees": len(ts), "a tree": show(ts[-1]), "values (node, type, attributes)": [(n, t, {a: "%x" % v for a, v in vs.items()}) for n, t, vs in evaluate_salted(g, ts[-1], 0)][:3]}, 8)
        drop(gen)
        return gen.ok
    jobs = [(g, d) for f, d in families() for g in f]
    oks = pmap(one, enumerate(jobs))
    c.assumptions = ["%d grammars, %d of them accepted, evaluated on all their trees up to depth 2-5 (lists, trees with two children, sets, sets in sets, sparse attributes, all attribute types), twice per tree with different classic attributes" % (len(jobs), sum(oks)),
                     "evaluation functions are mixing functions of their arguments, so that a value determines which values it was computed from", "every second grammar is compiled as a release build, the others as debug builds (thorough: all as both)", "grammars are evaluated in groups: " + ", ".join("%s %d" % x for x in sorted(count.items()))]
    if sum(oks) < len(jobs) // 5:
        c.violation("acceptance", "only %d of %d grammars are accepted" % (sum(oks), len(jobs)))
    c.finish()
main()
