"""C19: attribute dependencies are accepted exactly if they can be ordered."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from ag import *


def families():
    yield chain1(2)
    yield chain2()
    for m in ((True, True), (False, False)):
        yield siblings(m, THOROUGH)
    yield twins(THOROUGH)
    yield setvisits(THOROUGH)
    yield setring()
    yield setmix()
    yield nested()
    yield bare()
    yield wide()
    for m in (1, 2, 3):
        yield ring(m)
    if THOROUGH:
        yield chain1(3)
        yield chain2(full=True)
        yield ring(4)


def reordered(g):
    """the same grammar with definitions, attributes, equations and arguments in reverse order"""
    nodes = [N(n.name, n.kids, n.own[::-1]) for n in g.nodes.values()]
    h = Gram(nodes, {s: (ms[::-1], at[::-1]) for s, (ms, at) in reversed(list(g.sets.items()))}, {k: d[::-1] for k, d in reversed(list(g.eqs.items()))}, types=g.types, setexpr=g.setexpr)
    n = len(nodes) + len(h.sets)
    h.order = list(range(n))[::-1]
    h.label = g.label + " (reversed)"
    return h


def files(gen):
    """what is generated, without the log and the drawings"""
    top = os.path.join(gen.dir, "gen")
    return {os.path.relpath(os.path.join(b, f), top): open(os.path.join(b, f)).read() for b, _, fs in os.walk(top) for f in fs if f.endswith((".c", ".h"))}


def limits(c, g, most):
    """every limit of iterations from 0 until the grammar is accepted, and some more"""
    gen = generate(c, g.render(), args=["--ag-scheduler-max-iter", "1000000"])
    want = files(gen)
    shutil.rmtree(gen.dir, ignore_errors=True)
    if not gen.ok:
        return None
    first = None
    for n in range(most):
        gen = generate(c, g.render(), args=["--ag-scheduler-max-iter", str(n)])
        got = files(gen)
        shutil.rmtree(gen.dir, ignore_errors=True)
        c.add(1, 1, 1)
        key = "%s, limit %d" % (g.label, n)
        if gen.crashed:
            c.violation(key, "cocogen ends abnormally: rc=%s timeout=%s %s" % (gen.rc, gen.r.timeout, gen.r.text[-400:]), g.render())
        elif gen.ok and got != want:
            c.violation(key, "what is generated differs from that without limit: %s" % [f for f in want if want[f] != got.get(f)], g.render())
        elif not gen.ok and first is not None:
            c.violation(key, "rejected, although accepted with limit %d" % first, g.render())
        elif not gen.ok and (got or "error" not in gen.r.err.lower()):
            c.violation(key, "rejected %s" % ("without a diagnostic" if not got else "but files are generated"), g.render())
        if gen.ok and first is None:
            first = n
        if first is not None and n >= first + 2:
            break
    return first


def main():
    c = Check("C19")
    c.build()
    count = {}
    def verdict(g, want):
        gen = generate(c, g.render(), args=["--ag-scheduler-max-iter", "1000000"] if want == "ordered" else [])
        files = [f for _, _, fs in os.walk(os.path.join(gen.dir, "gen")) for f in fs if f.endswith((".c", ".h"))]
        text = gen.r.err
        if gen.crashed:
            c.violation(g.label, "cocogen ends abnormally: rc=%s timeout=%s %s" % (gen.rc, gen.r.timeout, gen.r.text[-400:]), g.render())
        elif want == "ordered" and not gen.ok:
            c.violation(g.label, "rejected, although all attributes can be ordered: " + text[-500:], g.render())
        elif want in ("cyclic", "additional") and gen.ok:
            c.violation(g.label, "accepted, although " + ("attributes depend on themselves" if want == "cyclic" else "a node in the set of a child has an inherited attribute that the set lacks"), g.render())
        elif not gen.ok and "error" not in text.lower():
            c.violation(g.label, "rejected without a diagnostic: %r" % gen.r.text[-300:], g.render())
        elif want in ("cyclic", "additional") and files:
            c.violation(g.label, "rejected, but files are generated: %s" % files[:4], g.render())
        shutil.rmtree(gen.dir, ignore_errors=True)
        k = (want, gen.ok)
        count[k] = count.get(k, 0) + 1
        if count[k] in (5, 50):
            c.sample({"grammar": g.label, "model": want, "cocogen": "accepts" if gen.ok else "rejects: " + " ".join(text.split())[:160]}, 9)
        c.add(1, 1, 1)
        return gen.ok
    def one(g):
        want = g.analyse()[0]
        a = verdict(g, want)
        if want != "unordered":
            verdict(reordered(g), want)
        return a
    jobs = [g for f in families() for g in f]
    pmap(one, jobs)
    some = [g for f in families() for g in list(f)[::8 if THOROUGH else 60]]
    needed = [n for n in pmap(lambda g: limits(c, g, 60), some) if n is not None]
    c.sample({"smallest limits that suffice": sorted(set(needed))}, 12)
    c.assumptions = ["%d grammars, each also with everything in reverse order; model verdicts and cocogen's: %s" % (len(jobs), ", ".join("%s/%s %d" % (w, "accepted" if a else "rejected", n) for (w, a), n in sorted(count.items()))),
                     "the model is an independent implementation of the analysis of ordered attribute grammars (dependencies induced over all trees, partitions); grammars it calls unordered (no cycle, but the visits that follow from the partitions cannot be scheduled) are only required to end orderly, what is generated for them is judged by C18"]
    c.assumptions.append("every limit of iterations from 0 to two above the first that suffices, for %d grammars" % len(needed))
    c.finish()
main()
