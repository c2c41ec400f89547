"""C13: lifetimes of nodes, children and attributes are enforced at exactly the actions of their range."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from lifetimes import *

def main():
    c = Check("C13")
    c.build()
    sts = structures(5 if THOROUGH else 4) + extra_structures()
    work = []
    for k, st in enumerate(sts):
        for p in st.phases:
            p.gated = True
        for b in batches(st, [0, 3] if THOROUGH else [0] if k % 3 == 0 else []):
            work.append(("run", st.label, b))
        for label, s in rejected(st):
            work.append(("rej", st.label + ": " + label, s))
    def one(w):
        i, (kind, label, x) = w
        if kind == "rej":
            g = generate(c, x)
            if g.rc != 1 or g.r.timeout or not g.r.err.strip():
                c.violation("not refused: " + label, "rc=%s %s" % (g.rc, g.r.err[-300:]), x)
            shutil.rmtree(g.dir, ignore_errors=True)
            c.add(1, 1, 1)
            return
        g = generate(c, x.spec())
        if not g.ok:
            c.violation("refused: " + label, "rc=%s %s" % (g.rc, g.r.err[-600:]), x.spec())
            return
        open(os.path.join(g.dir, "spec.h"), "w").write(x.glue())
        for release in ((False, True) if THOROUGH else (i % 3 == 0,)):
            execute(x, g, label + (" (release build)" if release else ""), release)
        shutil.rmtree(g.dir, ignore_errors=True)
    def execute(x, g, label, release):
        r, exe = compile_project(c, g, [os.path.join(VERIF, "harness", "lifetimes.c")], user=False, extra=["-I" + g.dir], release=release)
        if r.rc:
            c.violation("does not compile: " + label, r.text[:1200], x.spec())
            return
        r = run([exe], cwd=g.dir, timeout=600)
        ok = False
        for l in r.out.splitlines():
            f = l.split("\t")
            if f[0] == "FAIL":
                c.violation("%s: %s" % (label, f[1]), "%s: %s: %s" % (label, f[1], f[2]), {"spec": x.spec(), "history": f[1]})
            elif f[0] == "SAMPLE":
                c.sample({"structure": label, "lifetime": f[1], "expected": f[2]})
            elif f[0] == "OK":
                ok = True
                c.add(int(f[1]), int(f[2]), int(f[1]))
        if not ok and "FAIL\t" not in r.out:
            c.violation("%s: harness died" % label, "rc=%s %s" % (r.rc, r.text[-500:]), x.spec())
    pmap(one, enumerate(work))
    c.assumptions = ["%d phase structures of up to %d actions (plus shared and repeated phases): every range over their actions with every bracket, every way to write a target (name, identifier, letter case, up to three components), for nodes, children, string and link attributes and all kinds; the tree breaks the lifetime from every possible check on; each gate closed in turn, cycles iterating; lists of up to three lifetimes; every third group of lifetimes is compiled as a release build, the others as debug builds (thorough: all as both)" % (len(sts), 5 if THOROUGH else 4)]
    c.finish()
main()
