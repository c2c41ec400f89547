"""C28: the run-time interface can be used in any order; the innermost traversal decides."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from ast_specs import *


def specs():
    nodes = [Node("R", [Child("A", "x"), Child("S", "y")], root=True), Node("A", [Child("B", "z")]), Node("B")]
    d = [("int", "n"), ("string", "s")]
    yield Spec(nodes, SETS, [Trav("First", "V0", None, None), Trav("Second", "v1", "{A}", ["A"], data=d), Trav("Third", "V2", "S | {R}", ["R", "A", "B"], data=d[::-1])],
               extra=["pass Alpha { func = alpha }", "pass Beta { func = beta }"], actions="Alpha; First; Second; Beta; Third; ")
    yield Spec(nodes, SETS, [Trav("First", "V0", "{B}", ["B"], data=d), Trav("Second", "v1", None, None, data=d), Trav("Third", "V2", "{R}", ["R"])],
               extra=["pass Alpha { func = alpha }", "pass Beta { func = beta }"], actions="Third; Beta; Alpha; Second; ")


def glue(sp, plan):
    s = sp.glue()
    s += "static const int TV_HASDATA[] = {%s};\n#define NPASS 2\nstatic const int PASS_ENUM[] = {PASS_ALPHA, PASS_BETA};\nstatic const int RUN_PLAN[] = {%s, -1};\n" % (
        ", ".join(str(int(bool(t.data))) for t in sp.travs), plan)
    s += "static int *data_int(int tv) { switch (tv) {%s } static int no; return &no; }\n" % " ".join(
        "case %d: return &DATA_%s_GET()->n;" % (k, t.uid.upper()) for k, t in enumerate(sp.travs) if t.data)
    s += "void HI(int); void HF(int); node_st *HP(int, node_st *);\n" + "".join(
        "void %sinit(void) { HI(%d); } void %sfini(void) { HF(%d); }\n" % (t.uid.upper(), k, t.uid.upper(), k) for k, t in enumerate(sp.travs) if t.data)
    return s + "node_st *alpha(node_st *n) { return HP(0, n); }\nnode_st *beta(node_st *n) { return HP(1, n); }\n"


def main():
    c = Check("C28")
    c.build()
    # nodes, operations, deviations of handlers and passes
    bounds = [(2, 3, 1), (3, 2, 2), (2, 4, 0)] + ([(3, 3, 2), (3, 4, 0), (2, 4, 1)] if THOROUGH else [])
    jobs = []
    for k, (sp, plan) in enumerate(zip(specs(), ("0, 100, 101, 1, 102", "102, 1, 0, 101"))):
        for release in (False, True):
            b = build_harness(c, sp, "history.c", "specification %d" % k, glue=glue(sp, plan), release=release)
            if b:
                for x in bounds:
                    jobs += [(k, release, b, x, p) for p in range(4)]
    def one(job):
        k, release, (g, exe), x, part = job
        label = "specification %d%s" % (k, " (release build)" * release)
        r = run([exe] + [str(a) for a in x] + [str(part), "4"], cwd=g.dir, timeout=850, env=SAN_ENV)
        m = re.search(r"^OK\t(\d+)\t(\d+)", r.out, re.M)
        f = re.search(r"^FAIL\t(.*)\t(.*)$", r.out, re.M)
        if f:
            c.violation("%s: %s" % (label, f.group(1)), f.group(2) + r.err[-500:], g.spec)
        elif not m:
            c.violation("%s %s" % (label, x), "harness died rc=%s %s" % (r.rc, r.text[-500:]), g.spec)
        else:
            c.add(int(m.group(1)), int(m.group(2)), int(m.group(1)))
            for s in re.findall(r"^SAMPLE\t(.*)\t(.*)$", r.out, re.M)[:1]:
                c.sample({"history": s[0], "trace": s[1][:400]}, 5)
    pmap(one, jobs)
    c.assumptions = ["three traversals, two with data, and two passes over three node types; all trees, with (nodes, operations, deviations inside handlers and passes) = %s" % bounds,
                     "outermost operations: TRAVstart (also of NULL), PASSstart, TRAVpush, TRAVpop, TRAVdo, TRAVopt, TRAVchildren, CCNcopy, CCNfree, CCNrun, writing traversal data; inside handlers and passes: the same nested once, balanced",
                     "TRAVpop without a traversal and TRAVdo without a current traversal are not used"]
    c.finish()


if __name__ == "__main__":
    main()
