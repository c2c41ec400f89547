"""C09: traversal data belongs to one activation of its traversal."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from ast_specs import *

PRIMS = ["int", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "bool", "float", "double", "string"]
TYPES = PRIMS + ["A", "S", "user ut", "user uptr", "EN1"]

def setter(t, f, v):
    if t == "bool":
        return "d->%s = %s & 1" % (f, v)
    if t in ("string",):
        return "d->%s = (char *)(uintptr_t)(%s)" % (f, v)
    if t in ("A", "S"):
        return "d->%s = (node_st *)(uintptr_t)(%s)" % (f, v)
    if t == "user uptr":
        return "d->%s = (void *)(uintptr_t)(%s)" % (f, v)
    if t == "EN1":
        return "d->%s = (%s) %% 3" % (f, v)
    return "d->%s = (%s) %% 100" % (f, v)

def getter(t, f):
    return "(uintptr_t)d->%s" % f

def norm(t, v):
    return "(%s & 1)" % v if t == "bool" else "(%s %% 3)" % v if t == "EN1" else v if t in ("string", "A", "S", "user uptr") else "(%s %% 100)" % v

def data_glue(spec):
    s = ["static const int TV_HASDATA[] = {%s};" % ", ".join(str(int(bool(t.data))) for t in spec.travs)]
    st, ok, pt = [], [], []
    for k, t in enumerate(spec.travs):
        if t.data:
            g = "case %d: { struct data_%s *d = DATA_%s_GET(); " % (k, t.uid.lower(), t.uid.upper())
            st.append(g + " ".join(setter(ty, f, "v + %d" % i if False else "v") + ";" for i, (ty, f) in enumerate(t.data)) + " break; }")
            ok.append(g + "return " + " && ".join("%s == (uintptr_t)%s" % (getter(ty, f), norm(ty, "v")) for ty, f in t.data) + "; }")
            pt.append(g + "return d; }")
    s.append("static void data_set(int tv, int v) { switch (tv) { %s } }" % "\n".join(st))
    s.append("static bool data_ok(int tv, int v) { switch (tv) { %s } return true; }" % "\n".join(ok))
    s.append("static void *data_ptr(int tv) { switch (tv) { %s } return NULL; }" % "\n".join(pt))
    s.append("void HI(int); void HF(int);")
    for k, t in enumerate(spec.travs):
        if t.data:
            s.append("void %sinit(void) { HI(%d); } void %sfini(void) { HF(%d); }" % (t.uid.upper(), k, t.uid.upper(), k))
    return "\n".join(s) + "\n"

def spec_for(fields, expr, members):
    nodes = [Node("R", [Child("A", "x"), Child("S", "y")], root=True), Node("A", [Child("B", "z")]), Node("B")]
    travs = [Trav("First", "V0", expr, members, data=fields), Trav("Second", "v1", None, None, data=[("int", "n"), ("string", "s")]),
             Trav("Third", "V2", "{R, A}", ["R", "A"])]
    return Spec(nodes, SETS, travs, extra=["enum EN1 { prefix = ep, values { e1, e2, e3 } }"])

def main():
    c = Check("C09")
    c.build()
    cases = [([(t, "f0")], None, None) for t in TYPES] + [([(t, "f%d" % i) for i, t in enumerate(TYPES)], None, None)]
    cases += [([(t, "f%d" % i) for i, t in enumerate(reversed(TYPES))], "{A, B}", ["A", "B"])]
    pairs = list(itertools.permutations(TYPES, 2)) if THOROUGH else list(zip(TYPES, TYPES[5:] + TYPES[:5]))
    cases += [([(a, "f"), (b, "f1")], "S | {R}" if i % 2 else "{R}", ["R", "A", "B"] if i % 2 else ["R"]) for i, (a, b) in enumerate(pairs)]
    def one(case):
        fields, expr, members = case
        sp = spec_for(fields, expr, members)
        label = "travdata {%s} nodes %s" % (", ".join("%s %s" % f for f in fields), expr or "all")
        inc = c.tmp("ut")
        open(os.path.join(inc, "user_types.h"), "w").write("typedef int ut;\ntypedef void *uptr;\n")
        return run_harness(c, sp, "travdata.c", (4, 3 if THOROUGH else 2), label, glue=sp.glue() + data_glue(sp), extra=["-I" + inc])
    pmap(one, cases)
    c.assumptions = ["three traversals (two with data); nestings of up to %d further activations over all trees of up to 4 nodes; field lists: every type alone, %s pairs, all together" % (3 if THOROUGH else 2, "all" if THOROUGH else "some")]
    c.finish()
main()
