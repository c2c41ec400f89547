"""C14: constructors, accessors, child lists, enums and nodeset accessors of generated nodes."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from nodeapi import *

NOSPECIAL = "static void special(long *e, long *v) { }\n"

def wrong_access(nodes):
    """Every accessor applied to a node of every other type ends the (debug) program."""
    s = ["static int acc(int k, node_st *n) { switch (k) {"]
    own, k = [], 0
    for ni, n in enumerate(nodes):
        for f in list(n.children) + list(n.attrs):
            s.append("case %d: (void)%s_%s(n); return 0;" % (k, n.name.upper(), f.name.upper()))
            own.append(ni)
            k += 1
    s.append("} return 0; }\nstatic const int own[] = {%s};" % ", ".join(map(str, own)))
    s.append("""static void special(long *e, long *v) {
    hx_on = false;
#ifdef NDEBUG
    return;
#endif
    for (int k = 0; k < %d; k++) for (int t = 0; t < NTAB; t++) {
        sprintf(hx_hist, "accessor %%d applied to a %%s", k, tab[t].name);
        fflush(stdout);
        pid_t p = fork();
        if (!p) { hx_done = true; freopen("/dev/null", "w", stderr); signal(SIGABRT, SIG_DFL); node_st *n = tab[t].mk(); acc(k, n); _exit(0); }
        int st;
        waitpid(p, &st, 0);
        bool stopped = st != 0;
        if (stopped != (own[k] != t)) hx_fail(stopped ? "stops the program" : "goes unnoticed");
        ++*e; ++*v;
    }
}""" % k)
    return "\n".join(s)


def sets_spec():
    """Nodesets with attributes of every type; member accessors and set accessors denote the same memory."""
    for gi, group in enumerate([ATYPES[i:i + 4] for i in range(0, len(ATYPES), 4)]):
        ts = [{"A": "Leaf", "S": "Any"}.get(t, t) for t in group]
        sets = [("Big", "{M1, M2, M3}", ["M1", "M2", "M3"]), ("PairSet", "{M2, m4}", ["M2", "M4"]), ("Nest", "{M4} | {M5}", ["M4", "M5"]), ("Outer", "Nest | {M1}", ["M4", "M5", "M1"])]
        attrs = {}
        for si, (nm, e, m) in enumerate(sets):
            attrs[nm] = [Attr(t, "%s_a%d" % (["bg", "Pr", "ns", "OU"][si], j)) for j, t in enumerate(ts)]
        nodes = []
        for q in ["M1", "M2", "M3", "M4", "M5"]:
            own = [Attr("string", "own", True)]
            inh = [a for nm, e, m in sets if q in m for a in attrs[nm]]
            nodes.append((Node(q, [Child("Any", "kid")] if q in ("M1", "M5") else [], own), inh))
        text = spec_text([n for n, _ in nodes], ["nodeset %s { nodes = %s, attributes { %s } }" % (nm, e, ", ".join(a.render() for a in attrs[nm])) for nm, e, m in sets])
        api = API()
        for n, inh in nodes:
            n2 = Node(n.name, n.children, list(n.attrs) + inh)
            api.nodes.append(n2)
        sp = ["#ifdef NDEBUG\n#define DEBUG_BUILD 0\n#else\n#define DEBUG_BUILD 1\n#endif", "static void special(long *e, long *v) {", "hx_on = false;"]
        for nm, e, m in sets:
            for ni, (n, inh) in enumerate(nodes):
                for a in attrs[nm]:
                    acc = "%s_%s(n)" % (nm.upper(), a.name.upper())
                    if n.name in m:
                        sp.append('{ node_st *n = tab[%d].mk(); sprintf(hx_hist, "%s of a %s"); if (&%s != &%s_%s(n)) hx_fail("is not the attribute of the node"); _Static_assert(_Generic(&%s, %s *: 1, default: 0), "%s"); ++*e; ++*v; }' % (
                            ni, acc, n.name, acc, n.name.upper(), a.name.upper(), acc, ctype(a.type), acc))
                    else:
                        sp.append('if (DEBUG_BUILD) { sprintf(hx_hist, "%s of a %s"); fflush(stdout); pid_t p = fork(); if (!p) { hx_done = true; freopen("/dev/null", "w", stderr); signal(SIGABRT, SIG_DFL); node_st *n = tab[%d].mk(); (void)&%s; _exit(0); } int st; waitpid(p, &st, 0); if (!st) hx_fail("goes unnoticed"); ++*e; ++*v; }' % (acc, n.name, ni, acc))
        sp.append("}")
        yield "nodeset attributes %s" % ",".join(group), text, api.glue("\n".join(sp))


def enum_spec():
    ens = [("e1", "P1", ["a"]), ("Other_E", "pp", ["x", "Yy", "z_z"]), ("UPP", "Q", ["v%d" % i for i in range(20)]), ("same", "R", ["a", "x", "null_", "v1"])]
    extra = ["enum %s { prefix = %s, values { %s } }" % (n, p, ", ".join(v)) for n, p, v in ens]
    sp = ["static void special(long *e, long *v) {"]
    for n, p, vs in ens:
        P = p.upper()
        sp.append('sprintf(hx_hist, "enum %s");' % n)
        for i, x in enumerate(vs):
            sp.append('{ enum %s q = %s_%s; (void)q; %s ++*v; }' % (n, P, x.lower(), 'if ((int)%s_%s >= (int)%s_%s) hx_fail("values are not in order");' % (P, vs[i - 1].lower(), P, x.lower()) if i else
                      'if ((int)%s_%s == 0) hx_fail("the first value equals the default of a new node");' % (P, x.lower())))
        sp.append("++*e;")
    sp.append("}")
    api = API()
    api.nodes = [Node("Leaf"), Node("Other")]
    return "enums", spec_text([], extra), api.glue("\n".join(sp))


def main():
    c = Check("C14")
    c.build()
    inc = c.tmp("ut")
    open(os.path.join(inc, "user_types.h"), "w").write("#pragma once\n" + USER_H)
    work = []
    for k, nodes in enumerate(families(THOROUGH)):
        api = API()
        api.nodes = nodes
        work.append(("batch %d" % k, spec_text(nodes), api.glue(NOSPECIAL)))
    few = next(families(False))[20:34]
    api = API()
    api.nodes = few
    work.append(("wrong node types", spec_text(few), api.glue(wrong_access(few))))
    work += list(sets_spec())
    work.append(enum_spec())
    def one(w):
        label, text, glue = w
        return run_harness(c, Spec([]), "nodeapi.c", (), label, glue=glue + MAIN, text=text, extra=["-I" + inc])
    pmap(one, work)
    c.assumptions = ["child lists of up to %d children with every constructor pattern; every pair of attribute types with every constructor pattern; nodes with all types; names in several letter cases; all sequences of up to two writes; nodesets with attributes of every type over overlapping and nested sets" % (4 if THOROUGH else 3)]
    c.finish()
main()
