"""Families of AST specifications."""
from astspec import *

SETS = [("S", "{A, B}", ["A", "B"])]


def all_travs(names, sets):
    """One traversal for every non-empty subset of the nodes, and one without a nodes block."""
    out = []
    for k in range(1, len(names) + 1):
        for sub in itertools.combinations(names, k):
            e = "{%s}" % ", ".join(sub)
            for n, _, m in sets:                       # written through a nodeset where one fits
                if set(m) == set(sub):
                    e = n
                elif set(m) < set(sub):
                    e = "%s | {%s}" % (n, ", ".join(x for x in sub if x not in m))
            out.append(Trav("Trav%d" % len(out), "V%d" % len(out), e, list(sub)))
    out.append(Trav("TravAll", "VAL"))
    return out


def lists(types, maxn):
    return [l for n in range(maxn + 1) for l in itertools.product(types, repeat=n)]


CNAMES = {"R": ["x", "y"], "A": ["y", "x"], "B": ["z", "y"], "C": ["x", "w"]}


def shapes3(maxab):
    """Root R with up to two children, A and B with up to maxab, of types A, B, {A, B} and R."""
    ty = ["A", "B", "S", "R"]
    for r in lists(ty, 2):
        for a in lists(ty, maxab):
            for b in lists(ty, maxab):
                mkc = lambda n, l: [Child(t, CNAMES[n][i], ctor=(i == 0)) for i, t in enumerate(l)]
                nodes = [Node("R", mkc("R", r), root=True), Node("A", mkc("A", a)), Node("B", mkc("B", b))]
                yield ("R(%s) A(%s) B(%s)" % (",".join(r), ",".join(a), ",".join(b)), Spec(nodes, SETS, all_travs("RAB", SETS)))


def shapes4(maxn=None):
    """Chains and cycles through four node types, one child each; the larger family adds nodesets."""
    sets = [("P", "{A, B}", ["A", "B"]), ("Q", "P - {A} | {C}", ["B", "C"])]
    ty = ["A", "B", "C"] + (["P", "Q"] if maxn is None else [])
    for r in ty:
        for a, b, cc in itertools.product([None] + ty, repeat=3):
            mkc = lambda n, t: [] if t is None else [Child(t, CNAMES[n][0])]
            nodes = [Node("R", mkc("R", r), root=True), Node("A", mkc("A", a)), Node("B", mkc("B", b)), Node("C", mkc("C", cc))]
            # only targets below the root are of interest here
            tr = [t for t in all_travs("RABC", sets) if t.members and len(t.members) <= 2]
            yield ("R(%s) A(%s) B(%s) C(%s)" % (r, a, b, cc), Spec(nodes, sets, tr))


# ------------------------------------------------------------------ attributes
PRIMS = ["int", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "bool", "float", "double", "string"]
CTYPE = {"int": "int", "bool": "bool", "float": "float", "double": "double", "string": "char *"}
for _w in ("8", "16", "32", "64"):
    CTYPE["int" + _w] = "int%s_t" % _w
    CTYPE["uint" + _w] = "uint%s_t" % _w
ATYPES = PRIMS + ["A", "S", "EN1", "user ut", "user uptr"]
ENUM1 = "enum EN1 { prefix = ep, values { e1, e2, e3 } }"
USER_H = "typedef int ut;\ntypedef void *uptr;\n#define CCN_USES_UNSAFE_ACKNOWLEDGE\n"


def akind(t):
    return "string" if t == "string" else "link" if t in ("A", "S", "R", "B") else "num"


def attr_val(t, v):
    """C expression for the value of attribute type t derived from the integer expression v."""
    if t == "bool":
        return "((%s) & 1)" % v
    if t == "EN1":
        return "((%s) %% 3 + 1)" % v
    if t == "user uptr":
        return "((void *)(uintptr_t)(%s))" % v
    if t in ("float", "double"):
        return "((%s) + 0.5)" % v
    return "((%s) %% 100)" % v


def evaluated(x):
    return "inherited" in x.opts or "synthesized" in x.opts


def attr_glue(spec):
    """attrs_set / attrs_print / attrs_strings for every node type of spec."""
    st, pr, ss = [], [], []
    for n in spec.nodes:
        u = n.name.upper()
        a, b, c = [], [], []
        lent = [x for s, _, m in spec.sets if n.name in m for x in spec.setattrs.get(s, [])]
        for i, x in enumerate(n.attrs + lent):
            acc = "%s_%s(n)" % (u, x.name.upper())
            k = akind(x.type)
            if evaluated(x):
                if k == "string":
                    b.append('if (evaluated) { b += sprintf(b, " %%s", %s ? %s : "(null)"); if (ptr) b += sprintf(b, "@%%p", (void *)%s); }' % (acc, acc, acc))
                    c.append("if (evaluated && %s) out[k++] = %s;" % (acc, acc))
                else:
                    b.append('if (evaluated) b += sprintf(b, " %%a", (double)(%s)%s);' % ("double" if x.type in ("float", "double") else "intptr_t", acc))
            elif k == "string":
                a.append("%s = text(strv);" % acc)
                b.append('b += sprintf(b, " %%s", %s ? %s : "(null)"); if (ptr) b += sprintf(b, "@%%p", (void *)%s);' % (acc, acc, acc))
                c.append("if (%s) out[k++] = %s;" % (acc, acc))
            elif k == "link":
                a.append("%s = link;" % acc)
                b.append('b += sprintf(b, " ->%%p", (void *)%s);' % acc)
            else:
                a.append("%s = %s;" % (acc, attr_val(x.type, "k * 7 + %d" % i)))
                b.append('b += sprintf(b, " %%a", (double)(%s)%s);' % ("uintptr_t" if x.type == "user uptr" else "double", acc))
        st.append("case NT_%s: %s break;" % (u, " ".join(a)))
        pr.append("case NT_%s: %s break;" % (u, " ".join(b)))
        ss.append("case NT_%s: %s break;" % (u, " ".join(c)))
    fs = []
    for n in spec.nodes:
        for lhs, args, x in getattr(n, "equations", []):
            v = {"string": "text(strv == 3 ? calls++ % 3 : strv)", "link": "rootn"}.get(akind(x.type)) or attr_val(x.type, "++calls")
            ty = CTYPE.get(x.type) or ("node_st *" if akind(x.type) == "link" else "enum EN1" if x.type == "EN1" else x.type.split()[1])
            fs.append("%s EVAL%s_%s(%s) { %sreturn %s; }" % (ty, n.name.lower(), lhs.replace(".", "_"), ", ".join("%s a%d" % (ty, i) for i in range(len(args))) or "void",
                                                            "".join("(void)a%d; " % i for i in range(len(args))), v))
    if fs:
        fs = ['#include "ccngen/ag.h"\n#define EVALUATES\nstatic int strv, calls; static node_st *rootn;'] + fs
    return """static char *text(int);
static bool evaluated;
%s
static void attrs_set(node_st *n, int k, int strv, node_st *link) { switch (NODE_TYPE(n)) { %s default: break; } }
static int attrs_print(node_st *n, char *b, bool ptr) { char *o = b; switch (NODE_TYPE(n)) { %s default: break; } return b - o; }
static int attrs_strings(node_st *n, void **out) { int k = 0; switch (NODE_TYPE(n)) { %s default: break; } return k; }
""" % ("\n".join(fs), "\n".join(st), "\n".join(pr), "\n".join(ss))


def attr_specs():
    """Attribute families: every type alone and paired with a string, in and out of the constructor; all together."""
    def spec(ra, aa, ba):
        nodes = [Node("R", [Child("A", "x", True), Child("S", "y")], ra, root=True), Node("A", [Child("B", "z")], aa), Node("B", [], ba)]
        return Spec(nodes, SETS, [Trav("Tr", "V0")], extra=[ENUM1])
    for i, t in enumerate(ATYPES):
        t2 = ATYPES[(i + 7) % len(ATYPES)]
        yield "attribute " + t, spec([Attr(t, "a0")], [Attr(t, "a0", True), Attr("string", "s", True)], [Attr("string", "s"), Attr(t2, "b1", True), Attr(t, "b2")])
    for order in (ATYPES, ATYPES[::-1]):
        al = [Attr(t, "a%d" % i, i % 2 == 0) for i, t in enumerate(order)]
        yield "all attribute types", spec(al, al[::-1], [Attr("string", "s1", True), Attr("string", "s2"), Attr("string", "s3", True)])


def evaluated_specs():
    """Attributes of every type that equations define, declared by the nodes or by a nodeset, next to ordinary strings."""
    for t in ATYPES:
        for flow in (False, True):
            for inset in (False, True):
                I, S = [Attr(x, n, opts=[k]) for x, n, k in (("string", "i", "inherited"), (t, "j", "inherited"))], [Attr(x, n, opts=[k]) for x, n, k in (("string", "s", "synthesized"), (t, "q", "synthesized"))]
                R, A, B = Node("R", [Child("A", "x", True), Child("S", "y")], S + [Attr("string", "p", True)], root=True), Node("A", [Child("B", "z")], [Attr("string", "p", True)]), Node("B", [], [Attr("string", "p")])
                R.equations = [("%s.%s" % (w, a.name), [], a) for w in ("x", "y") for a in I] + [("this." + a.name, [], a) for a in S]
                A.equations = [("z." + a.name, ["this." + a.name] if flow else [], a) for a in I]
                for n in (A, B):
                    n.equations = getattr(n, "equations", []) + [("this." + a.name, ["this." + b.name] if flow else [], a) for a, b in zip(S, I)]
                sp = Spec([R, A, B], SETS, [Trav("Tr", "V0")], extra=[ENUM1])
                sp.setattrs = {"S": I + S}
                if not inset:
                    A.attrs += I + S
                    B.attrs = I + S + B.attrs
                    R.children.pop()
                    R.equations = [e for e in R.equations if e[0][0] != "y"]
                    sp.setattrs = {}
                for n in (R, A, B):
                    n.extra.append("equations { %s }" % ", ".join("%s = { args = { %s } }" % (l, ", ".join(a)) for l, a, _ in n.equations))
                yield "evaluated attributes string and %s%s%s" % (t, " of a nodeset" if inset else "", " passed on" if flow else ""), sp


def shape_attr_specs(full):
    for label, sp in shapes3(1):
        if not full and not (len(sp.nodes[2].children) == 0 or sp.nodes[2].children[0].type == "A"):
            continue
        sp.travs = [Trav("Tr", "V0")]
        sp.nodes[0].attrs = [Attr("string", "s", True), Attr("A", "l")]
        sp.nodes[1].attrs = [Attr("S", "l", True), Attr("string", "s")]
        yield label, sp
