"""C14: generated node API. Every node type becomes a table of typed fields driven by one generic explorer."""
from ast_specs import *

NSTYLE = [lambda k: "node%d" % k, lambda k: "Node%d" % k, lambda k: "BinOp%d" % k, lambda k: "N_o_%d" % k, lambda k: "UPPER%d" % k, lambda k: "camelCase%dx" % k]
FSTYLE = [lambda k: "f%d" % k, lambda k: "Field%d" % k, lambda k: "someField%d" % k, lambda k: "f_%d_x" % k, lambda k: "UP%d" % k]

HEAD = """#define HX_TRACK
#include "hx.h"
#include "ccn/ccn.h"
#include "ccngen/ast.h"
#include "ccngen/enum.h"
#include "user_types.h"
#include <sys/wait.h>
void BreakpointHandler(node_st *n) { (void)n; }
node_st *ppp(node_st *n) { return n; }
static node_st dummy[16];
static char text[16][4];
"""

def ctype(t):
    if akind(t) == "link" or t in ("Leaf", "Any", "Other"):
        return "node_st *"
    if t == "EN1":
        return "enum EN1"
    if t.startswith("user "):
        return t[5:]
    return CTYPE[t]


def val(t, k):
    """C constant for value number k (1..) of the type; 0 is the default."""
    ct = ctype(t)
    if ct == "node_st *":
        return "&dummy[%s]" % k
    if t == "string":
        return "text[%s]" % k
    if t == "EN1":
        return "(enum EN1)(1 + (%s) %% 3)" % k
    if t == "bool":
        return "(bool)((%s) & 1)" % k
    if t == "user uptr":
        return "(void *)text[%s]" % k
    if t == "user ut":
        return "(-7 * (%s))" % k
    if t in ("float", "double"):
        return "(%s)(1.0 / 3 + (%s))" % (t, k)
    w = int(t.lstrip("uint") or 32)
    if t.startswith("u"):
        return "(%s)(UINT%d_MAX - (%s) * 3)" % (ct, w, k)
    return "(%s)((%s) & 1 ? INT%d_MIN + (%s) : INT%d_MAX - (%s))" % (ct, k, w, k, w, k)


class API:
    def __init__(self):
        self.nodes = []

    def glue(self, extra=""):
        s = [HEAD]
        for ni, n in enumerate(self.nodes):
            U = n.name.upper()
            fs = [(c.name, c.type, c.ctor) for c in n.children] + [(a.name, a.type, a.ctor) for a in n.attrs]
            ct = [f for f in fs if f[2]]
            s.append("_Static_assert(_Generic(&AST%s, node_st *(*)(%s): 1, default: 0), \"constructor of %s\");" % (n.name.lower(), ", ".join(ctype(f[1]) for f in ct) or "void", n.name))
            s.append("static node_st *mk%d(void) { return AST%s(%s); }" % (ni, n.name.lower(), ", ".join(val(f[1], fs.index(f) % 14 + 1) for f in ct)))
            s.append("static void set%d(node_st *n, int f, int k) { switch (f) {%s} }" % (ni, " ".join("case %d: %s_%s(n) = %s; break;" % (i, U, f[0].upper(), val(f[1], "k")) for i, f in enumerate(fs))))
            s.append("static bool is%d(node_st *n, int f, int k) { switch (f) {%s} return false; }" % (ni, " ".join(
                "case %d: return k ? %s_%s(n) == %s : %s_%s(n) == (%s)0;" % (i, U, f[0].upper(), val(f[1], "k"), U, f[0].upper(), ctype(f[1])) for i, f in enumerate(fs))))
            s.append("static void *at%d(node_st *n, int f) { switch (f) {%s} return NULL; }" % (ni, " ".join("case %d: return &%s_%s(n);" % (i, U, f[0].upper()) for i, f in enumerate(fs))))
            s.append("static void ty%d(node_st *n) { %s }" % (ni, " ".join("_Static_assert(_Generic(&%s_%s(n), %s *: 1, default: 0), \"%s.%s\");" % (U, f[0].upper(), ctype(f[1]), n.name, f[0]) for f in fs)))
        s.append("typedef struct { const char *name; int type, nch, nf; const char *fields[24]; char ctor[24]; size_t size[24]; node_st *(*mk)(void); void (*set)(node_st *, int, int); bool (*is)(node_st *, int, int); void *(*at)(node_st *, int); } T;")
        s.append("static T tab[] = {")
        for ni, n in enumerate(self.nodes):
            fs = list(n.children) + list(n.attrs)
            s.append('{"%s", NT_%s, %d, %d, {%s}, {%s}, {%s}, mk%d, set%d, is%d, at%d},' % (
                n.name, n.name.upper(), len(n.children), len(fs), ", ".join('"%s"' % f.name for f in fs) or "0",
                ", ".join(str(int(f.ctor)) for f in fs) or "0", ", ".join("sizeof(%s)" % ctype(f.type) for f in fs) or "0", ni, ni, ni, ni))
        s.append("};\n#define NTAB %d" % len(self.nodes))
        s.append(extra)
        return "\n".join(s)


def families(full):
    """Batches of node types."""
    nodes, k = [], 0
    def nm(i):
        return NSTYLE[i % len(NSTYLE)](i)
    def fn(i, j):
        return FSTYLE[(i + j) % len(FSTYLE)](j)
    i = 0
    # child lists with every constructor pattern, with and without attributes
    for n in range(4 if not full else 5):
        for ct in itertools.product((0, 1), repeat=n):
            for at in ([], [("string", 1)], [("int", 0), ("A", 1)], [("EN1", 1), ("bool", 0)]):
                ch = [Child(["Leaf", "Any"][(i + j) % 2], fn(i, j), bool(c)) for j, c in enumerate(ct)]
                a = [Attr({"A": "Other"}.get(t, t), fn(i, n + j), bool(c)) for j, (t, c) in enumerate(at)]
                nodes.append(Node(nm(i), ch, a))
                i += 1
    ts = [{"A": "Leaf", "S": "Any"}.get(t, t) for t in ATYPES]
    # every pair of attribute types and constructor flags
    for t1, t2 in itertools.product(ts, ts):
        for c1, c2 in itertools.product((0, 1), repeat=2):
            ch = [Child("Any", fn(i, 2), i % 2 == 0)] if i % 3 == 0 else []
            nodes.append(Node(nm(i), ch, [Attr(t1, fn(i, 0), bool(c1)), Attr(t2, fn(i, 1), bool(c2))]))
            i += 1
    # constructor patterns over many attributes, all types at once
    for m in range(8):
        a = [Attr(t, fn(i, j), bool((m >> (j % 3)) & 1)) for j, t in enumerate(ts if m % 2 else ts[::-1])]
        nodes.append(Node(nm(i), [Child("Leaf", "kid", bool(m & 1)), Child("Any", "other_kid", bool(m & 2))], a))
        i += 1
    if full:
        for t1, t2, t3 in itertools.product(ts[::2], ts[1::2], ts[::3]):
            for c in range(8):
                nodes.append(Node(nm(i), [], [Attr(t1, fn(i, 0), bool(c & 1)), Attr(t2, fn(i, 1), bool(c & 2)), Attr(t3, fn(i, 2), bool(c & 4))]))
                i += 1
    for j in range(0, len(nodes), 100):
        yield nodes[j:j + 100]


def spec_text(nodes, extra=()):
    top = ["start phase Main { actions { pass ppp; } }", "root node Prog { children { Any first } }", "node Leaf { }", "node Other { }", "nodeset Any = {Leaf, Other}", ENUM1]
    top += [n.render() for n in nodes] + list(extra)
    return ";\n".join(top) + ";\n"


MAIN = """
int main(void)
{
    long execs = 0, ev = 0;
    hx_init(300);
    for (int i = 0; i < 16; i++) sprintf(text[i], "%d", i);
    for (int t = 0; t < NTAB; t++) {
        T *x = &tab[t];
        for (int u = 0; u < t; u++) if (tab[u].type == x->type) hx_fail("two node types with the same number");
        for (int a = -1; a < x->nf; a++) for (int b = -1; b < (a < 0 ? 0 : x->nf); b++) {
            int model[24];
            hx_track_reset();
            hx_on = true;
            sprintf(hx_hist, "%s: construct, set %s, set %s", x->name, a < 0 ? "-" : x->fields[a], b < 0 ? "-" : x->fields[b]);
            node_st *n = x->mk();
            if (NODE_TYPE(n) != x->type) hx_fail("wrong node type");
            if (NODE_NUMCHILDREN(n) != x->nch) hx_fail("%ld children instead of %d", NODE_NUMCHILDREN(n), x->nch);
            if (NODE_FILENAME(n) != NULL) hx_fail("a new node has a file name");
            for (int f = 0; f < x->nf; f++) model[f] = x->ctor[f] ? f % 14 + 1 : 0;
            for (int step = 0; step < 3; step++) {
                for (int f = 0; f < x->nf; f++) if (!x->is(n, f, model[f])) hx_fail("after step %d, field %s does not have the value it was %s", step, x->fields[f], step ? "given" : x->ctor[f] ? "constructed with" : "to have by default");
                for (int c = 0; c < x->nch; c++) if ((void *)&NODE_CHILDREN(n)[c] != x->at(n, c)) hx_fail("child %d of the list is not %s", c, x->fields[c]);
                ev++;
                int w = step == 0 ? a : b;
                if (step == 2 || w < 0) break;
                x->set(n, w, 15 - w % 8 - step);
                model[w] = 15 - w % 8 - step;
            }
            NODE_BLINE(n) = 1; NODE_BCOL(n) = 2; NODE_ELINE(n) = 3; NODE_ECOL(n) = 4; NODE_FILENAME(n) = text[3];
            if (NODE_BLINE(n) != 1 || NODE_BCOL(n) != 2 || NODE_ELINE(n) != 3 || NODE_ECOL(n) != 4 || NODE_FILENAME(n) != text[3]) hx_fail("location fields overlap");
            for (int f = 0; f < x->nf; f++) if (!x->is(n, f, model[f])) hx_fail("setting the location changes field %s", x->fields[f]);
            if (NODE_TYPE(n) != x->type || NODE_NUMCHILDREN(n) != x->nch) hx_fail("setting the location changes the node");
            /* every field is memory of the node, and no two overlap */
            for (int f = 0; f < x->nf; f++) {
                char *p = x->at(n, f);
                bool in = false;
                for (int k = 0; k < hx_nblk; k++) if (p >= (char *)hx_blk[k].p && p + x->size[f] <= (char *)hx_blk[k].p + hx_blk[k].n) in = true;
                if (!in) hx_fail("field %s lies outside the node's memory", x->fields[f]);
                for (int g = 0; g < f; g++) { char *q = x->at(n, g); if (p < q + x->size[g] && q < p + x->size[f]) hx_fail("fields %s and %s overlap", x->fields[f], x->fields[g]); }
            }
            execs++;
        }
    }
    special(&execs, &ev);
    printf("SAMPLE\\t%s\\tall fields as expected\\n", hx_hist);
    printf("OK\\t%ld\\t%ld\\n", execs, ev);
    hx_done = true;
    return 0;
}
"""
