"""Attribute grammars: specifications, their meaning (reference evaluator), their dependency analysis
(induced dependencies, visit partitions), and a harness that runs generated evaluators on trees."""
import itertools
from ccn import *

M64 = (1 << 64) - 1


def mix(h, x):
    h ^= (x + 0x9E3779B97F4A7C15 + ((h << 6) & M64) + (h >> 2)) & M64
    return (h * 0xFF51AFD7ED558CCD) & M64


class N:
    """kids: [(name, type, mandatory)], attrs: [(name, kind i|s|c)]"""
    def __init__(self, name, kids=(), attrs=()):
        self.name, self.kids, self.own = name, list(kids), list(attrs)


class Gram:
    """nodes: the first one is the root. sets: {name: (members, attrs)}.
    eqs: {(node, target, attr): [(who, attr), ...]} with target/who "this" or a child's name."""
    def __init__(self, nodes, sets=None, eqs=None, label="", order=None, types=None, setexpr=None):
        self.nodes = {n.name: n for n in nodes}
        self.sets = sets or {}
        self.eqs = eqs or {}
        self.label = label
        self.order = order
        self.types = types or {}         # attribute name -> type (default uint64)
        self.extra = ""
        self.setexpr = setexpr or {}

    def attrs(self, t):
        """attributes of a node or set, with those that come from sets"""
        own = dict(self.nodes[t].own if t in self.nodes else self.sets[t][1])
        for s, (ms, at) in self.sets.items():
            if s != t and (t in ms or (t in self.sets and set(self.sets[t][0]) <= set(ms) and self.nested(t, s))):
                for a, k in at:
                    own.setdefault(a, k)
        return own

    def nested(self, t, s):
        return t in self.setexpr.get(s, "").replace("|", " ").split()

    def members(self, t):
        return [t] if t in self.nodes else list(self.sets[t][0])

    def needed(self):
        """the equations the grammar needs: (node, target, attr)"""
        for n in self.nodes.values():
            for a, k in self.attrs(n.name).items():
                if k == "s":
                    yield n.name, "this", a
            for c, t, _ in n.kids:
                for a, k in self.attrs(t).items():
                    if k == "i":
                        yield n.name, c, a

    def render(self):
        top = ["start phase Main { actions { pass p; } }"] + ([self.extra] if self.extra else [])
        defs = []
        def attr(a, k):
            s = {"i": " { inherited }", "s": " { synthesized }", "c": "" if a not in self.ctor else " { constructor }"}[k]
            return "%s %s%s" % (self.types.get(a, "uint64"), a, s)
        for i, n in enumerate(self.nodes.values()):
            parts = []
            if n.kids:
                parts.append("children { %s }" % ", ".join("%s %s { constructor%s }" % (t, c, ", mandatory" if m else "") for c, t, m in n.kids))
            if n.own:
                parts.append("attributes { %s }" % ", ".join(attr(a, k) for a, k in n.own))
            es = [(tg, a, d) for (m, tg, a), d in self.eqs.items() if m == n.name]
            if es:
                parts.append("equations { %s }" % ", ".join("%s.%s = { args = { %s } }" % (tg, a, ", ".join("%s.%s" % x for x in d)) for tg, a, d in es))
            defs.append("%snode %s { %s }" % ("root " if i == 0 else "", n.name, ",\n  ".join(parts)))
        for s, (ms, at) in self.sets.items():
            e = self.setexpr.get(s) or "{%s}" % ", ".join(ms)
            defs.append("nodeset %s { nodes = %s%s }" % (s, e, ", attributes { %s }" % ", ".join(attr(a, k) for a, k in at) if at else ""))
        if self.order:
            defs = [defs[i] for i in self.order]
        return ";\n".join(top + defs) + ";\n"

    ctor = ()

    # ---------------------------------------------------------------- dependency analysis
    def graphs(self):
        """{key: (occurrences {who: type}, edges)} of every production and of every set and member"""
        out = {}
        for n in self.nodes.values():
            occ = {"this": n.name}
            occ.update({c: t for c, t, _ in n.kids})
            es = set()
            for (m, tg, a), ds in self.eqs.items():
                if m == n.name:
                    for w, b in ds:
                        if self.attrs(occ[w]).get(b) in ("i", "s"):
                            es.add(((w, b), (tg, a)))
            out[n.name] = (occ, es)
        for s, (ms, _) in self.sets.items():
            for m in ms:
                es = set()
                for a, k in self.attrs(s).items():
                    if k == "i":
                        es.add((("set", a), ("node", a)))
                    elif k == "s":
                        es.add((("node", a), ("set", a)))
                out[s + ":" + m] = ({"set": s, "node": m}, es)
        return out

    def analyse(self, full=False):
        """-> (verdict, parts): verdict 'cyclic' (induced dependencies contain a cycle), 'ordered' (the visits that
        follow from the partitions can be scheduled), 'unordered', or 'additional' (a member of the set of a child has an
        inherited attribute that the set lacks). parts: {type: {attr: partition}}."""
        for n in self.nodes.values():
            for _, t, _ in n.kids:
                if t in self.sets and any(k == "i" and a not in self.attrs(t) for m in self.members(t) for a, k in self.attrs(m).items()):
                    return ("additional", None, None)[:2 + full]
        gs = self.graphs()
        closed = {k: close(es) for k, (occ, es) in gs.items()}
        ind = set()                                      # (type, a, b)
        while True:
            new = set()
            for k, (occ, _) in gs.items():
                for (w, a), (v, b) in closed[k]:
                    if w == v:
                        new.add((occ[w], a, b))
            if any(a == b for _, a, b in new):
                return ("cyclic", None, None)[:2 + full]
            if new <= ind and all(((w, a), (w, b)) in closed[k] for k, (occ, _) in gs.items() for w in occ for t, a, b in new if t == occ[w] and self.has(k, w, occ, a, b)):
                break
            ind |= new
            for k, (occ, es) in gs.items():
                add = {((w, a), (w, b)) for w in occ for t, a, b in ind if t == occ[w] and self.has(k, w, occ, a, b)}
                closed[k] = close(closed[k] | add)
        if any(x == y for k in closed for x, y in closed[k]):
            return ("cyclic", None, None)[:2 + full]
        parts = {}
        for t in list(self.nodes) + list(self.sets):
            at = {a: k for a, k in self.attrs(t).items() if k != "c"}
            p = {}
            deps = {a: [x for u, x, y in ind if u == t and y == a] for a in at}
            while len(p) < len(at):
                for a in at:
                    if a not in p and all(x in p for x in deps[a]):
                        mx = max([p[x] for x in deps[a]] or [0])
                        par = 1 if at[a] == "s" else 0
                        p[a] = (3 if par else 2) if not deps[a] else mx if mx % 2 == par else mx + 1
            parts[t] = p
        for s, (ms, _) in self.sets.items():
            for m in ms:
                if any(parts[m].get(a) != p for a, p in parts[s].items()):
                    return ("unordered", parts, ind)[:2 + full]
        for k, (occ, _) in gs.items():
            if ":" in k:
                continue
            es = set(closed[k])
            for w, t in occ.items():
                for a, p in parts[t].items():
                    for b, q in parts[t].items():
                        if p < q:
                            es.add(((w, a), (w, b)))
            if any(x == y for x, y in close(es)):
                return ("unordered", parts, ind)[:2 + full]
        return ("ordered", parts, ind)[:2 + full]

    def has(self, k, w, occ, a, b):
        if ":" in k:
            at = self.attrs(k.split(":")[0])
            return a in at and b in at
        return True

    # ---------------------------------------------------------------- meaning
    def eqid(self, k):
        return sorted(self.eqs).index(k) + 1

    def evaluate(self, root):
        """values of all attributes of the tree: list in preorder of (node number, type, {attr: value})"""
        order, memo = [], {}
        def number(t, parent, slot):
            t["parent"], t["slot"], t["no"] = parent, slot, len(order)
            order.append(t)
            for c, _, _ in self.nodes[t["t"]].kids:
                if t["k"].get(c):
                    number(t["k"][c], t, c)
        number(root, None, None)
        def val(t, a):
            k = (t["no"], a)
            if k in memo:
                return memo[k]
            kind = self.attrs(t["t"])[a]
            if kind == "c":
                return value(self.types.get(a, "uint64"), classic(t["no"], a))
            at, key = (t, (t["t"], "this", a)) if kind == "s" else (t["parent"], (t["parent"]["t"], t["slot"], a))
            h = mix(0, self.eqid(key))
            for i, (w, b) in enumerate(self.eqs[key]):
                n = at if w == "this" else at["k"].get(w)
                h = mix(h, 0xABCD + i) if n is None else mix(h, val(n, b))
            memo[k] = value(self.types.get(a, "uint64"), h)
            return memo[k]
        return [(t["no"], t["t"], {a: val(t, a) for a in self.attrs(t["t"])}) for t in order]

    def above(self, t):
        return [z for z, (ms, _) in self.sets.items() if t in ms]

    def starts(self):
        """(node types evaluation can start from, node types it must refuse because of inherited attributes)"""
        vis = {t for n, tg, _ in self.needed() for t in [n]}
        while True:
            new = {n.name for n in self.nodes.values() if any(m in vis for _, t, _ in n.kids for m in self.members(t))}
            if new <= vis:
                break
            vis |= new
        inh = {t for t in self.nodes if "i" in self.attrs(t).values()}
        return [t for t in self.nodes if t in vis and t not in inh], sorted(inh)

    # ---------------------------------------------------------------- C harness
    def functions(self):
        """definitions of all evaluation functions, with their variants for absent children"""
        out = []
        for key, ds in self.eqs.items():
            n, tg, a = key
            mand = {c: m for c, _, m in self.nodes[n].kids}
            opt = []
            for w, _ in ds:
                if w != "this" and not mand[w] and w not in opt:
                    opt.append(w)
            for gone in itertools.product([0, 1], repeat=len(opt)):
                gone = [w for w, g in zip(opt, gone) if g]
                name = "EVAL%s_%s_%s" % (n.lower(), tg.lower(), a.lower()) + "".join("_%s_NULL" % w.lower() for w in gone)
                ty = lambda b: TYPES[self.types.get(b, "uint64")]
                ps = ["%s a%d" % (ty(b)[0], i) for i, (w, b) in enumerate(ds) if w not in gone]
                body = "uint64_t h = MIX(0, %dULL); CALLED(%d);" % (self.eqid(key), self.eqid(key))
                for i, (w, b) in enumerate(ds):
                    body += " h = MIX(h, %s);" % ("0xABCDULL + %d" % i if w in gone else ty(b)[2] % ("a%d" % i))
                out.append("%s %s(%s) { %s return %s; }" % (ty(a)[0], name, ", ".join(ps) or "void", body, ty(a)[1] % "h"))
        return out

    def limits(self, order):
        """{eqid: most calls}: an equation is evaluated at most once for every node it belongs to"""
        return {self.eqid(k): sum(1 for _, t, _ in order if t == k[0]) for k in self.eqs}

    def make(self, t):
        n = self.nodes[t["t"]]
        return "AST%s(%s)" % (n.name.lower(), ", ".join(self.make(t["k"][c]) if t["k"].get(c) else "NULL" for c, _, _ in n.kids))

    def visit(self):
        """C function that walks a tree and prints (or sets the classic) attributes in preorder"""
        o = ["static void walk(node_st *n, int mode) {", "  int no = count++; (void)no;", "  switch (NODE_TYPE(n)) {"]
        for n in self.nodes.values():
            o.append("  case NT_%s:" % n.name.upper())
            for a, k in self.attrs(n.name).items():
                m = "%s_%s(n)" % (n.name.upper(), a.upper())
                ty = TYPES[self.types.get(a, "uint64")]
                if k == "c":
                    o.append("    if (mode) %s = %s;" % (m, ty[1] % ("CLASSIC(no, %d)" % aid(a))))
                o.append('    if (!mode) printf(" %d.' + a + '=%llx", no, (unsigned long long)' + ty[2] % m + ');')
            for z in self.above(n.name):
                for a in self.attrs(z):
                    m = "%s_%s(n)" % (z.upper(), a.upper())
                    o.append('    if (!mode) printf(" %d.' + z + "." + a + '=%llx", no, (unsigned long long)' + TYPES[self.types.get(a, "uint64")][2] % m + ');')
            for c, _, _ in n.kids:
                m = "%s_%s(n)" % (n.name.upper(), c.upper())
                o.append("    if (%s) walk(%s, mode);" % (m, m))
            o.append("    break;")
        o += ["  default: break;", "  }", "}"]
        return o


def aid(a):
    return sum((i + 1) * ord(ch) for i, ch in enumerate(a))


def classic(no, a, salt=0):
    return mix(mix(7 + Gram.salt, no), aid(a))


Gram.salt = 0
# type in a specification: C type, its value for a hash, the hash of a value
TYPES = {t: ("%s_t" % t, "(%s_t)(%%s)" % t, "(uint64_t)(%s)") for t in "uint8 uint16 uint32 uint64 int8 int16 int32 int64".split()}
TYPES.update({
    "int": ("int", "(int)(%s)", "(uint64_t)(%s)"), "bool": ("bool", "(((%s) >> 7) & 1)", "(uint64_t)(%s)"),
    "float": ("float", "(float)((%s) >> 42)", "(uint64_t)(%s)"), "double": ("double", "(double)((%s) >> 12)", "(uint64_t)(%s)"),
    "string": ("char *", "texts[(%s) %% 5]", "textno(%s)"), "Hue": ("enum Hue", "((%s) %% 3)", "(uint64_t)(%s)"),
    "Spare": ("node_st *", "pool[(%s) %% 3]", "poolno(%s)"), "Some": ("node_st *", "pool[(%s) %% 3]", "poolno(%s)"),
    "user uptr": ("uptr", "(&other[(%s) %% 7])", "(uint64_t)((%s) - other)"), "user ustruct": ("ustruct", "((ustruct){(int)(%s)})", "(uint64_t)((%s).x)")})
TYPEDEFS = "spare Spare { }".replace("spare", "node", 1) + ";\nnodeset Some = {Spare};\nenum Hue { prefix = HU, values { red, green, blue } }"


def value(t, h):
    """the hash of the value of type t for hash h"""
    if t.lstrip("u").startswith("int"):
        n = 32 if t == "int" else int(t[t.index("t") + 1:])
        h &= (1 << n) - 1
        return h if t[0] == "u" or h < 1 << (n - 1) else (h - (1 << n)) & M64
    if t == "user ustruct":
        return value("int", h)
    return {"bool": lambda: h >> 7 & 1, "float": lambda: h >> 42, "double": lambda: h >> 12, "string": lambda: h % 5, "Hue": lambda: h % 3,
            "Spare": lambda: h % 3, "Some": lambda: h % 3, "user uptr": lambda: h % 7}[t]()


def close(es):
    succ = {}
    for x, y in es:
        succ.setdefault(x, set()).add(y)
    ch = True
    while ch:
        ch = False
        for x in list(succ):
            n = set(succ[x])
            for y in succ[x]:
                n |= succ.get(y, set())
            if len(n) > len(succ[x]):
                succ[x] = n
                ch = True
    return {(x, y) for x in succ for y in succ[x]}


def T(t, **k):
    return {"t": t, "k": k}


def trees(g, t, depth):
    """all trees of node type t with at most depth levels"""
    n = g.nodes[t]
    opts = []
    for c, ty, m in n.kids:
        o = [] if m else [None]
        if depth > 1:
            for x in g.members(ty):
                o += trees(g, x, depth - 1)
        opts.append(o)
    return [T(t, **{c: copytree(x) for (c, _, _), x in zip(n.kids, ks)}) for ks in itertools.product(*opts)]


def copytree(t):
    return None if t is None else {"t": t["t"], "k": {c: copytree(x) for c, x in t["k"].items()}}


def show(t):
    return "-" if t is None else t["t"] + ("(%s)" % " ".join(show(x) for x in t["k"].values()) if t["k"] else "")


PRE = r'''
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>
#include "user_types.h"
#include "ccn/ccn.h"
#include "ccngen/ast.h"
#include "ccngen/ag.h"
#include "ccngen/equation.h"
static int count, calls[400];
static uint64_t MIX(uint64_t h, uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); return h * 0xFF51AFD7ED558CCDULL; }
static uint64_t salt;
static uint64_t CLASSIC(int no, uint64_t a) { return MIX(MIX(7 + salt, no), a); }
#define CALLED(i) calls[i]++
static int other[7];
static char texts[5][3] = {"t0", "t1", "t2", "t3", "t4"};
static uint64_t textno(char *t) { return t[1] - '0'; }
static node_st *pool[3];
static uint64_t poolno(node_st *n) { return n == pool[0] ? 0 : n == pool[1] ? 1 : n == pool[2] ? 2 : 9; }
#define PROBE(what, action, node) do { \
    int fd[2]; char b[40] = ""; pipe(fd); fflush(stdout); \
    pid_t pid = fork(); \
    if (pid == 0) { dup2(fd[1], 2); node_st *n = node; if (n == NULL) _exit(0); action; _exit(0); } \
    close(fd[1]); int st; if (read(fd[0], b, 20) < 0) b[0] = 0; while (read(fd[0], b + 20, 19) > 0); b[20] = 0; close(fd[0]); waitpid(pid, &st, 0); \
    for (char *q = b; *q; q++) if (*q == '\n' || *q == '\t') *q = ' '; \
    printf("P %s\t%d\t%s\n", what, st, b); } while (0)
void BreakpointHandler(node_st *n) { (void)n; }
node_st *p(node_st *n) { return n; }
'''


def probes(g):
    """what must be refused: evaluation of a node whose attributes its parent defines, use before evaluation"""
    o = []
    for t in g.starts()[1]:
        o.append('PROBE("start at %s", CCNevaluateAttributes(n), %s);' % (t, g.make(T(t, **{c: None for c, _, _ in g.nodes[t].kids}))))
    for t in g.nodes:
        for a, k in g.attrs(t).items():
            for z in [t] + g.above(t):
                if k != "c" and a in g.attrs(z):
                    o.append('PROBE("%s_%s of a new %s", { static volatile uint64_t x; x = %s; }, %s);' % (
                        z.upper(), a.upper(), t, TYPES[g.types.get(a, "uint64")][2] % ("%s_%s(n)" % (z.upper(), a.upper())), g.make(T(t, **{c: None for c, _, _ in g.nodes[t].kids}))))
    return "\n    ".join(o)


def program(g, ts, aborts=True):
    o = [PRE] + g.functions() + g.visit()
    neq = len(g.eqs) + 1
    o.append("static node_st *tree(int i) { switch (i) {")
    for i, t in enumerate(ts):
        o.append("  case %d: return %s;" % (i, g.make(t)))
    o.append("  } return NULL; }")
    o.append(r'''
static void once(node_st *n, uint64_t s) {
    salt = s; count = 0; walk(n, 1); memset(calls, 0, sizeof calls);
    CCNevaluateAttributes(n);
    printf("C"); for (int i = 1; i < %d; i++) printf(" %%d", calls[i]); printf("\n");
    count = 0; printf("V"); walk(n, 0); printf("\n");
}
int main(void) {
    POOL
    for (int i = 0; i < %d; i++) {
        printf("T %%d\n", i);
        node_st *n = tree(i);
        once(n, 0);
        once(n, 1000);
        fflush(stdout);
    }
#ifndef NDEBUG
    PROBES
#endif
    printf("END\n");
    return 0;
}
''' .replace("PROBES", probes(g) if aborts else "").replace("POOL", "for (int i = 0; i < 3; i++) pool[i] = ASTspare();" if "node Spare" in g.extra else "") % (neq, len(ts)))
    return "\n".join(o)


def execute(c, g, gen, ts, label=None, release=False):
    """compile the generated evaluator of g with evaluation functions and run it on the trees; compare."""
    label = (label or g.label) + (" (release build)" if release else "")
    d = gen.dir
    src = os.path.join(d, "main.c")
    with open(src, "w") as f:
        f.write(program(g, ts))
    with open(os.path.join(d, "user_types.h"), "w") as f:
        f.write("#pragma once\ntypedef int *uptr;\ntypedef struct { int x; } ustruct;\n#define CCN_USES_UNSAFE_ACKNOWLEDGE\n")
    exe = os.path.join(d, "prog")
    gd = os.path.join(d, "gen")
    fs = [os.path.join(gd, f) for f in ("ast.c", "ag.c", "visit.c")]
    r = None
    if all(map(os.path.exists, fs)):         # all the evaluator needs; if not, everything
        r = run([GCC] + (["-O1", "-DNDEBUG"] if release else ["-O0"]) + ["-w", "-I" + gd, "-I" + d, "-I" + os.path.join(REPO, "copra"), "-I" + os.path.join(REPO, "palm", "include")] + fs + [src, c.palm("rel"), "-lm", "-o", exe], timeout=120)
    if r is None or r.rc:
        r, exe = compile_project(c, gen, [src], user=False, extra=["-I" + d], release=release)
    if r.rc:
        c.violation(label, "accepted, but the generated code does not compile with evaluation functions as declared in the skeletons:\n" + "\n".join(l for l in r.text.split("\n") if "error" in l or "undefined" in l)[:900], g.render())
        return 0
    r = run([exe], cwd=d, timeout=60)
    lines = r.out.split("\n")
    pos = 0
    n = 0
    for i, t in enumerate(ts):
        for salt in (0, 1000):
            if salt == 0:
                if pos >= len(lines) or lines[pos] != "T %d" % i:
                    c.violation(label, "stops before tree %s: rc=%s %s" % (show(t), r.rc, r.text[-400:]), g.render())
                    return n
                pos += 1
            want = evaluate_salted(g, t, salt)
            if pos + 1 >= len(lines) or not lines[pos].startswith("C") or not lines[pos + 1].startswith("V") or (pos + 2 >= len(lines)):
                c.violation(label, "evaluating tree %s fails: rc=%s %s" % (show(t), r.rc, (r.out[-200:] + r.err[-500:])), g.render())
                return n
            calls = list(map(int, lines[pos].split()[1:]))
            got = lines[pos + 1].split()[1:]
            pos += 2
            exp = []
            for no, ty, vs in want:
                exp += ["%d.%s=%x" % (no, a, v) for a, v in vs.items()]
                exp += ["%d.%s.%s=%x" % (no, z, a, vs[a]) for z in g.above(ty) for a in g.attrs(z)]
            if got != exp:
                bad = [(x, y) for x, y in itertools.zip_longest(got, exp) if x != y][:4]
                c.violation(label, "tree %s: attributes (node.attribute=value) differ, got/expected %s" % (show(t), bad), g.render())
                return n
            lim = g.limits(want)
            over = [k for k in g.eqs if calls[g.eqid(k) - 1] > lim[g.eqid(k)]]
            if over:
                c.violation(label, "tree %s: equation %s is evaluated %d times for %d nodes" % (show(t), over[0], calls[g.eqid(over[0]) - 1], lim[g.eqid(over[0])]), g.render())
                return n
            n += 1
    while lines[pos].startswith("P "):
        what, status, text = lines[pos][2:].split("\t")
        if status == "0" or not text:
            c.violation(label, "%s: is not refused with a diagnostic (status %s, %r)" % (what, status, text), g.render())
            return n
        pos += 1
    if lines[pos] != "END":
        c.violation(label, "ends abnormally: rc=%s %s" % (r.rc, r.text[-300:]), g.render())
    return n


import threading
_lock = threading.Lock()


def evaluate_salted(g, t, salt):
    with _lock:
        Gram.salt = salt
        try:
            return g.evaluate(t)
        finally:
            Gram.salt = 0


def drop(g):
    shutil.rmtree(g.dir, ignore_errors=True)


# ---------------------------------------------------------------- families of grammars
def subsets(xs, k):
    return [list(x) for m in range(k + 1) for x in itertools.combinations(xs, m)]


def family(name, nodes, sets, options, **kw):
    """every combination of the dependency lists in options {(node, target, attr): [lists]}"""
    keys = list(options)
    for i, ds in enumerate(itertools.product(*[options[k] for k in keys])):
        g = Gram(nodes, sets, dict(zip(keys, ds)), **kw)
        g.label = "%s: %s" % (name, ", ".join("%s %s.%s(%s)" % (k[0], k[1], k[2], " ".join("%s.%s" % x for x in d)) for k, d in zip(keys, ds)))
        yield g


def w(text):
    """'this.p n.s' -> [("this", "p"), ("n", "s")]"""
    return [tuple(x.split(".")) for x in text.split()]


def chain1(k=2):
    """a list of A with one inherited and one synthesized attribute; all dependencies of up to k attributes"""
    nodes = [N("Root", [("a", "A", False)], [("out", "s")]), N("A", [("n", "A", False)], [("v", "c"), ("i", "i"), ("s", "s")])]
    return family("list", nodes, {}, {
        ("Root", "this", "out"): [w("a.s"), w("a.s a.i"), w("a.i")],
        ("Root", "a", "i"): subsets(w("a.s a.i this.out"), 1),
        ("A", "this", "s"): subsets(w("this.i this.s n.i n.s this.v"), k),
        ("A", "n", "i"): subsets(w("this.i this.s n.s n.i this.v"), k)})


def chain2(full=False, quick=False):
    """a list of A with two inherited and two synthesized attributes, single dependencies"""
    nodes = [N("Root", [("a", "A", False)], [("out", "s")]), N("A", [("n", "A", False)], [("p", "i"), ("q", "i"), ("s", "s"), ("t", "s")])]
    e = [[]] if full else []
    one = lambda t: [[x] for x in w(t)][::2 if quick else 1]
    return family("list with two visits", nodes, {}, {
        ("Root", "this", "out"): [w("a.s a.t")],
        ("Root", "a", "p"): [[]] + one("a.s a.t"),
        ("Root", "a", "q"): e + one("a.s a.t a.p"),
        ("A", "this", "s"): e + one("this.p this.q n.s n.t"),
        ("A", "this", "t"): e + one("this.p this.q n.s n.t") + (one("this.s n.p") if full else []),
        ("A", "n", "p"): e + one("this.p this.q this.s n.s n.t"),
        ("A", "n", "q"): e + one("this.p this.q this.t n.s n.p")})


def siblings(mand, full=True):
    """two children of one type that use each other's attributes"""
    nodes = [N("Root", [("l", "B", mand[0]), ("r", "B", mand[1])], [("out", "s")]), N("B", [], [("i", "i"), ("s", "s"), ("t", "s")])]
    return family("siblings" + str(mand), nodes, {}, {
        ("Root", "this", "out"): [w("l.t r.t"), w("r.s l.i"), []],
        ("Root", "l", "i"): subsets(w("r.s r.t r.i l.s"), 1 + full),
        ("Root", "r", "i"): subsets(w("l.s l.t l.i"), 1 + 2 * full),
        ("B", "this", "s"): [[], w("this.i"), w("this.t")],
        ("B", "this", "t"): [[], w("this.i")]})


def default_eqs(g, extra=lambda n, t, a: None):
    """an equation for everything needed: synthesized from inherited and the children's synthesized attributes,
    inherited from inherited and classic attributes"""
    for n, tg, a in g.needed():
        d = extra(n, tg, a)
        if d is None:
            node = g.nodes[n]
            own = g.attrs(n)
            d = [("this", b) for b, k in own.items() if k in "ic"]
            if tg == "this":
                d += [(c, b) for c, t, _ in node.kids for b, k in g.attrs(t).items() if k == "s"]
        g.eqs[(n, tg, a)] = d
    return g


def setmix():
    """children of a set: every subset of {set inherited, set synthesized, member attributes}, members with and
    without visits, in every order, optional and mandatory, used directly as well"""
    for perm in itertools.permutations(["A", "B", "L"]):
        for at in ([], [("s", "s")], [("i", "i"), ("s", "s")], [("i", "i")]):
            for ax, bx, lx in itertools.product(([], [("x", "s")]), ([], [("x", "s")], [("y", "s"), ("c", "c")]), ([], [("x", "s")])):
                for mand in (True, False):
                    nodes = [N("Root", [("z", "S", mand), ("y", "B", False)], [("out", "s")]), N("A", [("n", "S", False), ("b", "B", False)], ax), N("B", [], bx), N("L", [], lx)]
                    g = Gram(nodes, {"S": (list(perm), at)})
                    yield default_eqs(g)
                    g.label = "set: {%s} with %s; A %s, B %s, L %s%s" % (" ".join(perm), at, ax, bx, lx, ", mandatory" if mand else "")


def nested():
    """sets in sets, each with attributes of its own"""
    for inner, outer in itertools.product(([], [("i", "i")], [("s", "s")], [("i", "i"), ("s", "s")]), ([], [("p", "i")], [("t", "s")], [("p", "i"), ("t", "s")])):
        for kid in ("Inner", "Outer"):
            for e in ("Inner | {C}", "{C} | Inner"):
                nodes = [N("Root", [("z", "Outer", False), ("y", "Inner", True)], [("out", "s")]), N("A", [("n", kid, False)]), N("B", [], [("v", "c")]), N("C", [("m", "Outer", False)])]
                g = Gram(nodes, {"Inner": (["A", "B"], inner), "Outer": (["A", "B", "C"], outer)}, setexpr={"Outer": e})
                yield default_eqs(g)
                g.label = "nested sets: Inner %s, Outer = %s %s, A has child %s" % (inner, e, outer, kid)


def bare():
    """nodes without attributes between nodes with attributes"""
    for mask in itertools.product([0, 1], repeat=4):
        for m in itertools.product([True, False], repeat=2):
            nodes = [N("Root", [("a", "A", m[0])], [("out", "s")] * mask[0]), N("A", [("b", "B", m[1]), ("k", "Set", False)], [("v", "c")] + [("x", "s")] * mask[1]),
                     N("B", [("c", "C", False)], [("y", "s")] * mask[2]), N("C", [("d", "Set", False)], [("z", "s"), ("v", "c")] * mask[3]), N("D", [("e", "B", False)], [("q", "s")])]
            g = Gram(nodes, {"Set": (["C", "D"], [])})
            yield default_eqs(g)
            g.label = "sparse attributes %s mandatory %s" % (mask, m)


def typed():
    """every pair of attribute types, over two visits"""
    ts = list(TYPES)
    for i, t in enumerate(ts):
        for u in ts:
            at = [("v", "c"), ("p", "i"), ("q", "i"), ("s", "s"), ("t", "s")]
            inset = (i + ts.index(u)) % 2 and "user ustruct" not in (t, u)
            ty = "In" if inset else "A"
            nodes = [N("Root", [("a", ty, i % 2 == 0)], [("out", "s")]), N("A", [("n", ty, False)], [] if inset else at)]
            g = Gram(nodes, {"In": (["A"], at)} if inset else {}, {("Root", "this", "out"): w("a.s a.t a.p"), ("Root", "a", "p"): [], ("Root", "a", "q"): w("a.s"), ("A", "this", "s"): w("this.p n.s this.v"),
                                 ("A", "this", "t"): w("this.q n.t n.s"), ("A", "n", "p"): w("this.p this.v"), ("A", "n", "q"): w("this.q n.s n.p")},
                     types={"p": t, "q": u, "s": u, "t": t, "v": "uint64" if t == "user ustruct" else t, "out": u})
            g.extra = TYPEDEFS
            g.label = "types %s, %s" % (t, u)
            yield g


def twins(full=True):
    """nodes with two children that use each other over several visits"""
    nodes = [N("Root", [("a", "B", True)], [("out", "s")]), N("B", [("l", "B", False), ("r", "B", False)], [("p", "i"), ("q", "i"), ("s", "s"), ("t", "s")])]
    one = lambda t: [[x] for x in w(t)][:None if full else 2]
    return family("tree", nodes, {}, {
        ("Root", "this", "out"): [w("a.s a.t")],
        ("Root", "a", "p"): [[]], ("Root", "a", "q"): [w("a.s")],
        ("B", "this", "s"): one("this.p l.s") + [w("l.s r.s")],
        ("B", "this", "t"): [w("l.t r.t"), w("this.q r.t"), w("this.s r.s")],
        ("B", "l", "p"): one("this.p r.p r.s"), ("B", "r", "p"): one("this.p l.p l.s l.t"),
        ("B", "l", "q"): one("this.q l.s r.s r.t"), ("B", "r", "q"): one("this.q this.p l.s l.t")})


def setvisits(full=True):
    """a set whose members are visited twice"""
    nodes = [N("Root", [("z", "S", False)], [("out", "s")]), N("A", [("n", "S", False), ("m", "S", True)]), N("L", [], [("v", "c")])]
    one = lambda t: [[x] for x in w(t)][:None if full else 2]
    return family("set with two visits", nodes, {"S": (["A", "L"], [("p", "i"), ("q", "i"), ("s", "s"), ("t", "s")])}, {
        ("Root", "this", "out"): [w("z.s z.t")],
        ("Root", "z", "p"): [[]], ("Root", "z", "q"): one("z.s z.p"),
        ("A", "this", "s"): [w("n.s m.s"), w("this.p"), w("this.p m.s")],
        ("A", "this", "t"): [w("n.t m.t"), w("this.q"), w("this.s n.t")],
        ("A", "n", "p"): one("m.s this.p m.p"), ("A", "m", "p"): one("this.p n.s") + [[]],
        ("A", "n", "q"): one("this.q n.s m.t"), ("A", "m", "q"): one("this.q n.s n.t"),
        ("L", "this", "s"): [w("this.p this.v")], ("L", "this", "t"): [w("this.q this.s"), w("this.v")]})


def ring(m):
    """m node types in a ring of children: dependencies go down, come up, or turn, at every node"""
    nodes = [N("Root", [("z", "A1", True)], [("out", "s")])] + [N("A%d" % j, [("n", "A%d" % (j % m + 1), False)], [("i", "i"), ("s", "s")]) for j in range(1, m + 1)]
    o = {("Root", "this", "out"): [w("z.s")], ("Root", "z", "i"): [[], w("z.s")]}
    for j in range(1, m + 1):
        o[("A%d" % j, "this", "s")] = [[], w("this.i"), w("n.s")]
        o[("A%d" % j, "n", "i")] = [[], w("this.i"), w("n.s")]
    return family("ring of %d" % m, nodes, {}, o)


def setring():
    """cycles through a set, its members and a set around it"""
    for t in ("S", "Big"):
        nodes = [N("Root", [("z", t, True), ("y", "A", False)], [("out", "s")]), N("A", [("n", "S", False)]), N("B", [("m", t, False)]), N("C", [("k", "A", True)])]
        o = {("Root", "this", "out"): [w("z.s y.s")], ("Root", "z", "i"): [[], w("y.s"), w("z.s")], ("Root", "y", "i"): [[], w("z.s")],
             ("A", "this", "s"): [w("this.i"), w("n.s")], ("A", "n", "i"): [w("this.i"), w("n.s")],
             ("B", "this", "s"): [[], w("this.i"), w("m.s")], ("B", "m", "i"): [[], w("m.s")],
             ("C", "this", "s"): [[], w("k.s")], ("C", "k", "i"): [[], w("this.i"), w("k.s")]}
        at = [("i", "i"), ("s", "s")]
        sets = {"S": (["A", "B"], []), "Big": (["A", "B", "C"], at)}
        yield from family("sets, child of " + t, nodes, sets, o, setexpr={"Big": "S | {C}"})


def wide():
    """many attributes and many visits, declared in both directions"""
    for n in (5, 20, 60):
        for rev in (1, -1):
            ss = ["s%d" % i for i in range(n)]
            eqs = {("Root", "this", "out"): [("a", ss[-1])]}
            for i, x in enumerate(ss):
                eqs[("A", "this", x)] = [("this", ss[i - 1])] if i else []
            yield Gram([N("Root", [("a", "A", True)], [("out", "s")]), N("A", [], [(x, "s") for x in ss[::rev]])], {}, eqs, label="%d attributes %d" % (n, rev))
            n2 = min(n, 30)
            at, eqs = [], {("Root", "this", "out"): [("a", "s%d" % (n2 - 1))]}
            for i in range(n2):
                at += [("i%d" % i, "i"), ("s%d" % i, "s")]
                eqs[("Root", "a", "i%d" % i)] = [("a", "s%d" % (i - 1))] if i else []
                eqs[("A", "this", "s%d" % i)] = [("this", "i%d" % i)]
            yield Gram([N("Root", [("a", "A", True)], [("out", "s")]), N("A", [], at[::rev])], {}, eqs, label="%d visits %d" % (n2, rev))
