"""C25: specifications in which every part of every definition has an effect that a generated program shows."""
import itertools, re
from ccn import *

HEAD = r'''
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
#include "ccn/ccn.h"
#include "ccn/dynamic_core.h"
#include "ccn/phase_driver.h"
#include "ccngen/ast.h"
#include "ccngen/enum.h"
#include "ccngen/trav.h"
#include "ccngen/trav_data.h"
#include "ccngen/ag.h"
#include "user_types.h"
void BreakpointHandler(node_st *n) { (void)n; }
static bool open_gates;
#define SAME(what, type, text) _Static_assert(_Generic(&what, type *: 1, default: 0), text)
'''
MAIN = r'''
int main(void)
{
    for (int i = 0; i < NSCEN; i++) {
        printf("S %d\n", i);
        fflush(stdout);
        pid_t p = fork();
        if (!p) {
            alarm(20);
            freopen("/dev/null", "w", stderr);
            setvbuf(stdout, NULL, _IOLBF, 1 << 16);
            open_gates = i != 1;
            node_st *n = build(i);
            values(n, i, false);
            CCNrun(n);
            exit(0);
        }
        int st;
        waitpid(p, &st, 0);
        printf("X %d\n", WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st));
    }
    return 0;
}
'''
CT = {"int": "int", "string": "char *", "float": "float", "double": "double", "bool": "bool", "Leaf": "node_st *", "Other": "node_st *", "user ut": "ut", "EN1": "enum EN1"}
CT.update({"%sint%d" % (u, w): "%sint%d_t" % (u, w) for u in ("u", "") for w in (8, 16, 32, 64)})


def pairs(forms, n=2):
    """A sequence in which every list of n forms occurs next to each other (de Bruijn)."""
    k, seq, a = len(forms), [], [0] * len(forms) * n
    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
            return
        a[t] = a[t - p]
        db(t + 1, p)
        for j in range(a[t - p] + 1, k):
            a[t] = j
            db(t + 1, t)
    db(1, 1)
    return [forms[i] for i in seq + seq[:n - 1]]


def chunks(seq, size, overlap=1):
    return [seq[i:i + size + overlap] for i in range(0, max(1, len(seq) - overlap), size)]


class Act:
    """One action of the start phase. events(sc): what it does; gate: asks a gate function."""
    def __init__(self, events, uid=None, gate=False):
        self.events, self.uid, self.gate = events, uid, gate


class Member:
    """A node type that is put below the root. leaves: numbers of the Leaf nodes below it; dies: the action that refuses it."""
    def __init__(self, name, build, leaves=(), dies=None, child=None, after="", expect=()):
        """child: its own child of the root, because attributes are evaluated; after: what is done after the evaluation; expect: what both show."""
        self.name, self.build, self.leaves, self.dies, self.child, self.after, self.expect = name, build, tuple(leaves), dies, child, after, list(expect)


class Prog:
    def __init__(self, probes=True):
        self.probes, self.reqs, self.evaluate = probes, [], False
        self.defs, self.tail, self.acts, self.acttext, self.c, self.statics, self.members, self.travs, self.k = [], [], [], [], [], [], [], [], 0
        self.nodes = ["Root", "Leaf", "Other"]
        self.root = None                # another definition of the root node: (text of its parts, Member)
        self.start = None               # another start phase: (text with %s for the actions, gate?, cycle?)
        self.skeleton = []              # texts that have to appear in a skeleton: (file, text)

    # ------------------------------------------------------------------ definitions
    def action(self, text, name, act, inline):
        if inline:
            self.acttext.append(text + ";")
        else:
            self.defs.append(text + ";")
            self.acttext.append(name + ";")
        self.acts.append(act)
        if act.uid and self.probes:
            i = len(self.acts) - 1
            nm = "L%d" % len(self.members)
            self.tail.append("node %s { lifetime { disallowed [%s -> %s] } };" % (nm, act.uid, act.uid))
            self.nodes.append(nm)
            self.members.append(Member(nm, "AST%s()" % nm.lower(), dies=i))

    def phase(self, kind, info, uid, gate, inline=False):
        k = self.k = self.k + 1
        b = (['info = "text %d"' % k] if info else []) + (["uid = FU%d" % k] if uid else []) + (["gate = fg%d" % k] if gate else [])
        self.c.append("node_st *fq%d(node_st *n) { printf(\"P fq%d\\n\"); static int c; if (c++ == 0) CCNcycleNotify(); return n; }" % (k, k))
        if gate:
            self.c.append("bool fg%d(void) { printf(\"G fg%d\\n\"); return open_gates; }" % (k, k))
        def events(sc, k=k):
            return (["G fg%d" % k] if gate else []) + (["P fq%d" % k] * (2 if kind == "cycle" else 1) if not gate or sc.open else [])
        self.action("%s F%d { %s }" % (kind, k, ", ".join(b + ["actions { pass fq%d; }" % k])), "F%d" % k, Act(events, "FU%d" % k if uid else None, gate), inline)

    def passform(self, form, inline=False):
        """form: subset of 'iuf', '' for none, '=' for the short notation."""
        k = self.k = self.k + 1
        b = (['info = "text %d"' % k] if "i" in form else []) + (["uid = PU%d" % k] if "u" in form else []) + (["func = pf%d" % k] if "f" in form else [])
        fn = "pf%d" % k if "f" in form or "=" in form else ("PU%d" % k if "u" in form else "") + "Pn%d" % k
        t = "pass Pn%d%s" % (k, " = pf%d" % k if form == "=" else " { %s }" % ", ".join(b) if b else "")
        self.c.append('node_st *%s(node_st *n) { printf("P %s\\n"); return n; }' % (fn, fn))
        self.action(t, "Pn%d" % k, Act(lambda sc: ["P " + fn], "PU%d" % k if "u" in form else None), inline)

    def trav(self, info, nodes, data, inline=False, expr=None, members=None, items=None, order=None):
        k = self.k = self.k + 1
        u = "TU%d" % k
        b = (['info = "text %d of it"' % k] if info else []) + ["uid = " + u]
        mem = None
        if nodes:
            b.append("nodes = " + (expr or "{Leaf, Root}"))
            mem = members or ["Leaf", "Root"]
        if data:
            items = items or [("int", "da%d" % k), ("user ut", "db%d" % k)]
            b.append("travdata { %s }" % ", ".join("%s %s" % x for x in items))
            for ty, nm in items:
                self.statics.append('SAME(DATA_%s_GET()->%s, %s, "%s.%s");' % (u, nm, CT[ty], u, nm))
            self.c.append('void %sinit(void) { printf("I %s\\n"); }\nvoid %sfini(void) { printf("D %s\\n"); }' % (u, u, u, u))
        if info:
            self.skeleton.append(("trav_tn%d.c" % k, "text %d of it" % k))
        self.travs.append((u, mem))
        def events(sc):
            out = ["I " + u] if data else []
            out += ["H %s%s" % (u, ev) for nm, ev in sc.preorder() if mem is None or nm in mem]
            return out + (["D " + u] if data else [])
        self.action("traversal Tn%d { %s }" % (k, ", ".join(b)), "Tn%d" % k, Act(events, u), inline)

    def node(self, ch, at, eq, lt):
        k = self.k = self.k + 1
        X, x = "X%d" % k, "x%d" % k
        self.nodes.append(X)
        parts = self.nodeparts(X, k, ch, at, eq, lt)
        self.defs.append("node %s { %s };" % (X, ", ".join(parts[0])))
        if eq and not at:
            self.tail.append("nodeset V%d { nodes = {%s}, attributes { int s%d { synthesized } } };" % (k, X, k))
        self.members.append(Member(X, parts[1], (11, 12) if ch else (), "last" if lt else None, x + "k" if eq else None, 'printf("V %%d\\n", X%d_S%d(ROOT_X%dK(n)));' % (k, k, k) if eq else "", ["E " + X, "V %d" % (1000 + k)] if eq else []))
        self.evaluate |= bool(eq)

    def nodeparts(self, X, k, ch, at, eq, lt):
        U = X.upper()
        b, sig, args, sets = [], [], [], []
        if ch:
            b.append("children { Leaf c%d { constructor }, Leaf d%d }" % (k, k))
            sig.append("node_st *")
            args.append("leaf(11)")
            sets.append("%s_D%d(n) = leaf(12); if (LEAF_V(%s_C%d(n)) != 11 || NODE_NUMCHILDREN(n) != 2) printf(\"! children of %s\\n\");" % (U, k, U, k, X))
        else:
            sets.append("if (NODE_NUMCHILDREN(n) != 0) printf(\"! children of %s\\n\");" % X)
        if at:
            b.append("attributes { int a%d { constructor }, string b%d%s }" % (k, k, ", int s%d { synthesized }" % k if eq else ""))
            sig.append("int")
            args.append("77")
            sets.append("if (%s_A%d(n) != 77 || %s_B%d(n)) printf(\"! attributes of %s\\n\");" % (U, k, U, k, X))
            self.statics.append('SAME(%s_A%d(n), int, "%s"); SAME(%s_B%d(n), char *, "%s");' % (U, k, X, U, k, X))
        if eq:
            b.append("equations { this.s%d = { args = { } } }" % k)
            self.c.append('int EVAL%s_this_s%d(void) { printf("E %s\\n"); return %d; }' % (X.lower(), k, X, 1000 + k))
        if lt:
            b.append("lifetime { disallowed [LastU -> LastU] }")
        self.statics.append('_Static_assert(_Generic(&AST%s, node_st *(*)(%s): 1, default: 0), "constructor of %s");' % (X.lower(), ", ".join(sig) or "void", X))
        self.c.append("static node_st *mk_%s(void) { node_st *n = AST%s(%s); %s return n; }" % (X.lower(), X.lower(), ", ".join(args), " ".join(sets)))
        return b, "mk_%s()" % X.lower()

    def nodeset(self, info, braces, attrs):
        k = self.k = self.k + 1
        if not braces:
            self.defs.append("nodeset S%d = {Leaf, Other};" % k)
        else:
            b = (['info = "text %d"' % k] if info else []) + ["nodes = {Leaf, Other}"] + (["attributes { int m%d, string q%d }" % (k, k)] if attrs else [])
            self.defs.append("nodeset S%d { %s };" % (k, ", ".join(b)))
            if attrs:
                self.statics.append(" ".join('SAME(%s_M%d(n), int, "S%d"); SAME(%s_Q%d(n), char *, "S%d");' % (w, k, k, w, k, k) for w in ("LEAF", "OTHER", "S%d" % k)))
        j = self.k = self.k + 1                       # its members: a traversal
        u = "ZU%d" % j
        self.tail.append("traversal Zn%d { uid = %s, nodes = S%d };" % (j, u, k))
        self.travs.append((u, ["Leaf", "Other"]))
        self.acttext.append("Zn%d;" % j)
        self.acts.append(Act(lambda sc: ["H %s%s" % (u, ev) for nm, ev in sc.preorder() if nm in ("Leaf", "Other")]))

    def enum(self, info):
        k = self.k = self.k + 1
        b = (['info = "text %d"' % k] if info else []) + ["prefix = ep%d" % k, "values { va, vb, vc }"]
        self.defs.append("enum E%d { %s };" % (k, ", ".join(b)))
        self.statics.append('{ enum E%d q = EP%d_va; (void)q; _Static_assert(EP%d_va < EP%d_vb && EP%d_vb < EP%d_vc, "E%d"); }' % ((k,) * 7))

    # ------------------------------------------------------------------ the whole
    def finish(self):
        self.c.append('node_st *Last(node_st *n) { printf("P Last\\n"); return n; }')
        self.acts.append(Act(lambda sc: ["P Last"], None))
        for m in self.members:
            if m.dies == "last":
                m.dies = len(self.acts) - 1
        if self.root and self.root[1].dies == "last":
            self.root[1].dies = len(self.acts) - 1
        self.scen = [Scen(self, None, True), Scen(self, None, False)] + [Scen(self, m, True) for m in self.members]
        evs = [m for m in self.members if m.child]
        plain = [m for m in self.members if not m.child]
        kids = ["%s %s" % (m.name, m.child) for m in evs]
        acts = " ".join(self.acttext + ["pass LastP { uid = LastU, func = Last };"])
        t = (self.start[0] if self.start else "start phase Main { actions { %s } };") % acts
        if self.root:
            t += "\nroot node Root { %s };" % self.root[0]
        else:
            t += "\nroot node Root { children { Items it%s }%s };\nnodeset Items = {%s};" % ("".join(", " + x for x in dict.fromkeys(kids)), ", equations { %s }" % ", ".join(self.reqs) if self.reqs else "", ", ".join(["Leaf"] + list(dict.fromkeys(m.name for m in plain))))
        t += "\nnode Leaf { attributes { int v } };\nnode Other { };\nenum EN1 { prefix = EN, values { e1, e2 } };\n"
        return t + "\n".join(self.defs + self.tail) + "\n"

    def source(self):
        o = [HEAD + ('#include "ccngen/equation.h"\n' if self.evaluate else ""), "static node_st *leaf(int v) { node_st *n = ASTleaf(); LEAF_V(n) = v; return n; }"]
        for u, mem in self.travs:
            for nm in mem or self.nodes:
                U = u.upper()
                if nm == "Leaf":
                    o.append('node_st *%sleaf(node_st *n) { printf("H %s leaf %%d\\n", LEAF_V(n)); TRAVchildren(n); return n; }' % (U, u))
                else:
                    o.append('node_st *%s%s(node_st *n) { printf("H %s %s\\n"); TRAVchildren(n); return n; }' % (U, nm.lower(), u, nm.lower()))
        o += self.c
        o.append("static void statics(node_st *n) { (void)n; %s }" % "\n".join(self.statics))
        o.append("static node_st *build(int i) { node_st *n = %s; switch (i) {" % (self.root[1].build if self.root else "ASTroot()"))
        vs = ["static void values(node_st *n, int i, bool x) { (void)x; %s switch (i) {" % ("CCNevaluateAttributes(n);" if self.evaluate else "")]
        for i, s in enumerate(self.scen):
            m = s.member
            if m:
                slot = "ROOT_%s(n)" % (m.child or "it").upper()
                o.append("case %d: %s = %s; break;" % (i, slot, m.build))
                vs.append("case %d: %s break;" % (i, m.after))
            elif self.root:
                vs.append("case %d: %s break;" % (i, self.root[1].after))
        o.append("} return n; }")
        o += vs + ["} }", "#define NSCEN %d" % len(self.scen), MAIN]
        return "\n".join(o)

    def compare(self, out):
        """None or what differs from the effects of the parts."""
        blocks = re.split(r"^S \d+\n", out, flags=re.M)[1:]
        for i, s in enumerate(self.scen):
            got = blocks[i].strip().split("\n") if i < len(blocks) else ["nothing"]
            lo, hi, status = s.expected()
            bad = None
            body = got[:-1]
            if status == 0:
                if got != hi + ["X 0"]:
                    bad = hi + ["X 0"]
            elif not (got[-1].startswith("X") and got[-1] != "X 0" and len(lo) <= len(body) <= len(hi) and body == hi[:len(body)]):
                bad = lo + ["(refused)"]
            if bad is not None:
                j = next((j for j, (a, b) in enumerate(itertools.zip_longest(got, bad)) if a != b), 0)
                return "%s: event %d is %r, expected %r (%s ... / %s ...)" % (
                    "tree with a %s" % s.member.name if s.member else "gates %s" % ("open" if s.open else "closed"), j, got[j] if j < len(got) else None, bad[j] if j < len(bad) else None, got[max(0, j - 2):j + 2], bad[max(0, j - 2):j + 2])
        return None


class Scen:
    def __init__(self, p, member, open):
        self.p, self.member, self.open = p, member, open

    def preorder(self):
        yield "Root", " root"
        if self.p.root:
            for v in self.p.root[1].leaves:
                yield "Leaf", " leaf %d" % v
        if self.member:
            yield self.member.name, " " + self.member.name.lower()
            for v in self.member.leaves:
                yield "Leaf", " leaf %d" % v

    def expected(self):
        m = self.member or (self.p.root[1] if self.p.root else None)
        ev = list(m.expect) if m else []
        closed = False
        if self.p.start:
            gate, cyc = self.p.start[1:]
            if gate:
                ev.append("G start")
                closed = not self.open
        if not closed:
            for r in range(2 if self.p.start and self.p.start[2] else 1):
                for i, a in enumerate(self.p.acts):
                    if m and m.dies == i:
                        return ev, ev + (a.events(self)[:1] if a.gate else []), 1
                    ev = ev + a.events(self)
        return ev, ev, 0


PHASES = [("phase",) + x for x in itertools.product((kind, i, u, g) for kind in ("phase", "cycle") for i in (0, 1) for u in (0, 1) for g in (0, 1))]
PHASES = [("phase", x[1]) for x in PHASES]
PASSES = [("pass", f) for f in ("", "=", "u", "f", "if", "iu", "uf", "iuf")]
TRAVS = [("trav", x) for x in itertools.product((0, 1), repeat=3)]
NODES = [("node", x) for x in itertools.product((0, 1), repeat=4)]
SETS = [("set", x) for x in ((0, 0, 0), (0, 1, 0), (1, 1, 0), (0, 1, 1), (1, 1, 1))]
ENUMS = [("enum", 0), ("enum", 1)]


def add(p, form, inline):
    kind, x = form
    if kind == "phase":
        p.phase(*x, inline=inline)
    elif kind == "pass":
        p.passform(x, inline=inline)
    elif kind == "trav":
        p.trav(*x, inline=inline)
    elif kind == "node":
        p.node(*x)
    elif kind == "set":
        p.nodeset(*x)
    else:
        p.enum(x)


def sequence(forms, inline=False):
    p = Prog()
    for f in forms:
        add(p, f, inline)
    return p


def starts():
    for cyc, i, u, g in itertools.product((0, 1), repeat=4):
        p = Prog()
        p.passform("")
        p.trav(0, 1, 0)
        b = (['info = "text"'] if i else []) + (["uid = MU"] if u else []) + (["gate = mg"] if g else []) + ["actions { %s }"]
        p.start = ("start %s Main { %s };" % (("phase", "cycle")[cyc], ", ".join(b)), g, cyc)
        if g:
            p.c.append('bool mg(void) { printf("G start\\n"); return open_gates; }')
        if cyc:
            p.passform("")
            fn = "Pn%d" % p.k
            p.c[-1] = 'node_st *%s(node_st *n) { printf("P %s\\n"); static int c; if (c++ == 0) CCNcycleNotify(); return n; }' % (fn, fn)
        yield "start %s %s" % (("phase", "cycle")[cyc], "".join(n for n, on in zip(("info ", "uid ", "gate "), (i, u, g)) if on)), p


def roots():
    for bits in itertools.product((0, 1), repeat=4):
        p = Prog(False)
        p.trav(0, 0, 0)
        p.trav(0, 1, 0)
        if bits[2] and not bits[1]:
            p.tail.append("nodeset V0 { nodes = {Root}, attributes { int s0 { synthesized } } };")
        b, mk = p.nodeparts("Root", 0, *bits)
        p.root = (", ".join(b), Member("Root", mk, (11, 12) if bits[0] else (), "last" if bits[3] else None, None, 'printf("V %d\\n", ROOT_S0(n));' if bits[2] else "", ["E Root", "V 1000"] if bits[2] else []))
        p.evaluate = bits[2]
        yield "root node %s" % "".join(n + " " for n, on in zip(("children", "attributes", "equations", "lifetime"), bits) if on), p


def items():
    """Every pair of travdata types; every pair of child forms; every list of attribute options."""
    types = list(CT)
    p = Prog(False)
    seq = pairs(types)
    p.trav(0, 1, 1, items=[(t, "i%d" % j) for j, t in enumerate(seq)])
    yield "travdata items", p
    # children
    p = Prog(False)
    p.passform("u")
    u1 = "PU%d" % p.k
    p.passform("u")
    u2 = "PU%d" % p.k
    l1, l2 = "disallowed [%s -> %s]" % (u1, u1), "disallowed [%s -> %s]" % (u2, u2)
    forms = [(ty,) + f for ty in ("Leaf", "SS") for f in (("", 0, None), (" { }", 0, None), (" { constructor }", 1, None), (" { %s }" % l1, 0, 0), (" { %s }" % l2, 0, 1), (" { constructor, %s }" % l2, 1, 1),
             (" { %s, %s }" % (l2, l1), 0, 0), (" { %s, %s }" % (l1, l2), 0, 0), (" { constructor, %s, %s }" % (l2, l1), 1, 0), (" { constructor, %s, %s }" % (l1, l2), 1, 0))]
    p.defs.append("nodeset SS = {Leaf, Other};")
    seq = pairs(forms)
    p.defs.append("node Kids { children { %s } };" % ", ".join("%s k%d%s" % (f[0], j, f[1]) for j, f in enumerate(seq)))
    p.nodes.append("Kids")
    nct = sum(f[2] for f in seq)
    p.statics.append('_Static_assert(_Generic(&ASTkids, node_st *(*)(%s): 1, default: 0), "constructor of Kids");' % ", ".join(["node_st *"] * nct))
    p.c.append("static node_st *kids(void) { return ASTkids(%s); }" % ", ".join(["NULL"] * nct))
    ct = 0
    for j, f in enumerate(seq):
        build = "kids()"
        p.c.append("static node_st *kid%d(void) { node_st *n = %s; %s return n; }" % (j, "ASTkids(%s)" % ", ".join("leaf(%d)" % (100 + j) if q == ct else "NULL" for q in range(nct)) if f[2] else "kids()",
                   'if (LEAF_V(KIDS_K%d(n)) != %d) printf("! k%d\\n");' % (j, 100 + j, j) if f[2] else "KIDS_K%d(n) = leaf(%d);" % (j, 100 + j)))
        ct += f[2]
        p.members.append(Member("Kids", "kid%d()" % j, (100 + j,), f[3]))
    p.trav(0, 1, 0)
    yield "child options", p
    # attributes
    for ty, flag in itertools.product(("int", "string", "Leaf", "EN1", "user ut"), ("inherited", "synthesized")):
        p = Prog(False)
        p.passform("u")
        p.passform("u")
        opts = ["constructor", flag] + ([l1, l2] if ty in ("string", "Leaf") else [])
        lists = [x for n in range(len(opts) + 1) for x in itertools.permutations(opts, n) if flag not in x or len(x) == 1]
        lists = lists + lists[::-1][1:]
        ats, eqs, sig, args, reqs = [], [], [], [], []
        val = {"int": "7", "string": 'strdup("x")', "Leaf": "leaf(5)", "EN1": "EN_e2", "user ut": "9"}[ty]
        same = lambda e: {"string": "%s && !strcmp(%s, \"x\")" % (e, e), "Leaf": "%s && LEAF_V(%s) == 5" % (e, e)}.get(ty, "%s == %s" % (e, val))
        evaluated = []
        for j, l in enumerate(lists):
            ats.append("%s a%d%s" % (ty, j, " { %s }" % ", ".join(l) if l or j % 2 else ""))
            p.statics.append(('_Static_assert(_Generic((ATT_A%d(n)), %s: 1, default: 0), "a%d");' if flag in l else 'SAME(ATT_A%d(n), %s, "a%d");') % (j, CT[ty], j))
            if "constructor" in l:
                sig.append(CT[ty])
                args.append((j, l))
            if flag in l:
                if flag == "inherited":
                    reqs.append("att.a%d = { }" % j)
                    p.c.append("%s EVALroot_att_a%d(void) { return %s; }" % (CT[ty], j, val))
                else:
                    eqs.append("this.a%d = { }" % j)
                    p.c.append("%s EVALatt_this_a%d(void) { return %s; }" % (CT[ty], j, val))
                evaluated.append(j)
        p.defs.append("node Att { attributes { %s }%s };" % (", ".join(ats), ", equations { %s }" % ", ".join(eqs) if eqs else ""))
        p.nodes.append("Att")
        p.statics.append('_Static_assert(_Generic(&ASTatt, node_st *(*)(%s): 1, default: 0), "constructor of Att");' % ", ".join(sig))
        p.c.append("static node_st *att(void) { return ASTatt(%s); }" % ", ".join("(%s)0" % CT[ty] for _ in sig))
        p.c.append("static int evaluated(node_st *n) { %s return 1; }" % " ".join("if (!(%s)) return 0;" % same("ATT_A%d(n)" % j) for j in evaluated))
        p.statics.append("(void)att;")
        # every attribute set, by the constructor if it is there
        for j, l in enumerate(lists):
            if "constructor" in l:
                p.c.append('static node_st *at%d(void) { node_st *n = ASTatt(%s); if (!(%s)) printf("! a%d\\n"); return n; }' % (j, ", ".join(val if a[0] == j else "(%s)0" % CT[ty] for a in args), same("ATT_A%d(n)" % j), j))
            elif flag in l:         # an evaluated attribute cannot be assigned to
                p.c.append("static node_st *at%d(void) { return att(); }" % j)
            else:
                p.c.append("static node_st *at%d(void) { node_st *n = att(); ATT_A%d(n) = %s; return n; }" % (j, j, val))
            dies = 0 if l1 in l else 1 if l2 in l else None
            p.members.append(Member("Att", "at%d()" % j, (), dies, "att", 'printf("V %d\\n", evaluated(ROOT_ATT(n)));', ["V 1"]))
        p.evaluate = True
        p.reqs = reqs
        yield "attribute options: %s %s" % (flag, ty), p
    # equations
    args = [("this.x", "int this_x", "this_x == 7"), ("this.y", "float this_y", "this_y == 2.5f"), ("kid.s", "int kid_s", "kid_s == 3"), ("kid.t", "char * kid_t", "kid_t && *kid_t == 'k'")]
    forms = ["{ }", "{ args = { } }"] + ["{ args = { %s } }" % ", ".join(a[0] for a in x) for n in (1, 2, 3, 4) for x in itertools.permutations(args, n) if n < 3 or x[0] == args[0]]
    for gi, seq in enumerate(chunks(pairs(forms), 150)):
        p = Prog(False)
        for j, f in enumerate(seq):
            used = [a for w in re.findall(r"\w+\.\w+", f) for a in args if a[0] == w]
            p.c.append("int EVALeqs_this_s%d(%s) { return %s ? %d : -1; }" % (j, ", ".join(a[1] for a in used) or "void", " && ".join(a[2] for a in used) or "1", j))
        p.c += ["int EVALkid_this_s(void) { return 3; }", "char *EVALkid_this_t(void) { return strdup(\"kid\"); }",
                "static node_st *eqs(void) { node_st *n = ASTeqs(ASTkid(), 7); EQS_Y(n) = 2.5f; return n; }",
                "static int evaluated(node_st *n) { %s return 1; }" % " ".join("if (EQS_S%d(n) != %d) return 0;" % (j, j) for j in range(len(seq)))]
        p.defs += ["node Eqs { children { Kid kid { constructor, mandatory } }, attributes { int x { constructor }, float y, %s }, equations { %s } };" % (", ".join("int s%d { synthesized }" % j for j in range(len(seq))), ", ".join("this.s%d = %s" % x for x in enumerate(seq))),
                   "node Kid { attributes { int s { synthesized }, string t { synthesized } }, equations { this.s = { }, this.t = { args = { } } } };"]
        p.members.append(Member("Eqs", "eqs()", (), None, "eqs", 'printf("V %d\\n", evaluated(ROOT_EQS(n)));', ["V 1"]))
        p.evaluate = True
        yield "equations, group %d" % gi, p
