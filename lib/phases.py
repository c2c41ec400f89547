"""Phase structures: enumeration, rendering as specifications, a reference interpreter, and the runner
that compares every scenario's trace on the generated compiler with the reference."""
import itertools, os
from ccn import *

MAXDEF = 100

class Phase:
    """A phase or cycle: name, cycle?, gated?, items (Phase or leaf index)."""
    __slots__ = ("name", "cycle", "gated", "items", "gi", "uid")
    def __init__(self, name, cycle, items, gated=True):
        self.name, self.cycle, self.items, self.gated, self.gi, self.uid = name, cycle, items, gated, None, None


class Struct:
    """root: a Phase; leaves: number of distinct leaf actions; kinds[i]: 'pass' or 'trav'."""
    def __init__(self, root, nleaf, label):
        self.root, self.nleaf, self.label = root, nleaf, label
        self.phases = []
        def walk(p):
            if p in self.phases:
                return
            p.gi = len(self.phases)
            self.phases.append(p)
            for i in p.items:
                if isinstance(i, Phase):
                    walk(i)
        walk(root)
        self.kinds = ["pass"] * nleaf
        if nleaf > 1:
            self.kinds[-1] = "trav"

    def leafname(self, i):
        return ("Pass%d" if self.kinds[i] == "pass" else "Trav%d") % i

    def render(self):
        """Specification text; definitions partly inline, partly by (differently cased) reference."""
        defined, defs = set(), []
        def leafdef(i, style):
            if self.kinds[i] == "trav":
                return "traversal Trav%d { uid = TV%d, nodes = {Root} }" % (i, i)
            return ["pass Pass%d { func = leaf_%d }" % (i, i), "pass Pass%d { info = \"p\", uid = x%d, func = leaf_%d }" % (i, i, i),
                    "pass Pass%d = leaf_%d" % (i, i)][style % 3]
        def phasedef(p, start):
            acts = []
            for n, it in enumerate(p.items):
                if isinstance(it, Phase):
                    if it not in defined and (it.gi % 2 == 1):
                        defined.add(it)
                        acts.append(phasedef(it, False))
                    else:
                        acts.append(it.name.lower() if it.gi % 3 == 0 else it.name)
                else:
                    if ("l", it) not in defined and it % 2 == 0:
                        defined.add(("l", it))
                        acts.append(leafdef(it, p.gi + it))
                    else:
                        nm = self.leafname(it)
                        acts.append(nm.upper() if it % 3 == 0 else nm)
            pre = "gate = gate_%d, " % p.gi if p.gated else ""
            if p.gi % 3 == 1:
                pre = "uid = u%d, " % p.gi + pre
            elif p.gi % 3 == 2:
                pre = 'info = "phase %d", ' % p.gi + pre
            return "%s%s %s { %sactions { %s } }" % ("start " if start else "", "cycle" if p.cycle else "phase", p.name, pre,
                                                    " ".join(a + ";" for a in acts))
        defined.add(self.root)
        out = [phasedef(self.root, True)]
        todo = True
        while todo:
            todo = False
            for p in self.phases:
                if p not in defined:
                    defined.add(p)
                    out.append(phasedef(p, False))
                    todo = True
            for i in range(self.nleaf):
                if ("l", i) not in defined:
                    defined.add(("l", i))
                    out.append(leafdef(i, i))
                    todo = True
        return ";\n".join(out + ["root node Root { attributes { int v } }"]) + ";\n"

    def glue(self):
        s = '#include <stdbool.h>\n#include "ccn/ccn.h"\n#include "ccngen/ast.h"\nnode_st *leaf(int, node_st *); bool gate(int);\n'
        for i in range(self.nleaf):
            s += "node_st *%s(node_st *n) { return leaf(%d, n); }\n" % ("leaf_%d" % i if self.kinds[i] == "pass" else "TV%droot" % i, i)
        for p in self.phases:
            if p.gated:
                s += "bool gate_%d(void) { return gate(%d); }\n" % (p.gi, p.gi)
        return s

    def ids(self):
        """Preorder list of (id, name) as the structure numbers its actions; the start phase is 1."""
        out = []
        def walk(p, n):
            out.append((n, p.name))
            n += 1
            for it in p.items:
                if isinstance(it, Phase):
                    n = walk(it, n)
                else:
                    out.append((n, self.leafname(it)))
                    n += 1
            return n
        walk(self.root, 1)
        return out

    def paths(self):
        """All action occurrences as (path of phase names, own name, id)."""
        out, n = [], [0]
        def walk(p, path):
            n[0] += 1
            out.append((path, p.name, n[0]))
            for it in p.items:
                if isinstance(it, Phase):
                    walk(it, path + [p.name])
                else:
                    n[0] += 1
                    out.append((path + [p.name], self.leafname(it), n[0]))
        walk(self.root, [])
        return out


class Stop(Exception):
    pass


class Scenario:
    __slots__ = ("max", "bp", "bpid", "runs", "check", "verb", "leafs", "gates")
    def __init__(self, leafs=(), gates=(), max=0, bp="", bpid=0, runs=1, check=1, verb=0):
        self.leafs, self.gates, self.max, self.bp, self.bpid, self.runs, self.check, self.verb = tuple(leafs), tuple(gates), max, bp, bpid, runs, check, verb
    def line(self):
        return "%d;%s;%d;%d;%d;%d;%s;%s" % (self.max, self.bp, self.bpid, self.runs, self.check, self.verb,
                                          ",".join(x or "-" for x in self.leafs), ",".join(x or "1" for x in self.gates))


def reference(st, sc):
    """The trace the documentation prescribes: see properties C04 - C07."""
    tr = []
    bp = sc.bp.lower().split(".") if sc.bp else None
    S = {"max": sc.max or MAXDEF}
    lc, gc = {}, {}
    pick = lambda s, i: (s[i] if i < len(s) else s[-1]) if s else "-"
    size = {}
    def nsize(p):
        return sum(1 + (nsize(i) if isinstance(i, Phase) else 0) for i in p.items)
    def hit(path, name, aid):
        if bp is not None and bp[-1] == name.lower():
            i = 0
            for q in path:
                if i < len(bp) - 1 and bp[i] == q.lower():
                    i += 1
            if i == len(bp) - 1:
                return True
        return sc.bpid > 0 and sc.bpid == aid
    def report(level, what):          # what the verbosity lets the run time system say
        if sc.verb >= 10 and sc.verb - 10 >= level:
            tr.append(what)
    def stop(rc, *e):
        tr.extend(e)
        tr.append("EXIT")
        raise Stop(rc)
    def leaf(i, aid, path, ctx):
        a = pick(sc.leafs[i] if i < len(sc.leafs) else "", lc.get(i, 0))
        lc[i] = lc.get(i, 0) + 1
        report(2, "**" + st.leafname(i))
        tr.append("L%d@%d/%d" % (i, aid, ctx["v"]))
        if a in "nq123":
            ctx["changed"] = True
        if a in "pq":
            ctx["perr"] = True
        if a in "123":
            S["max"] = int(a)
        if a == "r":
            ctx["nextv"] += 1
            ctx["v"] = ctx["nextv"]
        if a == "a":
            report(1, "AERR")
            stop(1)
        if hit(path, st.leafname(i), aid):
            stop(0, "B/%d" % ctx["v"])
    def phase(p, aid, path, ctx):
        run = True
        report(1, ">>" + p.name)
        if p.gated:
            g = pick(sc.gates[p.gi] if p.gi < len(sc.gates) else "", gc.get(p.gi, 0))
            gc[p.gi] = gc.get(p.gi, 0) + 1
            run = g != "0"
            tr.append("G%d=%s" % (p.gi, "1" if run else "0"))
            if not run:
                report(3, "SKIP:" + p.name)
        if run:
            outer_err, ctx["perr"] = ctx["perr"], False
            outer_changed, any_changed, it = ctx["changed"], False, 0
            while True:
                ctx["changed"] = False
                n = aid + 1
                for i in p.items:
                    if isinstance(i, Phase):
                        phase(i, n, path + [p.name], ctx)
                        n += 1 + nsize(i)
                    else:
                        leaf(i, n, path + [p.name], ctx)
                        n += 1
                it += 1
                any_changed |= ctx["changed"]
                if not (p.cycle and ctx["changed"] and it < S["max"]):
                    break
            if ctx["perr"]:
                report(1, "PERR")
                stop(1)
            ctx["perr"] = outer_err
            ctx["changed"] = outer_changed or any_changed
        if hit(path, p.name, aid):
            stop(0, "B/%d" % ctx["v"])
        report(1, "<<" + p.name)
    rc = 0
    try:
        for _ in range(sc.runs):
            lc.clear(); gc.clear()
            ctx = {"v": 0, "nextv": 0, "perr": False, "changed": False}
            tr.append("RUN")
            phase(st.root, 1, [], ctx)
            tr.append("DONE+0")
        tr.append("EXIT")
    except Stop as e:
        rc = e.args[0]
    return " ".join(tr) + " rc=%d" % rc


def trees(n):
    """All ordered trees with n nodes as nested tuples; leaf = ()."""
    if n == 1:
        yield ()
        return
    def forests(k):
        if k == 0:
            yield ()
            return
        for first in range(1, k + 1):
            for t in trees(first):
                for rest in forests(k - first):
                    yield (t,) + rest
    for f in forests(n - 1):
        yield f


def structures(maxn, minn=2):
    """Every structure with up to maxn actions (start phase included), each inner one a phase or a cycle."""
    out = []
    for n in range(minn, maxn + 1):
        for t in trees(n):
            inner = [0]
            def count(x):
                if x:
                    inner[0] += 1
                    for c in x:
                        count(c)
            count(t)
            for kinds in itertools.product((False, True), repeat=inner[0]):
                out.append(make(t, kinds))
    return out


NAMES = ["Main", "Alpha", "Beta", "Gamma", "Delta", "Eps"]

def make(t, kinds):
    ctr = {"p": 0, "l": 0}
    def build(x):
        idx = ctr["p"]
        ctr["p"] += 1
        items = []
        p = Phase(NAMES[idx], kinds[idx], items)
        for c in x:
            if c:
                items.append(build(c))
            else:
                items.append(ctr["l"])
                ctr["l"] += 1
        return p
    root = build(t)
    lab = []
    def show(p):
        return ("cycle" if p.cycle else "phase") + "(" + " ".join(show(i) if isinstance(i, Phase) else "L%d" % i for i in p.items) + ")"
    return Struct(root, ctr["l"], show(root))


def extra_structures():
    """Actions referenced more than once, and ungated phases."""
    P = lambda n, c, items, g=True: Phase(n, c, items, g)
    out = []
    for c in (False, True):
        for c2 in (False, True):
            x = P("Alpha", c, [0])
            out.append(Struct(P("Main", c2, [x, 1, x]), 2, "%s(X L1 X) X=%s(L0)" % (c2, c)))
            out.append(Struct(P("Main", c2, [0, P("Alpha", c, [0, 1], False), 0], False), 2, "ungated %s(L0 %s(L0 L1) L0)" % (c2, c)))
            y = P("Beta", c, [0, 1], False)
            out.append(Struct(P("Main", False, [P("Alpha", c2, [y, 2]), y], False), 3, "shared Y=%s(L0 L1), Main(%s(Y L2) Y)" % (c, c2)))
    out.append(Struct(P("Main", False, [0, 0, 0]), 1, "phase(L0 L0 L0)"))
    out.append(Struct(P("Main", True, [0, 1, 0]), 2, "cycle(L0 L1 L0)"))
    out.append(Struct(P("Main", False, [P("Alpha", False, [P("Beta", False, [P("Gamma", False, [0], False)], False)], False), 1], False), 2, "ungated nesting"))
    return out


def build_struct(chk, st, release=False):
    d = chk.tmp("s")
    g = generate(chk, st.render(), d)
    if not g.ok:
        return None, "generator rejects (or fails on) the specification, rc=%s\n%s" % (g.rc, g.r.text[-800:])
    glue = os.path.join(d, "glue.c")
    with open(glue, "w") as f:
        f.write(st.glue())
    r, exe = compile_project(chk, g, [glue, os.path.join(VERIF, "harness", "phase_main.c")], user=False, release=release,
                             extra=["-Wl,--wrap=malloc,--wrap=calloc,--wrap=free"])
    if r.rc:
        return None, "generated code does not compile:\n" + r.text[-800:]
    return exe, None


def explore(chk, structs, scenarios, minimal=True):
    """scenarios(st) yields Scenario objects; every one is run on the compiled structure and compared."""
    chk.build("rel")
    distinct = set()
    def one(x):
        st, release = x
        exe, err = build_struct(chk, st, release)
        if err:
            return st, [], [], err
        scs = list(scenarios(st))
        seen, uniq = set(), []
        for s in scs:
            l = s.line()
            if l not in seen:
                seen.add(l)
                uniq.append(s)
        r = run([exe], inp="\n".join(s.line() for s in uniq) + "\n", timeout=800)
        try:
            os.unlink(exe)
        except OSError:
            pass
        return st, uniq, r.out.split("\n")[:-1], None if r.rc == 0 else "driver died rc=%s %s" % (r.rc, r.text[-300:])
    for st, scs, outs, err in pmap(one, [(st, release) for st in structs for release in (False, True)]):
        if err or len(outs) != len(scs):
            chk.violation("struct " + st.label, "%s: %s" % (st.label, err or "missing traces"), {"structure": st.label, "spec": st.render()})
            continue
        bad = 0
        for s, got in zip(scs, outs):
            want = reference(st, s)
            chk.add(transitions=want.count(" "), traces=1)
            distinct.add((st.label, want))
            if got != want:
                bad += 1
                if bad <= 2:
                    a, b = got.split(" "), want.split(" ")
                    k = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
                    chk.violation("%s :: %s" % (st.label, s.line()),
                                  "structure %s, scenario %s\n expected ...%s\n got      ...%s" % (st.label, s.line(), " ".join(b[max(0, k - 3):k + 12]), " ".join(a[max(0, k - 3):k + 12])),
                                  {"structure": st.label, "spec": st.render(), "scenario": s.line(), "expected": want[:4000], "got": got[:4000]})
        if scs:
            chk.sample("%s | %s -> %s" % (st.label, scs[len(scs) // 2].line(), outs[len(scs) // 2][:200]))
    chk.cov["states"] += len(distinct)
    chk.cov["structures"] = len(structs)
