"""C30: the printed tree (--show-ast) is the specification, with its numbers, the reach of its traversals and a plan that works."""
import collections, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from ag import *
import phases
import sets as sx
import astspec


# ------------------------------------------------------------------ reading what is printed
class Print:
    def __init__(self, text):
        m = re.search(r"(?:\A|\n)-+ +Generating +-+\n(.*)\n-+ +Done +-+", text, re.S)
        if not m:
            raise ValueError("no printed tree in %r" % text[-200:])
        ls = m.group(1).split("\n")
        skip = max([i + 1 for i, l in enumerate(ls) if l.startswith("Opening: ")] or [0])
        self.l, self.i = [x.strip() for x in ls[skip:]], 0
        self.l = [x for x in self.l if x]
        self.phases, self.travs, self.passes, self.nodes, self.sets, self.plans, self.reach, self.names = {}, {}, [], {}, {}, {}, {}, []
        last, table = None, False
        for h, b in self.block():
            if table:
                m = re.fullmatch(r"(\d+): ((?:\d+, )*\d*,?)", h)
                if not m or b is not None:
                    raise ValueError("%r in the table" % h)
                self.reach[int(m.group(1))] = [int(x) for x in re.findall(r"\d+", m.group(2))]
                continue
            k, _, r = h.partition(" ")
            if k == "Phase":
                self.once(self.phases, r)
                self.phases[r] = [x.rsplit(": ", 1) for x in self.leaves(self.part(b, "Actions"))]
            elif k == "Trav":
                self.once(self.travs, r)
                d = [x for x, y in b if y is None]
                m = re.fullmatch(r"Traversal index: (\d+)", d[0]) if len(d) == 1 else None
                if not m:
                    raise ValueError("traversal %s: %s" % (r, d))
                self.travs[r] = (int(m.group(1)), self.leaves(self.part(b, "nodes")))
            elif k == "Pass:":
                self.passes.append(r)
            elif k == "NODE:":
                m = re.fullmatch(r"(\w+)\((\d+)\)", r)
                if not m:
                    raise ValueError(h)
                last = m.group(1)
                self.once(self.nodes, last)
                self.nodes[last] = (int(m.group(2)), self.leaves(self.part(b, "Children")), self.attrs(self.part(b, "Attributes")), self.eqs(self.part(b, "Equations")))
                for x, y in b:
                    if x == "Visits":
                        self.plans[last] = self.plan(y)
            elif k == "Visits":
                self.once(self.plans, last)
                self.plans[last] = self.plan(b)
            elif k == "nodeset":
                m = re.fullmatch(r"(\w+)(?: \(.*\))?", r)
                self.once(self.sets, m.group(1))
                self.sets[m.group(1)] = ([x for x, y in b if y is None], self.leaves(self.part(b, "Child nodesets")), self.attrs(self.part(b, "Attributes")))
            elif k == "STE:":
                self.names.append(r.split(",")[0])
            elif h == "Reachability table:":
                table = True
            else:
                raise ValueError("%r is printed" % h)

    def once(self, d, k):
        if k in d:
            raise ValueError("%s is printed twice" % k)
        d[k] = None

    def block(self):
        out = []
        while self.i < len(self.l):
            x = self.l[self.i]
            self.i += 1
            if x.startswith("}"):
                return out
            out.append((x[:-1].strip(), self.block()) if x.endswith("{") else (x, None))
        return out

    def part(self, b, name):
        p = [y for x, y in b if x == name]
        if len(p) != 1 or p[0] is None:
            raise ValueError("%d parts %s" % (len(p), name))
        return p[0]

    def leaves(self, b):
        if any(y is not None for x, y in b):
            raise ValueError("block in %s" % b)
        return [x for x, y in b]

    def attrs(self, b):
        out = []
        for x, y in b:
            m = re.fullmatch(r"(\S+) (\w+) \{(.*?)\}?", x)
            if not m:
                raise ValueError("attribute %r" % x)
            out.append((m.group(1), m.group(2), tuple(re.findall(r"constructor|synthesized|inherited", m.group(3)))))
        return out

    def ref(self, x):
        m = re.fullmatch(r"<this>\.(\w+)", x)
        if m:
            return "this", m.group(1)
        m = re.fullmatch(r"(\w+)<(\w+)>\.(\w+)", x)
        if not m:
            raise ValueError("reference %r" % x)
        return m.group(1), m.group(3), m.group(2)

    def refs(self, x):
        return [self.ref(y) for y in x.split(", ") if y]

    def eqs(self, b):
        out = []
        for x, y in b:
            m = re.fullmatch(r"args = \{(.*)\}", y[0][0]) if x.endswith(" =") and y and len(y) == 1 else None
            if not m:
                raise ValueError("equation %r" % x)
            out.append((self.ref(x[:-2]), self.refs(m.group(1))))
        return out

    def plan(self, b):
        """[(node, number, inputs, outputs, steps)]; step: ("eval", ref) or ("visit", [(child, node, number) or node without visit])"""
        out = []
        for x, y in b:
            m = re.fullmatch(r"(\w+)_(\d+) \(in: \{(.*)\} out: \{(.*)\}\)", x)
            if not m:
                raise ValueError("visit %r" % x)
            steps, more = [], False
            for s in self.leaves(y):
                alt = more
                more = s.endswith(" or")
                s = s[:-3] if more else s
                if s.startswith("eval "):
                    steps.append(("eval", self.ref(s[5:])))
                    continue
                v = re.fullmatch(r"visit (\w+) (\w+)_(\d+)", s)
                d = re.fullmatch(r"<dummy visit for (\w+)>", s)
                if not v and not d:
                    raise ValueError("step %r" % s)
                z = (v.group(1), v.group(2), int(v.group(3))) if v else d.group(1)
                if alt:
                    steps[-1][1].append(z)
                else:
                    steps.append(("visit", [z]))
            out.append((m.group(1), int(m.group(2)), [r[:2] for r in self.refs(m.group(3))], [r[:2] for r in self.refs(m.group(4))], steps))
        return out


def differ(what, got, want):
    if got != want:
        raise ValueError("%s: %s, expected %s" % (what, got, want))


def numbers(what, xs):
    differ("numbers of the " + what, sorted(xs), list(range(len(xs))))


# ------------------------------------------------------------------ actions
def actions():
    for st in phases.structures(6 if THOROUGH else 5) + phases.extra_structures():
        def judge(p, st=st):
            differ("phases", sorted(p.phases), sorted(x.name for x in st.phases))
            at = collections.defaultdict(set)
            for path, name, n in st.paths():
                at[name].add(n)
            for x in st.phases:
                names = [i.name if isinstance(i, phases.Phase) else st.leafname(i) for i in x.items]
                differ("actions of " + x.name, [a.lower() for a, n in p.phases[x.name]], [a.lower() for a in names])
                for a, (_, n) in zip(names, p.phases[x.name]):
                    if int(n) not in at[a]:
                        raise ValueError("action %s has number %s, expected %s" % (a, n, sorted(at[a])))
            leaf = lambda k: sorted(st.leafname(i) for i in range(st.nleaf) if st.kinds[i] == k)
            differ("passes", sorted(p.passes), leaf("pass"))
            differ("traversals", sorted(p.travs), leaf("trav"))
            numbers("traversals", [n for n, _ in p.travs.values()])
        yield "actions " + st.label, st.render(), judge


# ------------------------------------------------------------------ reach
def reach():
    """Four node types with up to one (thorough: two) children of every type or set, and traversals over every set of them."""
    T = ["Root", "Aa", "Bb", "Cc"]
    S = {"Sab": ["Aa", "Bb"], "Scb": ["Cc", "Bb"], "Sroot": ["Root"]}
    kinds = [()] + [(x,) for x in T[1:] + list(S)] + ([("Aa", "Scb"), ("Sab", "Cc"), ("Bb", "Bb")] if THOROUGH else [])
    subs = [list(x) for k in range(1, 5) for x in itertools.combinations(T, k)]
    for kids in itertools.product(kinds, repeat=4):
        if not THOROUGH and sum(len(k) for k in kids) == 4 and kids[0] != ("Aa",):
            continue
        text = ["start phase Main { actions { pass p; } }"]
        text += ["traversal T%d { uid = U%d, nodes = {%s} }" % (i, i, ", ".join(x)) for i, x in enumerate(subs)] + ["traversal Every { uid = EV }", "traversal Set { uid = SE, nodes = Sab }"]
        text += ["%snode %s { %s }" % ("root " if t == "Root" else "", t, "children { %s }" % ", ".join("%s c%d" % (x, i) for i, x in enumerate(k)) if k else "attributes { int a }") for t, k in zip(T, kids)]
        text += ["nodeset %s = {%s}" % (s, ", ".join(m)) for s, m in S.items()]
        below = {t: set() for t in T}
        while True:
            old = {t: set(x) for t, x in below.items()}
            for t, k in zip(T, kids):
                for x in k:
                    for m in S.get(x, [x]):
                        below[t] |= {m} | below[m]
            if old == below:
                break
        want = {"T%d" % i: x for i, x in enumerate(subs)}
        want.update(Every=T, Set=S["Sab"])
        def judge(p, want=want, below=below, kids=kids):
            differ("traversals", sorted(p.travs), sorted(want))
            numbers("traversals", [n for n, _ in p.travs.values()])
            differ("node types", sorted(p.nodes), sorted(T))
            numbers("node types", [x[0] for x in p.nodes.values()])
            differ("rows of the table", sorted(p.reach), list(range(len(want))))
            for t, k in zip(T, kids):
                differ("children of " + t, p.nodes[t][1], ["c%d" % i for i in range(len(k))])
            for name, (n, ms) in p.travs.items():
                differ("nodes of " + name, sorted(ms), sorted(want[name]) if name != "Every" else [])
                differ("reach of " + name, {t: p.reach[n][p.nodes[t][0]] for t in T}, {t: 4 if t in want[name] else 2 if below[t] & set(want[name]) else 0 for t in T})
                differ("columns of the table", len(p.reach[n]), len(T))
        yield "reach " + str(kids), ";\n".join(text) + ";\n", judge


# ------------------------------------------------------------------ sets
def setexprs():
    """All expressions with up to two (thorough: three) operations over three sets in general position and a literal."""
    refs = [("ref", n, m) for n, m in sx.BASE.values()]
    es = [e for k in range(4 if THOROUGH else 3) for e in sx.exprs(k, refs + [("lit", ["mid", "ALPHA"])])]
    def under(e):
        return {e[1]} if e[0] == "ref" else set() if e[0] == "lit" else under(e[1]) | under(e[2])
    for b in range(0, len(es), 12):
        part = es[b:b + 12]
        text = ["start phase Main { actions { pass p; } }", "root node Root { }"] + ["node %s { }" % t for t in sx.TYPES]
        base = ["nodeset %s = %s" % (n, sx.lit(m)) for n, m in sx.BASE.values()]
        text += base if b % 24 else []
        want, kids, trav = {n: set(m) for n, m in sx.BASE.values()}, {n: set() for n, m in sx.BASE.values()}, {}
        for i, e in enumerate(part):
            text.append("nodeset Q%d = %s" % (i, sx.show(e)))
            want["Q%d" % i], kids["Q%d" % i] = set(sx.evaluate(e)), under(e)
            text.append("nodeset R%d = Q%d | {Root}" % (i, i))
            want["R%d" % i], kids["R%d" % i] = set(sx.evaluate(e)) | {"Root"}, under(e) | {"Q%d" % i}
            if sx.evaluate(e):
                text.append("traversal V%d { uid = VV%d, nodes = %s }" % (i, i, sx.show(e, True)))
                trav["V%d" % i] = set(sx.evaluate(e))
        text += [] if b % 24 else base
        def judge(p, want=want, kids=kids, trav=trav):
            differ("sets", sorted(p.sets), sorted(want))
            for n, (ms, ks, at) in p.sets.items():
                differ("members of " + n, sorted(x.lower() for x in ms), sorted(x.lower() for x in want[n]))
                differ("sets in " + n, sorted(ks), sorted(kids[n]))
                differ("attributes of " + n, at, [])
            differ("nodes of traversals", {n: sorted(y.lower() for y in x[1]) for n, x in p.travs.items()}, {n: sorted(y.lower() for y in x) for n, x in trav.items()})
        yield "sets %d" % b, ";\n".join(text) + ";\n", judge


# ------------------------------------------------------------------ attributes
def attributes():
    """All pairs of attribute types, of own attributes and attributes of a set, with and without flags."""
    ty = "bool string int float double uint8 uint16 uint32 uint64 int8 int16 int32 int64".split() + ["Leaf", "Some", "Mode", "user ut"]
    fl = [("", ()), (" { constructor }", ("constructor",))]
    ag = [fl[0], (" { synthesized }", ("synthesized",)), (" { inherited }", ("inherited",))]
    sort = lambda xs: sorted(xs)
    for (i, a), (j, b) in itertools.product(enumerate(ty), repeat=2):
        (f, fw), (g, gw), (h, hw) = fl[(i + j) % 2], fl[i % 2], ag[(i + j // 2) % 3]
        text = """start phase Main { actions { pass p; } };
root node Root { children { Some k }, equations { %s } };
node Leaf { attributes { %s own%s, %s other%s } %s };
node Bare { %s };
nodeset Some { nodes = {Leaf, Bare}, attributes { %s shared%s } };
enum Mode { prefix = MO, values { on, off } };
""" % ("k.shared = { args = { } }" if hw == ("inherited",) else "", a, f, b, g, ", equations { this.shared = { args = { } } }" if hw == ("synthesized",) else "", "equations { this.shared = { args = { } } }" if hw == ("synthesized",) else "", a, h)
        text = text.replace(", equations {  }", "")
        nm = lambda t: t.replace("user ", "")
        sh = (nm(a), "shared", hw)
        def judge(p, a=a, b=b, fw=fw, gw=gw, sh=sh):
            differ("attributes of Leaf", sort(p.nodes["Leaf"][2]), sort([(nm(a), "own", fw), (nm(b), "other", gw), sh]))
            differ("attributes of Bare", p.nodes["Bare"][2], [sh])
            differ("attributes of Root", p.nodes["Root"][2], [])
            differ("attributes of Some", p.sets["Some"][2], [sh])
            differ("children", {n: x[1] for n, x in p.nodes.items()}, {"Root": ["k"], "Leaf": [], "Bare": []})
        yield "attributes %s %s %s" % (a, b, hw), text, judge


# ------------------------------------------------------------------ attribute grammars and their plans
def families():
    yield chain1(2)
    yield chain2(quick=not THOROUGH)
    yield siblings((True, True), THOROUGH)
    yield twins(THOROUGH)
    yield setvisits(False)
    yield setring()
    yield setmix()
    yield nested()
    yield bare()
    yield typed()
    yield wide()
    for m in (1, 2, 3):
        yield ring(m)


def sound(g, p):
    """The plan evaluates every attribute once, after everything it depends on, on every tree."""
    real = {n.lower(): n for n in g.nodes}
    visits = {}
    for t in g.nodes:
        kinds = {a: k for a, k in g.attrs(t).items() if k != "c"}
        vs = p.plans.get(t)
        if vs is None:
            raise ValueError("no plan for " + t)
        vs = sorted(vs, key=lambda v: v[1])
        differ("visits of " + t, [v[0].lower() for v in vs], [t.lower()] * len(vs))
        differ("numbers of the visits of " + t, [v[1] for v in vs], list(range(1, len(vs) + 1)))
        differ("inputs of %s over all visits" % t, sorted(r for v in vs for r in v[2]), sorted(("this", a) for a, k in kinds.items() if k == "i"))
        differ("outputs of %s over all visits" % t, sorted(r for v in vs for r in v[3]), sorted(("this", a) for a, k in kinds.items() if k == "s"))
        visits[t] = vs
    for t, n in g.nodes.items():
        occ = {"this": t}
        occ.update({c: ty for c, ty, _ in n.kids})
        eq = {(tg, a): d for (m, tg, a), d in g.eqs.items() if m == t}
        done, nth, evals = set(), {c: 0 for c in occ if c != "this"}, []
        ready = lambda r: r in done or g.attrs(occ[r[0]]).get(r[1]) == "c"
        for v in visits[t]:
            done |= set(v[2])
            for k, s in v[4]:
                if k == "eval":
                    r = s[:2]
                    if r not in eq:
                        raise ValueError("%s evaluates %s, which has no equation there" % (t, r))
                    if not all(ready(x) for x in eq[r]):
                        raise ValueError("visit %d of %s evaluates %s before %s" % (v[1], t, r, [x for x in eq[r] if not ready(x)]))
                    evals.append(r)
                    done.add(r)
                    continue
                cs = {z[0] for z in s if not isinstance(z, str)}
                if len(cs) != 1:
                    raise ValueError("a step of %s visits %s" % (t, s))
                c = {x.lower(): x for x in nth}.get(cs.pop().lower())
                if c is None:
                    raise ValueError("%s visits no child of it: %s" % (t, s))
                nth[c] += 1
                got = sorted((real[z[1].lower()], z[2]) if not isinstance(z, str) else (z, None) for z in s)
                want = sorted((m, nth[c] if nth[c] <= len(visits[m]) else None) for m in g.members(occ[c]))
                differ("visit %d of child %s of %s" % (nth[c], c, t), [x for x in got if x[1]], [x for x in want if x[1]])
                if not {x[0] for x in got} <= {x[0] for x in want}:
                    raise ValueError("child %s of %s: %s" % (c, t, got))
                for m, i in got:
                    if i:
                        late = [a for _, a in visits[m][i - 1][2] if (c, a) not in done]
                        if late:
                            raise ValueError("visit %d of %s starts visit %d of %s without %s" % (v[1], t, i, m, late))
                sofar = [{a for v2 in visits[m][:nth[c]] for _, a in v2[3]} for m in g.members(occ[c])]
                done |= {(c, a) for a in set.intersection(*sofar)}
            if not set(v[3]) <= done:
                raise ValueError("visit %d of %s ends without %s" % (v[1], t, sorted(set(v[3]) - done)))
        differ("equations evaluated at " + t, sorted(evals), sorted(eq))
        for c in nth:
            differ("visits of child %s of %s" % (c, t), nth[c], max(len(visits[m]) for m in g.members(occ[c])))


def grammars():
    for f in families():
        for g in f:
            verdict = g.analyse()[0]
            if verdict not in ("ordered", "unordered"):
                continue
            flag = {"i": ("inherited",), "s": ("synthesized",), "c": ()}
            def judge(p, g=g):
                ty = lambda a: g.types.get(a, "uint64").replace("user ", "")
                spare = {"Spare"} if g.extra else set()
                differ("node types", sorted(p.nodes), sorted(set(g.nodes) | spare))
                numbers("node types", [x[0] for x in p.nodes.values()])
                differ("sets", {s: sorted(x[0]) for s, x in p.sets.items() if s != "Some" or not spare}, {s: sorted(ms) for s, (ms, _) in g.sets.items()})
                for n in list(g.nodes) + list(g.sets):
                    got = p.nodes[n][2] if n in p.nodes else p.sets[n][2]
                    differ("attributes of " + n, sorted(got), sorted((ty(a), a, flag[k]) for a, k in g.attrs(n).items()))
                for n, d in g.nodes.items():
                    occ = {c: t for c, t, _ in d.kids}
                    full = lambda r: r if r[0] == "this" else r + (occ[r[0]],)
                    differ("children of " + n, p.nodes[n][1], [c for c, _, _ in d.kids])
                    differ("equations of " + n, sorted((t, a) for t, a in p.nodes[n][3]), sorted((full((tg, a)), [full(x) for x in ds]) for (m, tg, a), ds in g.eqs.items() if m == n))
                sound(g, p)
            yield g.label, g.render(), judge, verdict == "ordered"


def main():
    c = Check("C30")
    c.build()
    count = collections.Counter()
    def one(job):
        label, text, judge = job[:3]
        must = job[3] if len(job) > 3 else True
        fam = job[4]
        gen = generate(c, text, args=["--show-ast", "--ag-scheduler-max-iter", "1000000"])
        try:
            if not gen.ok:
                if must:
                    c.violation(label, "rejected: " + gen.r.text[-300:], text)
                return
            p = Print(gen.r.out)
            judge(p)
            count[fam] += 1
            n = len(p.phases) + len(p.travs) + len(p.nodes) + len(p.sets) + len(p.passes)
            c.add(1, n + sum(len(v[4]) for x in p.plans.values() for v in x) + sum(len(r) for r in p.reach.values()), 1)
            if count[fam] in (20, 200):
                c.sample({"what": label, "plan": {k: v for k, v in list(p.plans.items())[:2] if v}, "reach": p.reach, "phases": p.phases}, 8)
        except ValueError as e:
            c.violation(label, str(e)[:1500], text + "\n" + gen.r.out)
        finally:
            shutil.rmtree(gen.dir, ignore_errors=True)
    jobs = []
    for fam, f in (("actions", actions), ("reach", reach), ("sets", setexprs), ("attributes", attributes), ("grammars", grammars)):
        for j in f():
            jobs.append((list(j) + [True])[:4] + [fam])
    pmap(one, jobs)
    quiet = generate(c, jobs[0][1])
    if re.search(r"^(Phase|Trav|Pass|NODE|nodeset|STE|Reach)", quiet.r.out, re.M):
        c.violation("quiet", "without --show-ast a tree is printed: " + quiet.r.out[-300:], jobs[0][1])
    c.assumptions = ["specifications accepted and printed: " + ", ".join("%s %d" % x for x in sorted(count.items())),
                     "the text is read into phases, traversals, passes, nodes, sets, plans and the table; its order and layout, the list of names and the lifetimes are not judged",
                     "a plan is judged by running it abstractly for every node type: each attribute is evaluated once and after what it depends on, for every member of the set of a child"]
    c.finish()


if __name__ == "__main__":
    main()
