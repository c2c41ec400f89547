"""C29: the diagrams show exactly the tree and the attribute dependencies of the specification."""
import collections, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from ag import *

KEYWORDS = {"node", "edge", "graph", "digraph", "subgraph", "strict"}


class Dot:
    """A reader of the DOT language: nodes {name: attributes}, edges [(from, to, attributes)], clusters {path: attributes}, home {node: path}."""
    def __init__(self, text):
        self.tok = []
        i = 0
        while i < len(text):
            m = re.compile(r'\s+|//[^\n]*|/\*.*?\*/|(->|--|[{}\[\];,=:])|([A-Za-z_\200-\377][\w\200-\377]*|-?(?:\.\d+|\d+(?:\.\d*)?))|"((?:[^"\\]|\\.)*)"', re.S).match(text, i)
            if m:
                if m.group(1):
                    self.tok.append(("op", m.group(1)))
                elif m.group(2):
                    self.tok.append(("kw", m.group(2).lower()) if m.group(2).lower() in KEYWORDS else ("id", m.group(2)))
                elif m.group(3) is not None:
                    self.tok.append(("id", m.group(3)))
                i = m.end()
            elif text[i] == "<":
                d, j = 0, i
                while True:
                    if j >= len(text):
                        raise ValueError("unterminated <")
                    d += {"<": 1, ">": -1}.get(text[j], 0)
                    j += 1
                    if d == 0:
                        break
                self.tok.append(("id", text[i + 1:j - 1]))
                i = j
            else:
                raise ValueError("%r is no token of DOT" % text[i:i + 20])
        self.tok.append(("end", ""))
        self.nodes, self.edges, self.clusters, self.home, self.p = {}, [], {}, {}, 0
        self.defined = []
        if self.take() != ("kw", "digraph"):
            raise ValueError("no digraph")
        if self.tok[self.p][0] == "id":
            self.p += 1
        self.block(())
        if self.tok[self.p][0] != "end":
            raise ValueError("text after the end")

    def take(self):
        self.p += 1
        return self.tok[self.p - 1]

    def op(self, x):
        if self.tok[self.p] == ("op", x):
            self.p += 1
            return True
        return False

    def need(self, kind, x=None):
        t = self.take()
        if t[0] != kind or x is not None and t[1] != x:
            raise ValueError("%r where %s is needed" % (t[1], x or kind))
        return t[1]

    def attrs(self):
        a = {}
        while self.op("["):
            while not self.op("]"):
                k = self.need("id")
                self.need("op", "=")
                a[k] = self.need("id")
                self.op(",") or self.op(";")
        return a

    def block(self, path):
        self.need("op", "{")
        while not self.op("}"):
            if self.op(";"):
                continue
            k, x = self.take()
            if (k, x) == ("kw", "subgraph"):
                name = self.need("id")
                if path + (name,) in self.clusters:
                    raise ValueError("two clusters %s" % name)
                self.clusters[path + (name,)] = {}
                self.block(path + (name,))
            elif k == "kw" and x in ("node", "edge", "graph"):
                self.attrs() if self.tok[self.p] == ("op", "[") else self.need("op", "[")
            elif k != "id":
                raise ValueError("%r where a statement is needed" % x)
            elif self.op("="):
                v = self.need("id")
                if path:
                    self.clusters[path][x] = v
            elif self.op("->"):
                y = self.need("id")
                self.edges.append((x, y, self.attrs()))
                for z in (x, y):
                    self.nodes.setdefault(z, {})
            else:
                a = self.attrs()
                if x in self.defined and (a != self.nodes[x] or path != self.home[x]):
                    raise ValueError("two vertices %s" % x)
                if x not in self.defined:
                    self.defined.append(x)
                self.nodes[x] = a
                self.home[x] = path


# ------------------------------------------------------------------ the tree
def tree_specs():
    """(text, vertices, edges (from, to, colour, label))"""
    def make(nodes, sets, extra=""):
        """nodes: [(name, [(child, type as written)], [(attribute, type as written)])]; sets: [(name, expression, members, attributes)]"""
        names = [n for n, _, _ in nodes] + [s[0] for s in sets]
        real = {n.lower(): n for n in names}
        t = ["start phase Main { actions { pass p; } }"] + ([extra] if extra else [])
        es = []
        for i, (n, ch, at) in enumerate(nodes):
            parts = (["children { %s }" % ", ".join("%s %s" % (ty, c) for c, ty in ch)] if ch else []) + (["attributes { %s }" % ", ".join("%s %s" % (ty, a) for a, ty in at)] if at else [])
            t.append("%snode %s { %s }" % ("root " * (i == 0), n, ", ".join(parts)))
            es += [(n, real[ty.lower()], None, c) for c, ty in ch]
            es += [(n, real[ty.lower()], "red", a) for a, ty in at if ty.lower() in real]
        for s, e, ms, at in sets:
            t.append("nodeset %s { nodes = %s%s }" % (s, e, ", attributes { %s }" % ", ".join("%s %s" % (ty, a) for a, ty in at) if at else ""))
            es += [(s, real[m.lower()], "blue", None) for m in ms]
            for n, _, own in nodes:
                if n.lower() in [m.lower() for m in ms]:
                    es += [(n, real[ty.lower()], "red", a) for a, ty in at if ty.lower() in real and a not in [x for x, _ in own]]
        return ";\n".join(t) + ";\n", names, es
    refs = ["Alpha", "Beta", "Some"]
    kids = [[]] + [[("c", a)] for a in refs] + [[("c", a), ("d", b)] for a in refs for b in refs]
    attrs = [[]] + [[("u", a)] for a in refs + ["int", "Mode"]] + [[("u", a), ("v", b)] for a in refs + ["string"] for b in refs + ["user thing"]]
    exprs = [("{Alpha}", ["Alpha"]), ("{Alpha, Beta}", ["Alpha", "Beta"]), ("{Beta} | {Alpha}", ["Alpha", "Beta"]), ("{Alpha, Beta} - {Alpha}", ["Beta"]), ("{Beta} & {Alpha}", []), ("{Alpha, Beta} & {Beta}", ["Beta"])]
    enum = "enum Mode { prefix = M, values { on, off } }"
    for ch in kids:
        for at in attrs:
            yield make([("Alpha", ch, at), ("Beta", [("e", "Some")], [])], [("Some", "{Alpha, Beta}", ["Alpha", "Beta"], [])], enum)
            yield make([("Alpha", [("e", "Beta")], []), ("Beta", ch, at)], [("Some", "{Beta}", ["Beta"], [])], enum)
    for e, ms in exprs:
        for at in [[]] if "-" in e or "&" in e else ([], [("w", "Alpha")], [("w", "int"), ("x", "Some")]):
            yield make([("Alpha", [("c", "Some")], []), ("Beta", [], [])], [("Some", e, ms, at)])
            yield make([("Alpha", [("c", "Some"), ("d", "More")], []), ("Beta", [], [])], [("Some", e, ms, []), ("More", "Some | {Beta}", sorted(set(ms + ["Beta"])), at)])
    # letter case of references
    for a, b, s in itertools.product(("Alpha", "alpha", "ALPHA"), ("Beta", "beta", "bETA"), ("Some", "some", "sOmE")):
        yield make([("Alpha", [("c", a), ("d", b)], [("u", a), ("v", s)]), ("Beta", [("e", s)], [("u", b)])], [("Some", "{%s, %s}" % (a, b), ["Alpha", "Beta"], []), ("More", s, ["Alpha", "Beta"], [])])
    # names with a meaning in the language of the diagram, and alike ones
    for x in ("Graph", "Digraph", "Subgraph", "Edge", "Strict", "Ast", "G", "color", "label", "a_b", "N1"):
        yield make([("Root", [("label", x), ("color", "Some")], [("graph", x)]), (x, [(x.lower(), x)], [])], [("Some", "{%s}" % x, [x], [])])
        yield make([("Root", [("c", x)], [("d", x)]), ("Other", [], [])], [(x, "{Other, Root}", ["Other", "Root"], [])])


def show(es):
    return ", ".join(sorted("%s -> %s %s" % (a, b, " ".join(str(x) for x in r if x)) for a, b, *r in es))


# ------------------------------------------------------------------ attribute dependencies
def families():
    yield chain1(2)
    yield chain2(quick=True)
    yield siblings((True, True), THOROUGH)
    yield twins(THOROUGH)
    yield setvisits(False)
    yield setring()
    yield setmix()
    yield nested()
    yield bare()
    yield wide()
    yield named()
    for m in (1, 2, 3):
        yield ring(m)


def named():
    """names that could be taken for one another"""
    for t, kid in (("Expr", "expr"), ("Graph", "edge"), ("a", "a_"), ("a", "a__b"), ("S_1", "s_1"), ("a_1", "ss")):
        for other in ("S", "G", "a__b"):
            for x, y in (("i", "s"), ("b__i", "i"), ("strict", "graph")):
                for d in ([], [(kid, y)], [("this", x)], [(kid, y), ("this", x)]):
                    yield Gram([N("Root", [("r", t, True)], [("out", "s")]), N(t, [(kid, t, False), (kid + "2", other, False)], []), N("L")],
                               {other: ([t, "L"], [(x, "i"), (y, "s")])},
                               {("Root", "this", "out"): [("r", y)], ("Root", "r", x): [], (t, "this", y): d, (t, kid, x): [("this", x)], (t, kid + "2", x): [], ("L", "this", y): [("this", x)]}, label="names %s %s %s %s %s" % (t, kid, other, x, d))


def label(p):
    return "%s%d" % ("S" if p % 2 else "I", p // 2)


def expected(g, ind, parts):
    """the productions: sorted [(name, occurrences, solid edges, dotted edges)]"""
    out = []
    for k, (occ, es) in g.graphs().items():
        show = {w: (t, None if w in ("this", "set", "node") else w) for w, t in occ.items()}
        at = {w: [a for a, kind in g.attrs(t).items() if kind != "c"] for w, t in occ.items()}
        if ":" in k:        # a set and one of its members: the attributes of the set
            at["node"] = at["set"]
        out.append((k.split(":")[0],
                    sorted((str(show[w]), sorted((a, label(parts[occ[w]][a]) if parts else "") for a in at[w])) for w in occ if at[w]),
                    sorted((str(show[w]), a, str(show[v]), b) for (w, a), (v, b) in es),
                    sorted((str(show[w]), a, str(show[w]), b) for w in occ for a in at[w] for b in at[w]
                           if ((w, a), (w, b)) not in es and ((occ[w], a, b) in ind if parts else ((w, a), (w, b)) in close(es)))))
    return sorted(out)


def drawn(d):
    prods = {}
    subs = {}
    for path, a in d.clusters.items():
        lab = a.get("label", "")
        if len(path) == 1:
            m = re.fullmatch(r"Production of <B>(.*)</B>", lab)
            prods[path[0]] = (m.group(1) if m else lab, {}, [], [])
        else:
            m = re.fullmatch(r"<B>(.*)</B>(?: (.*))?", lab)
            subs[path] = str((m.group(1), m.group(2)) if m else lab)
            prods[path[0]][1].setdefault(subs[path], [])
    names = {}
    for v in d.defined:
        path = d.home[v]
        m = re.fullmatch(r"(\w+)(?: <I>(.*?)<SUB>(\d*)</SUB></I>)?", d.nodes[v].get("label", "").replace("<I><SUB>", "<I>NaN<SUB>").replace("<SUB>NaN", "<SUB>"))
        if not m or len(path) != 2:
            raise ValueError("vertex %s is labelled %r in %s" % (v, d.nodes[v].get("label"), path))
        names[v] = (path, m.group(1))
        prods[path[0]][1][subs[path]].append((m.group(1), (m.group(2) or "") + (m.group(3) or "")))
    for x, y, a in d.edges:
        if x not in names or y not in names:
            raise ValueError("edge %s -> %s leads to no attribute" % (x, y))
        (p, u), (q, v) = names[x], names[y]
        if p[0] != q[0]:
            raise ValueError("edge between productions")
        prods[p[0]][3 if a.get("style") == "dotted" else 2].append((subs[p], u, subs[q], v))
    return [(n, sorted((s, sorted(x)) for s, x in o.items()), sorted(e), sorted(f)) for n, o, e, f in prods.values()]


def compare(g, d, ind, parts):
    """None or the difference"""
    want, got = expected(g, ind, parts), drawn(d)
    names = collections.Counter(w[0] for w in want)
    for i, x in enumerate(got):
        m = re.fullmatch(r"(.*?)[^A-Za-z0-9]+\d+", x[0])
        if x[0] not in names and m and names.get(m.group(1), 0) > 1:
            got[i] = (m.group(1),) + x[1:]
    got.sort()
    for w, x in itertools.zip_longest(want, got):
        if w != x:
            return "production %s, expected %s" % (x, w)


def main():
    c = Check("C29")
    c.build()
    def tree(job):
        text, names, es = job
        gen = generate(c, text)
        try:
            if not gen.ok:
                c.violation("tree", "the specification is rejected: " + gen.r.text[-300:], text)
                return
            d = Dot(open(os.path.join(gen.dir, "gen", "ast.dot")).read())
            got = [(a, b, x.get("color"), x.get("label")) for a, b, x in d.edges]
            if sorted(d.nodes) != sorted(names) or sorted(d.defined) != sorted(names):
                c.violation("tree", "vertices of ast.dot: %s, expected %s" % (sorted(d.nodes), sorted(names)), text)
            elif collections.Counter(got) != collections.Counter(es):
                c.violation("tree", "edges of ast.dot: %s, expected %s" % (show(got), show(es)), text)
            c.add(1, len(d.nodes) + len(d.edges), 1)
            if len(es) == 6:
                c.sample({"specification": text, "edges": show(got)}, 2)
        except (ValueError, OSError) as e:
            c.violation("tree", "ast.dot: %s" % e, text)
        finally:
            shutil.rmtree(gen.dir, ignore_errors=True)
    pmap(tree, list(tree_specs()))
    count = collections.Counter()
    def grammar(g):
        verdict, parts, ind = g.analyse(full=True)
        if verdict in ("additional", "cyclic"):
            return
        text = g.render()
        gen = generate(c, text, args=["--ag-scheduler-max-iter", "1000000"])
        try:
            if not gen.ok and verdict == "ordered":
                c.violation(g.label, "rejected: " + gen.r.text[-300:], text)
                return
            for f, i, p in [("pre_induce.dot", set(), None)] + ([("partitioned.dot", ind, parts)] if parts else []):
                d = Dot(open(os.path.join(gen.dir, "gen", "ag_dot", f)).read())
                r = compare(g, d, i, p)
                if r:
                    c.violation(g.label, "%s: %s" % (f, r), text)
                c.add(1, len(d.nodes) + len(d.edges), 1)
            count[verdict] += 1
            if count[verdict] in (50, 500):
                c.sample({"grammar": g.label, "drawn": [str(x)[:400] for x in drawn(d)[:3]]}, 5)
        except (ValueError, OSError) as e:
            c.violation(g.label, "%s: %s" % (f, e), text)
        finally:
            shutil.rmtree(gen.dir, ignore_errors=True)
    pmap(grammar, [g for f in families() for g in f])
    c.assumptions = ["ast.dot: %d specifications of two node types and one or two sets: all child lists of up to two, all pairs of attribute types, set expressions, letter cases of the references, names that are keywords of DOT" % len(list(tree_specs())),
                     "ag_dot: %d ordered and %d unordered grammars; the dependencies drawn between attributes of one node are those the model induces, the numbers those of its partitions; grammars with circular dependencies are rejected, their drawings are not judged" % (count["ordered"], count["unordered"]),
                     "what is drawn is read by an own reader of the DOT language; how it is laid out, the order of statements and the names of vertices of ag_dot are free"]
    c.finish()


if __name__ == "__main__":
    main()
