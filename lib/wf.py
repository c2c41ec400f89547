"""Model of well-formed specifications: definitions with name and reference slots, the verdict of the
language's rules on them, rendering, and the enumeration of slot assignments."""
import itertools
from ccn import *


class Slot:
    """One occurrence of an identifier. kind: name, uid, prefix, value, field, func, gate or ref:<target kinds>."""
    def __init__(self, kind, text, label, group=None):
        self.kind, self.text, self.label, self.group = kind, text, label, group


TARGETS = {"action": ("phase", "traversal", "pass"), "child": ("node", "nodeset"),
           "type": ("node", "nodeset", "enum"), "literal": ("node",), "set": ("nodeset",)}
UID_RESERVED = "TRAV TRV CCN PASS CPY CHK DEL EVAL AST".split()
PREFIX_RESERVED = "NT NS TRAV PASS CCN".split()
C_KEYWORDS = "auto break case char const continue default do double else enum extern float for goto if inline int long register restrict return short signed sizeof static struct switch typedef union unsigned void volatile while".split()
KEYWORDS = "args attributes children constructor cycle enum equations inherited mandatory node nodeset nodes pass passes phase phases actions prefix subphases synthesized this to traversal travdata values info func root start double float int uint int8 int16 int32 int64 uint8 uint16 uint32 uint64 string bool lifetime disallowed optional allowed false true gate user uid NULL".split()

PRIMITIVE = "bool string int float double uint8 uint16 uint32 uint64 int8 int16 int32 int64".split()


def plain(t):
    """Without the parts between the marks."""
    out, depth = [], 0
    for p in t:
        if isinstance(p, str):
            r = ""
            for ch in p:
                if ch == "<":
                    depth += 1
                elif ch == ">" and depth:
                    depth -= 1
                elif not depth:
                    r += ch
            p = r
        elif depth:
            continue
        out.append(p)
    return out


class Base:
    """A well-formed specification. self.slots holds every identifier; refs point to a definition's slot
    (they follow a renaming of it) unless they are assigned themselves."""
    def __init__(self, rich=False):
        """rich: with attribute equations and lifetimes, whose references are only varied in letter case."""
        self.rich = rich
        self.slots, self.top = [], []
        self.build()

    def s(self, kind, text, label, group=None):
        x = Slot(kind, text, label, group)
        self.slots.append(x)
        return x

    def build(self):
        s = self.s
        N = {}
        def name(kind, n):
            N[n] = s("name", n, "name of %s %s" % (kind, n))
            N[n].defkind = kind
            return N[n]
        def uid(n, u):
            U[n] = s("uid", u, "uid of %s" % n)
            return U[n]
        def ref(what, n, where):
            x = s("ref", None, "%s in %s" % (what, where))
            x.want, x.target = TARGETS[what], N[n]
            return x
        for k, n in (("phase", "Main"), ("phase", "Second"), ("cycle", "Loop"), ("traversal", "Walk"), ("traversal", "Roam"), ("pass", "Load"),
                     ("pass", "inPass"), ("traversal", "InTrav"), ("phase", "InPhase"), ("pass", "deep"), ("node", "Prog"), ("node", "Leaf"), ("node", "Pair"),
                     ("nodeset", "Both"), ("nodeset", "Any"), ("enum", "Kind"), ("enum", "Mode")):
            name(k, n)
            if k == "cycle":
                N[n].defkind = "phase"
        def fref(what, x, where):          # a reference to a field, action path element or uid: only its letter case is varied
            y = s("fref", None, "%s in %s" % (what, where))
            y.target = x
            return y
        F, U = {}, {}
        def f(g, n):
            F[g, n] = s("field", n, "name %s in %s" % (n, g), g)
            return F[g, n]
        T = self.top
        the_sum = f("Any", "sum")
        SUM = lambda where: fref("attribute", the_sum, where)
        T.append(["start phase ", N["Main"], " { uid = ", uid("Main", "MA"), ", actions { ", ref("action", "Second", "Main"), "; ", ref("action", "Loop", "Main"), "; ",
                  ref("action", "Walk", "Main"), "; ", ref("action", "Load", "Main"), "; pass ", N["inPass"], "; traversal ", N["InTrav"], " { uid = ", uid("InTrav", "IT"),
                  ", nodes = {", ref("literal", "Leaf", "InTrav"), "} }; } }"])
        T.append(["phase ", N["Second"], " { uid = ", uid("Second", "SE"), ", gate = ", s("gate", "mayRun", "gate of Second"), ", actions { phase ", N["InPhase"],
                  " { uid = ", uid("InPhase", "IP"), ", actions { pass ", N["deep"], " { uid = ", uid("deep", "DE"), ", func = ", s("func", "doDeep", "function of deep"), " }; } }; } }"])
        T.append(["cycle ", N["Loop"], " { uid = ", uid("Loop", "LO"), ", actions { ", ref("action", "Roam", "Loop"), "; } }"])
        T.append(["traversal ", N["Walk"], " { uid = ", uid("Walk", "WA"), ", nodes = ", ref("set", "Any", "Walk"), " | {", ref("literal", "Prog", "Walk"), "}, travdata { ",
                  ref("type", "Pair", "travdata of Walk"), " ", f("Walk", "here"), ", ", ref("type", "Kind", "travdata of Walk"), " ", f("Walk", "sort"), ", user void_ptr ", f("Walk", "own"), ", int ", f("Walk", "num"), " } }"])
        T.append(["traversal ", N["Roam"], " { uid = ", uid("Roam", "RO"), " }"])
        T.append(["pass ", N["Load"], " { uid = ", uid("Load", "LD"), ", func = ", s("func", "doLoad", "function of Load"), " }"])
        T.append(["root node ", N["Prog"], " { children { ", ref("child", "Any", "Prog"), " ", f("Prog", "body"), "< { mandatory [", fref("lifetime begin", U["Second"], "Prog"), " -~ ", fref("lifetime end", U["Loop"], "Prog"), ".", fref("lifetime end", U["Roam"], "Prog"), "] }>, ", ref("child", "Leaf", "Prog"), " ", f("Prog", "tail"), " }, attributes { ",
                  ref("type", "Mode", "attribute of Prog"), " ", f("Prog", "how"), ", ", ref("type", "Both", "attribute of Prog"), " ", f("Prog", "last"), ", string ", f("Prog", "label"), "<, int ", f("Prog", "total"), " { synthesized }> }<, equations { this.", fref("equation", F["Prog", "total"], "Prog"),
                  " = { args = { ", fref("child", F["Prog", "body"], "equation of Prog"), ".", SUM("equation of Prog"), ", ", fref("child", F["Prog", "tail"], "equation of Prog"), ".", SUM("equation of Prog"), " } } }> }"])
        T.append(["node ", N["Leaf"], " { attributes { int ", f("Leaf", "val"), ", bool ", f("Leaf", "flag"), " }<, equations { this.", SUM("Leaf"), " = { args = { this.", fref("argument", F["Leaf", "val"], "Leaf"), " } } }, lifetime { disallowed (-~ ", fref("lifetime of node", U["InPhase"], "Leaf"), ".", fref("lifetime of node", U["deep"], "Leaf"), ") }> }"])
        T.append(["node ", N["Pair"], " { children { ", ref("child", "Pair", "Pair"), " ", f("Pair", "next"), " }, attributes { ", ref("type", "Leaf", "attribute of Pair"), " ", f("Pair", "link"), " }<, equations { this.", SUM("Pair"), " = { args = { ", fref("child", F["Pair", "next"], "equation of Pair"), ".", SUM("argument of Pair"), " } } }> }"])
        T.append(["nodeset ", N["Both"], " = {", ref("literal", "Leaf", "Both"), ", ", ref("literal", "Pair", "Both"), "}"])
        both = "Any"
        T.append(["nodeset ", N["Any"], " { nodes = {", ref("literal", "Pair", "Any"), "} | ", ref("set", "Both", "Any"), ", attributes { ", ref("type", "Kind", "attribute of Any"), " ", f("Any", "what"),
                  ", double ", f("Any", "much"), "<, int ", the_sum, " { synthesized }> } }"])
        v = lambda g, n: s("value", n, "value %s of %s" % (n, g), g)
        T.append(["enum ", N["Kind"], " { prefix = ", s("prefix", "KD", "prefix of Kind"), ", values { ", v("Kind", "big"), ", ", v("Kind", "small"), ", ", v("Kind", "odd"), " } }"])
        T.append(["enum ", N["Mode"], " { prefix = ", s("prefix", "MO", "prefix of Mode"), ", values { ", v("Mode", "big"), ", ", v("Mode", "fast"), " } }"])
        if not self.rich:
            self.top = [plain(t) for t in T]
            used = [p for t in self.top for p in t if not isinstance(p, str)]
            self.slots = [x for x in self.slots if x in used]
        self.names = [x for x in self.slots if x.kind == "name"]
        for i, x in enumerate(self.slots):
            x.i = i

    def text(self, x, asg):
        if x.i in asg:
            return asg[x.i]
        return self.text(x.target, asg) if x.kind in ("ref", "fref") else x.text

    def render(self, asg, order=None):
        o = [self.top[i] for i in order] if order else self.top
        fix = lambda p: p.replace("<", "").replace(">", "").replace("~", ">")
        return ";\n".join("".join(fix(p) if isinstance(p, str) else self.text(p, asg) for p in t) for t in o) + ";\n"

    def verdict(self, asg):
        """(True, reason) accepted, (False, reason) rejected, (None, reason): not decided by the language's rules."""
        t = lambda x: self.text(x, asg)
        for x in self.slots:
            w = t(x)
            if x.kind == "fref" and w.lower() != t(x.target).lower() and w not in KEYWORDS + C_KEYWORDS:
                return None, "not decided here"
            if x.kind == "ref" and x.want == TARGETS["type"] and w in PRIMITIVE:
                continue
            if x.kind == "fref" and w == "this":
                return None, "not decided here"
            if x.kind != "value" and (w in KEYWORDS or w in C_KEYWORDS):
                return False, "keyword %s as %s" % (w, x.label)
            if x.kind == "value" and w == "NULL":
                return None, ""
        seen = {}
        for x in self.slots:
            if x.kind in ("name", "uid"):
                k = t(x).lower()
                if k in seen:
                    return False, "%s equals %s" % (x.label, seen[k].label)
                seen[k] = x
        for kind in ("prefix", "field", "value", "func"):
            s = {}
            for x in self.slots:
                if x.kind == kind:
                    g = x.group
                    k = (g, t(x).lower())
                    if k in s:
                        if kind == "func" and t(x) != t(s[k]):
                            return None, "functions that differ in case"
                        return False, "%s equals %s" % (x.label, s[k].label)
                    s[k] = x
        # attributes of a nodeset are attributes of its members
        for x in self.slots:
            if x.kind == "field" and x.group in ("Leaf", "Pair", "Prog"):
                for y in self.slots:
                    if y.kind == "field" and y.group == "Any" and t(x).lower() == t(y).lower():
                        return None, "repeats an attribute of a nodeset"
        for x in self.slots:
            u = t(x).upper()
            if u == "NULL" and (x.kind == "uid" or x.kind == "name" and x.defkind != "enum"):
                return False, "%s is reserved" % x.label
            if x.kind == "field" and x.group != "Walk" and t(x).lower() in C_KEYWORDS + ["asm", "typeof"]:
                return False, "%s is a C keyword in lower case" % x.label
            if (x.kind == "name" and x.defkind == "enum" or x.kind == "field" and x.group == "Walk") and t(x) in ("asm", "typeof"):
                return False, "%s is a C keyword" % x.label
            if x.kind == "func" and t(x) == t([y for y in self.names if y.text == "inPass"][0]):
                return False, "%s equals the function of inPass" % x.label
            if x.kind == "uid" and u in UID_RESERVED:
                return False, "%s is reserved" % x.label
            if x.kind == "prefix" and u in PREFIX_RESERVED:
                return False, "%s is reserved" % x.label
            if x.kind == "name" and x.defkind == "node" and u == "NODE":
                return False, "a node is called node"
        defs = {}
        for x in self.names:
            defs[t(x).lower()] = x
        for x in self.slots:
            if x.kind == "ref" and not (x.want == TARGETS["type"] and t(x) in PRIMITIVE):
                d = defs.get(t(x).lower())
                if d is None:
                    return False, "%s refers to %s, which is not defined" % (x.label, t(x))
                if d.defkind not in x.want:
                    return False, "%s refers to %s %s" % (x.label, d.defkind, t(x))
        # phases and sets that contain themselves
        def graph(kinds, owner):
            g = {}
            for x in self.slots:
                if x.kind == "ref" and x.label.startswith(owner + " in "):
                    g.setdefault(x.label.split(" in ")[1], set()).add(defs[t(x).lower()].text)
            return g
        g = graph(None, "action")
        g.setdefault("Second", set()).add("InPhase")
        gs = {k: v for k, v in graph(None, "set").items() if k in ("Any", "Both")}
        for gg in (g, gs):
            for a in gg:
                todo, vis = list(gg[a]), set()
                while todo:
                    b = todo.pop()
                    if b == a:
                        return False, "%s contains itself" % a
                    if b not in vis:
                        vis.add(b)
                        todo += gg.get(b, ())
        return True, ""

    def domain(self, x):
        """The identifiers worth assigning to slot x."""
        if self.rich and x.kind in ("ref", "fref"):
            v = self.text(x, {})
            return sorted({v.lower(), v.upper(), v.swapcase(), v.capitalize()})
        names = [y.text for y in self.slots if y.kind in ("name", "uid", "prefix", "func", "gate", "value", "field")]
        out = []
        for n in names + ["Fresh1"]:
            for v in (n, n.upper(), n.swapcase()):
                if v not in out:
                    out.append(v)
        if x.kind in ("uid", "prefix", "name"):
            for r in UID_RESERVED + PREFIX_RESERVED + ["NODE"]:
                for v in (r, r.lower(), r.capitalize()):
                    if v not in out:
                        out.append(v)
        return out


def part_specs():
    """Every combination of the optional parts of every definition."""
    tail = "root node Root { %s }; node Aa { }; nodeset Ss = {Aa}; enum Ee { prefix = EP, values { v1, v2 } };\n"
    start = "start phase Main { actions { %s } };\n"
    work = []
    def opt(fixed, *ps):
        for bits in itertools.product([0, 1], repeat=len(ps)):
            yield ", ".join(p for p, on in zip(ps, bits) if on or p in fixed)
    seen = set()
    def w(label, t):
        if t not in seen:
            seen.add(t)
            work.append((label, t))
    for kind in ("phase", "cycle"):
        for body in opt(["actions { pass pq; }"], 'info = "text"', "uid = UU", "gate = gg", "actions { pass pq; }"):
            w("%s { %s }" % (kind, body), start % "Zz;" + tail % "" + "%s Zz { %s };" % (kind, body))
            w("inline %s { %s }" % (kind, body), start % ("%s Zz { %s };" % (kind, body)) + tail % "")
            w("start %s { %s }" % (kind, body), "start %s Zz { %s };" % (kind, body) + tail % "")
    for body in opt([], 'info = "text"', "uid = UU", "func = ff"):
        if body and body != 'info = "text"':
            w("pass { %s }" % body, start % "Zz;" + tail % "" + "pass Zz { %s };" % body)
            w("inline pass { %s }" % body, start % ("pass Zz { %s };" % body) + tail % "")
    for t in ("pass Zz", "pass Zz = ff"):
        w(t, start % "Zz;" + tail % "" + t)
        w("inline " + t, start % (t + ";") + tail % "")
    datas = ["travdata { int a }", "travdata { int a, Aa b, Ss c, Ee d, user T e, string f }"]
    for nodes in ("nodes = {Aa}", "nodes = Ss", "nodes = Ss | {Root}"):
        for data in datas:
            for body in opt(["uid = UU"], 'info = "text"', "uid = UU", nodes, data):
                w("traversal { %s }" % body, start % "Zz;" + tail % "" + "traversal Zz { %s };" % body)
                w("inline traversal { %s }" % body, start % ("traversal Zz { %s };" % body) + tail % "")
    for body in opt(["prefix = QQ", "values { a }"], 'info = "text"', "prefix = QQ", "values { a }"):
        w("enum { %s }" % body, start % "pass Pp;" + tail % "" + "enum Zz { %s };" % body)
    for ex in ("{Aa}", "Ss", "{Aa} | Ss", "({Aa} | Ss)", "(Ss & {Aa}) | {Root}"):
        for body in opt(["nodes = " + ex], 'info = "text"', "nodes = " + ex, "attributes { int a }"):
            if "&" in ex and "attributes" in body:
                continue
            w("nodeset { %s }" % body, start % "pass Pp;" + tail % "" + "nodeset Zz { %s };" % body)
        w("nodeset = %s" % ex, start % "pass Pp;" + tail % "" + "nodeset Zz = %s;" % ex)
    for body in opt([], "children { Aa c }", "attributes { int a { synthesized } }", "equations { this.a = { args = { } } }", "lifetime { disallowed (-> Pp] }"):
        if ("synthesized" in body) == ("equations" in body):
            for r in ("", "root "):
                t = start % "pass Pp;" + tail % "" + "%snode Zz { %s };" % (r, body)
                w("%snode { %s }" % (r, body), t.replace("root node Root", "node Root") if r else t)
    for o in ("", " { }", " { constructor }", " { mandatory }", " { constructor, mandatory }", " { optional (-> Pp] }", " { constructor, allowed [Pp ->), mandatory [Pp -> Pp] }"):
        for ty in ("Aa", "Ss", "Root"):
            w("child %s%s" % (ty, o), start % "pass Pp;" + tail % ("children { %s c%s, Aa d }" % (ty, o)))
            w("attribute %s%s" % (ty, o), start % "pass Pp;" + tail % ("attributes { %s c%s, Aa d }" % (ty, o)))
    for ty in "bool string int float double uint8 uint16 uint32 uint64 int8 int16 int32 int64 Ee Aa Ss".split() + ["user Tt"]:
        for o in ("", " { }", " { constructor }"):
            w("attribute %s%s" % (ty, o), start % "pass Pp;" + tail % ("attributes { %s c%s }" % (ty, o)))
        for child in ("Xx x", "Xx x { mandatory }", "Yy x", "Yy x { mandatory }"):
            t = start % "pass Pp;" + tail % ("children { %s }, attributes { %s v { synthesized }, %s w }, equations { x.i = { args = { this.w } }, this.v = { args = { x.s } } }" % (child, ty, ty))
            own = "attributes { %s i { inherited }, %s s { synthesized } }" % (ty, ty)
            rule = "equations { this.s = { args = { this.i } } }"
            if child[0] == "X":
                t += "node Xx { %s, %s };" % (own, rule)
            else:
                t += "nodeset Yy { nodes = {Xx, Zz}, %s }; node Xx { %s }; node Zz { %s };" % (own, rule, rule)
            w("evaluated attribute %s of child %s" % (ty, child), t)
        w("synthesized attribute %s" % ty, start % "pass Pp;" + tail % ("attributes { %s c { synthesized } }, equations { this.c = { args = { } } }" % ty))
    for args in ("{ }", "{ args = { } }", "{ args = { this.k } }", "{ args = { this.k, x.i } }"):
        w("equation %s" % args, start % "pass Pp;" + tail % ("children { Xx x }, attributes { int k, int a { synthesized } }, equations { this.a = %s }" % args) + "node Xx { attributes { int i } };")
    return work
