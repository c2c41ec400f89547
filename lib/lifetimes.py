"""C13: lifetimes. Reference: a lifetime's range over the positions of the actions in the phase structure."""
import itertools, re
from ccn import *
from phases import *


def occurrences(st):
    """[(id, last id of its subtree, phase path by id, names)] in execution order, start phase excluded."""
    text = st.render()
    uids = dict((a.lower(), b) for a, b in re.findall(r'(\w+) \{ (?:info = "[^"]*", )?uid = (\w+)', text))
    out = []
    def size(p):
        return sum(1 + (size(i) if isinstance(i, Phase) else 0) for i in p.items)
    def walk(p, n, path):
        for it in p.items:
            nm = it.name if isinstance(it, Phase) else st.leafname(it)
            names = [nm] + ([uids[nm.lower()]] if nm.lower() in uids else [])
            if isinstance(it, Phase):
                out.append((n, n + size(it), path, names, True))
                n = walk(it, n + 1, path + [n])
            else:
                out.append((n, n, path, names, False))
                n += 1
        return n
    walk(st.root, 2, [])
    return out


def resolve(occ, text):
    """Id of the occurrence a dotted reference denotes: every component the first encounter below the previous."""
    lo, hi, cur = 2, 10 ** 6, None
    for part in text.lower().split("."):
        if cur is not None and not cur[4]:
            return None
        cur = next((o for o in occ if lo <= o[0] <= hi and part in [x.lower() for x in o[3]]), None)
        if cur is None:
            return None
        lo, hi = cur[0] + 1, cur[1]
    return cur


def texts(occ):
    """Every reference of up to three components, in varying letter case."""
    base = sorted({n for o in occ for n in o[3]})
    ph = sorted({n for o in occ if o[4] for n in o[3]})
    out = list(base) + [b.upper() for b in base] + [b.lower() for b in base]
    out += ["%s.%s" % x for x in itertools.product(base, base)]
    out += ["%s.%s.%s" % x for x in itertools.product(ph, ph, base)]
    return list(dict.fromkeys(out))


def viol(kind, occ, b, e, nid):
    """Bits of the ids at which a lifetime is broken if its subject is present (or absent, if required)."""
    m = 0
    for i in range(1, nid + 1):
        inside = True
        if b:
            inside = inside and (i >= b[0][0] if b[1] else i > b[0][1])
        if e:
            inside = inside and (i <= e[0][1] if e[1] else i < e[0][0])
        if inside == (kind in ("disallowed", "mandatory")):
            m |= 1 << i
    return m


def rng(b, e, k):
    bt = ("[" if b[1] else "(") + b[2] if b else ("(" if k % 2 else "")
    et = e[2] + ("]" if e[1] else ")") if e else (")" if k % 3 else "")
    return "%s -> %s" % (bt, et)


class Batch:
    """One specification: a structure and many node types with lifetimes."""
    def __init__(self, st):
        self.st, self.nodes, self.items = st, [], []      # items: (type, member, text, viol, short)

    def spec(self):
        s = self.st.render()
        root = "root node Root { attributes { int v } }"
        assert root in s
        s = s.replace(root, "root node Root { children { Any x }, attributes { int v } };\nnode Leaf { };\nnodeset Any = {%s}" % ", ".join(["Leaf"] + [n[0] for n in self.nodes]))
        return s + "".join(n[1] + ";\n" for n in self.nodes)

    def glue(self):
        q = lambda s: '"%s"' % s
        I = self.items
        s = self.st.glue() + "#include <stdint.h>\n#include <string.h>\n#define NITEM %d\n#define NPHASE %d\n#define HASCYCLE %d\n" % (len(I), len(self.st.phases), any(p.cycle for p in self.st.phases))
        s += "static const char *TYNAME[] = {%s};\nstatic const char *MEMBER[] = {%s};\nstatic const char *TEXT[] = {%s};\n" % (
            ", ".join(q(i[0]) for i in I), ", ".join(q(i[1]) for i in I), ", ".join(q(i[2]) for i in I))
        s += "static const uint64_t VIOL[] = {%s};\nstatic const char SHORT[] = {%s};\n" % (", ".join("%dull" % i[3] for i in I), ", ".join(str(int(i[4])) for i in I))
        # build(item): the safe tree; set(root, item, off)
        bs, ss, done = [], [], {}
        for k, (ty, mem, txt, v, short, kind) in enumerate(I):
            if not mem:
                bs.append("case %d: return NULL;" % k)
                ss.append("case %d: ROOT_X(r) = off ? AST%s() : NULL; break;" % (k, ty.lower()))
            else:
                bs.append("case %d: return b_%s();" % (k, ty))
                done[ty] = [x for x in I if x[0] == ty]
                present = "off" if kind in ("disallowed", "allowed") else "!off"
                ss.append("case %d: %s_%s(ROOT_X(r)) = (%s) ? %s : NULL; break;" % (k, ty.upper(), mem.upper(), present, 'strdup("x")' if mem[0] == "s" else "ASTleaf()"))
        for ty, mems in done.items():
            s += "static node_st *b_%s(void) { node_st *n = AST%s(); %s return n; }\n" % (ty, ty.lower(), " ".join(
                "%s_%s(n) = %s;" % (ty.upper(), m[1].upper(), 'strdup("x")' if m[1][0] == "s" else "ASTleaf()") for m in mems if m[5] in ("mandatory", "optional")))
        s += "static node_st *build(int k) { switch (k) {\n%s\n} return NULL; }\nstatic void set(node_st *r, int k, bool off) { switch (k) {\n%s\n} }\n" % ("\n".join(bs), "\n".join(ss))
        return s

    def add_range(self, ranges, kinds4, occ, nid, label=None):
        """Node types with the given list of (range text, b, e): one lifetime each per kind, or several if more than one is given."""
        k = len(self.nodes)
        lt = lambda kind: ", ".join((kind + " " + r[0]) if r[0] else kind for r in ranges)
        vi = lambda kind: self._or([viol(kind, occ, r[1], r[2], nid) for r in ranges])
        for kind, nm in (("disallowed", "D"), ("allowed", "W")):
            if kind in kinds4:
                ty = "%s%d" % (nm, k)
                self.nodes.append((ty, "node %s { lifetime { %s } }" % (ty, lt(kind))))
                self.items.append((ty, "", lt(kind), vi(kind), kind == "disallowed", kind))
        ty = "E%d" % k
        ch, at = [], []
        for i, kind in enumerate(kinds4):
            ch.append("Any c%d { %s }" % (i, lt(kind)))
            at.append("string s%d { %s }" % (i, lt(kind)))
            at.append("%s l%d { %s }" % ("Any" if k % 2 else "Leaf", i, lt(kind)))
            for m in ("c%d" % i, "s%d" % i, "l%d" % i):
                self.items.append((ty, m, lt(kind), vi(kind), False, kind))
        self.nodes.append((ty, "node %s { children { %s }, attributes { %s } }" % (ty, ", ".join(ch), ", ".join(at))))

    @staticmethod
    def _or(l):
        r = 0
        for x in l:
            r |= x
        return r


KINDS = ["disallowed", "allowed", "mandatory", "optional"]

def batches(st, multi):
    """Batches of at most ~40 ranges that together hold every range over the structure."""
    occ = occurrences(st)
    nid = occ[-1][1]
    nid = max(o[1] for o in occ)
    good = {}
    for t in texts(occ):
        o = resolve(occ, t)
        if o:
            good.setdefault(o[0], (o, []))[1].append(t)
    ctr = {}
    def end(o, inc):
        l = good[o][1]
        ctr[o] = ctr.get(o, 0) + 1
        return (good[o][0], inc, l[ctr[o] % len(l)])
    opts = [None] + [(o, inc) for o in good for inc in (True, False)]
    rs = []
    for n, (b, e) in enumerate(itertools.product(opts, opts)):
        b, e = b and end(*b), e and end(*e)
        rs.append((rng(b, e, n), b, e))
    for o, (oc, l) in good.items():
        for t in l:
            b = (oc, True, t)
            rs.append((rng(b, None, 1), b, None))
            e = (oc, False, t)
            rs.append((rng(None, e, 1), None, e))
    work = [([r], KINDS) for r in rs]
    work.append(([("", None, None)], ["disallowed", "mandatory"]))
    if multi:
        for i, r in enumerate(rs):
            for j in multi:
                work.append(([r, rs[(i * 5 + j) % len(rs)]], KINDS))
            work.append(([r, rs[(i + 3) % len(rs)], rs[(i * 7 + 1) % len(rs)]], KINDS))
    out = []
    for i in range(0, len(work), 40):
        b = Batch(st)
        for ranges, kinds in work[i:i + 40]:
            b.add_range(ranges, kinds, occ, nid)
        out.append(b)
    return out


def rejected(st):
    """Specifications with a lifetime that must be refused."""
    occ = occurrences(st)
    pre = st.render() + "node Leaf { };\n"
    bad = [t for t in texts(occ) + ["nowhere", "Leaf", "Root"] if resolve(occ, t) is None]
    bad += [t + ".nowhere" for t in texts(occ)[:8]]
    for n, t in enumerate(bad):
        r = ["[%s ->)" % t, "(-> %s]" % t][n % 2]
        good = occ[0][3][0]
        for m in (["disallowed %s" % r], ["disallowed (%s ->)" % good, "disallowed %s" % r])[:2 if n % 3 == 0 else 1]:
            yield "target " + t, pre + "node X { lifetime { %s } };\n" % m if n % 4 == 0 else pre + "node X { children { Leaf c { %s } } };\n" % m
    good = occ[-1][3][0]
    for kind in ("mandatory", "optional", "mandatory!"):
        lt = kind[:-1] if kind[-1] == "!" else "%s [%s ->)" % (kind, good)
        yield "node lifetime " + kind, pre + "node X { lifetime { %s } };\n" % lt
        yield "second node lifetime " + kind, pre + "node X { lifetime { disallowed [%s ->), %s } };\n" % (good, lt)
    for t in ["int", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "bool", "float", "double", "EN1", "user ut"]:
        for kind in KINDS:
            yield "lifetime on %s attribute" % t, pre + "enum EN1 { prefix = ep, values { e1, e2 } };\nnode X { attributes { %s a { %s [%s ->) } } };\n" % (t, kind, good)
