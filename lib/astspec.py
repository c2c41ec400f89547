"""Specifications of ASTs: model, rendering, glue for the C harnesses, enumeration."""
import itertools
from ccn import *


class Child:
    def __init__(self, type, name, ctor=False, opts=()):
        self.type, self.name, self.ctor, self.opts = type, name, ctor, list(opts)

    def render(self):
        o = (["constructor"] if self.ctor else []) + self.opts
        return "%s %s%s" % (self.type, self.name, " { %s }" % ", ".join(o) if o else "")


class Attr:
    def __init__(self, type, name, ctor=False, opts=()):
        self.type, self.name, self.ctor, self.opts = type, name, ctor, list(opts)

    render = Child.render


class Node:
    def __init__(self, name, children=(), attrs=(), root=False, extra=()):
        self.name, self.children, self.attrs, self.root, self.extra = name, list(children), list(attrs), root, list(extra)

    def render(self):
        b = []
        if self.children:
            b.append("children { %s }" % ", ".join(c.render() for c in self.children))
        if self.attrs:
            b.append("attributes { %s }" % ", ".join(a.render() for a in self.attrs))
        return "%snode %s { %s }" % ("root " if self.root else "", self.name, ", ".join(b + self.extra))


class Trav:
    """expr: set expression text or None (all nodes); members: the node names it denotes."""
    def __init__(self, name, uid, expr=None, members=None, data=()):
        self.name, self.uid, self.expr, self.members, self.data = name, uid, expr, members, list(data)

    def render(self):
        b = ["uid = " + self.uid]
        if self.expr is not None:
            b.append("nodes = " + self.expr)
        if self.data:
            b.append("travdata { %s }" % ", ".join("%s %s" % d for d in self.data))
        return "traversal %s { %s }" % (self.name, ", ".join(b))


class Spec:
    def __init__(self, nodes, sets=(), travs=(), extra=(), actions=None):
        """sets: (name, expr text, members); extra: further top level definitions."""
        self.nodes, self.sets, self.travs, self.extra = list(nodes), list(sets), list(travs), list(extra)
        self.actions = actions
        self.setattrs = {}           # set name: its attributes

    def render(self, order=None):
        acts = self.actions if self.actions is not None else "".join("%s; " % t.name for t in self.travs) or "pass ppp; "
        top = ["start phase Main { actions { %s} }" % acts]
        top += [t.render() for t in self.travs] + [n.render() for n in self.nodes]
        top += ["nodeset %s { nodes = %s, attributes { %s } }" % (n, e, ", ".join(a.render() for a in self.setattrs[n])) if n in self.setattrs else
                "nodeset %s = %s" % (n, e) for n, e, _ in self.sets] + list(self.extra)
        if order:
            top = [top[i] for i in order]
        return ";\n".join(top) + ";\n"

    def members(self, tname):
        for n in self.nodes:
            if n.name == tname:
                return [n.name]
        for n, _, m in self.sets:
            if n == tname:
                return list(m)
        raise KeyError(tname)

    def mask(self, names):
        idx = {n.name: i for i, n in enumerate(self.nodes)}
        return sum(1 << idx[m] for m in set(names))

    def glue(self):
        """The spec.h of the harnesses."""
        N = self.nodes
        s = ["#define NTY %d" % len(N), "#define NTV %d" % len(self.travs)]
        s.append("static const int TY_ENUM[] = {%s};" % ", ".join("NT_" + n.name.upper() for n in N))
        s.append("static const char *TY_NAME[] = {%s};" % ", ".join('"%s"' % n.name for n in N))
        s.append("static const int TY_NCH[] = {%s};" % ", ".join(str(len(n.children)) for n in N))
        s.append("static const unsigned TY_MASK[][4] = {%s};" % ", ".join(
            "{%s}" % (", ".join(str(self.mask(self.members(c.type))) for c in n.children) or "0") for n in N))
        s.append("#define ROOTS %du" % sum(1 << i for i, n in enumerate(N) if n.root))
        s.append("#define ANYTYPE %du" % ((1 << len(N)) - 1))
        if self.travs:
            s.append("static const int TV_ENUM[] = {%s};" % ", ".join("TRAV_" + t.uid.upper() for t in self.travs))
            s.append("static const char *TV_NAME[] = {%s};" % ", ".join('"%s"' % t.name for t in self.travs))
            s.append("static const unsigned TV_MASK[] = {%s};" % ", ".join(
                str(self.mask(t.members if t.members is not None else [n.name for n in N])) for t in self.travs))
        s.append("static node_st *mk(int t) { switch (t) {")
        for i, n in enumerate(N):
            args = ["NULL" for c in n.children if c.ctor] + ["0" for a in n.attrs if a.ctor]
            s.append("case %d: return AST%s(%s);" % (i, n.name.lower(), ", ".join(args)))
        s.append("} return NULL; }")
        s.append("static node_st **slot(node_st *n, int i) { switch (NODE_TYPE(n)) {")
        for n in N:
            if n.children:
                s.append("case NT_%s: switch (i) {%s } break;" % (n.name.upper(), " ".join(
                    "case %d: return &%s_%s(n);" % (i, n.name.upper(), c.name.upper()) for i, c in enumerate(n.children))))
        s.append("default: break; } return NULL; }")
        s.append("static void travchild(node_st *n, int i) { switch (NODE_TYPE(n)) {")
        for n in N:
            if n.children:
                s.append("case NT_%s: switch (i) {%s } break;" % (n.name.upper(), " ".join(
                    "case %d: TRAV%s(n); break;" % (i, c.name.lower()) for i, c in enumerate(n.children))))
        s.append("default: break; } }")
        s.append("node_st *H(int tv, node_st *n);")
        for k, t in enumerate(self.travs):
            for n in N:
                if t.members is None or n.name in t.members:
                    s.append("node_st *%s%s(node_st *n) { return H(%d, n); }" % (t.uid.upper(), n.name.lower(), k))
        return "\n".join(s) + "\n"


def build_harness(chk, spec, harness, label=None, user=False, skip_user=(), san=False, extra=(), defs=(), glue=None, wrap=True, variant="rel", text=None, release=False):
    """Generate + compile; returns (gen, exe) or None after reporting a violation/raising."""
    text = text if text is not None else spec.render()
    g = generate(chk, text, variant=variant)
    if not g.ok:
        chk.violation("spec rejected: " + (label or text), "cocogen rc=%d: %s" % (g.rc, g.r.text[-600:]), text)
        return None
    with open(os.path.join(g.dir, "spec.h"), "w") as f:
        f.write(spec.glue() if glue is None else glue)
    ex = ["-I" + g.dir, "-I" + os.path.join(VERIF, "harness")] + list(extra)
    if wrap:
        ex.append("-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free")
    r, exe = compile_project(chk, g, [os.path.join(VERIF, "harness", harness)], user=user, skip_user=skip_user, san=san, extra=ex, defs=defs, release=release)
    if r.rc:
        chk.violation("does not compile: " + (label or text), r.text[:1500], text)
        return None
    return g, exe


def drop(g):
    shutil.rmtree(g.dir, ignore_errors=True)


def run_harness(chk, spec, harness, args, label, timeout=400, **kw):
    """Build and run; harness prints FAIL\\thistory\\twhat or OK\\tstates\\ttransitions. Both in a debug build and in a
    release build of the generated compiler."""
    return all([run_build(chk, spec, harness, args, label + (" (release build)" if release else ""), timeout, release=release, **kw) for release in (False, True)])


def run_build(chk, spec, harness, args, label, timeout=400, **kw):
    b = build_harness(chk, spec, harness, label, **kw)
    if not b:
        return None
    g, exe = b
    r = run([exe] + [str(a) for a in args], cwd=g.dir, timeout=timeout, env=SAN_ENV)
    ok = False
    for l in r.out.splitlines():
        f = l.split("\t")
        if f[0] == "FAIL":
            chk.violation("%s: %s" % (label, f[1]), "%s: %s\n%s" % (f[1], f[2] if len(f) > 2 else "", r.err[-1500:]), {"spec": g.spec, "harness": harness, "args": list(args), "history": f[1]})
        elif f[0] == "SAMPLE":
            chk.sample({"specification": label, "execution": f[1][:300], "events": f[2][:400]})
        elif f[0] == "OK":
            ok = True
            chk.add(int(f[1]), int(f[2]), int(f[3]) if len(f) > 3 else int(f[1]))
    if not ok and "FAIL\t" not in r.out:
        chk.violation("%s: harness ended abnormally" % label, "rc=%s timeout=%s\n%s\n%s" % (r.rc, r.timeout, r.out[-500:], r.err[-1500:]), {"spec": g.spec})
    drop(g)
    return ok
