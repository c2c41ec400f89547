"""C23: layout, comments and letter case of references do not change the generated compiler."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from wf import *


def tree(g, dots=False):
    o = {}
    root = os.path.join(g.dir, "gen")
    for p, _, fs in os.walk(root):
        for f in fs:
            if f.endswith((".c", ".h")) or dots:
                with open(os.path.join(p, f), "rb") as h:
                    o[os.path.relpath(os.path.join(p, f), root)] = h.read()
    return o


def tokens(text):
    return re.findall(r'"[^"]*"|->|[A-Za-z][A-Za-z0-9_]*|[^\sA-Za-z0-9]', text)


SEPS = [" ", "\n", "\t", "\r\n", "\n\n\n", "// x\n", "//\n", "/**/", "/***/", "/* x */", "/* \" ' */", "/* node Q { } */", "/* a\n * b\n */", "/* // */", "// /* \n", "/*\n\n*/\n", "/* a */ /* b */", "/*/ */", "// \"\n"]


def word(a):
    return a[0].isalnum()


def join(ts, at=None, sep=None, tight=False):
    out = []
    for i, t in enumerate(ts):
        if i == at:
            out.append(sep)
        if i and (not tight or (word(t) and word(ts[i - 1]))):
            if not (i == at and not (word(t) and word(ts[i - 1])) and tight):
                out.append(" ") if i != at else None
        out.append(t)
    if at == len(ts):
        out.append(sep)
    return "".join(out)


# References (marked) of every kind at several places each, to definitions that other definitions share.
REFS = """start phase Main { actions { <Outer>; <Walk>; <Check>; pass Last { uid = LA }; } };
phase Outer { uid = OU, actions { <Inner>; <Walk>; } };
cycle Inner { uid = IN, actions { <Check>; traversal Third { uid = TT, nodes = {<Leaf>, <Twig>} }; } };
traversal Walk { uid = WA, nodes = <Most> - {<Twig>} | {<Prog>}, travdata { <Leaf> a, <Most> b, <Hue> c, int d } };
pass Check { uid = CH };
root node Prog { children { <Most> kid { constructor, mandatory [<Outer>.<Inner> -> <Last>) }, <Twig> tw { disallowed (<Third> -> <Last>] }},
  attributes { <Leaf> link { constructor, mandatory [<Outer>.<Walk> -> <Last>) }, <Most> set, <Hue> hue, int sum { synthesized } },
  equations { this.<sum> = { args = { <kid>.<val>, <tw>.<val>, this.<hue> } }, <kid>.<dep> = { args = { <tw>.<val>, this.<link> } }, <tw>.<dep> = { args = { } } },
  lifetime { disallowed [<Last> -> <Last>) } };
node Leaf { attributes { <Twig> ref { constructor }, <Hue> tone { constructor }, <Most> up { constructor } }, equations { this.<val> = { args = { this.<dep> } } } };
node Twig { children { <Leaf> kid }, attributes { <Leaf> link, string sum }, equations { this.<val> = { args = { <kid>.<val>, this.<dep> } }, this.<more> = { args = { this.<val>, <kid>.<val> } }, <kid>.<dep> = { args = { this.<dep> } } } };
nodeset Most { nodes = {<Leaf>, <Twig>}, attributes { <Twig> ref, <Hue> tone, <Most> up, int dep { inherited }, int val { synthesized } } };
nodeset Only { nodes = {<Twig>}, attributes { int more { synthesized } } };
nodeset Calc = ((<Most> & {<Twig>, <Prog>}) | (<Only> - {<Leaf>})) & <Most>;
enum Hue { prefix = HU, values { red, blue } };
"""


def references(c):
    """each reference, and all references to one name, in every letter case"""
    parts = re.split(r"<(\w+)>", REFS)
    base = "".join(parts)
    g = generate(c, base)
    if not g.ok:
        c.violation("the references", "rejected: " + g.r.text[-500:], base)
        return None, []
    forms = lambda v: sorted(set(map("".join, itertools.product(*[{ch.lower(), ch.upper()} for ch in v]))) if len(v) <= 4 or THOROUGH else {v.lower(), v.upper(), v.swapcase(), v.capitalize(), v[:-1] + v[-1].swapcase(), v[:1] + v[1:].upper()})
    jobs = []
    for i in range(1, len(parts), 2):
        for w in forms(parts[i]):
            jobs.append(("reference %d to %s written %s" % (i // 2, parts[i], w), "".join(parts[:i] + [w] + parts[i + 1:])))
    for n in sorted(set(parts[1::2])):
        for w in forms(n):
            jobs.append(("every reference to %s written %s" % (n, w), "".join(w if i % 2 and p == n else p for i, p in enumerate(parts))))
    for f in (str.lower, str.upper, str.swapcase, str.capitalize):
        jobs.append(("every reference in another letter case (%s)" % f.__name__, "".join(f(p) if i % 2 else p for i, p in enumerate(parts))))
        for r in range(3):
            jobs.append(("every third reference in another letter case (%s)" % f.__name__, "".join(f(p) if i % 2 and i // 2 % 3 == r else p for i, p in enumerate(parts))))
    return g, jobs


def main():
    c = Check("C23")
    c.build()
    b = Base(rich=True)
    info = ['phase I1 { info = "text // no comment", actions { pass I2 { info = "a /* b", uid = IX }; } }', "node Alone { }", "nodeset Grouped = ((Both | {Alone}) & {Prog, Alone, Leaf}) - {Prog}"]
    def text(asg):
        return b.render(asg) + ";\n".join(info) + ";\n"
    base = text({})
    ts = tokens(base)
    g = generate(c, base)
    if not g.ok:
        c.violation("the base", "rejected: " + g.r.text[-500:], base)
        c.finish()
    ref = tree(g)
    c.cov["samples"].append({"tokens of the specification": len(ts), "generated files compared": sorted(ref)[:8]})
    work = []
    for i in range(len(ts) + 1):
        for s in SEPS:
            work.append(("%r before token %d (%s)" % (s, i, ts[i] if i < len(ts) else "end"), join(ts, i, s)))
        if i < len(ts) and i and not (word(ts[i]) and word(ts[i - 1])):
            work.append(("nothing before token %d" % i, join(ts, i, "")))
    if THOROUGH:
        for i, j in itertools.product(range(0, len(ts) + 1, 3), repeat=2):
            if i < j:
                for s, u in (("/* x */", "/* y\n*/"), ("// a\n", "/**/"), ("/* */", "// \n"), ("\n", "/* z */")):
                    work.append(("%r before token %d and %r before token %d" % (s, i, u, j), join(ts[:j], i, s) + u + join(ts[j:])))
    for s in SEPS:
        work.append(("%r between all tokens" % s, s.join(ts)))
    work.append(("no blanks", join(ts, tight=True)))
    work.append(("no newline at the end", base.rstrip("\n")))
    work.append(("no semicolon at the end", base.rstrip("\n").rstrip(";")))
    work.append(("comment without newline at the end", base + "// end"))
    work.append(("block comment at the end", base + "/* end */"))
    for n in (1, 1023, 1024, 1025, 5000, 20000):
        work.append(("comment of %d characters" % n, "/*" + "x" * n + "*/" + base + "//" + "y" * n))
        work.append(("%d blank lines" % n, "\n" * n + base))
        work.append(("line of %d blanks" % n, " " * n + join(ts) + " " * n))
    def same(w, ref=ref):
        label, t = w
        g = generate(c, t)
        if g.crashed or not g.ok:
            c.violation(label, "rc=%s %s" % (g.rc, g.r.text[-400:]), t)
        else:
            o = tree(g)
            d = [f for f in sorted(set(o) | set(ref)) if o.get(f) != ref.get(f)]
            if d:
                c.violation(label, "other code is generated in %s" % d[:4], t)
        c.add(1, 1, 1)
        shutil.rmtree(g.dir, ignore_errors=True)
    pmap(same, work)
    cases = []
    for x in b.slots:
        if x.kind in ("ref", "fref"):
            v = b.text(x, {})
            forms = set(map("".join, itertools.product(*[{ch.lower(), ch.upper()} for ch in v]))) if len(v) <= (6 if THOROUGH else 3) else {v.lower(), v.upper(), v.swapcase(), v.capitalize(), v[:-1] + v[-1].swapcase()}
            for w in sorted(forms):
                cases.append(("%s written %s" % (x.label, w), text({x.i: w})))
    for f in (str.lower, str.upper, str.swapcase):
        cases.append(("all references in another letter case (%s)" % f.__name__, text({x.i: f(b.text(x, {})) for x in b.slots if x.kind in ("ref", "fref")})))
    pmap(same, cases)
    g, jobs = references(c)
    if jobs:
        ref2 = tree(g)
        pmap(lambda w: same(w, ref2), jobs)
    # a comment that does not end is an error wherever it begins
    def open_comment(i):
        for s in ("/*", "/* x\n", "/*\n\n", "/* *"):
            t = join(ts, i, s).replace("*/", "")
            g = generate(c, t)
            if g.crashed or g.ok or "error" not in g.r.err:
                c.violation("unterminated %r before token %d" % (s, i), "accepted or no diagnostic: rc=%s %s" % (g.rc, g.r.text[-300:]), t)
            c.add(1, 1, 1)
            shutil.rmtree(g.dir, ignore_errors=True)
    pmap(open_comment, range(len(ts) + 1))
    c.assumptions = ["one specification with every kind of definition; %d separators before every token%s and between all tokens; every reference of it and of a second one in up to 64 letter cases; generated C sources and headers compared byte by byte" % (len(SEPS), ", two separators before every pair of every third tokens" if THOROUGH else "")]
    c.finish()


main()
