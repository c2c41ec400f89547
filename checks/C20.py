"""C20: every accepted specification gives a complete compiler that compiles, links and runs."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from wf import *
import threading

HARNESS = r'''
#include "ccn/ccn.h"
#include "ccngen/ast.h"
#include "ccngen/enum.h"
#include "ccngen/trav.h"
#include "ccngen/trav_data.h"
#include "ccngen/action_handling.h"
#include "ccn/phase_driver.h"
#include <stdbool.h>
#include <stdio.h>
void BreakpointHandler(node_st *node) { (void)node; }
#ifdef G
bool G(void) { return true; }
#endif
int main(void) { CCNrun(NULL); printf("done\n"); return 0; }
'''
STRICT = ["-Werror=implicit-function-declaration", "-Werror=int-conversion", "-Werror=incompatible-pointer-types", "-Werror=return-type", "-Werror=implicit-int"]
MARK = "Zq77z"


class Compiler:
    def __init__(self, c):
        self.c = c
        self.h = os.path.join(c.tmp(), "harness.c")
        open(self.h, "w").write(HARNESS)
        open(os.path.join(os.path.dirname(self.h), "user_types.h"), "w").write("typedef void *void_ptr;\ntypedef struct user_t *T;\ntypedef double Tt;\n")
        self.tally, self.lock = {}, threading.Lock()

    def judge(self, label, text):
        """Generate text; if accepted, the result has to compile without complaints, link and run to its end."""
        c = self.c
        gates = re.findall(r"\bgate\s*=\s*(\w+)", text)
        g = generate(c, text)
        verdict = "rejected"
        if g.crashed:
            c.violation(label, "cocogen ends abnormally: rc=%s timeout=%s %s" % (g.rc, g.r.timeout, g.r.text[-500:]), text)
        elif g.ok:
            verdict = "compiled and run"
            r, exe = compile_project(c, g, [self.h], defs=["G=" + x for x in gates], extra=["-I" + os.path.dirname(self.h)] + STRICT)
            if r.rc:
                bad = [l for l in r.text.split("\n") if "error" in l or "multiple def" in l or "undefined" in l]
                c.violation(label, "the generated code does not compile: " + "\n".join(bad[:3]), text)
            elif "redefined" in r.text:
                c.violation(label, "a generated macro is redefined: " + r.text[:500], text)
            else:
                r = run([exe], timeout=30, env=SAN_ENV)
                if r.rc or r.timeout or not r.out.rstrip().endswith("done"):
                    c.violation(label, "the compiler does not run to its end: rc=%s timeout=%s %s" % (r.rc, r.timeout, r.text[-500:]), text)
        with self.lock:
            k = label.split(":")[0]
            self.tally[k, verdict] = self.tally.get((k, verdict), 0) + 1
            if self.tally[k, verdict] <= 1:
                c.sample({"case": label, "cocogen": verdict, "specification": text[:300]}, 14)
        c.add(1, 1, g.ok)
        shutil.rmtree(g.dir, ignore_errors=True)


def sources(d):
    out = []
    for base, _, fs in os.walk(d):
        for f in fs:
            if f.endswith((".c", ".h")):
                t = open(os.path.join(base, f), errors="replace").read()
                t = re.sub(r'#include\s*["<](.*?)[">]', lambda m: " " + re.sub(r"\W", "_", m.group(1)) + " ", t)
                t = re.sub(r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\\n])*"', " ", t, flags=re.S)
                out.append(t)
    return "\n".join(out)


def identifiers(t):
    return set(re.findall(r"[A-Za-z_][A-Za-z0-9_]*", t))


def plain_words(t):
    """Identifiers that stand for something wherever they occur: object-like macros, types and tags."""
    return (set(re.findall(r"#\s*define\s+(\w+)(?!\w|\()", t)) | set(re.findall(r"\}\s*(\w+)\s*;", t)) | set(re.findall(r"typedef\b[^;{]*?(\w+)\s*;", t)) |
            set(re.findall(r"\b(?:struct|union|enum)\s+(\w+)", t)) | set(re.findall(r"\(\s*(\w+)\s*\)", t)))


def clashes(c, b):
    """Names for every slot for which a name derived from it equals another identifier of the generated code or copra."""
    base = generate(c, b.render({}))
    text = sources(os.path.join(base.dir, "gen")) + sources(os.path.join(REPO, "copra"))
    words, short = identifiers(text), plain_words(text)
    shutil.rmtree(base.dir, ignore_errors=True)
    def one(x):
        g = generate(c, b.render({x.i: MARK}))
        forms = set()
        for w in identifiers(sources(os.path.join(g.dir, "gen"))):
            m = re.match(r"(.*?)(%s)(.*)$" % MARK, w, re.I)
            if m and MARK.lower() not in m.group(3).lower():
                forms.add(m.groups())
        shutil.rmtree(g.dir, ignore_errors=True)
        out = {}
        for pre, mid, post in sorted(forms):
            for w in sorted(words if pre + post or THOROUGH else short):
                n = w[len(pre):len(w) - len(post)] if w.startswith(pre) and w.endswith(post) else ""
                if re.fullmatch(r"[A-Za-z][A-Za-z0-9_]*", n) and (mid == MARK or (n.upper() == n if mid.isupper() else n.lower() == n)):
                    out.setdefault(n, (pre, post, w))
        return x, out
    return pmap(one, [x for x in b.slots if x.kind not in ("ref", "fref", "gate", "func")])


def clean_name(w, pre, post):
    """Names that equal something only because they begin with a prefix the documentation reserves are not used."""
    return not re.match(r"(NT|CCN|N|TRAV|PASS|PHASE|NODE|EVAL)_|CCN", w, re.I) or bool(pre + post)


FIELD_KINDS = {"here": "data", "sort": "data", "body": "child", "how": "enum", "last": "link", "label": "string", "total": "synthesized", "much": "set"}


def naming(c, b):
    work, seen = [], set()
    done = set()
    for x, out in clashes(c, b):
        kind = x.kind + " " + getattr(x, "defkind", "") + FIELD_KINDS.get(x.text, x.text if x.kind == "field" else "")
        if x.kind == "field" and not THOROUGH and x.text not in FIELD_KINDS:
            continue
        for n, (pre, post, w) in sorted(out.items()):
            if (kind, n) not in done and clean_name(n, "", ""):
                done.add((kind, n))
                work.append(("names: %s := %s (%s)" % (x.label, n, w), b.render({x.i: n})))
    kinds = set()
    for x in b.slots:
        k = x.kind + getattr(x, "defkind", "") + FIELD_KINDS.get(x.text, "")
        if x.kind in ("ref", "fref", "gate", "func") or k in kinds:
            continue
        kinds.add(k)
        for n in C_KEYWORDS + ["asm", "typeof", "null", "size", "init", "fini", "cleanup", "free", "check", "error", "nop", "opt", "push", "pop", "start", "children", "type", "data", "main_", "a__b", "a_", "x" * 300]:
            work.append(("names: %s := %s" % (x.label, n), b.render({x.i: n.capitalize()})))
            if n not in C_KEYWORDS:
                work.append(("names: %s := %s" % (x.label, n), b.render({x.i: n})))
        work.append(("names: %s := %s" % (x.label, x.text.upper()), b.render({x.i: x.text.upper()})))
        work.append(("names: %s := %s" % (x.label, x.text.lower()), b.render({x.i: x.text.lower()})))
    return work


def underscores():
    work = []
    names, fields = ("p", "p_q", "q", "p_q_r") if THOROUGH else ("p", "p_q", "q"), ("q", "r", "q_r")
    for x, y, s in itertools.permutations(names, 3):
        for f, g, h in itertools.product(fields, repeat=3):
            for d in itertools.permutations(fields, 2) if THOROUGH else (("r", "q_r"),):
                work.append(("underscores: %s.%s %s.%s %s.%s %s" % (x, f, y, g, s, h, d),
                             "start phase main { actions { pass load; } }; root node %s { children { %s %s, Other %s }, attributes { int %s } }; node %s { attributes { int %s } }; node Other { }; nodeset %s { nodes = {%s, Other}, attributes { float %s } };" % (x, y, d[0], d[1], f, y, g, s, y, h)))
    for u, v in (("a", "a_b"), ("a", "this_a"), ("a_b_c", "a_b"), ("a", "b")):
        for m, n in (("b_c", "c"), ("a", "b"), ("a_b", "b"), ("this_b", "b")):
            for k in range(1, 16):
                args = [r for i, r in enumerate(("%s.%s %s.%s %s.%s %s.%s" % (u, m, u, n, v, m, v, n)).split()) if k >> i & 1]
                work.append(("underscores: %s" % " ".join(args), "start phase main { actions { pass load; } }; root node R { children { L %s, L %s }, attributes { int t { synthesized }, int k_%s }, equations { this.t = { args = { %s } } } };"
                             " node L { attributes { int %s { synthesized }, int %s { synthesized } }, equations { this.%s = { }, this.%s = { } } };" % (u, v, n, ", ".join(args + ["this.k_" + n]), m, n, m, n)))
    return work


def infos():
    texts = ["", "*/", "/*", "*/ int x = ; /*", "%s %n %d", "\\", "\\n\\t", "a\\", "??/", "//", "line\nline\n */ x", "it's", "@", "x" * 5000, "#error", "\u00e9\u20ac", "${x}", "\t"]
    base = 'start phase Main { info = "%s", actions { Two; Pp; Tt1; } }; cycle Two { info = "%s", actions { pass Qq { info = "%s", uid = QU }; traversal Uu { info = "%s", uid = UX, travdata { int a } }; } }; pass Pp { info = "%s", func = doPp }; traversal Tt1 { info = "%s", uid = TU, nodes = {R} };' \
           ' root node R { attributes { Ee e } }; nodeset Ss { info = "%s", nodes = {R} }; enum Ee { info = "%s", prefix = EP, values { v1 } };'
    n = base.count("%s")
    return [("infos: %r in definition %d" % (t[:30], i), base % tuple(t if j == i or i == n else "text" for j in range(n))) for t in texts for i in range(n + 1)]


def sizes():
    work = []
    for n in (1, 2, 17, 100) if not THOROUGH else (1, 2, 3, 17, 64, 100, 257, 400):
        one = "start phase Main { actions { %s } }; root node R { %s }; %s"
        r = range(n)
        work.append(("sizes: %d passes" % n, one % ("".join("pass p%d; " % i for i in r), "", "")))
        work.append(("sizes: %d traversals" % n, one % ("".join("traversal t%d { uid = U%d }; " % (i, i) for i in r), "", "")))
        work.append(("sizes: %d phases in each other" % min(n, 60), one % ("".join("phase f%d { actions { " % i for i in range(min(n, 60))) + "pass p; " + "} }; " * min(n, 60), "", "")))
        work.append(("sizes: %d phases after each other" % n, one % ("".join("f%d; " % i for i in r), "", "".join("phase f%d { actions { pass p%d; } }; " % (i, i) for i in r))))
        work.append(("sizes: one pass %d times" % n, one % ("Pp; " * n, "", "pass Pp = ff;")))
        work.append(("sizes: %d nodes" % n, one % ("pass Pp; traversal Tt1 { uid = TU };", "", "".join("node n%d { }; " % i for i in r))))
        work.append(("sizes: %d children" % n, one % ("pass Pp;", "children { %s }" % ", ".join("R c%d { constructor }" % i for i in r), "")))
        work.append(("sizes: %d attributes" % n, one % ("pass Pp;", "attributes { %s }" % ", ".join("int a%d { constructor }" % i for i in r), "")))
        work.append(("sizes: %d values" % n, one % ("pass Pp;", "", "enum Ee { prefix = EP, values { %s } };" % ", ".join("v%d" % i for i in r))))
        work.append(("sizes: %d enums" % n, one % ("pass Pp;", "", "".join("enum e%d { prefix = P%d, values { v } }; " % (i, i) for i in r))))
        work.append(("sizes: %d sets" % n, one % ("pass Pp;", "", "nodeset s0 = {R}; " + "".join("nodeset s%d = s%d | {R}; " % (i + 1, i) for i in r))))
        work.append(("sizes: %d members" % n, one % ("pass Pp;", "children { Ss s }", "".join("node n%d { }; " % i for i in r) + "nodeset Ss { nodes = {%s}, attributes { int a } };" % ", ".join("n%d" % i for i in r))))
        work.append(("sizes: %d travdata" % n, one % ("traversal Tt1 { uid = TU, travdata { %s } };" % ", ".join("int a%d" % i for i in r), "", "")))
        work.append(("sizes: %d equations" % n, one % ("pass Pp;", "attributes { int a0, %s }, equations { %s }" % (", ".join("int a%d { synthesized }" % (i + 1) for i in r), ", ".join("this.a%d = { args = { this.a%d } }" % (i + 1, i) for i in r)), "")))
    return work


def main():
    c = Check("C20")
    c.build()
    k = Compiler(c)
    b = Base(rich=True)
    k.judge("base", b.render({}))
    work = naming(c, b) + underscores() + infos() + sizes() + [("parts: " + l, t) for l, t in part_specs()]
    seen, uniq = set(), []
    for l, t in work:
        if t not in seen:
            seen.add(t)
            uniq.append((l, t))
    pmap(lambda w: k.judge(*w), uniq)
    c.assumptions = ["specifications: " + ", ".join("%s/%s %d" % (x + (n,)) for x, n in sorted(k.tally.items())),
                     "names that begin with a prefix the documentation reserves, and the C functions the user chooses for passes and gates, are left out; equations, gates, passes and handlers are the generated skeletons",
                     "compiled with gcc as C17 with GNU extensions, implicit declarations and conversions between unlike pointers are errors"]
    c.finish()


if __name__ == "__main__":
    main()
