"""C25: every part of a definition takes effect, in every combination of parts and next to every other definition."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from parts import *


def judge(c, inc, label, p, release=False):
    text = p.finish()
    g = generate(c, text)
    if not g.ok:
        c.violation(label, "rejected: rc=%s %s" % (g.rc, g.r.text[-700:]), text)
        return
    for f, t in p.skeleton:
        q = os.path.join(g.dir, "gen", "user", f)
        if not os.path.exists(q) or t not in open(q).read():
            c.violation(label, "the skeleton %s does not hold the info %r" % (f, t), text)
            break
    src = os.path.join(g.dir, "main.c")
    open(src, "w").write(p.source())
    r, exe = compile_project(c, g, [src], user=False, extra=["-I" + inc], release=release)
    if r.rc:
        bad = [l for l in r.text.split("\n") if "error" in l or "undefined" in l or "multiple def" in l]
        c.violation(label, "a part has no effect on the generated interface: " + "\n".join(bad[:3])[:900], text)
    else:
        r = run([exe], cwd=g.dir, timeout=300)
        d = p.compare(r.out)
        if d:
            c.violation(label, d + (" " + r.text[-200:] if r.rc else ""), text)
        c.sample({"definitions": label, "runs": len(p.scen), "events of a run": p.scen[0].expected()[1][:12]}, 8)
    c.add(len(p.scen), sum(len(s.expected()[1]) for s in p.scen), len(p.scen))
    shutil.rmtree(g.dir, ignore_errors=True)


def main():
    c = Check("C25")
    c.build()
    inc = c.tmp("ut")
    open(os.path.join(inc, "user_types.h"), "w").write("#pragma once\ntypedef int ut;\n")
    work = []
    top = PHASES + PASSES + TRAVS + NODES + SETS + ENUMS
    inline = PHASES + PASSES + TRAVS
    for where, forms in (("top level", top), ("inline", inline)):
        for f in forms:
            work.append(("alone, %s: %s" % (where, f), sequence([f], where == "inline")))
        for i, x in enumerate(chunks(pairs(forms), 120)):
            work.append(("pairs, %s: group %d" % (where, i), sequence(x, where == "inline")))
        if THOROUGH:
            for kind in (PHASES, PASSES, TRAVS) + ((NODES,) if where != "inline" else ()):
                for i, x in enumerate(chunks(pairs(kind, 3), 120, 2)):
                    work.append(("triples of %s, %s: group %d" % (kind[0][0], where, i), sequence(x, where == "inline")))
    work += list(starts()) + list(roots()) + list(items())
    pmap(lambda w: judge(c, inc, w[0], w[1], hash(len(w[0])) % 3 == 0), work)
    c.assumptions = ["%d forms of definitions at top level and %d inside lists of actions: every combination of optional parts; each alone and every ordered pair next to each other%s; every form of the start phase and the root node" % (len(top), len(inline), ", every three of a kind in a row" if THOROUGH else ""),
                     "every pair of travdata types, every pair of child forms, every list of attribute options for five kinds of types",
                     "effects: constructors and accessors (typed), events of complete runs with gates open and closed, uids and lifetimes by a node that is refused exactly there, evaluated attributes, info of traversals in their skeletons"]
    c.finish()


if __name__ == "__main__":
    main()
