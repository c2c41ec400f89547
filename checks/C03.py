"""C03: diagnostics are counted, printed completely and decide the exit status."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from ccn import *

def main():
    c = Check("C03")
    src = [os.path.join(VERIF, "harness", "cti.c")]
    exe = compile_palm_harness(c, src, os.path.join(c.scratch, "cti"))
    fast = compile_palm_harness(c, src, os.path.join(c.scratch, "ctif"), san=False)
    depth = "5" if THOROUGH else "4"
    jobs = [[fast, "hist", depth, str(i), str(NCPU)] for i in range(NCPU)]
    jobs += [[exe, "hist", "2", "0", "1"]]
    jobs += [[exe, "text", str(i), str(NCPU)] for i in range(NCPU)] + [[exe, "loc", str(i), "2"] for i in range(2)]
    def one(j):
        return j, run(j, timeout=850, env=SAN_ENV)
    for j, r in pmap(one, jobs):
        m = re.search(r"^OK\texecs=(\d+)\tsteps=(\d+)\tclass=(\d+)", r.out, re.M)
        name = " ".join(j[1:])
        if m:
            c.add(int(m.group(1)), int(m.group(2)), int(m.group(1)))
            c.sample("%s: %s executions, %s steps, %s in the special class (aborting / broken over lines / with marker)" % (name, m.group(1), m.group(2), m.group(3)), 20)
            continue
        f = re.search(r"^FAIL\t(.*?)\t((?:.|\n)*)", r.out, re.M)
        if f:
            c.violation(j[1] + ": " + f.group(1), "%s: %s: %s\n%s" % (name, f.group(1), f.group(2), r.err[:400]), {"history": f.group(1), "what": f.group(2)})
        else:
            c.violation("died " + name, "harness died rc=%s %s" % (r.rc, r.text[-800:]), {})
    c.assumptions = ["histories of up to %s diagnostics calls; messages built from up to four words of the listed lengths, from repeated short words, and every printable character" % depth,
                     "printed text is compared up to white space (line breaking may replace it)"]
    c.finish()
main()
