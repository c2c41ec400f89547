"""C02: palm's string functions agree with their reference on every small input."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from ccn import *

def main():
    c = Check("C02")
    exe = compile_palm_harness(c, [os.path.join(VERIF, "harness", "strs.c")], os.path.join(c.scratch, "strs"))
    maxl = 4 if THOROUGH else 3
    def one(p):
        return p, run([exe, str(maxl), str(p), str(NCPU)], timeout=800, env=SAN_ENV)
    for p, r in pmap(one, range(NCPU)):
        m = re.search(r"^OK\tcases=(\d+)\tnontrivial=(\d+)", r.out, re.M)
        if m:
            c.add(int(m.group(2)), int(m.group(1)), int(m.group(1)))
            c.sample("slice %d: %s calls compared, %s produced a string" % (p, m.group(1), m.group(2)))
            continue
        f = re.search(r"^FAIL\t(.*)\t(.*)$", r.out, re.M)
        if f:
            c.violation(f.group(1), "%s: %s" % (f.group(1), f.group(2)) + r.err[:500], {"call": f.group(1), "what": f.group(2)})
        else:
            c.violation("died slice %d" % p, "harness died rc=%s %s" % (r.rc, r.text[-800:]), {})
    c.assumptions = ["strings up to length %d (unary), %d (binary) and %d x %d x %d (ternary) over {a, A, b, ',', 0xE9} and NULL; non-negative counts and start offsets; the subject of STRsubStr is not NULL" % (maxl + 1, maxl, maxl, maxl - 1, min(2, maxl - 1)),
                     "concatenating only empty or NULL strings with STRcatn may give NULL or the empty string"]
    c.finish()
main()
