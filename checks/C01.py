"""C01: palm's hash table behaves as a map for every operation sequence (bounded, exhaustive)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from ccn import *

def main():
    c = Check("C01")
    exe = compile_palm_harness(c, [os.path.join(VERIF, "harness", "ht.c")], os.path.join(c.scratch, "ht"))
    sizes = [1, 2, 3, 5] if not THOROUGH else [1, 2, 3, 4, 5, 7, 16]
    kinds = ["str", "ptr", "int", "one", "mod"]
    jobs = [(k, s, "dfs", 3 if not THOROUGH else 4) for k in kinds for s in sizes]
    jobs += [(k, s, "bfs", 0) for k in kinds for s in sizes]
    def one(j):
        return j, run([exe, j[0], str(j[1]), j[2], str(j[3])], timeout=800, env=dict(SAN_ENV, UBSAN_OPTIONS="halt_on_error=1"))
    for j, r in pmap(one, jobs):
        cfg = "kind=%s buckets=%d" % (j[0], j[1])
        m = re.search(r"^OK\tstates=(\d+)\ttransitions=(\d+)\tevals=(\d+)\tdepth=(\d+)", r.out, re.M)
        if m:
            c.add(int(m.group(1)), int(m.group(2)), int(m.group(2)) if j[2] == "bfs" else int(m.group(1)))
            c.sample("%s %s: %s states, %s transitions, depth %s" % (cfg, j[2], m.group(1), m.group(2), m.group(4)), 10)
            continue
        f = re.search(r"^FAIL\t(.*)\t(.*)$", r.out, re.M)
        if f:
            c.violation("%s: %s" % (cfg, f.group(1)), "%s, operations [%s]: %s\n%s" % (cfg, f.group(1), f.group(2), r.err[:600]),
                        {"config": cfg, "operations": f.group(1).split(" "), "what": f.group(2)})
        else:
            c.violation("%s: died" % cfg, "harness died rc=%s %s" % (r.rc, r.text[-800:]), {"config": cfg})
    c.assumptions = ["4 keys (two equal-content pointers each), 4 values including NULL, the bucket counts and table kinds listed in samples",
                     "bfs merges histories whose observable content and order agree; dfs (depth in samples) merges nothing"]
    c.finish()
main()
