"""C08: traversals call exactly the handlers of their target nodes, in tree order, and store results."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from ast_specs import *

def main():
    c = Check("C08")
    c.build()
    specs = list(shapes3(2 if THOROUGH else 1)) + list(shapes4(None if THOROUGH else 1))
    def one(s):
        label, spec = s
        # nodes, deviations, depth
        return run_harness(c, spec, "trav.c", (4, 2, 4) if len(spec.nodes) == 3 else (5, 1, 5), label)
    pmap(one, specs)
    c.assumptions = ["node types R, A, B (and C) with child lists over nodes, the set {A, B} and R: %d specifications; all trees of up to 4 nodes (5 in the four-type family), starting at any type; up to 2 deviating handler invocations per execution" % len(specs)]
    c.finish()
main()
