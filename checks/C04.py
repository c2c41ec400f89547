"""C04: actions run in the specified order, gates decide, node results are threaded."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from ccn import *
from phases import *

def scenarios(st):
    g = [p for p in st.phases if p.gated]
    opts = ["1", "0", "01", "10"] if len(g) <= 2 else ["1", "0", "01"] if len(g) == 3 else ["1", "0"]
    # leaves notify once, so that every cycle runs a second time and gates are asked again
    base = ["n-"] * st.nleaf
    for gs in itertools.product(opts, repeat=len(g)):
        gates = [""] * len(st.phases)
        for p, v in zip(g, gs):
            gates[p.gi] = v
        yield Scenario([""] * st.nleaf, gates, runs=2)
        yield Scenario(base, gates, runs=1, max=3)
        yield Scenario(["r"] + ["-"] * (st.nleaf - 1), gates, runs=2, check=0, verb=3)
    for rs in itertools.product(["-", "r", "-r"], repeat=st.nleaf):
        yield Scenario(rs, [], runs=2, verb=1)
        yield Scenario([x.replace("-", "n") + "-" for x in rs], ["1"] * len(st.phases), max=2)

def main():
    c = Check("C04")
    explore(c, structures(6 if THOROUGH else 5) + extra_structures(), scenarios)
    c.assumptions = ["phase structures of up to %d actions (all ordered trees, every inner action a phase or a cycle) plus shared and ungated ones; gate answers from {always, never, changing once}; traces compared with a reference interpreter" % (6 if THOROUGH else 5)]
    c.finish()
main()
