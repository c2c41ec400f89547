"""C05: cycles repeat exactly until a fixed point or the maximum number of iterations."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from ccn import *
from phases import *

def scenarios(st):
    ncyc = sum(p.cycle for p in st.phases)
    if not ncyc:
        yield Scenario(["n"] * st.nleaf, [])
        return
    opts = ["-", "n-", "nn-", "n", "-n-"] if st.nleaf <= 2 else ["-", "n-", "n", "-n-"] if st.nleaf == 3 else ["-", "n-", "n"]
    for ls in itertools.product(opts, repeat=st.nleaf):
        for m in (1, 2, 3, 4):
            if m == 4 and st.nleaf > 2:
                continue
            yield Scenario(ls, [], max=m)
        if st.nleaf <= 2:
            yield Scenario(ls, [], max=2, runs=2, check=0)
            for gs in itertools.product(["1", "10", "01"], repeat=min(3, len(st.phases))):
                yield Scenario(ls, list(gs), max=3)
    # the maximum changed while a cycle runs, and the default maximum
    for i in range(st.nleaf):
        for code in ("1", "2", "3", "n3", "nn1", "31"):
            ls = ["-"] * st.nleaf
            ls[i] = code
            yield Scenario(ls, [], max=2)
            if ncyc == 1:
                yield Scenario(ls, [], max=5)
        if ncyc <= 2:
            ls = ["-"] * st.nleaf
            ls[i] = "n"
            yield Scenario(ls, [], max=0)

def main():
    c = Check("C05")
    n = 6 if THOROUGH else 5
    explore(c, structures(n) + extra_structures(), scenarios)
    c.assumptions = ["phase structures of up to %d actions; per action the notification patterns {never, once, twice, always, second time only}; maxima 1-4, the default 100, and changes of the maximum while a cycle runs" % n,
                     "an iteration reached its fixed point iff no action executed in it, directly or in nested phases and cycles, notified a change"]
    c.finish()
main()
