"""C06: error signals stop the compiler after the action or phase they are raised in."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from ccn import *
from phases import *

def scenarios(st):
    pats = ["a", "p", "q", "-a", "-p", "np", "na", "nnp"]
    for bg in ("-", "n-", "n"):
        for i in range(st.nleaf):
            for p in pats:
                ls = [bg] * st.nleaf
                ls[i] = p
                yield Scenario(ls, [], max=3, verb=0)
                if bg == "-":
                    yield Scenario(ls, [], max=2, check=0, verb=3)
                    for g in range(1, len(st.phases)):
                        gs = ["1"] * len(st.phases)
                        gs[g] = "0"
                        yield Scenario(ls, gs, max=2)
                        gs[g] = "01"
                        yield Scenario(ls, gs, max=2)
    for i in range(st.nleaf):
        for j in range(st.nleaf):
            if i != j:
                for a, b in (("p", "p"), ("p", "a"), ("a", "p"), ("p", "n"), ("-p", "n-p"), ("c", "-"), ("p", "r")):
                    ls = ["-"] * st.nleaf
                    ls[i], ls[j] = a, b
                    if a != "c":
                        yield Scenario(ls, [], max=3)

def main():
    c = Check("C06")
    n = 6 if THOROUGH else 5
    explore(c, structures(n) + extra_structures(), scenarios)
    c.assumptions = ["phase structures of up to %d actions; one or two error signals at every action and invocation (first to third), with and without notifications and closed gates" % n,
                     "a cycle in which a phase error is signalled ends, and with it the compilation, when its iterations are finished"]
    c.finish()
main()
