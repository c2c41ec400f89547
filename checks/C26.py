"""C26: at every verbosity a running compiler reports exactly what it does."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from ccn import *
from phases import *


def scenarios(st):
    g0 = ["1"] * len(st.phases)
    base = ["-"] * st.nleaf
    for v in (10, 11, 12, 13):
        for ls in ([""] * st.nleaf, ["n-"] * st.nleaf, ["r"] + ["n-"] * (st.nleaf - 1)):
            yield Scenario(ls, g0, max=3, runs=2, verb=v)
            yield Scenario(ls, g0, max=2, check=0, verb=v)
        for g in itertools.product(("1", "0", "01"), repeat=len(st.phases)) if len(st.phases) <= 3 else itertools.product(("1", "0"), repeat=len(st.phases)):
            yield Scenario(["n-"] * st.nleaf, g, max=2, verb=v)
        for i in range(st.nleaf):
            for e in ("a", "p", "-a", "np"):
                ls = list(base)
                ls[i] = e
                yield Scenario(ls, g0, max=2, verb=v)
                ls = ["n"] * st.nleaf
                ls[i] = e
                yield Scenario(ls, ["1"] + ["01"] * (len(st.phases) - 1), max=3, verb=v)
        for path, name, aid in st.paths():
            yield Scenario(["n-"] * st.nleaf, g0, max=2, bpid=aid, verb=v)
            yield Scenario(base, g0, bp=".".join(path + [name]), verb=v)


def main():
    c = Check("C26")
    n = 6 if THOROUGH else 5
    explore(c, structures(n) + extra_structures(), scenarios)
    c.assumptions = ["phase structures of up to %d actions; every verbosity; gates {open, closed, opening}, notifications, action and phase errors of every action, breakpoints at every action" % n,
                     "the report (stderr) is read together with the events of the actions and gates, so that its order is checked as well; the wording of messages only as far as it tells errors, skipped phases and their names"]
    c.finish()
main()
