"""C07: breakpoints stop after exactly the named or numbered action; numbering equals the shown structure."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from ccn import *
from phases import *

def scenarios(st):
    paths = st.paths()
    bps = set()
    for path, name, aid in paths:
        full = path + [name]
        bps.add(".".join(full)); bps.add(".".join(full).lower()); bps.add(".".join(full).upper())
        bps.add(name); bps.add(name.swapcase())
        if len(full) > 2:
            bps.add(".".join(full[1:])); bps.add(".".join(full[-2:]))
        if len(full) > 3:
            bps.add(full[0] + "." + ".".join(full[-2:]))
        bps.add("Nope." + name); bps.add(".".join(path + ["Nope"])); bps.add(name[:-1]); bps.add(name + "0")
    g0 = ["1"] * len(st.phases)
    variants = [(["n-"] * st.nleaf, g0), (["r"] + ["-"] * (st.nleaf - 1), g0)]
    for g in range(1, len(st.phases)):
        gs = list(g0); gs[g] = "01"
        variants.append((["n-"] * st.nleaf, gs))
        gs = list(g0); gs[g] = "0"
        variants.append((["-"] * st.nleaf, gs))
    for ls, gs in variants:
        for b in sorted(bps):
            yield Scenario(ls, gs, max=2, bp=b)
        for i in range(0, len(paths) + 2):
            yield Scenario(ls, gs, max=2, bpid=i, runs=1)
    for i in range(1, len(paths) + 1):
        for b in (paths[0][1], paths[-1][1]):
            yield Scenario(["-"] * st.nleaf, [], bp=b, bpid=i, verb=3)
    yield Scenario(["-"] * st.nleaf, [], bp="Nope.X", runs=2)

def showtree(c, structs):
    """The printed structure lists every action with the number the breakpoints and lifetimes use."""
    def one(st):
        exe, err = build_struct(c, st)
        return st, err, None if err else run([exe, "tree"], timeout=30)
    for st, err, r in pmap(one, structs):
        if err:
            c.violation("tree " + st.label, err, {"spec": st.render()})
            continue
        got = [(int(a), b.strip()) for a, b in re.findall(r"^\s*(\d+): (.*)$", r.out, re.M)]
        want = [x for x in st.ids() if x[0] > 1]
        c.add(states=len(want), transitions=len(want), traces=1)
        if r.rc or got != want:
            c.violation("tree " + st.label, "structure %s shown as %s, expected %s" % (st.label, got, want), {"spec": st.render(), "got": r.out})
        depth = [(len(a), int(b)) for a, b in re.findall(r"^(\t*)(\d+): ", r.out, re.M)]
        wantd = [(len(p) - 1, i) for p, n, i in st.paths() if i > 1]
        if depth != wantd:
            c.violation("tree-indent " + st.label, "structure %s: nesting shown as %s, expected %s" % (st.label, depth, wantd), {"got": r.out})

def main():
    c = Check("C07")
    n = 6 if THOROUGH else 5
    structs = structures(n) + extra_structures()
    explore(c, structs, scenarios)
    showtree(c, structs)
    c.assumptions = ["phase structures of up to %d actions; breakpoints: every action by full path, by name, by path tails, in several letter cases, by number, and names that match nothing; closed gates and iterating cycles" % n]
    c.finish()
main()
