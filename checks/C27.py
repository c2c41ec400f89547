"""C27: a cocogen built from the code that cocogen generates of itself is the same generator."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from ccn import *
import glob, itertools, threading
import ag, ast_specs, lifetimes, parts, phases, runspecs, sets, wf

LOCK = threading.Lock()


def read(d, only_code=False):
    """the files of a run; what only draws the grammar (ag_dot) is not the same in every run"""
    o = {}
    for base, _, fs in os.walk(d):
        for f in fs:
            if f.endswith((".c", ".h")) or f == "ast.dot" and not only_code:
                o[os.path.relpath(os.path.join(base, f), d)] = open(os.path.join(base, f), "rb").read()
    return o


def difference(a, b):
    for f in sorted(set(a) | set(b)):
        if f not in a or f not in b:
            return "%s is written by only one of them" % f
        if a[f] != b[f]:
            x, y = a[f].split(b"\n"), b[f].split(b"\n")
            i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            return "%s differs in line %d:\n%s\n%s" % (f, i + 1, *(b"\n".join(z[i:i + 3]).decode("utf-8", "replace") for z in (x, y)))
    return None


def self_description(exe, top):
    """what a generator makes of cocogen/main.ccn -> (outcome, code)"""
    os.makedirs(os.path.join(top, "gen"))
    shutil.copy(os.path.join(REPO, "cocogen", "main.ccn"), os.path.join(top, "spec.ccn"))
    r = run([exe, "--gen-dir", "gen/", "spec.ccn"], cwd=top, timeout=120, env=SAN_ENV)
    return r, {f: b for f, b in read(os.path.join(top, "gen"), True).items() if not f.startswith("user" + os.sep)}


def rebuild(c, code, variant):
    """cocogen with its generated part replaced by code -> path of the executable or the compiler's messages"""
    src = c.tmp("src")
    for e in os.listdir(REPO):
        p = os.path.join(REPO, e)
        if e in ("palm", "cocogen", "copra", "cmake") and os.path.isdir(p):
            shutil.copytree(p, os.path.join(src, e), ignore=shutil.ignore_patterns("build", ".git"))
        elif os.path.isfile(p):
            shutil.copy(p, src)
    shutil.rmtree(os.path.join(src, "cocogen", "ccngen"))
    for f, b in code.items():
        p = os.path.join(src, "cocogen", "ccngen", f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "wb").write(b)
    d = os.path.join(src, "build")
    flags = {"rel": "-O1 -w", "asan": "-O1 -g1 -w -fsanitize=address,undefined -fno-omit-frame-pointer"}[variant]
    env = {"CC": GCC, "CFLAGS": ""}
    r = run(["cmake", "-S", src, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=" + {"rel": "RelWithDebInfo", "asan": "Debug"}[variant],
             "-DCMAKE_C_COMPILER=" + GCC, "-DCMAKE_C_FLAGS=" + flags], timeout=300, env=env)
    if r.rc:
        raise CheckError("cmake failed:\n" + r.text[-3000:])
    r = run(["ninja", "-C", d, "cocogen"], timeout=600, env=env)
    return (os.path.join(d, "cocogen", "cocogen"), None) if r.rc == 0 else (None, r.text)


def corpus():
    """(label, text) of the definition files that both generators have to treat alike"""
    for f in sorted(glob.glob(os.path.join(REPO, "cocogen", "tests", "*", "*.ccn"))) + sorted(glob.glob(os.path.join(REPO, "examples", "*", "*.ccn"))):
        yield "file " + os.path.relpath(f, REPO), open(f, "rb").read()
    for n in ("SPEC", "RUN", "MINI"):
        yield n, getattr(runspecs, n)
    for k, t in runspecs.BAD.items():
        yield "with " + k, t
    for k, p in list(parts.starts()) + list(parts.roots()) + list(parts.items()):
        yield k, p.finish()
    top = parts.PHASES + parts.PASSES + parts.TRAVS + parts.NODES + parts.SETS + parts.ENUMS
    for inline, forms in ((0, top), (1, parts.PHASES + parts.PASSES + parts.TRAVS)):
        for f in forms:
            yield "alone, %s: %s" % ("inline" if inline else "top level", f), parts.sequence([f], inline).finish()
        for i, x in enumerate(parts.chunks(parts.pairs(forms), 120)):
            yield "pairs %d%s" % (i, ", inline" * inline), parts.sequence(x, inline).finish()
    for l, t in wf.part_specs():
        yield "parts: " + l, t
    few = lambda g, n: itertools.islice(g, 0, None, 1 if THOROUGH else n)
    plain = wf.Base()
    yield "well-formed", plain.render({})
    for b, n in ((wf.Base(), 9), (wf.Base(rich=True), 10)):
        for x, v in few(((x, v) for x in b.slots for v in b.domain(x)), n):
            yield "%s is %s" % (x.label, v), b.render({x.i: v})
    base = runspecs.SPEC.encode()
    for i in few(range(len(base)), 3):
        yield "the first %d bytes" % i, base[:i]
    for i in few(range(len(base)), 3):
        yield "without byte %d" % i, base[:i] + base[i + 1:]
    for k, n in ((1, 1), (2, 3), (3, 200)):
        refs = [("ref", nm, m) for nm, m in sets.BASE.values()]
        for j, part in enumerate(few(sets.exprs(k, refs), n)):
            s = sets.Sets("expression")
            s.defs += ["nodeset %s = %s" % (sets.BASE[q][0], sets.lit(sets.BASE[q][1])) for q in "ABC"]
            s.add("S0", sets.show(part), sets.evaluate(part), long=j % 2)
            s.inline.append((sets.show(part, True), sets.evaluate(part)))
            yield "set %s" % sets.show(part), s.render()
    for st in list(phases.structures(4 if THOROUGH else 3)) + list(phases.extra_structures()):
        yield st.label, st.render()
        if st.phases:
            for j, bt in enumerate(few(lifetimes.batches(st, ()), 3)):
                yield "lifetimes %d in %s" % (j, st.label), bt.spec()
            for l, t in few(lifetimes.rejected(st), 12):
                yield l + " in " + st.label, t
    for g, n in ((ast_specs.shapes3(1), 3), (ast_specs.shapes4(), 9), (ast_specs.attr_specs(), 1), (ast_specs.evaluated_specs(), 1)):
        for x in few(g, n):
            yield x[0], x[1].render()
    for g, n in ((ag.chain1(), 30), (ag.chain2(), 30), (ag.siblings((True, True), False), 12), (ag.siblings((False, False), False), 12), (ag.twins(False), 12),
                 (ag.setvisits(False), 12), (ag.ring(2), 4), (ag.setring(), 20), (ag.setmix(), 8), (ag.nested(), 1), (ag.bare(), 1), (ag.wide(), 1), (ag.typed(), 6)):
        for x in few(g, n):
            yield x.label, x.render()


def outcome(exe, text, top, options=()):
    os.makedirs(os.path.join(top, "gen"))
    open(os.path.join(top, "spec.ccn"), "wb").write(text if isinstance(text, bytes) else text.encode())
    r = run([exe] + list(options) + ["--gen-dir", "gen/", "spec.ccn"], cwd=top, timeout=120, env=SAN_ENV)
    return r, read(os.path.join(top, "gen"))


def main():
    c = Check("C27")
    g0 = c.cocogen()
    r, code = self_description(g0, c.tmp("self"))
    main_ccn = open(os.path.join(REPO, "cocogen", "main.ccn")).read()
    if r.rc:
        c.violation("cocogen/main.ccn", "cocogen rejects its own definition: rc=%s %s" % (r.rc, r.text[-800:]), main_ccn)
        c.finish()
    built = pmap(lambda v: rebuild(c, code, v), ["rel", "asan"])
    for exe, err in built:
        if err:
            bad = [l for l in err.split("\n") if "error" in l or "undefined" in l or "multiple def" in l]
            c.violation("cocogen/main.ccn", "cocogen does not build with the code it generates of itself: " + "\n".join(bad[:4])[:900], main_ccn)
            c.finish()
    g1, g1san = built[0][0], built[1][0]
    for exe in (g1, g1san):
        r, again = self_description(exe, c.tmp("self"))
        d = "rc=%s %s" % (r.rc, r.text[-600:]) if r.rc or SAN_RE.search(r.err) else difference(code, again)
        c.add(len(code), sum(b.count(b"\n") for b in code.values()), 1)
        if d:
            c.violation("cocogen/main.ccn" + " (debug build)" * (exe == g1san), "the rebuilt cocogen does not reproduce the code that it is built of: " + d, main_ccn)
    jobs = [(l, t, ()) for l, t in corpus()]
    jobs += [("--show-ast, " + l, t, ("--show-ast",)) for l, t, _ in jobs[::20 if not THOROUGH else 4]]
    count = {}
    def one(job):
        i, (label, text, opts) = job
        top = c.tmp("x")
        runs = [outcome(g0, text, os.path.join(top, "0"), opts), outcome(g1, text, os.path.join(top, "1"), opts)]
        if i % (3 if THOROUGH else 12) == 0 or label.startswith("file"):
            runs.append(outcome(g1san, text, os.path.join(top, "2"), opts))
        (r0, f0) = runs[0]
        for k, (r1, f1) in enumerate(runs[1:]):
            who = ["", " (debug build)"][k]
            if SAN_RE.search(r1.err):
                d = "the rebuilt cocogen errs: " + r1.err[-700:]
            elif r0.rc != r1.rc:
                d = "exit status %s, rebuilt %s: %s" % (r0.rc, r1.rc, r1.text[-500:])
            elif "Loop found" in r0.err and "Loop found" in r1.err:
                d = difference(f0, f1)            # which edges of a loop are named varies from run to run
            elif r0.out != r1.out or r0.err != r1.err:
                d = "messages differ: %s" % difference({"out": r0.out.encode(), "err": r0.err.encode()}, {"out": r1.out.encode(), "err": r1.err.encode()})
            else:
                d = difference(f0, f1)
            if d:
                c.violation(label + who, d, text if isinstance(text, str) else text.decode("latin1"))
        shutil.rmtree(top, ignore_errors=True)
        with LOCK:
            k = "accepted" if r0.rc == 0 else "rejected"
            count[k] = count.get(k, 0) + 1
            if count[k] in (3, 60, 600):
                c.sample({"definitions": label, "both": k, "files compared": len(f0), "generators": len(runs)}, 7)
        c.add(1, len(f0), len(runs) - 1)
    pmap(one, list(enumerate(jobs)))
    c.assumptions = ["generation 1 is built of the code that the current cocogen generates of cocogen/main.ccn, as it is and with all sanitizers; that it reproduces this code makes every later generation the same",
                     "%d definition files, %s: status, messages and every file written compared; of each family of definitions %s" % (sum(count.values()), ", ".join("%d %s" % (n, k) for k, n in sorted(count.items())), "all" if THOROUGH else "every member at a fixed distance"),
                     "every part of main.ccn's abstract syntax is exercised through cocogen's hand-written passes over it"]
    c.finish()


if __name__ == "__main__":
    main()
