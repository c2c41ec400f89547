"""C21: what is generated depends on nothing but the specification, and a generated compiler on nothing but its input."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from wf import *
import ag, glob, threading
from runspecs import *

OPTIONS = [["-v"], ["--verbose"], ["--show-ast"], ["--debug"], ["--consistency-checks"], ["--profiling"], ["--breakpoints"], ["--serialise"],
           ["--inspectpoints"], ["--dot", "x"], ["--backend", "dynamic"], ["--ag-scheduler-max-iter", "100000"], ["--ag-scheduler-max-iter=100000"]]
ENVS = [{"LC_ALL": "C.UTF-8"}, {"LC_ALL": "", "LANG": "tr_TR.UTF-8"}, {"TZ": "Asia/Tokyo"}, {"HOME": "/nonexistent"}, {"COLUMNS": "1", "TERM": "dumb"},
        {"MALLOC_PERTURB_": "85"}, {"MALLOC_PERTURB_": "170"}, {"TMPDIR": "/nonexistent"}, {"POSIXLY_CORRECT": "1"}]
PADS = [{"PAD": str(i)} for i in range(1, 7)]
SPECS_AT = ["spec.ccn", "./spec.ccn", "ABS", "../w/spec.ccn", "sub dir/s.ccn", "%s%n%d.ccn", "noext", "LINK", "x" * 180 + ".ccn", "sub//deep/../s.ccn", "-LAST"]
GENS_AT = ["gen/", "gen", "./gen", "ABS", "ABS/", "a b/", "%s%d%n/", "gen//", "g", "y" * 180 + "/", "DEFAULT", "old/gen", "../w/gen"]
BEFORE = ["nothing", "an empty directory", "the same output", "longer files", "the output of another specification", "shorter files"]
DIMS = {"options": OPTIONS, "environment": ENVS + PADS, "place of the specification": SPECS_AT, "place of the output": GENS_AT, "contents of the output directory": BEFORE,
        "build": ["debug"], "order of the arguments": ["specification first"], "output stream": ["full"]}


def files(d, all=False):
    o = {}
    for base, _, fs in os.walk(d):
        for f in fs:
            if all or f.endswith((".c", ".h")):
                o[os.path.relpath(os.path.join(base, f), d)] = open(os.path.join(base, f), "rb").read()
    return o


class World:
    def __init__(self, c, shim):
        self.c, self.shim, self.other = c, shim, {}
        self.tally, self.lock = {}, threading.Lock()

    def run(self, text, v, ref=None, exe=None):
        """One run in a directory of its own, deviating from the default in the dimensions of v."""
        c = self.c
        top = c.tmp("x")
        w = os.path.join(top, "w")
        os.makedirs(w)
        sp, gd = v.get("place of the specification", "spec.ccn"), v.get("place of the output", "gen/")
        arg = sp
        last = []
        if sp == "ABS":
            sp = arg = os.path.join(w, "spec.ccn")
        elif sp == "LINK":
            sp, arg = "real.ccn", "link.ccn"
            os.symlink("real.ccn", os.path.join(w, "link.ccn"))
        elif sp == "-LAST":
            sp = arg = "-spec.ccn"
            last = ["--"]
        if "deep" in sp:
            os.makedirs(os.path.join(w, "sub", "deep"))
        os.makedirs(os.path.dirname(os.path.normpath(os.path.join(w, sp))), exist_ok=True)
        with open(os.path.join(w, sp), "wb") as f:
            f.write(text.encode())
        garg = gd
        if gd == "DEFAULT":
            gd = "ccngen/"
        elif gd.startswith("ABS"):
            gd = garg = os.path.join(w, "gen") + gd[3:]
        elif gd.startswith("old/"):
            os.makedirs(os.path.join(w, "old"))
        g = os.path.normpath(os.path.join(w, gd))
        pre = v.get("contents of the output directory", "nothing")
        if pre != "nothing":
            os.makedirs(g, exist_ok=True)
        if pre in ("the same output", "longer files", "shorter files") and ref:
            for f, b in ref[1].items():
                os.makedirs(os.path.dirname(os.path.join(g, f)), exist_ok=True)
                open(os.path.join(g, f), "wb").write(b if pre[0] == "t" else b + b"// the end of an older file\n" * 50 if pre[0] == "l" else b[:-5])
        if pre == "the output of another specification":
            for f, b in self.other.items():
                os.makedirs(os.path.dirname(os.path.join(g, f)), exist_ok=True)
                open(os.path.join(g, f), "wb").write(b)
        o = v.get("options", [])
        if o and isinstance(o[0], list):
            o = [x for y in o for x in y]
        gen = [] if garg == "DEFAULT" else ["--gen-dir", garg]
        if v.get("order of the arguments"):
            cmd = [arg] + gen + o if not last else o + gen + last + [arg]
        else:
            cmd = o + gen + last + [arg]
        env = dict(v.get("environment", {}))
        if "PAD" in env:
            env["LD_PRELOAD"] = self.shim
        if env.get("POSIXLY_CORRECT") and v.get("order of the arguments"):
            env = {}
        exe = exe or c.cocogen("asan" if v.get("build") == "debug" else "rel")
        if v.get("build") == "debug":
            env.update(SAN_ENV)
            env.pop("LD_PRELOAD", None)
        argv = [exe] + cmd
        if v.get("output stream"):
            argv = ["/bin/sh", "-c", 'exec "$@" > /dev/full', "sh"] + argv
        before = files(top, True)
        r = run(argv, cwd=w, timeout=60, env=env)
        after = files(top, True)
        out = files(g)
        rel = os.path.relpath(g, top) + "/"
        stray = [f for f in sorted(set(after) | set(before)) if not f.startswith(rel) and after.get(f) != before.get(f)]
        extra = {f[len(rel):] for f in before if f.startswith(rel)}
        shutil.rmtree(top, ignore_errors=True)
        return r, out, stray, extra

    def compare(self, name, text, v, ref, exe=None):
        r, out, stray, extra = self.run(text, v, ref, exe)
        bad = None
        if r.timeout or r.rc < 0 or SAN_RE.search(r.err) or "MemorySanitizer" in r.err or "OOOPS" in r.text:
            bad = "ends abnormally: rc=%s timeout=%s %s" % (r.rc, r.timeout, r.err[-600:])
        elif r.rc != ref[0]:
            bad = "exits with %d instead of %d: %s" % (r.rc, ref[0], r.err[-300:])
        elif stray:
            bad = "changes files outside its output directory: %s" % stray[:3]
        elif not ref[0]:
            d = [f for f in sorted(set(ref[1]) | (set(out) - extra)) if out.get(f) != ref[1].get(f)]
            if d:
                bad = "generates other files: %s" % d[:4]
        if bad:
            self.c.violation("%s; %s" % (name, "; ".join("%s: %s" % x for x in sorted(v.items())) or exe), bad, {"specification": text, "deviation": v})
        self.c.add(1, 1, 1)
        return bad is None


def main():
    c = Check("C21")
    c.build("asan")
    c.build()
    shim = os.path.join(c.tmp(), "pad.so")
    r = run([GCC, "-O1", "-shared", "-fPIC", os.path.join(VERIF, "harness", "pad.c"), "-o", shim])
    if r.rc:
        raise CheckError("the allocator does not compile: " + r.text[-500:])
    w = World(c, shim)
    specs = {"everything": SPEC, "minimal": MINI, "rich": Base(rich=True).render({})}
    for p in sorted(glob.glob(os.path.join(REPO, "cocogen", "tests", "pass", "*.ccn"))) + [os.path.join(REPO, "cocogen", "main.ccn")]:
        specs[os.path.basename(p)] = open(p).read()
    specs.update(BAD)
    grams = {}
    for fam in (ag.chain1(1), ag.chain2(False, True), ag.siblings((True, False), False), ag.siblings((False, False), False), ag.twins(False), ag.setvisits(False), ag.setmix(), ag.nested(), ag.bare(), ag.typed(), ag.wide()):
        for i, g in enumerate(fam):
            grams[g.label] = g
    few = list(grams)[::max(1, len(grams) // (60 if THOROUGH else 12))]
    specs.update({l: grams[l].render() for l in few})
    refs = {}
    for name, text in specs.items():
        r, out, stray, _ = w.run(text, {})
        if r.timeout or r.rc not in (0, 1) or (r.rc == 0 and not out) or (name in BAD and not r.rc):
            c.violation(name, "a plain run fails: rc=%s %s" % (r.rc, r.err[-300:]), text)
            continue
        refs[name] = (r.rc, out)
        if b"rich" in text.encode() or name == "rich":
            w.other = out
    if "rich" in refs:
        w.other = refs["rich"][1]
    work = []
    for name in refs:
        for dim, vals in DIMS.items():
            for v in vals:
                work.append((name, {dim: v}))
    # two deviations at once: all pairs on one specification (thorough: on six), all pairs of options
    for name in (["everything"] if not THOROUGH else ["everything", "minimal", "rich", "main.ccn", "a cyclic set", few[0]]):
        if name not in refs:
            continue
        for d, e in itertools.combinations(sorted(DIMS), 2):
            for x, y in itertools.product(DIMS[d], DIMS[e]):
                work.append((name, {d: x, e: y}))
        for x, y in itertools.permutations(OPTIONS, 2):
            work.append((name, {"options": [x, y]}))
    done = pmap(lambda x: w.compare(x[0], specs[x[0]], x[1], refs[x[0]]), work)
    c.sample({"specifications": sorted(refs)[:12], "number": len(refs), "runs": len(work), "as the plain run": sum(done), "example": str(work[len(work) // 2][1])})

    # no decision of cocogen depends on memory that was never written: MemorySanitizer over all specifications at hand
    msan = os.path.join(c.scratch, "msan")
    r = run(["cmake", "-S", REPO, "-B", msan, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_C_COMPILER=/usr/bin/clang",
             "-DCMAKE_C_FLAGS=-O1 -g1 -w -fsanitize=memory -Wno-error=implicit-function-declaration -Wno-error=int-conversion"], timeout=300, env={"CC": "/usr/bin/clang", "CFLAGS": ""})
    r = r if r.rc else run(["ninja", "-C", msan, "cocogen"], timeout=600)
    if r.rc:
        raise CheckError("build with MemorySanitizer failed:\n" + r.text[-1500:])
    exe = os.path.join(msan, "cocogen", "cocogen")
    many = dict(specs)
    many.update(part_specs())
    many.update({l: g.render() for l, g in list(grams.items())[::1 if THOROUGH else 3]})
    def init(x):
        name, text = x
        r, out, stray, _ = w.run(text, {}, None, exe)
        s = None
        if name in refs and r.rc == 0 and out != refs[name][1]:
            s = "the files of a build with clang differ"
        if "MemorySanitizer" in r.err or r.timeout or r.rc not in (0, 1):
            s = "cocogen uses memory that was not initialised or ends abnormally: rc=%s %s" % (r.rc, r.err[:900])
        if s:
            c.violation(name + "; MemorySanitizer", s, text)
        c.add(1, 1, 1)
        return r.rc
    rcs = pmap(init, list(many.items()))
    c.sample({"specifications run under MemorySanitizer": len(many), "accepted": rcs.count(0)})

    # generated compilers
    flags = [[k, o] + d for k in (GCC, "/usr/bin/clang") for o in ("-O0", "-O2", "-O3" if k == GCC else "-Os") for d in ([], ["-DNDEBUG"])]
    flags += [["/usr/bin/clang", "-O1", "-g1", "-fsanitize=memory"], [GCC, "-O1", "-g1", "-fsanitize=address,undefined"], [GCC, "-O1", "-m64", "-std=gnu99"], [GCC, "-O1", "-funsigned-char", "-fshort-enums"]]
    g = generate(c, RUN)
    progs = []
    if g.ok:
        progs.append(("run-time system", g, [os.path.join(VERIF, "harness", "faults_main.c")]))
    else:
        c.violation("run-time system", "rejected: " + g.r.text[-300:], RUN)
    for l in few:
        gr = grams[l]
        if refs.get(l, (1,))[0] == 0:
            gen = generate(c, gr.render())
            src = os.path.join(gen.dir, "main.c")
            ts = [t for s in gr.starts()[0] for t in ag.trees(gr, s, 3)][:60]
            open(src, "w").write(ag.program(gr, ts, False))
            open(os.path.join(gen.dir, "user_types.h"), "w").write("#pragma once\ntypedef int *uptr;\ntypedef struct { int x; } ustruct;\n#define CCN_USES_UNSAFE_ACKNOWLEDGE\n")
            progs.append((l, gen, [src]))
    palm = csources(os.path.join(REPO, "palm", "src"))
    def matrix(x):
        (label, gen, src), fl = x
        gd = os.path.join(gen.dir, "gen")
        exe = os.path.join(c.tmp("p"), "prog")
        fs = [os.path.join(gd, f) for f in sorted(os.listdir(gd)) if f.endswith(".c")]
        if label != "run-time system":
            fs = [f for f in fs if os.path.basename(f) in ("ast.c", "ag.c", "visit.c")]
            fs += [] if all(os.path.exists(os.path.join(gd, f)) for f in ("ast.c", "ag.c", "visit.c")) else csources(gd)
            cop = []
        else:
            cop = csources(os.path.join(REPO, "copra", "src"))
        inc = ["-I" + gd, "-I" + gen.dir, "-I" + os.path.join(REPO, "copra"), "-I" + os.path.join(REPO, "palm", "include")]
        r = run(fl + ["-w"] + inc + fs + cop + src + palm + ["-lm", "-o", exe], timeout=240)
        if r.rc:
            return label, fl, None, "does not build: " + "\n".join(l for l in r.text.split("\n") if "error" in l or "undefined" in l)[:600]
        r = run([exe], cwd=os.path.dirname(exe), timeout=60, env=SAN_ENV)
        shutil.rmtree(os.path.dirname(exe), ignore_errors=True)
        bad = None
        if r.rc or r.timeout or SAN_RE.search(r.err) or "MemorySanitizer" in r.err:
            bad = "ends abnormally: rc=%s timeout=%s %s" % (r.rc, r.timeout, r.err[:700])
        return label, fl, r.out, bad
    jobs = [(p, f) for p in progs for f in flags]
    outs = {}
    for label, fl, out, bad in pmap(matrix, jobs):
        k = "%s; compiled with %s" % (label, " ".join(os.path.basename(x) for x in fl))
        c.add(1, 1, 1)
        if bad:
            c.violation(k, bad, specs.get(label, RUN))
        elif outs.setdefault(label, (fl, out))[1] != out:
            a, b = outs[label][1].split("\n"), out.split("\n")
            c.violation(k, "prints something else than when compiled with %s: %s" % (outs[label][0], [x for x in zip(b, a) if x[0] != x[1]][:2]), specs.get(label, RUN))
    c.sample({"generated compilers": len(progs), "ways to compile": [" ".join(os.path.basename(x) for x in f) for f in flags], "an output": outs.get("run-time system", ("", ""))[1].split("\n")[:4]})

    # command lines that do not generate
    def cli(args, rc, what):
        d = c.tmp("c")
        open(os.path.join(d, "spec.ccn"), "w").write(SPEC)
        before = files(d, True)
        r = run([c.cocogen("asan")] + args, cwd=d, timeout=60, env=SAN_ENV)
        made = [f for f in files(d, True) if f not in before]
        if r.rc != rc or SAN_RE.search(r.err) or (what and what not in r.text) or made:
            c.violation("cocogen " + " ".join(args), "exits with %s instead of %d, or without %r, or makes files %s: %s" % (r.rc, rc, what, made[:3], r.text[-400:]), args)
        c.add(1, 1, 1)
        shutil.rmtree(d, ignore_errors=True)
    lines = []
    for pre in [[]] + OPTIONS + [["--gen-dir", "gen/"]]:
        for post in ([], ["spec.ccn"]):
            lines += [(pre + ["--help"] + post, 0, "Usage: cocogen"), (pre + ["--version"] + post, 0, "cocogen"), (pre + ["--show-structure"] + post, 0, "semantic"),
                      (pre + ["--nonsense"] + post, 1, "Usage: cocogen"), (pre + ["--ag-scheduler-max-iter", "many"] + post, 1, "many")]
        lines += [(pre, 1, "Usage: cocogen"), (pre + ["spec.ccn", "spec.ccn"], 1, "Usage: cocogen"), (pre + ["--gen-dir"], 1, "Usage: cocogen")]
    pmap(lambda x: cli(*x), lines)
    c.assumptions = ["every single deviation (%s) for %d specifications, all pairs of deviations for one (thorough: six); sources and headers compared byte by byte, the order inside graphs for humans (.dot) is not" % (
        ", ".join("%s %d" % (d, len(v)) for d, v in DIMS.items()), len(refs)),
        "addresses are varied by six allocation patterns; those of every other input are as the C library gives them", "%d command lines that do not generate" % len(lines)]
    c.finish()


main()
