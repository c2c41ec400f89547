"""C24: no resource failure is silent or a crash, neither in cocogen nor in generated compilers."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from wf import *
import threading
from runspecs import *


def tree(d):
    """Contents of all files; those of graphs without their order, which is that of the addresses of the nodes."""
    out = {}
    for base, _, files in os.walk(d):
        for f in files:
            b = open(os.path.join(base, f), "rb").read()
            out[os.path.relpath(os.path.join(base, f), d)] = sorted(b.split(b"\n")) if f.endswith(".dot") else b
    return out


def main():
    c = Check("C24")
    c.build()
    shim = os.path.join(c.tmp(), "faults.so")
    r = run([GCC, "-O1", "-shared", "-fPIC", os.path.join(VERIF, "harness", "faults.c"), "-ldl", "-o", shim])
    if r.rc:
        raise CheckError("the fault shim does not compile: " + r.text[-1000:])
    tally, lock = {}, threading.Lock()

    def faulty(cmd, d, kind="", n=0, mode="fail"):
        cnt = os.path.join(d, "count")
        r = run(cmd, cwd=d, timeout=60, env=dict(LD_PRELOAD=shim, FAULT_KIND=kind, FAULT_N=str(n), FAULT_MODE=mode, FAULT_COUNT=cnt))
        if not os.path.exists(cnt):
            return r, {}
        counts = {l.split()[0]: int(l.split()[1]) for l in open(cnt)}
        os.remove(cnt)
        return r, counts

    specs = {"everything": SPEC, "minimal": MINI}
    if THOROUGH:
        specs["rich"] = Base(rich=True).render({})
    specs.update(BAD)
    work, expect, files = [], {}, {}
    for name, text in specs.items():
        d = c.tmp("s")
        files[name] = os.path.join(d, "spec.ccn")
        open(files[name], "w").write(text)
        cmd = [c.cocogen(), "--gen-dir", d + "/gen/", files[name]]
        plain, (r, counts) = run(cmd, cwd=d), faulty(cmd, d)
        if r.timeout or r.rc not in (0, 1) or r.rc != plain.rc or (r.rc == 0) == (name in BAD):
            c.violation(name, "rc=%s, %s without a fault" % (r.rc, plain.rc), text)
            continue
        # the bytes on disk must be those of a run without the shim: this ties the shim's files to real ones
        a = tree(d + "/gen")
        shutil.rmtree(d + "/gen")
        run(cmd, cwd=d)
        if a != tree(d + "/gen"):
            c.violation(name, "the files of two runs differ", text)
            continue
        expect[name] = (r.rc, a)
        c.sample({"specification": name, "calls": counts, "exit": r.rc}, 4)
        for kind in ("open", "mkdir", "write", "close", "read", "alloc"):
            for n in range(1, counts[kind] + 1):
                modes = ["fail"]
                if name in ("everything", "minimal") or THOROUGH:
                    modes += ["stay"] if kind in ("write", "alloc") and (THOROUGH or name == "minimal") else []
                    modes += ["crash"] if kind != "alloc" and (THOROUGH or name == "minimal" or kind != "write" or n % 8 == 0) else []
                work += [(name, kind, n, m) for m in modes]
    base = c.tmp("w")

    def one(w):
        name, kind, n, mode = w
        rc, want = expect[name]
        d = os.path.join(base, "%s-%s-%d-%s" % (name.replace(" ", "_"), kind, n, mode))
        os.makedirs(d)
        cmd = [c.cocogen(), "--gen-dir", d + "/gen/", files[name]]
        r, counts = faulty(cmd, d, kind, n, mode)
        bad = None
        fired = counts.get("fired", 0)
        if mode == "crash":
            # ended in the middle: the next run must repair everything that was left half written
            r2 = run(cmd, cwd=d, timeout=60)
            if r.rc != 99 or r2.rc != rc:
                bad = "ended there rc=%s, the next run rc=%s instead of %s" % (r.rc, r2.rc, rc)
            elif tree(d + "/gen") != want:
                bad = "after a run that was ended there the next run leaves other files"
            kindof = "repaired by the next run"
        elif r.timeout or r.rc < 0 or r.rc > 2 or "OOOPS" in r.text:
            bad = "ends abnormally: rc=%s timeout=%s" % (r.rc, r.timeout)
        elif not fired:
            bad = "the call that has to fail was not reached: rc=%s" % r.rc
        elif r.rc == 0:
            kindof = "complete output"
            if rc or tree(d + "/gen") != want:
                bad = "exits with 0, but " + ("the specification is not acceptable" if rc else "the files are not those of a run without a failure")
        else:
            kindof = "reported"
            if not r.err.strip():
                bad = "exits with %d without a message" % r.rc
        shutil.rmtree(d, ignore_errors=True)
        if bad:
            c.violation("%s: %s %d %s" % w, bad + " " + r.err[-300:], {"specification": specs[name], "fault": w[1:]})
        else:
            with lock:
                k = "%s %s: %s" % (kind, mode, kindof)
                tally[k] = tally.get(k, 0) + 1
    pmap(one, work)
    c.add(len(work), sum(1 + (w[3] == "crash") for w in work), len(work))

    # generated compilers
    g = generate(c, RUN)
    if not g.ok:
        raise CheckError("the compiler for the run-time part is rejected: " + g.r.text[-500:])
    r, exe = compile_project(c, g, [os.path.join(VERIF, "harness", "faults_main.c")], user=False)
    if r.rc:
        c.violation("run time", "the compiler for the run-time part does not build: " + r.text[-800:], RUN)
        c.finish()
    d = c.tmp("r")
    ref, counts = faulty([exe], d)
    plain = run([exe], cwd=d)
    if ref.rc or not ref.out.endswith("done\n") or plain.out != ref.out:
        c.violation("run time", "the compiler does not run to its end without a failure: rc=%s %s" % (ref.rc, ref.text[-500:]), RUN)
        c.finish()
    c.sample({"generated compiler": ref.out.split("\n"), "allocations": counts["alloc"]}, 8)

    def rt(w):
        n, mode = w
        d = c.tmp("r")
        r, counts = faulty([exe], d, "alloc", n, mode)
        shutil.rmtree(d, ignore_errors=True)
        bad = None
        if r.timeout or r.rc < 0 or r.rc > 2 or "OOOPS" in r.text:
            bad = "ends abnormally: rc=%s timeout=%s" % (r.rc, r.timeout)
        elif r.rc == 0 and r.out != ref.out:
            bad = "exits with 0, but its output is another"
        elif r.rc and "ut of memory" not in r.err:
            bad = "exits with %d without a message" % r.rc
        if bad:
            c.violation("generated compiler: allocation %d %s" % w, bad + " " + r.text[-300:], {"specification": RUN, "fault": w})
        with lock:
            k = "generated compiler: " + ("complete output" if r.rc == 0 else "reported")
            tally[k] = tally.get(k, 0) + 1
    w = [(n, m) for n in range(1, counts["alloc"] + 1) for m in ("fail", "stay")]
    pmap(rt, w)
    c.add(len(w), len(w), len(w))
    c.sample(tally, 8)
    c.assumptions += ["Failures are those of fopen, mkdir, the reading, writing and closing of files, and the allocations the programs ask for themselves; "
                      "what the C library does when its own allocations fail is not judged.",
                      "After a reported failure the programs end, so a second independent failure has no effect; persistent failure is explored (thorough: at every point)."]
    c.finish()


main()
