"""Shared machinery of the checks: scratch handling, building /repo, generating and compiling
projects, known findings, violations, evidence."""
import atexit, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TIER = "thorough" if (os.environ.get("VERIF_TIER") == "thorough" or "--thorough" in sys.argv) else "quick"
THOROUGH = TIER == "thorough"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
NCPU = max(1, min(16, os.cpu_count() or 8))
GCC = "/usr/bin/gcc"
KNOWN_FILE = os.path.join(VERIF, "known_findings.txt")


class CheckError(Exception):
    pass


class Res:
    """Outcome of a child process: rc (negative = signal), out, err, timeout."""
    def __init__(self, rc, out, err, timeout=False):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout

    @property
    def text(self):
        return self.out + self.err


def run(cmd, cwd=None, timeout=60, inp=None, env=None, binary=False):
    e = dict(os.environ)
    for k in ("CFLAGS", "LDFLAGS", "MAKEFLAGS"):
        e.pop(k, None)
    e["LC_ALL"] = "C"
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, cwd=cwd, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, start_new_session=True)
    try:
        out, err = p.communicate(inp if (inp is None or isinstance(inp, bytes)) else inp.encode(), timeout=timeout)
        to = False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, err = p.communicate()
        to = True
    if not binary:
        out, err = out.decode("utf-8", "replace"), err.decode("utf-8", "replace")
    return Res(p.returncode, out, err, to)


SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0",
    "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=0",
}
SAN_RE = re.compile(r"(AddressSanitizer|runtime error:|LeakSanitizer|OOOPS your program)")


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="ccnv-%s-" % prop, dir=os.environ.get("VERIF_TMP", "/tmp"))
        atexit.register(self._cleanup)
        self.viol = []          # (key, detail, replay)
        self.known_hit = {}
        self.known = load_known().get(prop, {})
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.exhaustive = True
        self.builds = {}
        self._n = 0

    def _cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    # ---------------------------------------------------------------- building
    def build(self, variant="rel"):
        """Build palm and cocogen from REPO's working tree; returns the build directory."""
        if variant in self.builds:
            return self.builds[variant]
        d = os.path.join(self.scratch, "build-" + variant)
        flags = {"rel": "-O1 -w", "asan": "-O1 -g1 -w -fsanitize=address,undefined -fno-omit-frame-pointer"}[variant]
        kind = {"rel": "RelWithDebInfo", "asan": "Debug"}[variant]      # with asan also the assertions are on
        env = {"CC": GCC, "CFLAGS": ""}
        r = run(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=" + kind,
                 "-DCMAKE_C_COMPILER=" + GCC, "-DCMAKE_C_FLAGS=" + flags], timeout=300, env=env)
        if r.rc:
            raise CheckError("cmake failed:\n" + r.text[-3000:])
        r = run(["ninja", "-C", d, "cocogen"], timeout=600, env=env)
        if r.rc:
            raise CheckError("build failed:\n" + r.text[-3000:])
        self.builds[variant] = d
        return d

    def cocogen(self, variant="rel"):
        return os.path.join(self.build(variant), "cocogen", "cocogen")

    def palm(self, variant="rel"):
        return os.path.join(self.build(variant), "palm", "libpalm.a")

    def tmp(self, name=None):
        self._n += 1
        d = os.path.join(self.scratch, "%s%d" % (name or "t", self._n))
        os.makedirs(d)
        return d

    # ---------------------------------------------------------------- reporting
    def sample(self, s, maxn=6):
        if len(self.cov["samples"]) < maxn:
            self.cov["samples"].append(s)

    def add(self, states=0, transitions=0, traces=0):
        self.cov["states"] += states
        self.cov["transitions"] += transitions
        self.cov["traces_validated_against_impl"] += traces

    def violation(self, key, detail, replay=None):
        """key: names the specific failing input/history; matched exactly against known findings."""
        if key in self.known:
            self.known_hit[key] = detail
            return
        self.viol.append((key, detail, replay))
        if os.environ.get("VERIF_STOP"):         # for experiments: the first violation is enough
            print("VIOLATION property=%s replay=(none)\n  key: %s\n  %s" % (self.prop, key, detail[:600]), flush=True)
            shutil.rmtree(self.scratch, ignore_errors=True)
            os._exit(1)

    def finish(self):
        wall = time.time() - self.t0
        rep = []
        rd = os.path.join(VERIF, "evidence", "replay")
        for i, (key, detail, replay) in enumerate(self.viol[:6]):
            os.makedirs(rd, exist_ok=True)
            p = os.path.join(rd, "%s-%d.json" % (self.prop, i))
            with open(p, "w") as f:
                json.dump({"property": self.prop, "key": key, "detail": detail, "replay": replay}, f, indent=1, default=str)
            rep.append(p)
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level,
              "coverage": dict(self.cov, exhaustive=self.exhaustive), "assumptions": self.assumptions,
              "wall_s": round(wall, 2), "violations": len(self.viol)}
        if not ev["coverage"]["samples"]:
            ev["coverage"]["samples"] = ["(no execution completed)"]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k, desc in self.known.items():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, desc))
            if k not in self.known_hit:
                print("note: known finding %r did not reproduce in this run" % k)
        print("%s tier=%s states=%d transitions=%d impl_traces=%d violations=%d wall=%.1fs" % (
            self.prop, TIER, self.cov["states"], self.cov["transitions"],
            self.cov["traces_validated_against_impl"], len(self.viol), wall))
        if os.environ.get("VERIF_ALL"):
            with open(os.environ["VERIF_ALL"], "w") as f:
                f.writelines("%s\n    %s\n" % (k, str(d).replace("\n", " ")[:600]) for k, d, _ in self.viol)
        for (key, detail, _), p in zip(self.viol, rep):
            print("  key: %s\n  %s" % (key[:200], str(detail)[:900 if rep.index(p) < 3 else 120].replace("\n", "\n    ")))
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        sys.stdout.flush()
        self._cleanup()
        os._exit(1 if self.viol else 0)


def load_known():
    """known_findings.txt: 'known: property=<id> key=<<<key>>> <what fails>' and
    'fixed: property=<id> <commit> <what failed>' (informational, suppresses nothing)."""
    known = {}
    if os.path.exists(KNOWN_FILE):
        for l in open(KNOWN_FILE):
            m = re.match(r"known: property=(\S+) key=<<<(.*?)>>> (.*)", l.strip())
            if m:
                known.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return known


def pmap(fn, items, workers=NCPU):
    """Run fn over items in a thread pool (the work is in child processes); results in order."""
    with cf.ThreadPoolExecutor(workers) as ex:
        return list(ex.map(fn, items))


# -------------------------------------------------------------------- generation
class Gen:
    """Result of running cocogen on a specification."""
    def __init__(self, r, d, spec):
        self.r, self.dir, self.spec = r, d, spec
        self.rc = r.rc
        self.ok = r.rc == 0 and not r.timeout

    @property
    def crashed(self):
        return self.r.timeout or self.r.rc not in (0, 1) or bool(SAN_RE.search(self.r.err)) or bool(SAN_RE.search(self.r.out))


def generate(chk, spec, d=None, variant="rel", args=(), timeout=30):
    """Write spec to <d>/spec.ccn and run cocogen with --gen-dir <d>/gen/."""
    d = d or chk.tmp("g")
    p = os.path.join(d, "spec.ccn")
    mode = "wb" if isinstance(spec, bytes) else "w"
    with open(p, mode) as f:
        f.write(spec)
    g = os.path.join(d, "gen")
    os.makedirs(g, exist_ok=True)
    r = run([chk.cocogen(variant)] + list(args) + ["--gen-dir", g + "/", p], cwd=d, timeout=timeout, env=SAN_ENV)
    if r.timeout:   # a deterministic run: re-run alone with a longer limit before calling it a hang
        r = run([chk.cocogen(variant)] + list(args) + ["--gen-dir", g + "/", p], cwd=d, timeout=timeout * 4, env=SAN_ENV)
    return Gen(r, d, spec)


def csources(d):
    out = []
    for base, _, files in os.walk(d):
        for f in sorted(files):
            if f.endswith(".c"):
                out.append(os.path.join(base, f))
    return sorted(out)


def compile_project(chk, gen, harness_srcs, exe=None, user=True, skip_user=(), san=False, extra=(), defs=(), release=False):
    """Compile the generated code of gen together with copra, palm and the given harness sources.
    user: also compile the generated skeletons under gen/user except the basenames in skip_user."""
    g = os.path.join(gen.dir, "gen")
    exe = exe or os.path.join(gen.dir, "prog")
    src = [os.path.join(g, f) for f in sorted(os.listdir(g)) if f.endswith(".c")]
    if user and os.path.isdir(os.path.join(g, "user")):
        src += [s for s in csources(os.path.join(g, "user")) if os.path.basename(s) not in skip_user]
    copra = os.path.join(REPO, "copra")
    src += csources(os.path.join(copra, "src")) + list(harness_srcs)
    variant = "asan" if san else "rel"
    flags = (["-O1", "-DNDEBUG"] if release else ["-O0"]) + ["-w", "-fmax-errors=5"]
    if san:
        flags += ["-g1", "-fsanitize=address,undefined"]
    inc = ["-I" + g, "-I" + copra, "-I" + os.path.join(REPO, "palm", "include")]
    cmd = [GCC] + flags + ["-D" + x for x in defs] + inc + src + [chk.palm(variant)] + list(extra) + ["-lm", "-o", exe]
    r = run(cmd, timeout=240)
    return r, exe


def compile_palm_harness(chk, srcs, exe, extra=(), wrap=True, san=True):
    """Compile all of palm's sources together with a harness (sanitizers on, allocations wrapped)."""
    cmd = [GCC, "-O1", "-g1", "-w", "-I" + os.path.join(REPO, "palm", "include"), "-I" + os.path.join(VERIF, "harness")]
    if san:
        cmd += ["-fsanitize=address,undefined", "-fsanitize-trap=undefined", "-fno-omit-frame-pointer"]
    if wrap:
        cmd += ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"]
    cmd += list(extra) + list(srcs) + csources(os.path.join(REPO, "palm", "src")) + ["-lm", "-o", exe]
    r = run(cmd, timeout=300)
    if r.rc:
        raise CheckError("harness build failed:\n" + r.text[-3000:])
    return exe
