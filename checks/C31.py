"""C31: palm's debug library and directory helper do what their documentation says, in every history of calls."""
import errno, os, stat, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from ccn import *

NOBODY = 65534
MAXN = 5 if THOROUGH else 4


def debug(c):
    jobs = []
    for d in ("", "-DNDEBUG"):
        exe = os.path.join(c.scratch, "dbug" + d)
        compile_palm_harness(c, [os.path.join(VERIF, "harness", f) for f in ("dbug.c", "dbug2.c")], exe, extra=["-Wl,--wrap=abort"] + ([d] if d else []), wrap=False, san=False)
        jobs += [(exe, d, p) for p in range(25)]
    def one(j):
        return j, run([j[0], str(MAXN), str(j[2]), "25"], timeout=800)
    for (exe, d, p), r in pmap(one, jobs):
        m = re.search(r"^OK\tcases=(\d+)\tcalls=(\d+)", r.out, re.M)
        f = re.search(r"^FAIL\t(.*?)\t(.*)", r.out, re.M | re.S)
        if m:
            c.add(int(m.group(1)), int(m.group(2)), int(m.group(1)))
            if p == 0:
                c.sample("debug library %s: sequences that start with operation 0: %s" % (d, m.group(0)))
        else:
            c.violation("debug %s %s" % (d, f.group(1) if f else "died"), ("operations [%s] %s: %s" % (f.group(1), d, f.group(2))) if f else "harness died rc=%s %s" % (r.rc, r.text[-800:]), {"build": d, "operations": f and f.group(1)})


# name: (preparation, path, error or None as root, as an unprivileged user)
def states():
    E = errno
    long = "n" * 255
    yield "new", [], "new", None, None
    yield "new with slash", [], "new/", None, None
    yield "existing", [("e", "dir", 0o755), ("e/f", "file")], "e", None, None
    yield "existing with slash", [("e", "dir", 0o711)], "e/", None, E.EACCES
    yield "existing, not writable", [("e", "dir", 0o555)], "e", None, None
    yield "existing, not readable", [("e", "dir", 0o333)], "e", None, E.EACCES
    yield "file", [("f", "file")], "f", E.ENOTDIR, E.ENOTDIR
    yield "file with slash", [("f", "file")], "f/", E.ENOTDIR, E.ENOTDIR
    yield "empty file name", [], "", E.ENOENT, E.ENOENT
    yield "current", [], ".", None, None
    yield "parent", [("e", "dir", 0o777)], "e/..", None, None
    yield "in existing", [("e", "dir", 0o777)], "e/new", None, None
    yield "existing in existing", [("e", "dir", 0o777), ("e/g", "dir", 0o777)], "e/g", None, None
    yield "around", [("e", "dir", 0o777)], "e/../new", None, None
    yield "no parent", [], "p/new", E.ENOENT, E.ENOENT
    yield "below file", [("f", "file")], "f/new", E.ENOTDIR, E.ENOTDIR
    yield "link to directory", [("e", "dir", 0o755), ("l", "e")], "l", None, None
    yield "link to file", [("f", "file"), ("l", "f")], "l", E.ENOTDIR, E.ENOTDIR
    yield "link to nothing", [("l", "nowhere")], "l", E.ENOENT, E.ENOENT
    yield "link to itself", [("l", "l")], "l", E.ELOOP, E.ELOOP
    yield "in link", [("e", "dir", 0o777), ("l", "e")], "l/new", None, None
    yield "parent not writable", [("e", "dir", 0o555)], "e/new", None, E.EACCES
    yield "existing, parent not writable", [("e", "dir", 0o777), ("e/g", "dir", 0o755), ("e", "-", 0o555)], "e/g", None, None
    yield "parent not searchable", [("e", "dir", 0o777), ("e/g", "dir", 0o777), ("e", "-", 0o666)], "e/g", None, E.EACCES
    yield "long name", [], long, None, None
    yield "longer name", [], long + "n", E.ENAMETOOLONG, E.ENAMETOOLONG
    yield "percent", [], "100%s%n", None, None
    yield "percent below file", [("f", "file")], "f/100%s%d", E.ENOTDIR, E.ENOTDIR


def snapshot(d):
    out = {}
    for base, ds, fs in os.walk(d):
        for x in ds + fs:
            p = os.path.join(base, x)
            s = os.lstat(p)
            out[os.path.relpath(p, d)] = (stat.S_IFMT(s.st_mode), stat.S_IMODE(s.st_mode), open(p).read() if stat.S_ISREG(s.st_mode) else os.readlink(p) if stat.S_ISLNK(s.st_mode) else "")
    return out


def directories(c):
    os.chmod(c.scratch, 0o755)
    exe = compile_palm_harness(c, [os.path.join(VERIF, "harness", "mkdirs.c")], os.path.join(c.scratch, "mkdirs"), wrap=False, san=False)
    skipped = []
    sts = list(states())
    probe = os.path.join(c.scratch, "probe")
    os.mkdir(probe, 0)
    try:
        os.listdir(probe)
        almighty = os.geteuid() == 0
    except OSError:             # a root whose files are protected from it
        almighty = False
    def one(job):
        (name, prep, path, eroot, euser), mode, um, uid, twice = job
        d = c.tmp("d")
        os.chmod(d, 0o777)
        for x in prep:
            p = os.path.join(d, x[0])
            if x[1] == "dir":
                os.mkdir(p)
            elif x[1] == "file":
                with open(p, "w") as f:
                    f.write("text")
            elif x[1] != "-":
                os.symlink(x[1], p)
        for x in prep:
            if len(x) > 2:
                os.chmod(os.path.join(d, x[0]), x[2])
        before = snapshot(d)
        exists = os.path.isdir(os.path.join(d, path)) if path else False
        limited = uid or not almighty
        want = euser if limited else eroot
        # a directory that its user cannot read is not there for the second call
        second = want is None and twice and not exists and limited and not (mode & ~um) & 0o400
        r = run([exe, str(uid), "%o" % um, "%o" % mode] + [path] * (1 + twice), cwd=d, timeout=60)
        if r.rc == 99:
            skipped.append(name)
            shutil.rmtree(d, ignore_errors=True)
            return
        after = snapshot(d)
        key = "%s mode %o umask %o%s%s" % (name, mode, um, " unprivileged" if uid else "", " twice" if twice else "")
        def bad(what):
            c.violation("directory: " + key, "%s (%r): %s; exit status %s, %s" % (key, path[:60], what, r.rc, r.text[-300:]), {"case": key, "path": path})
        if want is None and not second:
            if r.rc != 0 or r.err or r.out != "1\n2\n"[:2 + 2 * twice]:
                bad("is not ensured")
        else:
            e = errno.EACCES if second else want
            if r.rc != 1 or os.strerror(e) not in r.err or path not in r.err or (r.out != ("1\n" if second else "")):
                bad("the failure (%s) is not reported" % os.strerror(e))
        new = {} if want is not None or exists else {os.path.relpath(os.path.realpath(os.path.join(d, path)), os.path.realpath(d)): (stat.S_IFDIR, mode & ~um, "")}
        if after != dict(before, **new):
            bad("afterwards %s, expected %s" % ({k: v for k, v in after.items() if before.get(k) != v}, new))
        c.add(1, 1 + twice, 1)
        for base, ds, fs in os.walk(d):
            for x in ds:
                if not os.path.islink(os.path.join(base, x)):
                    os.chmod(os.path.join(base, x), 0o777)
        shutil.rmtree(d, ignore_errors=True)
    jobs = [(s, mode, um, uid, t) for s in sts for mode in (0o755, 0o700, 0o777, 0o500, 0o300) for um in (0, 0o22, 0o77) for uid in (0, NOBODY) for t in (0, 1)]
    pmap(one, jobs)
    c.sample("directories: %d states of the file system x 5 modes x 3 umasks x privileged or not x once or twice" % len(sts))
    if skipped:
        c.assumptions.append("%d cases for unprivileged users could not be run here" % len(skipped))


def main():
    c = Check("C31")
    c.assumptions = ["debug library: all sequences of up to %d operations of 25 (messages and assertions with and without MODULE, with and without format arguments, direct calls, DBUGoff), with and without NDEBUG; DBUGF, which is deprecated, is not used" % MAXN,
                     "messages of failed assertions must contain the place and the text, their wording is free"]
    debug(c)
    directories(c)
    c.finish()


if __name__ == "__main__":
    main()
