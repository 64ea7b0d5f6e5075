"""Runs the programs under test in scratch directories and collects everything they produce."""
import os, resource, shutil, subprocess, time

FSIZE = 64 << 20          # no run may write a file larger than this
SPACE = 2 << 30           # address space of a run, unless it is a sanitizer build
CAP = 4 << 20             # bytes of a file or of the console that are looked at


class Obs:
    """What one run produced."""
    __slots__ = ("code", "signal", "timeout", "out", "err", "files", "secs")

    def file(self, name):
        return self.files.get(name)


def limits():
    """Called once in every worker; the children inherit the limits."""
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (FSIZE, FSIZE))


def lat(s):
    return s.encode("latin-1") if isinstance(s, str) else s


def write_files(d, files):
    for name, data in files.items():
        p = os.path.join(d, name)
        if "/" in name:
            os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(lat(data))


def launch(argv, cwd, timeout=10, env=None, space=SPACE, fsize=None):
    """Runs argv in cwd and returns (code, signal, timeout, stdout, stderr, secs)."""
    o = open(os.path.join(cwd, ".stdout"), "wb")
    e = open(os.path.join(cwd, ".stderr"), "wb")
    t = time.monotonic()
    old = resource.getrlimit(resource.RLIMIT_AS)
    oldf = resource.getrlimit(resource.RLIMIT_FSIZE)
    try:
        if fsize is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, oldf[1]))
        if space:
            resource.setrlimit(resource.RLIMIT_AS, (space, old[1]))
        # SIGXFSZ stays ignored: a write over the limit fails instead of killing the program
        p = subprocess.Popen([lat(a) for a in argv], cwd=cwd, stdin=subprocess.DEVNULL, stdout=o, stderr=e,
                             env=env, close_fds=False, restore_signals=False)
        resource.setrlimit(resource.RLIMIT_AS, old)
        resource.setrlimit(resource.RLIMIT_FSIZE, oldf)
        # if this worker is killed the child ends all the same
        cpu = int(2 * timeout) + 10
        resource.prlimit(p.pid, resource.RLIMIT_CPU, (cpu, cpu))
        late = False
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            late = True
            p.kill()
            p.wait()
    finally:
        resource.setrlimit(resource.RLIMIT_AS, old)
        resource.setrlimit(resource.RLIMIT_FSIZE, oldf)
        o.close()
        e.close()
    secs = time.monotonic() - t
    rc = p.returncode
    return (rc if rc >= 0 else None, -rc if rc < 0 else 0, late,
            readcap(os.path.join(cwd, ".stdout")), readcap(os.path.join(cwd, ".stderr")), secs)


def readcap(p, cap=CAP):
    try:
        with open(p, "rb") as f:
            return f.read(cap)
    except OSError:
        return None


BASE_ENV = {"PATH": "/usr/bin:/bin", "LC_ALL": "C"}


def run(exe, case, scratch, outs=None, timeout=10, env=None, args=None, keep_unknown=False, name="c", space=SPACE,
        fsize=None, cap=CAP):
    """Runs exe on a case: {"files": {name: text}, "main": name, "args": [...]}.

    outs: names of files to collect (default: the ones named on the command line); fsize: file size limit; cap: bytes looked at."""
    d = os.path.join(scratch, name)
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.mkdir(d)
    try:
        write_files(d, case["files"])
        a = case["args"] if args is None else args
        code, sig, late, out, err, secs = launch([exe] + list(a), d, timeout, env or BASE_ENV, space, fsize)
        r = Obs()
        r.code, r.signal, r.timeout, r.out, r.err, r.secs = code, sig, late, out, err, secs
        if outs is None:
            outs = [x[2:] for x in a if x[:2] in ("-o", "-l", "-L", "-s")] or ["a.out"]
        r.files = {n: readcap(os.path.join(d, n), cap) for n in outs}
        if keep_unknown:
            r.files["*"] = sorted(os.path.relpath(os.path.join(p, f), d) for p, _, fs in os.walk(d) for f in fs)
            for n in r.files["*"]:
                if n not in r.files and not n.startswith("."):
                    r.files[n] = readcap(os.path.join(d, n))
        return r
    finally:
        shutil.rmtree(d)
