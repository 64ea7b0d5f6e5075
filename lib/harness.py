"""Seeds, workers, verdicts, replay files, known findings and evidence."""
import collections, hashlib, json, multiprocessing, os, random, shutil, sys, tempfile, time, traceback

from . import build as B, run as R

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HELD, VIOLATED, INCONCLUSIVE = "held", "violated", "inconclusive"
HANG = "does not end"


class Verdict:
    """Outcome of judging one case."""
    def __init__(self, prop=None):
        self.kind = HELD
        self.what = None            # short, stable description of the failure (also its identity)
        self.detail = None
        self.stats = collections.Counter()
        self.sigs = set()           # signatures of distinct non-trivial observations
        self.runs = 0

    def fail(self, what, detail=""):
        if self.kind != VIOLATED:
            self.kind, self.what, self.detail = VIOLATED, what, detail
        return self

    def unsure(self, what):
        if self.kind == HELD:
            self.kind, self.what = INCONCLUSIVE, what
        return self

    def saw(self, *key):
        self.sigs.add(hashlib.blake2b(repr(key).encode("latin-1", "replace"), digest_size=8).digest())

    def count(self, key, n=1):
        self.stats[key] += n


class Ctx:
    """What a judge needs: the built programs and a scratch directory."""
    def __init__(self, base, variants, tools=()):
        self.base = base
        self.bins = {v: B.build(base, v, tools) for v in variants}
        self.scratch = None
        self.patience = 1           # raised when an undecided case is tried again

    def dasm(self, variant="plain"):
        return os.path.join(self.bins[variant], "dasm")

    def ftohex(self, variant="plain"):
        return os.path.join(self.bins[variant], "ftohex")

    def tool(self, name, variant="plain"):
        return os.path.join(self.bins[variant], name)

    def run(self, case, variant="plain", v=None, exe=None, **kw):
        kw["timeout"] = kw.get("timeout", 10) * self.patience
        o = R.run(exe or self.dasm(variant), case, self.scratch, **kw)
        if v is not None:
            v.runs += 1
        return o


_ctx = _mod = _seed = _tier = None


def _init():
    R.limits()
    _ctx.scratch = tempfile.mkdtemp(prefix="w", dir=_ctx.base)


def rng_for(seed, prop, i):
    return random.Random("%d/%s/%d" % (seed, prop, i))


def _one(i):
    try:
        case = _mod.case(rng_for(_seed, _mod.ID, i), i, _tier)
        if case is None:
            return i, None, None
        v = judge(_mod, case)
        return i, v, case if v.kind != HELD or i < 3 else None
    except Exception:
        return i, traceback.format_exc(), None


def judge(mod, case):
    v = Verdict()
    mod.judge(case, _ctx, v)
    if v.kind == INCONCLUSIVE:           # once more, before it is reported as undecided
        w = Verdict()
        _ctx.patience = 4
        try:
            mod.judge(case, _ctx, w)
        finally:
            _ctx.patience = 1
        w.stats["retried"] += 1
        return w
    return v


def minimise(mod, case, what, budget=150):
    """Drops lines of the sources while the same failure remains."""
    if not isinstance(case.get("files"), dict) or getattr(mod, "NO_MINIMISE", False):
        return case
    best = json.loads(json.dumps(case))

    def still(c):
        try:
            v = Verdict()
            mod.judge(c, _ctx, v)
            return v.kind == VIOLATED and v.what == what
        except Exception:
            return False
    for name in sorted(best["files"]):
        data = best["files"][name]
        if not isinstance(data, str) or "\n" not in data:
            continue
        lines = data.split("\n")
        step = max(1, len(lines) // 2)
        while step >= 1 and budget > 0:
            k = 0
            while k < len(lines) and budget > 0:
                trial = lines[:k] + lines[k + step:]
                c = dict(best, files=dict(best["files"], **{name: "\n".join(trial)}))
                budget -= 1
                if still(c):
                    lines, best = trial, c
                else:
                    k += step
            step //= 2
    return best


def known_findings():
    """Lines 'known: property=<id> <what>' of the known-findings file; 'fixed:' lines suppress nothing."""
    res = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property="):
                prop, what = line[len("known: property="):].split(" ", 1)
                res.append((prop, what))
    return res


def scratch_base():
    for d in (os.environ.get("VERIF_SCRATCH"), "/dev/shm", "/tmp"):
        if d and os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return None


def main(mod, argv):
    global _ctx, _mod, _seed, _tier
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay = None
    i = 0
    while i < len(argv):
        if argv[i] in ("quick", "thorough"):
            tier = argv[i]
        elif argv[i] == "--replay":
            i += 1
            replay = argv[i]
        elif argv[i] == "--seed":
            i += 1
            seed = int(argv[i])
        else:
            print("usage: check.py ID [quick|thorough] [--seed N] [--replay FILE]", file=sys.stderr)
            return 2
        i += 1
    t0 = time.monotonic()
    base = tempfile.mkdtemp(prefix="verif-%s-" % mod.ID, dir=scratch_base())
    try:
        _mod, _seed, _tier = mod, seed, tier
        _ctx = Ctx(base, mod.VARIANTS, getattr(mod, "TOOLS", ()))
        if hasattr(mod, "prepare"):
            mod.prepare(_ctx, seed, tier)
        if replay:
            _init()
            c = json.load(open(replay))
            v = judge(mod, c["case"] if "case" in c else c)
            print(v.kind, v.what or "")
            print(v.detail or "")
            return 1 if v.kind == VIOLATED else 0
        return sweep(mod, seed, tier, t0)
    except B.BuildError as e:
        print("ERROR", e, file=sys.stderr)
        return 3
    finally:
        shutil.rmtree(base, ignore_errors=True)


def sweep(mod, seed, tier, t0):
    n = mod.cases(tier)
    stats, sigs = collections.Counter(), set()
    runs = cases = 0
    samples, bad, unsure, broken = [], [], [], []
    procs = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(procs, _init) as pool:
        chunk = max(1, min(50, n // (procs * 4) or 1))
        for i, v, case in pool.imap_unordered(_one, range(n), chunk):
            if isinstance(v, str):
                broken.append((i, v))
                if len(broken) > 5:
                    break
                continue
            if v is None:
                continue
            cases += 1
            runs += v.runs
            stats.update(v.stats)
            sigs |= v.sigs
            if case is not None and i < 3 and len(samples) < 3:
                samples.append((i, case))
            if v.kind == VIOLATED:
                bad.append((i, v, case))
            elif v.kind == INCONCLUSIVE:
                unsure.append((i, v, case))
            if len(bad) >= 40 or sum(b[1].what.endswith(HANG) for b in bad) >= 8:
                pool.terminate()
                break
    _init()
    code = 0
    known = known_findings()
    seen, nviol = set(), 0
    bad.sort(key=lambda b: b[0])
    rdir = os.path.join(ROOT, "evidence", "replay")
    for i, v, case in bad:
        if v.what in seen:
            continue
        seen.add(v.what)
        hit = [w for p, w in known if p == mod.ID and w == v.what]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (mod.ID, v.what))
            continue
        nviol += 1
        if nviol <= 3 and not v.what.endswith(HANG):
            case = minimise(mod, case, v.what)
        os.makedirs(rdir, exist_ok=True)
        h = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(rdir, "%s-%s.json" % (mod.ID, h))
        with open(path, "w") as f:
            json.dump({"property": mod.ID, "what": v.what, "detail": v.detail, "index": i, "seed": seed,
                       "case": case}, f, indent=1, sort_keys=True)
            f.write("\n")
        print("VIOLATION property=%s replay=%s" % (mod.ID, path))
        print("  %s: %s" % (v.what, (v.detail or "")[:600]))
        code = 1
    if broken:
        print("ERROR in the check (case %d):\n%s" % (broken[0][0], broken[0][1][-3000:]), file=sys.stderr)
        if not code:
            code = 3
    need = mod.need(tier) if hasattr(mod, "need") else {}
    lacking = {k: (stats[k], m) for k, m in need.items() if stats[k] < m}
    if not code and not bad and (lacking or not sigs):
        print("ERROR: observed too little: %s" % (lacking or "no distinct observation"), file=sys.stderr)
        code = 3
    if len(unsure) > max(3, cases // 50) and not code:
        print("ERROR: %d of %d cases undecided, e.g. %s" % (len(unsure), cases, unsure[0][1].what), file=sys.stderr)
        code = 3
    cov = {"evaluations": runs, "distinct_nontrivial": len(sigs), "rule": mod.RULE,
           "samples": [brief(c) for _, c in sorted(samples, key=lambda s: s[0])],
           "cases": cases, "undecided": len(unsure), "observed": dict(sorted(stats.items()))}
    if hasattr(mod, "coverage"):
        cov.update(mod.coverage(stats))
    ev = {"property": mod.ID, "tier": tier, "seed": seed, "level": mod.LEVEL, "coverage": cov,
          "assumptions": mod.ASSUME, "wall_s": round(time.monotonic() - t0, 2), "violations": nviol}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", mod.ID + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s seed=%d: %d cases, %d runs, %d distinct observations, %d undecided, %d violations, %.1f s"
          % (mod.ID, tier, seed, cases, runs, len(sigs), len(unsure), nviol, time.monotonic() - t0))
    return code


def brief(c, n=1500):
    s = json.dumps(c, sort_keys=True)
    return json.loads(s) if len(s) <= n else s[:n] + "..."
