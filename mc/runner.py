"""Check runner: parallel jobs, violations, known findings, evidence, replay files."""
import concurrent.futures as cf
import hashlib
import json
import multiprocessing
import os
import sys
import time
import traceback

from . import env

EVID = os.path.join(env.VERIF, "evidence")
KNOWN = os.path.join(env.VERIF, "KNOWN_FINDINGS.txt")
NPROC = int(os.environ.get("MC_JOBS", "0")) or min(8, os.cpu_count() or 1)
MAX_PER_JOB = 5          # violations kept per job (distinct keys)


def load_known(pid):
    """lines: 'finding: property=C04 key=<key> <text>' (a 'fixed:' line suppresses nothing)."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding: property=%s key=" % pid):
                rest = line.split("key=", 1)[1]
                key, _, text = rest.partition(" ")
                out[key] = text
    return out


class Stop(Exception):
    """Enough violations in this job."""


class Ctx:
    """Handed to a job: counts, samples, violations."""

    def __init__(self, pid, tier, seed, deadline=None):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.counts = {}
        self.samples = []
        self.viol = []          # (key, what, case)
        self.seen = set()
        self.distinct = set()
        self.deadline = deadline
        self.capped = None

    quick = property(lambda s: s.tier == "quick")

    def n(self, name, k=1):
        self.counts[name] = self.counts.get(name, 0) + k

    def outcome(self, h):
        """count a distinct observed outcome"""
        if len(self.distinct) < 200000:
            self.distinct.add(hash(h) if not isinstance(h, int) else h)

    def sample(self, case):
        if len(self.samples) < 2:
            self.samples.append(case)

    def violation(self, key, what, case):
        key = str(key).replace(" ", "_")
        if key in self.seen:
            return
        self.seen.add(key)
        self.viol.append((key, str(what)[:600], case))
        if len(self.viol) >= MAX_PER_JOB:
            raise Stop()

    def late(self):
        if self.deadline and time.time() > self.deadline:
            self.capped = "time"
            return True
        return False

    def result(self):
        return {"counts": self.counts, "samples": self.samples, "viol": self.viol,
                "distinct": self.distinct, "capped": self.capped}


def where(e):
    """innermost frame inside valori, for a stable violation key"""
    loc = ""
    for f in traceback.extract_tb(e.__traceback__):
        if "/valori/" in f.filename:
            loc = "%s:%s" % (os.path.basename(f.filename), f.name)
    return loc


def _run_job(modname, pid, tier, seed, job, deadline):
    import importlib
    mod = importlib.import_module("mc.checks." + modname)
    ctx = Ctx(pid, tier, seed, deadline)
    env.cap_memory()
    env.seed_all(seed)
    if NPROC > 0 and os.getpid() != env._main_pid:
        os.dup2(os.open(os.devnull, os.O_WRONLY), 2)         # what C libraries print
    env.guard(True)
    t0 = time.time()
    try:
        with env.quiet():
            mod.run_job(job, ctx)
    except Stop:
        pass
    except env.CaseTimeout:
        try:
            ctx.violation("no-termination", "a case did not finish in its time limit", getattr(ctx, "current", {"job": job}))
        except Stop:
            pass
    except BaseException as e:                       # noqa: a job never fails on the real tree
        tb = traceback.format_exc()
        try:
            ctx.violation("exception:%s:%s" % (type(e).__name__, where(e)),
                          "unexpected %r\n%s" % (e, tb[-1500:]), getattr(ctx, "current", {"job": job}))
        except Stop:
            pass
    esc = env.escapes()
    if esc:
        try:
            ctx.violation("escape", "wrote outside the data folder: %s" % (esc[:3],), {"job": job})
        except Stop:
            pass
    r = ctx.result()
    r["job"] = job
    r["t"] = time.time() - t0
    env.drop_dir(env.scratch_root())
    env._scratch["pid"] = None
    return r


def _pool(n):
    return cf.ProcessPoolExecutor(max_workers=n, mp_context=multiprocessing.get_context("fork"))


def run_jobs(modname, pid, tier, seed, jobs, deadline):
    res, todo = [], list(enumerate(jobs))
    known = load_known(pid)
    pending = {}
    broken = []
    with _pool(NPROC) as ex:
        futs = {ex.submit(_run_job, modname, pid, tier, seed, j, deadline): (i, j) for i, j in todo}
        for f in cf.as_completed(futs):
            i, j = futs[f]
            try:
                res.append((i, f.result()))
            except cf.process.BrokenProcessPool:
                broken.append((i, j))
                continue
            if os.environ.get("MC_STOP") and any(k not in known for k, _, _ in res[-1][1]["viol"]):
                # development only: the first violation is enough
                for p in list(ex._processes.values()):
                    p.kill()
                return [res[-1][1]]
    for i, j in sorted(broken, key=lambda x: x[0]):
        # a worker died: run the jobs it might have been in alone, to find the one
        with _pool(1) as ex:
            try:
                res.append((i, ex.submit(_run_job, modname, pid, tier, seed, j, deadline).result()))
            except cf.process.BrokenProcessPool:
                res.append((i, {"counts": {}, "samples": [], "distinct": set(), "capped": None, "job": j, "t": 0,
                                "viol": [("process-died", "the process died while running this job", {"job": j})]}))
    return [r for _, r in sorted(res, key=lambda x: x[0])]


def main(argv):
    import importlib
    pid = argv[0]
    modname = pid.lower()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module("mc.checks." + modname)
    os.makedirs(EVID, exist_ok=True)
    if "--replay" in argv:
        rp = json.load(open(argv[argv.index("--replay") + 1]))
        ctx = Ctx(pid, tier, seed)
        env.seed_all(seed)
        env.guard(True)
        case = rp["case"]
        if isinstance(case, dict) and set(case) == {"job"}:
            r = _run_job(modname, pid, tier, seed, case["job"], None)
            viol = r["viol"]
        else:
            try:
                with env.quiet():
                    mod.replay(case, ctx)
            except Stop:
                pass
            viol = ctx.viol
        for k, w, c in viol:
            print("REPRODUCED", k, w)
        if not viol:
            print("not reproduced")
        return 1 if viol else 0

    t0 = time.time()
    budget = float(os.environ.get("MC_BUDGET", "0")) or (600.0 if tier == "quick" else 840.0)
    jobs = mod.jobs(tier)
    res = run_jobs(modname, pid, tier, seed, jobs, t0 + budget)
    counts, samples, viols, distinct, capped = {}, [], [], set(), []
    for r in res:
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        if len(samples) < 6:
            samples += r["samples"][:1]
        viols += r["viol"]
        distinct |= r["distinct"]
        if r["capped"]:
            capped.append((r["job"], r["capped"]))
    known = load_known(pid)
    uniq = {}
    for k, w, c in viols:
        uniq.setdefault(k, (w, c))
    new = {k: v for k, v in uniq.items() if k not in known}
    wall = time.time() - t0
    level = mod.LEVEL
    cov = {"samples": samples or ["none"], "exhaustive": not capped, "jobs": len(jobs)}
    cov.update({k: v for k, v in counts.items()})
    if level == "model_checking":
        cov.setdefault("states", len(distinct))
        cov.setdefault("transitions", 0)
        cov.setdefault("traces_validated_against_impl", 0)
    else:
        cov.setdefault("evaluations", 0)
        cov["distinct_nontrivial"] = len(distinct)
        cov["rule"] = mod.RULE
    cov["distinct_outcomes"] = len(distinct)
    cov["bounds"] = getattr(mod, "BOUNDS", {}).get(tier, "")
    if capped:
        cov["capped"] = [str(c)[:200] for c in capped[:10]]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])), "wall_s": round(wall, 2), "violations": len(new)}
    if uniq.keys() - new.keys():
        ev["coverage"]["known_findings_seen"] = sorted(uniq.keys() - new.keys())
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k in sorted(uniq):
        if k in known:
            print("KNOWN-FINDING: property=%s %s [%s]" % (pid, known[k], k))
    if getattr(mod, "EXPECT_KNOWN", False):
        for k in known:
            if k not in uniq:
                print("note: listed finding %s was not seen in this run" % k)
    print("%s %s: %s wall=%.1fs%s" % (pid, tier, " ".join("%s=%s" % kv for kv in sorted(counts.items())), wall,
                                      " CAPPED" if capped else ""))
    if os.environ.get("MC_VERBOSE"):
        for r in sorted(res, key=lambda r: -r["t"])[:12]:
            print("   job %.1fs %s %s" % (r["t"], json.dumps(r["job"], default=str)[:150], r["counts"]))
    # vacuity guard: a run that explored next to nothing is an error, not a pass
    if not new and sum(counts.values()) < getattr(mod, "MIN_WORK", 1):
        print("ERROR: nothing explored")
        return 3
    rdir = os.path.join(EVID, "replays")
    os.makedirs(rdir, exist_ok=True)
    for i, (k, (w, c)) in enumerate(sorted(new.items())):
        path = os.path.join(rdir, "%s-%s.json" % (pid, hashlib.md5(k.encode()).hexdigest()[:8]))
        with open(path, "w") as f:
            json.dump({"property": pid, "key": k, "what": w, "case": c}, f, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("   %s: %s" % (k, w.splitlines()[0][:300] if w else ""))
    return 1 if new else 0
