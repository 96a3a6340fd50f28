"""C17: the incremental manager recovers the latest state and keeps a faithful log and true counters."""
from .. import explore
from .c16 import Named, run_script

LEVEL = "model_checking"
ASSUMPTIONS = ["one manager at a time works on a folder"]
BOUNDS = {"quick": "all histories of state, vector and index saves, refused saves, loads, statistics, re-initialisations and restarts to depth 5 (other operations 4; checkpoint intervals 1, 2, 3, 100); periodic histories of 40 operations with every restart position; histories of 330 operations restarted around the 100th, 200th and 300th; histories of 1100 operations",
          "thorough": "two more levels, 130 operations"}


def jobs(tier):
    q = tier == "quick"
    out = []
    for iv in (1, 2, 3, None):
        cfg = {"manager": "incremental", "interval": iv, "counters": 1,
               "saves": [["state", "s.pkl", [0, 1]], ["vectors", "v.npz", [0]], ["index", "i.pkl", [0]]],
               "ops": [["restart"], ["bad", "state", "s.pkl", 1]]}
        out.append({"cfg": cfg, "depth": 5 if q else 7})
        cfg = {"manager": "incremental", "interval": iv, "counters": 1, "saves": [["state", "a", [0]], ["state", "b", [1]], ["vectors", "v", [1, 10]]],
               "ops": [["abandon"], ["cycle"], ["reinit"], ["load", "state", "a"], ["bad", "index", "i", 0], ["stats"]]}
        out.append({"cfg": cfg, "depth": 4 if q else 6})
        out.append({"long": iv, "n": 40 if q else 130})
    for iv in (None, 10, 11, 64):
        out.append({"much": iv, "n": 330 if q else 1100})
    for iv in (None, 1, 1000):
        out.append({"huge": iv, "n": 1100 if q else 5000})
    out.append({"reserved": 1})
    return out


def run_job(job, ctx):
    if "cfg" in job:
        explore.bfs(ctx, Named, job["cfg"], job["depth"])
        return
    if "reserved" in job:
        for path in ("checkpoint_7.pkl", "checkpoint_x.pkl", "checkpoint_0.pkl", "checkpoint_.pkl", "operations.log", "checkpoint.json", "checkpoint_9.pkl/x", "d/checkpoint_7.pkl", "d/operations.log"):
            for kind, v in (("index", 0), ("vectors", 0)):
                for pre in ([], [["save", "state", "s", 0]], [["save", "state", "s", 0], ["save", "index", "i", 0], ["save", "state", "s", 1]]):
                    cfg = {"manager": "incremental", "counters": 1, "saves": [["state", "s", []], ["index", "i", []]], "ops": []}
                    hist = pre + [["try", kind, path, v], ["restart"], ["save", "state", "s", 3], ["restart"]]
                    run_script_try(cfg, hist, ctx)
        return
    if "huge" in job:                    # compared with the model every hundred operations only
        cfg = {"manager": "incremental", "interval": job["huge"], "counters": 1, "saves": [["state", "s", []], ["vectors", "v.npz", []], ["index", "i", []]], "ops": []}
        hist = []
        for j in range(job["n"]):
            hist.append(["save", "state", "s", j // 97 % 4] if j % 97 == 0 else ["save", "vectors", "v.npz", j % 2] if j % 5 == 1 else ["save", "index", "i", 3 * (j % 2)])
            if j % 250 == 249:
                hist.append(["restart"])
        run_script_try(cfg, hist, ctx, 100)
        return
    if "much" in job:                    # past several default intervals, restarts only around them
        for a in (98, 99, 100, 101, 150, 199, 200, 201, 299, 300, 301):
            for k in (1, 2):
                hist = []
                for j in range(job["n"]):
                    hist.append(["save", "state", "s", (j // 3) % 4] if j % 3 == 0 else ["save", "vectors", "v.npz", j % 2] if j % 3 == 1 else ["save", "index", "i", 3 * (j % 2)])
                    if j + 1 == a or (k == 2 and j + 1 in (a + 1, 2 * a)):
                        hist.append(["restart"])
                hist.append(["restart"])
                cfg = {"manager": "incremental", "interval": job["much"], "counters": 1, "saves": [["state", "s", []], ["vectors", "v.npz", []], ["index", "i", []]], "ops": []}
                run_script(cfg, hist, ctx)
                if ctx.late():
                    return
        return
    ops = [["save", "state", "s", 0], ["save", "vectors", "v.npz", 0], ["save", "index", "i", 3], ["save", "state", "s", 1], ["save", "vectors", "v.npz", 1]]
    for period in range(1, 12):
        for shift in range(len(ops)):
            hist = []
            for j in range(job["n"]):
                hist.append(ops[(j * (1 + shift) + shift) % len(ops)])
                if j % period == period - 1:
                    hist.append(["restart"])
            cfg = {"manager": "incremental", "interval": job["long"], "counters": 1, "saves": [["state", "s", []], ["vectors", "v.npz", []], ["index", "i", []]], "ops": []}
            run_script(cfg, hist, ctx)
            if ctx.late():
                return


class Trying(Named):
    """saving under a name the manager uses itself may be refused, but never disturbs it"""

    def apply(self, op):
        if op[0] != "try":
            return super().apply(op)
        from ..persistlib import save, value
        try:
            save(self.m, op[1], op[2], value(op[1], op[3]))
        except Exception:
            return None
        self.log.append((op[1], op[2], op[3]))
        return None


def run_script_try(cfg, hist, ctx, every=1):
    from .. import env
    ctx.current = {"cfg": cfg, "hist": [[o, []] for o in hist], "try": every}
    with env.limit(30 if every == 1 else 300):
        s = Trying(cfg)
        try:
            for n, op in enumerate(hist, 1):
                err = s.apply(op) or (s.check() if n % every == 0 or n == len(hist) else None)
                ctx.n("transitions")
                ctx.n("states")
                if err:
                    ctx.violation(("reserved-" if every == 1 else "") + err[0], "%s: %s" % (hist[-5:], err[1]), ctx.current)
                    break
        finally:
            s.close()


def replay(case, ctx):
    if case.get("try"):
        return run_script_try(case["cfg"], [o for o, _ in case["hist"]], ctx, case["try"])
    explore.replay_history(ctx, Named, case["cfg"], case["hist"])
