"""C16: loading gives exactly what was last saved under that path."""
import itertools

from .. import env, explore
from ..persistlib import SURE, STATES, VECTORS, PersistSystem

LEVEL = "model_checking"
ASSUMPTIONS = ["every path is used for one kind of data (state, index or vectors)", "the incremental manager keeps one state whatever the path (C17)"]
BOUNDS = {"quick": "all save/load/restart histories to depth 4 over 2 paths of each of two kinds and 2 values; 25 vector-and-id values and 7 states (up to 40000 vectors, some megabytes), each saved first, over another value and after a restart; every ordered pair of 20 paths; both managers, both compression settings",
          "thorough": "depth 6"}
PATHS = ["v", "v.npz", "v.npz.npz", "d/v", "d/v.npz", "d/e/v.npz", "V.NPZ", "a b", "é", ".hidden", "v.tmp", "v.npy", "v.pkl", "d.npz", "x.tar.gz", "%41", "v~", "-v", "tmp0", ".saving-tmp0"]
MANAGERS = [{"manager": "tensor"}, {"manager": "tensor", "compression": 1}, {"manager": "incremental"}]


def histories():
    for m in MANAGERS:
        inc = m["manager"] == "incremental"
        ops = [["restart"], ["bad", "index", "i", 1]] + ([] if inc else [["restart", "other compression"]])
        yield dict(m, saves=[["index", "i", [0, 3]], ["vectors", "v", [0, 1]], ["vectors", "v.npz", [0, 4]]], ops=ops)
        yield dict(m, saves=[["index", "i.pkl", [0, 1]], ["index", "d/i.pkl", [1, 2]], ["vectors", "d/v.npz", [3, 10]]], ops=ops + [["load", "index", "i.pkl"]])
        if not inc:
            yield dict(m, saves=[["state", "s", [0, 1]], ["state", "s.pkl", [1, 5]], ["index", "i", [0, 2]]],
                       ops=ops + [["bad", "state", "s", 0], ["load", "state", "s"], ["abandon"], ["cycle"]])
        # values of the same size, read between two saves within a moment
        for kind, a, b in (("vectors", 0, 13), ("index", 0, 7), ("state", 0, 7)):
            yield dict(m, saves=[[kind, "p", [a, b]], [kind, "q", [b]]], ops=[["load", kind, "p"], ["stats"], ["restart"]])


def jobs(tier):
    out = [{"t": "bfs", "cfg": c, "depth": 4 if tier == "quick" else 6} for c in histories()]
    out += [{"t": "values", "m": m} for m in MANAGERS] + [{"t": "paths", "m": m, "kind": k} for m in MANAGERS for k in ("state", "index", "vectors")]
    return out


def scripts(job):
    m = job["m"]
    if job["t"] == "values":
        for kind, path, n in (("vectors", "v", len(VECTORS)), ("vectors", "v.npz", len(VECTORS)), ("index", "i.bin", len(STATES)), ("state", "s.bin", len(STATES))):
            cfg = dict(m, saves=[[kind, path, []], [kind, "other" + path, []]], ops=[])
            for i in range(n):
                for first in [None, 0, 1] + ([SURE - 1] if kind == "vectors" else []):
                    h = [["save", kind, "other" + path, 1]] if kind != "state" or m["manager"] == "tensor" else []
                    if first is not None:
                        h.append(["save", kind, path, first])
                    yield cfg, h + [["save", kind, path, i], ["load", kind, path], ["restart"], ["load", kind, path], ["save", kind, path, 1], ["reinit"]]
        return
    kind = job["kind"]
    for p, q in itertools.permutations(PATHS, 2):
        if kind == "state" and m["manager"] == "incremental":
            return
        if p.startswith(q + "/") or q.startswith(p + "/"):
            continue
        yield dict(m, saves=[[kind, p, []], [kind, q, []]], ops=[]), [["save", kind, p, 0], ["save", kind, q, 1], ["restart"], ["save", kind, p, 2]]


def run_script(cfg, hist, ctx):
    ctx.current = {"cfg": cfg, "hist": [[o, []] for o in hist]}
    with env.limit(30 + len(hist) / 4):
        env.reset_ids()
        s = PersistSystem(cfg)
        try:
            done = []
            for op in hist:
                done.append([op, []])
                err = s.apply(op) or s.check()
                ctx.n("transitions")
                ctx.n("states")
                if err:
                    ctx.violation(err[0] + ":" + cfg["manager"], err[1], {"cfg": cfg, "hist": done})
                    break
            ctx.n("traces_validated_against_impl")
            ctx.outcome(explore.digest(s.canon()))
        finally:
            s.close()


class Named(PersistSystem):
    def apply(self, op):
        return self.named(super().apply(op))

    def check(self):
        return self.named(super().check())

    def named(self, e):
        return e and (e[0] + ":" + self.c["manager"], e[1])


def run_job(job, ctx):
    if job["t"] == "bfs":
        explore.bfs(ctx, Named, job["cfg"], job["depth"])
        return
    for cfg, h in scripts(job):
        run_script(cfg, h, ctx)
        if ctx.late():
            return


def replay(case, ctx):
    explore.replay_history(ctx, Named, case["cfg"], case["hist"])
