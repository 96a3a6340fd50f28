"""C27: the hash index finds every stored vector by itself, whatever happened before."""
import itertools

import numpy as np

from .. import env, explore
from ..indexlib import BULK_KINDS, PTS, IndexSystem, bulk_jobs, index_jobs, run_bulk, script, size_script

env.import_valori()
from valori.exceptions import ValoriError                       # noqa: E402
from valori.indices import LSHIndex                             # noqa: E402

LEVEL = "model_checking"
FOCUS = ["self"]
ASSUMPTIONS = ["a score is perfect when it is within a millionth of 1; the zero vector has no direction and is not looked for by cosine", "k is at least the number of records"]
BOUNDS = {"quick": "all histories of inserts of 1-3 rows, updates, deletes, clears, rejected requests and close-and-initialise to depth 3 over 24 settings (tables 1-10, hash sizes 1-16, projections 1-64 with and without wrap-around, seeds, thresholds, 3 metrics, 4 element types) and to depth 2 over 162 more; in every state every stored vector is looked for, 7 queries are compared with the model and with a second index brought there by the same calls; histories over 9-1030 vectors; 486 settings over 64 vectors of dimensions 1, 3 and 16, replaced one by one",
          "thorough": "depth 4 and 3"}


class Twin(IndexSystem):
    """an index, and a second one given the same settings and calls"""

    def __init__(self, cfg):
        self.hist = []
        super().__init__(cfg)

    def apply(self, op):
        e = super().apply(op)
        self.hist.append(op)
        return e

    def check(self):
        e = super().check()
        if e:
            return e
        t = IndexSystem(self.c)
        np.random.seed(len(self.hist) + 77)
        try:
            for op in self.hist:
                e = t.apply(op)
                if e:
                    return e[0], "second index, the same calls: %s" % e[1]
            a, b = self.observe(), t.observe()
            if a != b:
                return "twin", "two indexes with the same settings and calls differ: %s" % [(x, y) for x, y in zip(a, b) if x != y][:1]
        finally:
            t.close()


def settings():
    return [dict(num_hash_tables=t, hash_size=h, num_projections=p) for t, h, p in itertools.product((1, 2, 10), (1, 3, 16), (1, 5, 64))]


def cfgs(tier):
    q = tier == "quick"
    B = [[[0, 1]], [[5, 0], [2, 3], [3, 0]], [[0, 2]]]
    base = {"index": "lsh", "focus": FOCUS, "batches": B, "multidel": True, "upd_pts": [6, 0], "upd_metas": [1], "queries": list(range(7)),
            "extra": [["clear"], ["cycle"], ["missing"], ["badop", "updim"], ["badop", "nan-last"], ["badop", "dim3"], ["search", 1, 3]]}
    out = []
    every = settings()
    for n, ic in enumerate(every):
        for m, metric in enumerate(("cosine", "euclidean", "manhattan")):
            deep = (n + m) % 3 == 0 and (n * 3 + m) % 10 < 8
            c = dict(base, metric=metric, iconf=dict(ic, threshold=(0.5, 0.0, -1.0, 0.99)[(n + m) % 4], random_seed=(42, 0, 7)[n % 3]), dtype=("float32", "float64", "int8", "int64")[(n + 2 * m) % 4])
            if np.dtype(c["dtype"]).kind == "i":
                c["extra"] = [x for x in c["extra"] if x != ["badop", "nan-last"]]
            if deep:
                out.append((c, 3 if q else 4))
            else:
                out.append((c, 2 if q else 3))
    return out


def job_grid(job, ctx):
    """larger dimensions: 64 vectors, each replaced by another one, found after every step"""
    rnd = np.random.RandomState(5)
    for dim, seed, metric in itertools.product((1, 3, 16), (42, 3), ("cosine", "euclidean", "manhattan")):
        ic = dict(job["iconf"], metric=metric, threshold=0.5, random_seed=seed)
        dt = ("float32", "float64")[dim % 2]
        vs = (rnd.randint(-40, 41, (128, dim)) + rnd.randint(0, 8, (128, dim)) / 8.0 + (1 / 16.0)).astype(dt)
        x = LSHIndex(dict(ic))
        x.initialize()
        case = {"job": job}
        ids = x.insert(vs[:64], [{"n": i} for i in range(64)])
        cur = {i: (vs[n], n) for n, i in enumerate(ids)}
        for n, i in enumerate(ids):
            if n % 5 == 4:
                x.delete([i])
                del cur[i]
            else:
                x.update(i, vs[64 + n], {"n": 64 + n})
                cur[i] = (vs[64 + n], 64 + n)
            if n % 9 == 8 or n == 63:
                for j, (v, mark) in cur.items():
                    ctx.n("transitions")
                    hit = [r for r in x.search(v.copy(), 64) if str(r["id"]) == j]
                    if not hit or abs(hit[0]["distance"] - 1) > 1e-5 or hit[0]["metadata"] != {"n": mark}:
                        ctx.violation("self-missed:grid", "settings %s, dimension %d: after %d changes the vector %s of %s finds %s" % (ic, dim, n + 1, v, j, hit), case)
                ctx.n("states")
        ctx.outcome((repr(ic), dim))
    ctx.n("traces_validated_against_impl", ctx.counts.get("transitions", 0))


def jobs(tier):
    out = index_jobs(cfgs(tier), (), (), bulk_jobs(FOCUS, tier, [k for k in BULK_KINDS if k[0] == "lsh"], ((520, 0), (1030, 0), (300, 1))))
    for metric, ic in (("cosine", {}), ("euclidean", {"num_hash_tables": 3, "hash_size": 3, "num_projections": 8}), ("manhattan", {"num_hash_tables": 2, "hash_size": 20, "num_projections": 7, "threshold": 0.0})):
        for n in (9, 41, 130, 300) if tier == "quick" else (9, 20, 41, 77, 130, 300):
            out.append({"cfg": {"index": "lsh", "metric": metric, "iconf": ic, "batches": [], "focus": FOCUS, "queries": [0, 6]}, "size": n})
    for ic in settings():
        out.append({"grid": 1, "iconf": ic})
    return out


def run_job(job, ctx):
    if "grid" in job:
        job_grid(job, ctx)
    elif "bulk" in job:
        run_bulk(job, ctx, IndexSystem)
    elif "size" in job:
        script(ctx, IndexSystem, job["cfg"], size_script(job["size"], "lsh"))
    else:
        explore.bfs(ctx, Twin, job["cfg"], job["depth"])


def replay(case, ctx):
    if "job" in case:
        run_job(case["job"], ctx)
    else:
        explore.replay_history(ctx, Twin, case["cfg"], case["hist"])
