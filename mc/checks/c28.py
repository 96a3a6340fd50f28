"""C28: the tree index keeps its records straight through add, build, change and clear."""
import itertools
import os
import re
import tempfile

import numpy as np

from .. import env, explore
from ..indexlib import BULK_KINDS, IndexSystem, bulk_jobs, index_jobs, run_bulk, script, score, size_script, tol

env.import_valori()
from valori.indices import AnnoyIndex                            # noqa: E402

LEVEL = "model_checking"
TEMP = re.compile(r"tmp\w+\.annoy")
WIDE = 10 ** 6
FOCUS = ["valid", "exact", "effect", "bind", "stats", "reject"]
ASSUMPTIONS = ["searching every tree fully: the default search_k for indexes built in memory, a larger one for those built on disk (the library, after loading, may count one tree twice)", "scores agree to 0.004 (single precision inside the trees)",
               "updating without metadata keeps the old metadata; loading a saved file into another index brings no records (documented)",
               "distance values and order are not judged for the hamming metric"]
BOUNDS = {"quick": "all histories of inserts of 1-3 rows, updates, deletes, build, clear, close-and-initialise and 12 kinds of unusable requests to depth 5 (3 with the unusable requests) for 5 metrics, built in memory and on disk, 1, 3 and 10 trees; in every state 7 queries by 6 values of k against brute force, 14 ids that do not exist, and after clearing comparison with a new index; a failing save; 216 settings over 60 vectors; histories over 520-2060 vectors of dimensions 1, 2, 3 and 16",
          "thorough": "depth 6 (4)"}


class Tree(IndexSystem):
    def __init__(self, cfg):
        self.since = []
        super().__init__(cfg)

    def apply(self, op):
        e = super().apply(op)
        if op[0] in ("clear", "cycle"):
            self.since = []
        else:
            self.since.append(op)
        return e

    def check(self):
        e = super().check()
        if e:
            return e
        if self.c.get("fresh", True):
            t = IndexSystem(self.c)
            try:
                for op in self.since:
                    e = t.apply(op)
                    if e:
                        return e[0], "new index, the calls since clearing: %s" % e[1]
                a, b = self.observe(), t.observe()
                if a != b:
                    return "new:annoy", "after clearing the index is not like a new one: %s" % [(x, y) for x, y in zip(a, b) if x != y][:1]
            finally:
                t.close()
                tempfile.tempdir = self.dir

    def ren(self):
        f = super().ren()
        return lambda s: TEMP.sub("TEMP", f(s))

    def close(self):
        try:
            self.db.close()
        finally:
            env.drop_dir(self.dir)


BAD = ["dim3", "dim1", "dim0", "nan-last", "1d", "3d", "updim", "upnan", "up2d", "sdim", "snan", "badmeta-last", "badmeta-up", "fewmeta"]


def cfgs(tier):
    q = tier == "quick"
    B = [[[0, 1]], [[5, 0], [2, 3], [6, 1]]]
    out = []
    for metric in ("angular", "euclidean", "manhattan", "dot", "hamming"):
        for disk in (False, True):
            base = {"index": "annoy", "metric": metric, "focus": FOCUS, "batches": B, "multidel": True, "upd_pts": [3], "upd_metas": [1], "queries": list(range(7)), "missing_always": False}
            ic = {"build_on_disk": disk, "num_trees": 3 if metric != "euclidean" else 1}
            if metric == "angular":
                ic = {"build_on_disk": disk}
            if disk:
                ic["search_k"] = WIDE
            ex = [["build"], ["clear"], ["cycle"]]
            out.append((dict(base, iconf=ic, extra=ex), 5 if q else 6))
            out.append((dict(base, iconf=ic, upd_pts=[6], upd_metas=[0], batches=[[[0, 1], [3, 0]]], dtype="float64", missing_always=True,
                             extra=ex + [["missing"]] + [["badop", b] for b in BAD]), 3 if q else 4))
    return out


def job_grid(job, ctx):
    d = env.fresh_dir("t")
    tempfile.tempdir = d
    rnd = np.random.RandomState(11)
    for dim, trees, seed in itertools.product((1, 2, 3, 16), (1, 2, 10), (42, 1)):
        metric = job["metric"]
        case = {"job": job}
        x = AnnoyIndex({"metric": metric, "num_trees": trees, "build_on_disk": job["disk"], "random_seed": seed, "search_k": WIDE if job["disk"] else -1})
        x.initialize()
        for rnd_no in range(2):
            vs = rnd.randint(-30, 31, (60, dim)).astype("float32") + rnd.randint(1, 8, (60, dim)) / 8.0
            ids = x.insert(vs[:50], [{"n": i} for i in range(50)])
            live = {i: (vs[n], n) for n, i in enumerate(ids)}
            for n in range(0, 50, 7):
                x.update(ids[n], vs[50 + n // 7], {"n": 50 + n // 7})
                live[ids[n]] = (vs[50 + n // 7], 50 + n // 7)
            for n in range(0, 50, 3):
                x.delete([ids[n]])
                live.pop(ids[n])
            x.build()
            for n in range(1, 50, 9):
                x.delete([ids[n]])
                live.pop(ids[n], None)
            for qv in (vs[0], vs[1], vs[49], np.zeros(dim, "float32"), -vs[5]):
                true = {i: score("annoy", metric, qv, v) for i, (v, _) in live.items()}
                for k in (0, 1, 7, len(live), 100):
                    ctx.n("transitions")
                    r = x.search(qv, k)
                    got = [str(h["id"]) for h in r]
                    if len(got) != min(k, len(live)) or len(set(got)) != len(got) or set(got) - set(live):
                        ctx.violation("grid-results", "%s, %d trees, dimension %d: k=%d of %d gives %s" % (metric, trees, dim, k, len(live), got), case)
                        continue
                    for h, i in zip(r, got):
                        if h["metadata"] != {"n": live[i][1]} or abs(h["distance"] - true[i]) > tol("annoy"):
                            ctx.violation("grid-record", "%s, dimension %d: result %s for %s, which has score %s" % (metric, dim, h, live[i], true[i]), case)
                    if metric != "dot":
                        best = sorted(true.values(), reverse=True)[:len(got)]
                        if any(abs(a - true[i]) > tol("annoy") for a, i in zip(best, got)):
                            ctx.violation("grid-nearest", "%s, dimension %d, %d trees: k=%d gives scores %s, the best are %s" % (metric, dim, trees, k, [true[i] for i in got], best), case)
            ctx.outcome((dim, trees, seed, rnd_no))
            ctx.n("states")
            if rnd_no == 0:
                (x.clear() if seed == 42 else (x.close(), x.initialize()))
        x.close()
    if [f for f in os.listdir(d) if f.endswith(".annoy")]:
        ctx.n("temporary_files_left", len(os.listdir(d)))
    ctx.n("traces_validated_against_impl", ctx.counts.get("transitions", 0))
    env.drop_dir(d)


def jobs(tier):
    out = index_jobs(cfgs(tier), (), (), bulk_jobs(FOCUS, tier, [k for k in BULK_KINDS if k[0] == "annoy"], ((520, 0), (1030, 0), (2060, 0), (300, 1))))
    for metric in ("angular", "euclidean", "manhattan", "dot"):
        for disk in (False, True):
            out.append({"grid": 1, "metric": metric, "disk": disk})
            for n in (9, 41, 130) if tier == "quick" else (9, 20, 41, 77, 130, 300):
                out.append({"cfg": {"index": "annoy", "metric": metric, "iconf": {"build_on_disk": disk, "search_k": WIDE if disk else -1}, "batches": [], "focus": FOCUS, "queries": [0, 6], "missing_always": False}, "size": n})
    return out


def run_job(job, ctx):
    if "grid" in job:
        job_grid(job, ctx)
    elif "bulk" in job:
        run_bulk(job, ctx, IndexSystem)
    elif "size" in job:
        script(ctx, IndexSystem, job["cfg"], size_script(job["size"], "annoy"))
    else:
        explore.bfs(ctx, Tree, job["cfg"], job["depth"])


def replay(case, ctx):
    if "job" in case:
        run_job(case["job"], ctx)
    else:
        explore.replay_history(ctx, Tree, case["cfg"], case["hist"])
