"""C12: an index request that is rejected or fails half-way has no effect at all."""
from .. import crashlib, env, explore
from ..flaky import Flaky
from ..indexlib import IndexSystem, bulk_jobs, diff, index_jobs, make_index, pt, run_bulk, script, size_script
from ..storagelib import make_storage, meta, same_rec
from valori import VectorDBClient

import errno
import numpy as np

LEVEL = "model_checking"
ASSUMPTIONS = ["the storage fails once (or stays broken for storing only), so that undoing is possible at all",
               "deletes are not covered: a failing multi-delete may have removed some (C10 covers unknown ids)"]
BOUNDS = {"quick": "all histories of valid operations and 21 kinds of unusable requests (wrong dimension, shape, type, non-finite values, unstorable metadata) to depth 3, for 5 index types, several metrics and settings; storage failing (error, False, OS error, or done-but-reported-failed) at every storage call of every insert, update and search; OS errors at every file-system call of them on disk; the requests over 300 and 1030 vectors; state compared before and after, then explored further",
          "thorough": "depth 4"}
INS3 = [[5, 0], [2, 3], [6, 1]]


class Rejecting(IndexSystem):
    def __init__(self, cfg):
        self.spoiled = False
        super().__init__(cfg)

    def open(self):
        self.flaky = None
        st = make_storage(self.c.get("storage", "memory"), self.dir, self.c.get("limit"))
        if self.kind in ("flat", "hnsw", "ivf") and self.c.get("flaky", True):
            st = self.flaky = Flaky(st)
        self.storage = st
        self.index = make_index(self.c)
        self.db = VectorDBClient(st, self.index)
        self.db.initialize()

    def ops(self):
        yield from super().ops()
        for b in self.BAD:
            yield ["badop", b]
        if self.flaky is not None:
            for inner in self.inner():
                for call in ("store_vector", "update_vector", "retrieve_vector", "list_vectors"):
                    for at in range(self.calls(inner, call)):
                        for mode in ("raise", "false", "oserror", "late") if call in ("store_vector", "update_vector") else ("raise",):
                            yield ["fault", inner, call, at, mode]
                        if call == "store_vector" and at == 0:
                            yield ["fault", inner, call, at, "stuck"]
        if self.c.get("storage") == "disk":
            for inner in self.inner():
                for at in range(self.events(inner)):
                    yield ["iofault", inner, at]

    def inner(self):
        yield ["insert", INS3]
        if self.model:
            yield ["update", 0, 6, 1]
            yield ["search", 1, 2]

    def clone(self):
        s = type(self)(self.c)
        return s

    def probe(self, inner, count):
        """how many fault points an operation has, measured on a rebuilt copy of this state"""
        env.reset_ids()
        s = type(self)(self.c)
        try:
            for op, ans in self.hist:
                with env.choices(env.Chooser(ans)):
                    s.apply(op)
            return count(s, inner)
        finally:
            s.close()

    def calls(self, inner, call):
        def count(s, inner):
            s.flaky.arm(call, None, None)
            with env.choices(env.Chooser()):
                s.perform(inner)
            return s.flaky.n
        return min(self.probe(inner, count), 4)

    def events(self, inner):
        def count(s, inner):
            inj = crashlib.Inject(s.dir)
            with env.fs_listener(inj), env.choices(env.Chooser()):
                s.perform(inner)
            return inj.n
        return min(self.probe(inner, count), 14)

    hist = ()

    def perform(self, op):
        db = self.db
        try:
            if op[0] == "insert":
                return db.insert(np.array([pt(p, self.dtype) for p, _ in op[1]]), [meta(x) for _, x in op[1]])
            if op[0] == "update":
                return db.update(self.rec(op[1]), pt(op[2], self.dtype), meta(op[3]))
            return db.search(pt(op[1], self.dtype), op[2])
        except Exception:
            return None

    def apply(self, op):
        if op[0] not in ("badop", "fault", "iofault"):
            e = super().apply(op)
        else:
            if op[0] == "badop":
                e = self.bad_op(op[1])
            else:
                e = self.fault(op)
            self.spoiled = True
        self.hist = list(self.hist) + [[op, []]]
        return self.blame(e)

    def blame(self, e):
        if e is None:
            return None
        if e[0] == "prune":
            return (None, e[1])
        if e[0] is None and not self.spoiled:
            return e
        return (e[0] or "later:%s" % self.kind, e[1])

    def check(self):
        return self.blame(super().check())

    def fault(self, op):
        before = self.observe()
        inner = op[1]
        n0 = len(before)
        if op[0] == "fault":
            self.flaky.arm(op[2], op[3], op[4])
            try:
                r = self.perform(inner)
                fired = self.flaky.fired
            finally:
                self.flaky.disarm()
        else:
            inj = crashlib.Inject(self.dir, op[2], False, errno.ENOSPC)
            with env.fs_listener(inj):
                r = self.perform(inner)
            fired = inj.fired
        what = "%s with %s" % (inner, op[2:])
        if not fired:
            return ("prune", "fault not reached")
        if inner[0] != "search" and r:
            # reported as done: then it must be done
            ids = r if inner[0] == "insert" else [self.rec(0)]
            want = [(pt(p, self.dtype), meta(x)) for p, x in inner[1]] if inner[0] == "insert" else [(pt(inner[2], self.dtype), meta(inner[3]))]
            for i, w in zip(ids, want):
                if not same_rec(self.storage.retrieve_vector(i), w):
                    return ("swallowed:%s" % self.kind, "%s reported success, but the record is not stored" % what)
                self.model[i] = w
            return None
        if op[-1] == "late" and inner[0] == "update":
            # the storage did it: all or nothing for the record is what can be asked
            i = self.rec(0)
            w = (pt(inner[2], self.dtype), meta(inner[3]))
            if same_rec(self.storage.retrieve_vector(i), w):
                return ("prune", "done by the storage")
        now = self.observe()
        if now != before:
            return ("effect-of-fault:%s" % self.kind, "%s failed but changed %s" % (what, diff(before, now)))
        return None

    def canon(self):
        return super().canon()


def cfgs(tier):
    q = tier == "quick"
    B = [[[0, 1]], [[5, 0], [2, 3]]]
    out = []
    for metric in ("cosine", "euclidean"):
        for idx, ic in (("flat", {}), ("ivf", {"n_clusters": 2, "n_probes": 2}), ("ivf", {"n_clusters": 3, "n_probes": 1}), ("ivf", {"n_clusters": 4, "n_probes": 4}),
                        ("hnsw", {}), ("hnsw", {"m": 2, "ef_search": 3})):
            for dt in ("float32", "int8") if metric == "euclidean" else ("float32", "float64"):
                out.append((dict(index=idx, metric=metric, iconf=ic, batches=B, dtype=dt, upd_pts=[6], upd_metas=[1], queries=[0, 5]), 3 if q else 4))
            out.append((dict(index=idx, metric=metric, iconf=ic, batches=B, storage="disk", upd_pts=[6], upd_metas=[1], queries=[0, 5]), 2 if q else 3))
            out.append((dict(index=idx, metric=metric, iconf=ic, batches=B, storage="hybrid", limit=1, upd_pts=[6], upd_metas=[1], queries=[0, 5]), 2 if q else 3))
            out.append((dict(index=idx, metric=metric, iconf=ic, batches=B, storage="disk", flaky=False, extra=[["reopen"]], upd_pts=[6], upd_metas=[1], queries=[0]), 2 if q else 3))
    for metric in ("cosine", "euclidean", "manhattan"):
        for ic in ({"num_hash_tables": 2, "hash_size": 2, "num_projections": 4, "threshold": 0.0}, {"num_hash_tables": 1, "hash_size": 6, "num_projections": 6, "threshold": -1.0}):
            out.append((dict(index="lsh", metric=metric, iconf=ic, batches=B, extra=[["clear"]], queries=[0, 5], upd_metas=[1], upd_pts=[6]), 3 if q else 4))
    for metric in ("angular", "euclidean", "manhattan"):
        out.append((dict(index="annoy", metric=metric, iconf={"num_trees": 3}, batches=B, extra=[["build"], ["clear"]], upd_pts=[6], queries=[0, 5]), 3 if q else 4))
    return [(dict(c, focus=["reject"], missing_always=False), d) for c, d in out]


def sizes(tier):
    out = []
    for idx, metric, ic in (("flat", "cosine", {}), ("ivf", "euclidean", {"n_clusters": 6, "n_probes": 6}), ("ivf", "cosine", {"n_clusters": 6, "n_probes": 2}),
                            ("hnsw", "euclidean", {}), ("hnsw", "cosine", {"m": 3, "ef_search": 4}), ("lsh", "cosine", {"threshold": 0.2}), ("annoy", "angular", {})):
        out.append(({"index": idx, "metric": metric, "iconf": ic, "batches": [], "focus": ["reject"], "queries": [0, 20]}, [7, 40] if tier == "quick" else list(range(6, 60)) + [130]))
    return out


def jobs(tier):
    return index_jobs(cfgs(tier), sizes(tier), [["badop", b] for b in IndexSystem.BAD] + [["insert", [[1, 1]]]],
                      bulk_jobs(["reject"], tier, sizes=((300, 0), (1030, 0))))


def prep(cfg):
    # what holds without a rejected request is other properties' business; after one, everything counts
    return dict(cfg, focus=["reject", "exact", "valid", "bind", "stats"])


def run_job(job, ctx):
    if "bulk" in job:
        run_bulk(dict(job, cfg=prep(job["cfg"])), ctx, Rejecting)
    elif "size" in job:
        script(ctx, Rejecting, prep(job["cfg"]), size_script(job["size"], job["cfg"]["index"], job["tail"]))
    else:
        explore.bfs(ctx, Rejecting, prep(job["cfg"]), job["depth"])


def replay(case, ctx):
    explore.replay_history(ctx, Rejecting, case["cfg"], case["hist"])
