"""C13: statistics match the real contents after every history, failed operations included."""
from .. import env, explore
from ..indexlib import BULK_KINDS, IndexSystem, bulk_jobs, index_jobs, run_bulk, script, size_script, stat_count, storage_count
from ..storagelib import StorageSystem, make_storage, meta, vec
from ..persistlib import PersistSystem
from .c12 import INS3, Rejecting

LEVEL = "model_checking"
ASSUMPTIONS = ["sizes are compared with those of a fresh store holding the same records"]
BOUNDS = {"quick": "storages: all histories over 2-3 ids incl. failing stores to depth 4 or closure, figures compared with a freshly filled store in every state; indexes: all histories of inserts, updates, deletes, searches, unusable requests, failing storage calls, clear/build/reopen to depth 3; histories over 520-2060 vectors; persistence managers: all save, refusal, load and restart histories to depth 3 over 5 paths; figures read twice and the state image compared around reading",
          "thorough": "depth 5 and 4"}


def sizes_of(kind, st):
    if kind == "hybrid":
        return {"disk": st["disk"]["disk_usage_bytes"]}
    return {kind: st["memory_usage_bytes"] if kind == "memory" else st["disk_usage_bytes"]}


class StoreStats(StorageSystem):
    def ops(self):
        yield from super().ops()
        for i in self.cfg["ids"]:
            yield ["badstore", i]
            yield ["badupdate", i]
        yield ["badstore", ""]

    def apply(self, op):
        if op[0] in ("badstore", "badupdate"):
            from ..indexlib import Unstorable
            f = self.real.store_vector if op[0] == "badstore" else self.real.update_vector
            try:
                r = f(op[1], vec(0), {"bad": Unstorable()})
            except Exception:
                r = None
            return (None, "accepted") if r else self.check_stats()
        e = super().apply(op)
        if e:
            return (None, e[1])
        return self.check_stats()

    def check(self):
        e = self.check_stats()
        if e:
            return e
        before = self.visible()
        st = self.real.get_stats()
        if self.visible() != before:
            return ("reading:%s" % self.kind, "reading the statistics changed the store")
        if self.real.get_stats() != st:
            return ("twice:%s" % self.kind, "statistics read twice differ: %r, %r" % (st, self.real.get_stats()))
        d = env.fresh_dir("n")
        try:
            other = make_storage(self.kind, d, self.cfg.get("limit"))
            other.initialize()
            for i, (v, m) in self.model.items():
                other.store_vector(i, v, m)
            a, b = sizes_of(self.kind, st), sizes_of(self.kind, other.get_stats())
            if a != b:
                return ("size:%s" % self.kind, "sizes %r, a fresh store with the same records has %r" % (a, b))
        finally:
            env.drop_dir(d)
        if self.kind == "hybrid":
            mem = st["memory"]
            held = self.real.memory_storage.list_vectors() if hasattr(self.real, "memory_storage") else []
            if mem["vector_count"] == 0 and mem["memory_usage_bytes"] != 0:
                return ("memsize:hybrid", "memory tier holds nothing but reports %d bytes" % mem["memory_usage_bytes"])
            if held:
                f = make_storage("memory", d)
                f.initialize()
                for i in held:
                    f.store_vector(i, *self.model[i])
                if f.get_stats()["memory_usage_bytes"] != mem["memory_usage_bytes"]:
                    return ("memsize:hybrid", "memory tier reports %d bytes, its contents take %d" % (
                        mem["memory_usage_bytes"], f.get_stats()["memory_usage_bytes"]))
        for r in self.model:
            self.real.retrieve_vector(r)
        return self.check_stats()


    def visible(self):
        return (sorted(explore.tree(self.dir).items()), self.real.list_vectors(),
                [explore.deep(self.real.retrieve_vector(i), lambda x: x) for i in self.model])


class IndexStats(Rejecting):
    def ops(self):
        for op in super().ops():
            if op[0] != "badop" or op[1] in ("dim3", "nan-last", "badmeta-last", "updim", "badmeta-up", "sdim", "1d"):
                yield op
        yield ["missing"]

    def blame(self, e):
        return e if e is None or e[0] != "prune" else (None, e[1])

    def apply(self, op):
        e = super().apply(op)
        if e and not e[0]:
            return e
        if e and not e[0].split(":")[0] in ("index-count", "storage-count", "cluster-sum", "cache-size", "bucket"):
            return (None, e[1])
        return e

    def check(self):
        e = self.check_stats()
        if e:
            return e
        before = self.observe()
        self.db.get_stats()
        if self.observe() != before:
            return self.bad("stats", "reading", "reading the statistics changed the database")
        for q in (0, 5):
            for k in (1, len(self.model) + 1):
                try:
                    self.db.search(self.qvec(q), k)
                except Exception:
                    pass
        return self.check_stats()

    def qvec(self, q):
        from ..indexlib import pt
        return pt(q, self.dtype)


class PersistStats(PersistSystem):
    """persistence managers: what they report about their files"""

    def apply(self, op):
        e = super().apply(op)
        return (None, e[1]) if e else self.figures()

    def check(self):
        return self.figures()


def jobs(tier):
    q = tier == "quick"
    out = []
    for kind, lim in (("memory", None), ("disk", None), ("hybrid", 0), ("hybrid", 1), ("hybrid", 2), ("hybrid", 10000)):
        for ids, vals in ((["a", "b"], [[0, 1], [2, 0], [3, 5]]), (["a", "b/c", "d"], [[8, 3], [1, 1]])):
            out.append({"t": "store", "depth": (4 if len(ids) == 2 else 3) if q else 6,
                        "cfg": {"kind": kind, "limit": lim, "ids": ids, "vals": vals, "reads": kind == "hybrid", "reopen": kind != "memory", "extra": [["cycle"], ["reinit"]]}})
    B = [[[0, 1]], [[5, 0], [2, 3]]]
    idx = []
    for st, lim in (("memory", None), ("disk", None), ("hybrid", 1)):
        for kind, metric, ic in (("flat", "cosine", {}), ("ivf", "euclidean", {"n_clusters": 2, "n_probes": 2}), ("ivf", "cosine", {"n_clusters": 3, "n_probes": 1}),
                                 ("hnsw", "euclidean", {}), ("hnsw", "cosine", {"m": 2, "ef_search": 3})):
            ex = [["reinit"]] + ([["reopen"]] if st != "memory" else [])
            idx.append((dict(index=kind, metric=metric, iconf=ic, storage=st, limit=lim, batches=B, upd_pts=[6], upd_metas=[1], multidel=True, extra=ex, queries=[0]), (3 if st == "memory" else 2) if q else 3))
    for ic in ({"num_hash_tables": 2, "hash_size": 2, "num_projections": 4, "threshold": 0.0}, {"num_hash_tables": 1, "hash_size": 6, "num_projections": 6, "threshold": -1.0}):
        idx.append((dict(index="lsh", metric="cosine", iconf=ic, batches=B, upd_pts=[6], upd_metas=[1], multidel=True, extra=[["clear"], ["reinit"]], queries=[0]), 3 if q else 4))
    idx.append((dict(index="annoy", metric="euclidean", iconf={"num_trees": 2}, batches=B, upd_pts=[6], upd_metas=[1], multidel=True, extra=[["build"], ["clear"]], queries=[0]), 3 if q else 4))
    sz = []
    for kind, metric, ic in (("flat", "cosine", {}), ("ivf", "euclidean", {"n_clusters": 6, "n_probes": 2}), ("hnsw", "cosine", {}), ("lsh", "cosine", {}), ("annoy", "angular", {})):
        sz.append((dict(index=kind, metric=metric, iconf=ic, batches=[], focus=["stats"], queries=[0]), [7, 20, 60, 130]))
    out += index_jobs([(dict(c, focus=["stats"], missing_always=False), d) for c, d in idx], sz, [["missing"], ["stats"]],
                      [b for st, lim in (("memory", None), ("disk", None), ("hybrid", 500)) for b in bulk_jobs(["stats"], tier, [k for k in BULK_KINDS if st == "memory" or k[0] == "flat"], ((520, 0), (1030, 0), (2060, 0), (300, 1), (1030, 10)) if st == "memory" else ((520, 0), (300, 1)), storage=st, limit=lim)])
    for m in ({"manager": "tensor"}, {"manager": "tensor", "compression": 1}, {"manager": "incremental"}, {"manager": "incremental", "interval": 1}):
        out.append({"t": "persist", "depth": 3 if q else 5,
                    "cfg": dict(m, saves=[["state", "s.pkl", [0, 1]], ["index", "i", [3]], ["index", "d/i", [1]], ["vectors", "v", [0, 10]], ["vectors", "d/e/v.npz", [1, 3]]],
                                ops=[["restart"], ["bad", "index", "d/i", 0], ["load", "vectors", "v"], ["cycle"]])})
    return out


def run_job(job, ctx):
    if job.get("t") == "store":
        explore.bfs(ctx, StoreStats, job["cfg"], job["depth"])
    elif job.get("t") == "persist":
        explore.bfs(ctx, PersistStats, job["cfg"], job["depth"])
    elif "bulk" in job:
        run_bulk(job, ctx, IndexStats)
    elif "size" in job:
        script(ctx, IndexStats, job["cfg"], size_script(job["size"], job["cfg"]["index"], job["tail"]))
    else:
        explore.bfs(ctx, IndexStats, job["cfg"], job["depth"])


def replay(case, ctx):
    explore.replay_history(ctx, StoreStats if "kind" in case["cfg"] else PersistStats if "manager" in case["cfg"] else IndexStats, case["cfg"], case["hist"])
