"""C07: a disk-backed database answers the same after close, abandon, re-initialise and reopen."""
from ..indexlib import BULK_KINDS, OWN, bulk_jobs, index_jobs, index_replay, index_run

LEVEL = "model_checking"
FOCUS = ["reopen"]
ASSUMPTIONS = ["the hash and tree indexes keep their records in memory only (documented), and are left out"]
BOUNDS = {"quick": "all histories of inserts (1-2 rows), updates, deletes, searches, close-and-reopen, abandon-and-reopen, reopen with another index type, initialise-again, close-and-initialise to depth 3-5 (graph index 3, 2 with one deviating link choice per operation); ids, vectors, metadata, counts and 2-7 queries compared in every state; 6-130- and 520-1030-row histories reopened three ways",
          "thorough": "depth 5, 2 deviations"}


def cfgs(tier):
    q = tier == "quick"
    B = [[[0, 1]], [[5, 0], [3, 3]]]
    L = [["reopen"], ["abandon"], ["reinit"], ["cycle"]]
    out = []
    for st, lim in (("disk", None), ("hybrid", 1), ("hybrid", 0), ("hybrid", 10000)):
        base = {"storage": st, "limit": lim, "extra": L, "queries": [0, 5], "missing_always": False}
        out.append((dict(base, index="flat", metric="cosine", batches=B, upd_pts=[6], extra=L + [["search", 1, 2], ["reopenas", "hnsw", {}], ["reopenas", "ivf", {"n_clusters": 2, "n_probes": 2}]]), 4 if q else 5))
        out.append((dict(base, index="flat", metric="euclidean", batches=[[[0, 1]]], upd_pts=[6], slots=2), 5 if q else 6))
        out.append((dict(base, index="ivf", metric="euclidean", iconf={"n_clusters": 2, "n_probes": 2}, batches=B, upd_pts=[6], extra=L + [["search", 1, 2], ["reopenas", "flat", {}]]), 4 if q else 5))
        out.append((dict(base, index="ivf", metric="cosine", iconf={"n_clusters": 50, "n_probes": 50}, batches=B, upd_pts=[6]), 3 if q else 4))
        out.append((dict(base, index="ivf", metric="cosine", iconf={"n_clusters": 3, "n_probes": 1}, batches=B, upd_pts=[6]), 3 if q else 4))
        out.append((dict(base, index="hnsw", metric="cosine", batches=B, upd_pts=[6]), 3 if q else 4))
        out.append((dict(base, index="hnsw", metric="euclidean", batches=[[[5, 0], [3, 1], [4, 0]]], upd_pts=[6], extra=[["reopen"], ["reinit"]], dev=1 if q else 2), 2 if q else 3))
        for dt in ("float64", "int8", "float16") if st == "disk" else ():
            for idx in ("flat", "hnsw", "ivf"):
                out.append((dict(base, index=idx, metric="euclidean", iconf={"n_clusters": 2, "n_probes": 2} if idx == "ivf" else {}, dtype=dt, batches=B, upd_pts=[6], extra=L[:2]), 3))
    return [(dict(c, focus=FOCUS), d) for c, d in out]


def sizes(tier):
    out = []
    ns = [6, 7, 11, 17, 40, 130] if tier == "quick" else list(range(6, 50)) + [130, 300]
    for st, lim in (("disk", None), ("hybrid", 3)):
        for idx, ic in (("flat", {}), ("ivf", {"n_clusters": 7, "n_probes": 7}), ("hnsw", {"m": 200, "ef_search": 200}), ("hnsw", {"m": 4, "ef_search": 10})):
            out.append(({"index": idx, "iconf": ic, "metric": "euclidean", "storage": st, "limit": lim, "batches": [], "focus": FOCUS, "queries": [0, 20]}, ns))
    return out


def jobs(tier):
    return index_jobs(cfgs(tier), sizes(tier), [["reopen"], ["insert", [[1, 1]]], ["abandon"], ["delete", [1]], ["reinit"], ["cycle"]],
                      [b for st, lim in (("disk", None), ("hybrid", 3), ("hybrid", 600)) for b in bulk_jobs(FOCUS, "quick", [k for k in BULK_KINDS if k[0] not in OWN][:: 1 if st == "disk" else 2], ((520, 0),), storage=st, limit=lim)] + bulk_jobs(FOCUS, "quick", BULK_KINDS[:1], ((1030, 0),), storage="disk"))


run_job = index_run
replay = index_replay
