"""C10: deletes and updates take effect at once, and only on their target."""
from ..indexlib import bulk_jobs, ISLE, index_jobs, index_replay, index_run

LEVEL = "model_checking"
FOCUS = ["effect"]
ASSUMPTIONS = ["k is at least 0", "updating hash and tree index records without metadata keeps the old metadata"]
BOUNDS = {"quick": "all histories of inserts (1-3 rows), single and multiple deletes, updates, searches, clear/build/initialise to depth 3-4 for 5 index types, several metrics and settings, 3 storages; in every state 7 queries x 5 k, and deletes and updates of up to 14 ids that do not exist (malformed, negative, never assigned, deleted) each compared before/after; histories over 300-1030 vectors",
          "thorough": "depth 4-5, 2 deviations"}
BOUNDS["quick"] += "; inverted-file index probing one cluster over well separated groups: every record found at its own vector after every history to depth 3"


def cfgs(tier):
    q = tier == "quick"
    B = [[[0, 1]], [[5, 0], [2, 3]]]
    U = {"upd_pts": [6, 0], "upd_metas": [1, 0], "multidel": True}
    out = []
    for metric in ("cosine", "euclidean"):
        for st, lim in (("memory", None), ("disk", None), ("hybrid", 1)):
            d = 3 if q else 4
            b = dict(U, metric=metric, storage=st, limit=lim, batches=B, queries=[0, 5, 3] if q and st != "memory" else list(range(7)), extra=[["search", 1, 2]])
            if q and st != "memory":
                b.update(upd_pts=[6], upd_metas=[1])
            out.append((dict(b, index="flat"), d))
            out.append((dict(b, index="ivf", iconf={"n_clusters": 2, "n_probes": 2}), d))
            out.append((dict(b, index="ivf", iconf={"n_clusters": 3, "n_probes": 1}), d))
            out.append((dict(b, index="hnsw"), d))
            if st == "memory":
                out.append((dict(b, index="hnsw", iconf={"m": 2, "ef_search": 3}, batches=[[[5, 0], [3, 1], [4, 0]], [[0, 1]]], upd_pts=[6], upd_metas=[1], dev=1 if q else 2), 2 if q else 3))
                out.append((dict(b, index="hnsw", iconf={"m": 1, "ef_search": 1}, batches=[[[0, 1]]], upd_pts=[6], upd_metas=[1], dev=1), 3))
    I = ISLE
    for metric in ("cosine", "euclidean"):
        for nc in (2, 3) if q else (2, 3, 4):
            out.append((dict(U, near="effect", index="ivf", metric=metric, iconf={"n_clusters": nc, "n_probes": 1}, queries=[I, I + 3],
                             batches=[[[I, 0], [I + 3, 1]], [[I + 1, 0]], [[I + 4, 1], [I + 1, 0], [I + 5, 0]]], upd_pts=[I + 2, I + 5]), 3 if q else 4))
    for metric in ("cosine", "euclidean", "manhattan"):
        for ic in ({"num_hash_tables": 2, "hash_size": 2, "num_projections": 4, "threshold": 0.0},
                   {"num_hash_tables": 1, "hash_size": 6, "num_projections": 6, "threshold": -1.0},
                   {"num_hash_tables": 3, "hash_size": 4, "num_projections": 3, "threshold": 0.9}):
            out.append((dict(U, index="lsh", metric=metric, iconf=ic, batches=B, extra=[["clear"], ["search", 1, 2]]), 3 if q else 4))
    for metric in ("angular", "euclidean", "manhattan"):
        out.append((dict(U, index="annoy", metric=metric, iconf={"num_trees": 3}, batches=B, extra=[["build"], ["clear"]], upd_pts=[6], queries=[0, 5]), 4))
    return [(dict(c, focus=FOCUS), d) for c, d in out]


def sizes(tier):
    out = []
    ns = [6, 9, 12, 20, 41, 130] if tier == "quick" else list(range(6, 60)) + [130, 300]
    for idx, metric, ic in (("flat", "cosine", {}), ("ivf", "euclidean", {"n_clusters": 6, "n_probes": 6}), ("ivf", "cosine", {"n_clusters": 6, "n_probes": 2}),
                            ("hnsw", "euclidean", {"m": 150, "ef_search": 150}), ("hnsw", "cosine", {"m": 3, "ef_search": 4}),
                            ("lsh", "cosine", {"threshold": 0.2}), ("lsh", "euclidean", {"threshold": 0.0, "num_hash_tables": 3, "hash_size": 3, "num_projections": 8}),
                            ("annoy", "angular", {}), ("annoy", "euclidean", {"num_trees": 4})):
        out.append(({"index": idx, "metric": metric, "iconf": ic, "batches": [], "focus": FOCUS, "queries": [0, 6, 20]}, ns))
    return out


def jobs(tier):
    return index_jobs(cfgs(tier), sizes(tier), [["missing"]], bulk_jobs(FOCUS, tier, sizes=((520, 0), (1030, 0), (300, 1), (1030, 10))))


run_job = index_run
replay = index_replay
