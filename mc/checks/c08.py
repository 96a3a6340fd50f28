"""C08: exhaustive search is exact, after every history."""
from ..indexlib import BULK_KINDS, CLOSE, FAR, TINY, bulk_jobs, index_jobs, index_replay, index_run

LEVEL = "model_checking"
FOCUS = ["exact"]
ASSUMPTIONS = ["distances compared with a relative tolerance of 1e-6; double-precision records count as equally near only within 1e-10", "vectors of moderate size (no overflow of squares)"]
BOUNDS = {"quick": "all histories of inserts (batches 1-2), updates, deletes, searches to depth 3-4; 7 query points x 5 values of k in every state; histories over 520-2060 vectors; random link choices of the graph index: up to 1 deviation per operation",
          "thorough": "depth 5, 2 deviations, more batches and dtypes"}


def cfgs(tier):
    q = tier == "quick"
    B = [[[0, 1]], [[5, 0], [2, 3]]]
    ex = [["search", 1, 2]]
    out = []
    for metric in ("cosine", "euclidean"):
        for dt in ("float32", "float64", "int8") if q else ("float32", "float64", "int8", "uint8", "float16", "int64"):
            out.append(({"index": "flat", "metric": metric, "batches": B, "extra": ex, "dtype": dt}, 4 if q and dt == "float32" else 3 if q else 4))
        out.append(({"index": "flat", "metric": metric, "batches": [[[0, 1]], [[3, 0]], [[6, 1]]], "extra": [["reinit"]], "storage": "hybrid", "limit": 1}, 3 if q else 4))
        for nc, npb in ((2, 2), (3, 5), (50, 1), (1, 1)):
            out.append(({"index": "ivf", "metric": metric, "iconf": {"n_clusters": nc, "n_probes": npb}, "batches": B, "extra": ex}, 4 if q and nc < 3 else 3 if q else 4))
        out.append(({"index": "ivf", "metric": metric, "dtype": "int8", "iconf": {"n_clusters": 2, "n_probes": 2}, "batches": B, "extra": ex}, 3))
        for m, ef in ((16, 50), (4, 6), (5, 5)):
            for b in ([[0, 1]], [[5, 0], [3, 1]], [[5, 0], [3, 1], [4, 0]]):
                # first a batch with deviating random choices, then everything
                out.append(({"index": "hnsw", "metric": metric, "iconf": {"m": m, "ef_search": ef}, "batches": [b, [[1, 0]]],
                             "extra": [], "dev": 1 if q else 2, "upd_pts": [6]}, 3 if q and len(b) < 3 else 2 if q else 3))
        out.append(({"index": "hnsw", "metric": metric, "iconf": {"m": 16, "ef_search": 50}, "batches": [[[0, 1]], [[5, 0], [3, 1], [4, 0]]],
                     "extra": [["search", 1, 2], ["reinit"]], "dev": 0, "upd_pts": [6]}, 4 if q else 5))
        out.append(({"index": "hnsw", "metric": metric, "dtype": "int8", "iconf": {"m": 4, "ef_search": 6}, "batches": [[[0, 1]], [[5, 0], [3, 1], [4, 0]]],
                     "extra": [], "dev": 0, "upd_pts": [6]}, 4))
    # vectors close together but far from the origin, all of them very close to it, and all but equal
    for kind, ic in (("flat", {}), ("ivf", {"n_clusters": 50, "n_probes": 1}), ("ivf", {"n_clusters": 2, "n_probes": 2}), ("hnsw", {"m": 16})):
        for metric in ("cosine", "euclidean"):
            for g in (FAR, TINY, CLOSE):
                if g != FAR or metric == "euclidean":
                    out.append(({"index": kind, "metric": metric, "dtype": "float64", "iconf": ic, "batches": [[[g, 1]], [[g + 1, 0], [g + 2, 3]]],
                                 "extra": [["search", g + 4, 2]], "dev": 0, "upd_pts": [g + 3], "queries": [g, g + 3, g + 4] if g != CLOSE else [1, 3, 4, g]}, 3 if q else 4))
    return [(dict(c, focus=FOCUS), d) for c, d in out]


def sizes(tier):
    out = []
    ns = [[n] for n in list(range(6, 21)) + [33, 64, 130, 257]] if tier == "quick" else [[n] for n in list(range(6, 70)) + [130, 257, 500]]
    for metric in ("cosine", "euclidean"):
        c = {"metric": metric, "batches": [], "focus": FOCUS, "queries": [0, 6, 20]}
        for n in ns:
            out.append((dict(c, index="flat"), n))
            out.append((dict(c, index="ivf", iconf={"n_clusters": 7, "n_probes": 7}), n))
            if n[0] < 200:
                out.append((dict(c, index="hnsw", iconf={"m": 150, "ef_search": 150}), n))
    return out


def jobs(tier):
    return index_jobs(cfgs(tier), sizes(tier), (), bulk_jobs(FOCUS, tier, BULK_KINDS[:3]))


run_job = index_run
replay = index_replay
