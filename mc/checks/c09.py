"""C09: search results are live, distinct, current, correctly scored and ordered, in every configuration."""
from ..indexlib import bulk_jobs, index_jobs, index_replay, index_run

LEVEL = "model_checking"
FOCUS = ["valid"]
ASSUMPTIONS = ["scores compared with a relative tolerance of 1e-6 (tree index 4e-3: single precision)", "hamming and dot scores of the tree index are only checked as far as the code documents them"]
BOUNDS = {"quick": "all histories (inserts of 1-3 rows, updates, deletes, searches, build) to depth 3 for every index kind and metric with narrow probing, small graphs, several thresholds; every query point x 5 k in every state; graph index: 1 deviating random choice per operation; long histories for 6-40 and up to 130 vectors; histories over 520-2060 vectors",
          "thorough": "depth 4, 2 deviations, more sizes"}


def cfgs(tier):
    q = tier == "quick"
    d = 3 if q else 4
    B = [[[0, 1]], [[5, 0], [2, 3]]]
    out = []
    for metric in ("cosine", "euclidean"):
        out.append(({"index": "flat", "metric": metric, "batches": B, "extra": [["reinit"]]}, d))
        for nc, npb in ((2, 1), (3, 1), (3, 2)):
            out.append(({"index": "ivf", "metric": metric, "iconf": {"n_clusters": nc, "n_probes": npb}, "batches": B, "extra": [["search", 1, 2]]}, d))
        for m, ef in ((1, 1), (2, 1), (1, 3), (0, 2), (2, 4)):
            for b in ([[0, 1]], [[5, 0], [3, 1], [4, 0]]):
                out.append(({"index": "hnsw", "metric": metric, "iconf": {"m": m, "ef_search": ef}, "batches": [b, [[1, 0]]], "extra": [],
                             "dev": 1 if q else 2, "upd_pts": [6]}, d if len(b) == 1 else d - 1))
            out.append(({"index": "hnsw", "metric": metric, "iconf": {"m": m, "ef_search": ef}, "batches": B, "extra": [["reinit"]], "dev": 0, "upd_pts": [6]}, d))
    for metric in ("cosine", "euclidean", "manhattan"):
        for ic in ({"num_hash_tables": 2, "hash_size": 2, "num_projections": 4, "threshold": 0.5},
                   {"num_hash_tables": 1, "hash_size": 6, "num_projections": 6, "threshold": 0.0},
                   {"num_hash_tables": 3, "hash_size": 4, "num_projections": 3, "threshold": -1.0},
                   {"num_hash_tables": 3, "hash_size": 3, "num_projections": 8, "threshold": 1.0}):
            out.append(({"index": "lsh", "metric": metric, "iconf": ic, "batches": B, "extra": [["clear"], ["reinit"]]}, d))
    for metric in ("angular", "euclidean", "manhattan", "dot", "hamming"):
        out.append(({"index": "annoy", "metric": metric, "iconf": {"num_trees": 3}, "batches": B, "extra": [["build"], ["clear"]], "upd_pts": [6]}, d))
    return [(dict(c, focus=FOCUS), dd) for c, dd in out]


def sizes(tier):
    out = []
    ns = list(range(6, 24, 3)) + [40, 130] if tier == "quick" else list(range(6, 60)) + [130, 300]
    for metric in ("cosine", "euclidean"):
        c = {"metric": metric, "batches": [], "focus": FOCUS, "queries": [0, 6, 20]}
        out.append((dict(c, index="flat"), ns))
        for npb in (1, 3):
            out.append((dict(c, index="ivf", iconf={"n_clusters": 6, "n_probes": npb}), ns))
        for m, ef in ((2, 3), (4, 10), (16, 50)):
            out.append((dict(c, index="hnsw", iconf={"m": m, "ef_search": ef}), ns))
        for th in (0.2, 0.9):
            out.append((dict(c, index="lsh", iconf={"threshold": th}), ns))
            out.append((dict(c, index="lsh", iconf={"threshold": th, "num_hash_tables": 3, "hash_size": 3, "num_projections": 8}), ns))
        out.append((dict(c, index="annoy", metric={"cosine": "angular"}.get(metric, metric), iconf={"num_trees": 5}), ns))
        out.append((dict(c, index="annoy", metric={"cosine": "angular"}.get(metric, metric), iconf={"num_trees": 1, "search_k": 2}), ns))
    return out


def jobs(tier):
    return index_jobs(cfgs(tier), sizes(tier), (), bulk_jobs(FOCUS, tier))


run_job = index_run
replay = index_replay
