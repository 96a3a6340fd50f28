"""C11: a batch insert binds each id to its own row and metadata, however the rows are batched."""
import itertools

import numpy as np

from .. import env
from ..indexlib import BULK, ISLE, OWN, PTS, IndexSystem, make_index, score, default_metric
from ..storagelib import make_storage, meta, same_meta, same_vec
from valori import VectorDBClient

LEVEL = "model_checking"
ASSUMPTIONS = ["2 to 40 dimensions; rows given as a two-dimensional array"]
DTYPES = ["float32", "float64", "float16", "int8", "uint8", "int64", ">f4", "bool"]
LAYOUTS = ["C", "F", "rows-of-larger", "columns-of-larger", "reversed", "readonly", "broadcast"]
BOUNDS = {"quick": "every split of 1-5 rows (duplicates and a zero row included) into consecutive batches x every pattern of present/absent metadata (none, list with gaps, empty dictionaries) for 1-4 rows, x 8 dtypes x 7 memory layouts, on 5 index types (3 storages); single batches of every size from 1 to 70 and 130, 257, 600, 1025, 2050; in each, ids, records and searches compared row by row, and across splits",
          "thorough": "splits of 1-6 rows, all sizes to 140"}
BOUNDS["quick"] += "; every arrangement of 2-5 rows from two well separated groups in an inverted-file index that probes one cluster"
ROWS = [0, 6, 3, 0, 5, 1, 2]                 # row 0 twice, row 3 is zero
KINDS = [("flat", "cosine", {}), ("flat", "euclidean", {}), ("hnsw", "euclidean", {}), ("ivf", "cosine", {"n_clusters": 50, "n_probes": 50}),
         ("ivf", "euclidean", {"n_clusters": 2, "n_probes": 2}), ("lsh", "cosine", {"threshold": -1.0, "num_hash_tables": 2, "hash_size": 1}),
         ("lsh", "euclidean", {"threshold": 0.0}), ("annoy", "euclidean", {"num_trees": 3})]


def compositions(n):
    for cuts in itertools.product((0, 1), repeat=n - 1):
        out, start = [], 0
        for i, c in enumerate(cuts, 1):
            if c:
                out.append((start, i))
                start = i
        yield out + [(start, n)]


def row(p, dim):
    base = list(PTS[p])
    return (base + [((p * 5 + j * 3) % 7 - 3) * 0.5 for j in range(dim - 2)]) if p != 3 else [0] * dim


def lay(a, how):
    """the same values in another memory layout"""
    if how == "C":
        return np.ascontiguousarray(a)
    if how == "F":
        return np.asfortranarray(a)
    if how == "rows-of-larger":
        b = np.ones((a.shape[0] * 2 + 1, a.shape[1]), a.dtype)
        b[1::2] = a
        return b[1::2]
    if how == "columns-of-larger":
        b = np.ones((a.shape[0], a.shape[1] * 3), a.dtype)
        b[:, ::3] = a
        return b[:, ::3]
    if how == "reversed":
        return np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1]
    if how == "readonly":
        b = a.copy()
        b.flags.writeable = False
        return b
    if how == "broadcast":
        return np.broadcast_to(a, a.shape)
    raise AssertionError(how)


def metas_for(pattern, lo, hi):
    """pattern: per row 0 absent, 1 present, 2 empty; or None for no metadata at all"""
    if pattern is None:
        return None
    return [None if pattern[i] == 0 else {} if pattern[i] == 2 else {"row": i, "n": {"x": [i]}} for i in range(lo, hi)]


def expect_meta(pattern, i):
    return None if pattern is None or pattern[i] == 0 else {} if pattern[i] == 2 else {"row": i, "n": {"x": [i]}}


def run_case(case, ctx):
    kind, metric, ic = case["kind"], case["metric"], case["iconf"]
    dim, dt = case.get("dim", 2), case.get("dtype", "float32")
    d = env.fresh_dir("b")
    import tempfile
    tempfile.tempdir = d
    env.reset_ids()
    db = None

    def bad(key, msg):
        ctx.violation("%s:%s" % (key, kind), msg, case)

    try:
        st = make_storage(case.get("storage", "memory"), d, case.get("limit"))
        db = VectorDBClient(st, make_index({"index": kind, "metric": metric, "iconf": ic}))
        db.initialize()
        rows = [row(p, dim) for p in case["rows"]]
        n = len(rows)
        want = np.array(rows, dtype="float64").astype(dt)
        pat = case["pattern"]
        ids = []
        with env.choices(env.Chooser()):
            for lo, hi in case["split"]:
                a = lay(want[lo:hi], case.get("layout", "C"))
                keep = a.copy()
                mets = metas_for(pat, lo, hi)
                try:
                    got = db.insert(a, mets)
                except Exception as e:
                    return bad("refused", "insert of rows %d-%d (%s, %s) raised %r" % (lo, hi, dt, case.get("layout", "C"), e))
                if not isinstance(got, list) or len(got) != hi - lo:
                    return bad("count", "insert of %d rows returned %r" % (hi - lo, got))
                if a.tobytes() != keep.tobytes():
                    return bad("input", "insert changed the caller's array")
                if mets is not None and not same_meta(mets, metas_for(pat, lo, hi)):
                    return bad("input", "insert changed the caller's metadata: %r" % (mets,))
                ids += got
            if len(set(map(str, ids))) != n:
                return bad("unique", "%d rows got ids %r" % (n, ids))
            if kind == "annoy":
                db.index.build()
            stt = db.get_stats()["index"]
            if (stt["num_vectors"] if kind in OWN else stt["vector_count"]) != n:
                return bad("stat", "%d rows inserted, %r counted" % (n, stt))
            if kind not in OWN:
                if sorted(st.list_vectors()) != sorted(ids):
                    return bad("listed", "ids returned %r, ids stored %r" % (sorted(ids), sorted(st.list_vectors())))
                for i, x in enumerate(ids):
                    v, m = st.retrieve_vector(x)
                    if not same_vec(v, np.ascontiguousarray(want[i])) or not same_meta(m, expect_meta(pat, i)):
                        return bad("record", "row %d: stored %r %r, given %r %r" % (i, v.tolist()[:4], m, want[i].tolist()[:4], expect_meta(pat, i)))
            # what searches say about each id
            qs = sorted(set(range(0, n, max(1, n // 4))) | {n - 1})
            for q in qs:
                res = db.search(want[q], n + 2)
                seen = {}
                for r in res:
                    if str(r["id"]) in seen:
                        return bad("twice", "row %d: %r found twice" % (q, r["id"]))
                    seen[str(r["id"])] = r
                near = case.get("near")              # groups so far apart that one cluster is enough to find a row
                if near and str(ids[q]) not in seen:
                    return bad("self", "row %d is not found in its own cluster" % q)
                if kind == "flat" or (kind == "ivf" and not near) or (kind == "hnsw" and n <= 16) or kind == "annoy":
                    if len(seen) != n:
                        return bad("missing", "search over %d rows finds %d" % (n, len(seen)))
                for i, x in enumerate(ids):
                    r = seen.get(str(x))
                    if r is None:
                        continue
                    m = expect_meta(pat, i)
                    if not same_meta(r["metadata"], m) and not (kind in OWN and m is None and r["metadata"] in ({}, None)):
                        return bad("meta", "row %d found with metadata %r, given %r" % (i, r["metadata"], m))
                    s = score(kind, metric, want[q], want[i])
                    tol = 5e-3 if kind == "annoy" or dt == "float16" else 1e-5
                    if abs(float(r["distance"]) - s) > tol * max(1, abs(s)):
                        return bad("vector", "row %d queried with row %d scores %r, its own vector gives %r" % (i, q, r["distance"], s))
                nz = bool(np.any(want[q]))
                if kind == "lsh" and (nz or metric != "cosine") and str(ids[q]) not in seen:
                    return bad("self", "row %d is not found under its id" % q)
            ctx.n("transitions", len(case["split"]))
            ctx.n("states")
            ctx.n("traces_validated_against_impl")
            ctx.outcome((kind, n, repr(case["split"]), repr(pat), dt, case.get("layout")))
    finally:
        if db is not None and kind == "annoy":
            try:
                db.close()
            except Exception:
                pass
        env.drop_dir(d)


def cases(job, tier):
    q = tier == "quick"
    kind, metric, ic = job["k"]
    base = {"kind": kind, "metric": metric, "iconf": ic, "storage": job["storage"], "limit": job["limit"]}
    full = job["storage"] == "memory"
    if job["t"] == "split":
        for n in range(1, (5 if full else 3) + (0 if q else 1) + 1):
            rows = ROWS[:n]
            pats = [None] + [list(p) for p in itertools.product((0, 1, 2) if n <= 3 else (0, 1), repeat=n)] if n <= 4 else [None, [1] * n, [0, 1] * (n // 2) + [1] * (n % 2)]
            for split in compositions(n):
                for pat in pats:
                    yield dict(base, rows=rows, split=split, pattern=pat)
    elif job["t"] == "cluster":
        for n in range(2, (5 if q else 6) + 1):
            for rows in itertools.permutations(range(ISLE, ISLE + 6), n):
                if n > 3 and rows[0] != ISLE:
                    continue
                for split in ([(0, n)], [(0, 2), (2, n)]) if n > 2 else ([(0, n)],):
                    yield dict(base, rows=list(rows), split=split, pattern=[1] * n, near=True)
    elif job["t"] == "layout":
        for dt in DTYPES:
            if (kind, metric) == ("annoy", "euclidean") and dt == "bool":
                continue
            for l in LAYOUTS:
                for dim in (2, 5, 40):
                    for split in ([(0, 4)], [(0, 1), (1, 4)]):
                        yield dict(base, rows=[0, 6, 3, 5], split=split, pattern=[1, 0, 1, 2], dtype=dt, layout=l, dim=dim)
    else:
        for n in [600, 1025, 2050] if full else [520]:
            pat = [(1, 0, 1, 2)[j % 4] for j in range(n)]
            for split in ([(0, n)],) if n > 600 else ([(0, n)], [(0, n - 1), (n - 1, n)], [(0, 256), (256, n)]):
                yield dict(base, rows=list(range(BULK, BULK + n)), split=split, pattern=pat, dim=4)
        for n in (list(range(1, 71)) if full else [1, 2, 9, 10, 11, 32, 33, 64, 65, 100, 101]) + [130, 257] if q else list(range(1, 141)) + [257, 513]:
            rows = [12 + (j * 5) % 590 for j in range(n)]
            pat = [(1, 0, 1, 2)[j % 4] for j in range(n)]
            yield dict(base, rows=rows, split=[(0, n)], pattern=pat, dim=4)
            if n % 10 == 1:
                yield dict(base, rows=rows, split=[(0, n // 2), (n // 2, n)] if n > 1 else [(0, 1)], pattern=pat, dim=4)
                yield dict(base, rows=rows, split=[(0, n)], pattern=None, dim=4)


def jobs(tier):
    out = []
    for k in KINDS:
        for st, lim in (("memory", None), ("disk", None), ("hybrid", 2)):
            if st != "memory" and k[0] in OWN:
                continue
            for t in ("size", "split", "layout"):
                if t == "layout" and st == "hybrid":
                    continue
                out.append({"t": t, "k": list(k), "storage": st, "limit": lim})
    for metric in ("cosine", "euclidean"):
        for nc in (2, 3):
            out.append({"t": "cluster", "k": ["ivf", metric, {"n_clusters": nc, "n_probes": 1}], "storage": "memory", "limit": None})
    return out


def run_job(job, ctx):
    for c in cases(job, ctx.tier):
        if ctx.late():
            return
        ctx.current = c
        with env.limit(60):
            run_case(c, ctx)
    ctx.sample(c)


def replay(case, ctx):
    case["split"] = [tuple(s) for s in case["split"]]
    run_case(case, ctx)
