"""C21: segmented quantization covers all dimensions within its bit budget and codes, decodes and rescores correctly."""
import itertools

import numpy as np

from .. import env, explore
from ..quantlib import QuantSystem, SAQQuantizer, same

LEVEL = "model_checking"
ASSUMPTIONS = ["finite values whose squares are representable in single precision", "queries and codes of the trained dimension"]
BOUNDS = {"quick": "training sets of 1-5 vectors in dimensions 1-6 and 9 (varied, constant columns, all equal, duplicated rows, lopsided variance), every bit budget 1-9 and 16, 31, 64, 128, every number of segments up to dimension+1 and 8; every training vector and a query grid for coding, decoding, distances and rescored search with every top_k and 1-3 or all candidates; 7-48 dimensions with 9-257 rows; 1000-1002 rows; all histories of initialise, close, train, rejected training and quantization to depth 6 or exhaustion",
          "thorough": "all training multisets over a grid"}
BITS = list(range(1, 10)) + [16, 31, 64, 128]
COL = [[0, 1, 2, 4, -1], [3, 3, 3, 3, 3], [0.5, -7, 100, 0, 2], [1, 0, 0, 1, 1], [-2, -2, 5, -2, 5], [1000, 0, 0, 0, 1], [0, 0, 0, 0, 9], [2, 8, 1, 9, 3], [6, 6, 6, 6, 7]]


def trains(d):
    """distinct kinds of training set in dimension d, 5 rows"""
    yield np.array([COL[j % 9] for j in range(d)], float).T
    yield np.array([COL[(3 * j + 2) % 9] for j in range(d)], float).T
    yield np.array([COL[(2 * j + 1) % 9] for j in range(d)], float).T
    yield np.array([COL[0]] + [COL[1]] * (d - 1), float).T          # one dimension carries everything
    yield np.array([COL[1]] * (d - 1) + [COL[7]], float).T
    yield np.full((5, d), 2.5)                                      # no variance at all
    a = np.array([COL[(j + 2) % 9] for j in range(d)], float).T
    yield a[[0, 0, 1, 1, 0]]                                        # duplicates


def queries(train):
    d = train.shape[1]
    out = [np.zeros(d), np.ones(d), -np.arange(d) - 1.0, train.mean(axis=0) + 0.3, train[0] * 3, train[-1] + 0.01]
    for j in range(d):
        e = np.zeros(d)
        e[j] = 5 - 9 * (j % 2)
        out.append(e)
    out += [(a * f + b * (1 - f)) for a, b in zip(train, train[1:]) for f in (0.49, 0.7)]
    return np.array(out)


def seg_dist(z, w, s):
    return ((z[:, None, s] - w[None, :, s]) ** 2).sum(axis=2)


def structure_error(q, cfg, dim):
    st = q.get_stats()
    b, bits = st["segment_boundaries"], st["segment_bits"]
    if not b or len(b) != len(bits) or len(b) > cfg["n_segments"]:
        return "%d segments %s with bits %s" % (len(b), b, bits)
    if st["n_segments"] != len(b) or q.n_segments != len(b):
        return "%d segments, statistics say %s" % (len(b), st["n_segments"])
    pos = 0
    for s, e in b:
        if s != pos or e <= s:
            return "segments %s do not follow each other" % (b,)
        pos = e
    if pos != dim:
        return "segments %s do not cover %d dimensions" % (b, dim)
    if any(int(x) != x or x < 1 for x in bits) or sum(bits) > cfg["total_bits"]:
        return "segment bits %s for a budget of %d" % (bits, cfg["total_bits"])
    if st["dimensions"] != dim or st["total_bits"] != cfg["total_bits"] or abs(st["compression_ratio"] - 32.0 * dim / cfg["total_bits"]) > 1e-9 * st["compression_ratio"]:
        return "statistics %s" % st
    return None


def cosine(a, b):
    na, nb = np.linalg.norm(a), np.linalg.norm(b)
    return 1.0 if na == 0 or nb == 0 else 1.0 - float(np.dot(a, b)) / (na * nb)


def case_errors(case, ctx):
    cfg = case["config"]
    train = np.array(case["train"], dtype=case.get("dtype", "float32"))
    n, dim = train.shape
    q = SAQQuantizer(dict(cfg))
    q.initialize()
    keep = train.copy()
    q.train(train)
    if not same(train, keep):
        return "input", "training changed its input"
    e = structure_error(q, cfg, dim)
    if e:
        return "segments", e
    B, bits = q.segment_boundaries, q.segment_bits
    tr = train.astype(np.float64)
    mean, scale = tr.mean(axis=0), tr.std(axis=0)
    scale = np.where(scale <= 1e-7 * np.abs(mean), 1.0, scale)
    x = np.concatenate([train, queries(tr).astype(train.dtype)])
    keep = x.copy()
    codes = q.quantize(x)
    if not same(x, keep):
        return "input", "quantizing changed its input"
    if codes.dtype.kind not in "iu" or codes.shape != (len(x), len(B)):
        return "codes", "codes have dtype %s and shape %s for %d segments" % (codes.dtype, codes.shape, len(B))
    sizes = [getattr(s, "k", int(codes[:, i].max()) + 1) for i, s in enumerate(q.segment_quantizers or [])]
    for i, (k, b) in enumerate(zip(sizes, bits)):
        if k > 2 ** int(b) or k < 1 or codes[:, i].min() < 0 or int(codes[:, i].max()) >= k:
            return "codes", "segment %d of %d bits has %d words and codes up to %d" % (i, b, k, codes[:, i].max())
    ctx.outcome(codes.tobytes())
    w = q.dequantize(np.array([[min(j, k - 1) for k in sizes] for j in range(max(sizes))], dtype=np.int64)).astype(np.float64)
    z, wz = (x.astype(np.float64) - mean) / scale, (w - mean) / scale

    def nearest_error(cod, rows):
        for i, (s, e) in enumerate(B):
            sl = slice(s, e)
            d = seg_dist(z[rows], wz, sl)
            got = d[np.arange(len(rows)), cod[:, i].astype(int)]
            tol = 8e-6 * ((z[rows][:, sl] ** 2).sum(axis=1) + (wz[:, sl] ** 2).sum(axis=1).max() + (np.abs(mean) / scale)[sl].max() ** 2 * 1e-6)
            bad = got > d.min(axis=1) * (1 + 1e-5) + tol
            if bad.any():
                r = int(np.argmax(bad))
                return "segment %s of %s is coded as %s although %s is nearer" % ((s, e), x[rows[r]].tolist(), w[int(cod[r, i]), sl].tolist(), w[int(d[r].argmin()), sl].tolist())
        return None

    every = list(range(len(x)))
    e = nearest_error(codes, every)
    if e:
        return "nearest", e
    deq = q.dequantize(codes.copy())
    want = np.concatenate([w[codes[:, i].astype(int), s:e2] for i, (s, e2) in enumerate(B)], axis=1)
    if deq.shape != x.shape or not np.allclose(deq, want, rtol=1e-5, atol=1e-6):
        return "decode", "decoded vectors are not made of the segments' words"
    for i in range(len(B)):
        s = slice(*B[i])
        if len({r.tobytes() for r in train[:, s] + 0.0}) <= min(n, 2 ** min(int(bits[i]), 29)):
            err = np.abs((deq[:n, s] - train[:, s]) / scale[s]).max()
            if err > 1e-5 * (1 + (np.abs(mean[s]) / scale[s]).max()):
                return "exact", "%s with %d bits, enough for every training vector, is decoded as %s" % (train[:, s].tolist(), bits[i], deq[:n, s].tolist())
    for i in range(0, len(x), case.get("every", 1)):
        c1 = q.quantize(x[i:i + 1].copy())
        if c1.shape != (1, len(B)):
            return "rows", "row %d alone has codes %s" % (i, c1)
        if not np.array_equal(c1[0], codes[i]):
            e = nearest_error(c1, [i])
            if e:
                return "rows", "row %d alone: %s" % (i, e)
            # another choice is acceptable only between words equally near
            for g, (s, e2) in enumerate(B):
                d = seg_dist(z[[i]], wz, slice(s, e2))[0]
                a, b = d[int(c1[0, g])], d[int(codes[i, g])]
                if abs(a - b) > 1e-5 * (1 + a):
                    return "rows", "row %d alone has codes %s, together %s" % (i, c1[0].tolist(), codes[i].tolist())
        d1 = q.dequantize(codes[i:i + 1].copy())
        if not np.allclose(d1[0], deq[i], rtol=1e-6, atol=1e-7):
            return "rows", "row %d alone is decoded differently" % i
    # rescored search over the coded training vectors
    tc = codes[:n]
    f32 = train.astype(np.float32).astype(np.float64)
    for qi in range(0, len(x), case.get("qstep", 1)):
        qu = x[qi]
        qd = qu.astype(np.float32).astype(np.float64)
        true = np.array([cosine(qd, v) for v in f32])
        dec = np.array([cosine(qd, v) for v in deq[:n].astype(np.float64)])
        got = np.array([q.compute_distance(qu.copy(), c.copy()) for c in tc[:8]])
        if np.abs(got - dec[:8]).max() > 2e-5:
            return "distance", "distances of %s to the decoded vectors are %s, expected %s" % (qu.tolist(), got.tolist(), dec[:8].tolist())
        for k in case["ks"]:
            ids, ds = q.search_with_rescoring(qu.copy(), tc.copy(), top_k=k)
            ids = [int(i) for i in ids]
            m = min(k, n, cfg["rescore_top_k"])
            if len(ids) != m or len(ds) != m or len(set(ids)) != m or any(not 0 <= i < n for i in ids):
                return "search", "search of %s for %d gives rows %s with distances %s" % (qu.tolist(), k, ids, list(ds))
            if np.abs(true[ids] - np.array(ds)).max() > 2e-5 or np.any(np.diff(ds) < 0):
                return "search", "search of %s gives rows %s at %s, true distances %s" % (qu.tolist(), ids, list(ds), true[ids].tolist())
            if cfg["rescore_top_k"] >= n:
                if np.abs(np.sort(true)[:m] - np.sort(true[ids])).max() > 2e-5:
                    return "search", "search of %s for %d gives rows %s at %s, the nearest are at %s" % (qu.tolist(), k, ids, true[ids].tolist(), np.sort(true)[:m].tolist())
            elif (dec[ids] > np.sort(dec)[cfg["rescore_top_k"] - 1] + 2e-5).any():
                return "search", "search of %s gives rows %s that are not among the %d candidates nearest by code" % (qu.tolist(), ids, cfg["rescore_top_k"])
    return None


def one(case, ctx):
    ctx.current = case
    ctx.n("states")
    ctx.n("transitions", 4)
    with env.limit(120):
        e = case_errors(case, ctx)
    if e:
        ctx.violation(e[0], "training %s, %s: %s" % (str(case["train"])[:200], case["config"], e[1]), case)
    else:
        ctx.n("traces_validated_against_impl")


def jobs(tier):
    q = tier == "quick"
    out = []
    for d in (1, 2, 3, 4, 5, 6, 9) if q else (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16):
        for ns in sorted(set(list(range(1, d + 2)) + [8])):
            out.append({"dim": d, "segments": ns})
    for d in (7, 8, 10, 12, 16, 17, 24, 32, 33, 48):
        out.append({"wide": d})
    for n in (1000, 1001, 1002):
        out.append({"big": n})
    for c in ({"total_bits": 8, "n_segments": 2}, {"total_bits": 1, "n_segments": 3}, {"total_bits": 5, "n_segments": 8, "adjustment_iters": 0}, {}):
        out.append({"cfg": {"q": "saq", "config": c}, "depth": 6 if q else 10})
    if not q:
        for s in range(16):
            out.append({"multi": s, "slices": 16})
    return out


def run_job(job, ctx):
    if "cfg" in job:
        explore.bfs(ctx, QuantSystem, job["cfg"], job["depth"])
        return
    if "big" in job:
        n = job["big"]
        t = np.array([[(i * 7) % 11, i % 3, i / 100.0] for i in range(n)], float)
        t[-1] = [-40, 7, 13]                                         # the nearest of some query is the very last row
        one({"train": t.tolist(), "config": {"total_bits": 6, "n_segments": 2, "adjustment_iters": 1, "rescore_top_k": 2000}, "every": 400, "qstep": 500, "ks": [1, 3]}, ctx)
        one({"train": t.tolist(), "config": {"total_bits": 6, "n_segments": 3, "adjustment_iters": 1, "rescore_top_k": 4}, "every": 400, "qstep": 500, "ks": [2]}, ctx)
        return
    if "wide" in job:
        d = job["wide"]
        for i, (rows, bits, ns, it) in enumerate(((11, 8, 2, 2), (12, 64, 8, 1), (33, 16, 4, 3), (65, 24, 3, 2), (101, 8, 8, 0), (130, 32, 8, 10), (257, 16, 16, 2), (20, 128, d, 1), (9, 5, d + 1, 2))):
            if ctx.late():
                return
            t = np.array([[(i2 * (j % 6 + 1) * 3 + j * 5 + (i2 // 4) * (j % 3)) % 23 - 7 for j in range(d)] for i2 in range(rows)], float) * (np.arange(d) % 4 + 0.5)
            if i % 2:
                t[:, d // 2] = 4.25
            one({"train": t.tolist(), "dtype": ("float32", "float64")[i % 2], "config": {"total_bits": bits, "n_segments": ns, "adjustment_iters": it, "rescore_top_k": (50, 300, 12)[i % 3]},
                 "every": 17, "ks": [1, 11, 60], "qstep": 9}, ctx)
        ctx.sample(job)
        return
    if "multi" in job:
        g = [list(p) for p in itertools.product([0.0, 1.0, -3.0], repeat=2)]
        for i, t in enumerate(x for r in (1, 2, 3) for x in itertools.combinations_with_replacement(g, r)):
            if ctx.late():
                return
            if i % job["slices"] == job["multi"]:
                for b in (1, 2, 3, 4, 8):
                    for ns in (1, 2):
                        one({"train": list(t), "config": {"total_bits": b, "n_segments": ns, "adjustment_iters": 2, "rescore_top_k": 50}, "ks": [1, 2, 3]}, ctx)
        return
    d = job["dim"]
    n = 0
    for ti, t in enumerate(trains(d)):
        for rows in (5, 1, 2, 3) if ti < 2 else (5, 3):
            for bits in BITS if ti < 4 else BITS[::2]:
                if ctx.late():
                    return
                n += 1
                one({"train": t[:rows].tolist(), "dtype": "float64" if n % 3 == 0 else "float32",
                     "config": {"total_bits": bits, "n_segments": job["segments"], "adjustment_iters": n % 4, "rescore_top_k": (50, 1, 50, 2, 50, 3)[n % 6]},
                     "every": 1 if n % 4 == 0 else 5, "ks": ([1, 2], [3, 10], [1, 5])[n % 3], "qstep": 2}, ctx)
    ctx.sample(job)


def replay(case, ctx):
    if "cfg" in case:
        explore.replay_history(ctx, QuantSystem, case["cfg"], case["hist"])
    else:
        one(case, ctx)
