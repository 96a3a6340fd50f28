"""C20: product quantization picks the nearest codeword of every sub-vector, and failures leave it as it was."""
import itertools

import numpy as np

from .. import env, explore
from ..quantlib import ProductQuantizer, QuantSystem, same

LEVEL = "model_checking"
ASSUMPTIONS = ["finite values whose squares are representable in single precision"]
BOUNDS = {"quick": "all training multisets of 1-4 vectors from small grids in dimensions 1, 2 and 4, for every number of sub-vectors dividing the dimension, codebook sizes 1, 2, 3 and 256, three dtypes; codebooks of 255-300 words; every grid input and every decoded code word; 3-130 dimensions in 1-32 sub-vectors with 1-300 training rows and up to 640 coded rows; all histories of initialise, close, train, rejected training, rejected quantization to depth 6 or exhaustion",
          "thorough": "multisets of 5 vectors, larger grids"}
GRIDS = {1: [[-2.0], [0.0], [0.5], [1.0], [1000.0]],
         2: [[0, 0], [0, 1], [1, 0], [3, -2], [100, 0.25], [3, 1]],
         4: [[0, 0, 0, 0], [0, 0, 1, 1], [1, 0, 0, 1], [2, 2, 0, 0], [-5, 0.5, 9, 9], [2, 2, -7, 3]]}
KS = [1, 2, 3, 256]


def inputs(d):
    one = [-1e3, -2.0, -0.25, 0.0, 0.24, 0.5, 0.76, 1.0, 3.0, 1e3]
    if d == 1:
        return [[v] for v in one]
    if d == 2:
        return [list(p) for p in itertools.product(one[1:], repeat=2)]
    return [list(p) for p in itertools.product([-2.0, 0.0, 0.76, 9.0], repeat=4)]


def words(q, m, k):
    """codewords of every sub-vector, as decoded: (k, dim)"""
    return q.dequantize(np.array([[j] * m for j in range(k)], dtype=np.int64))


def nearest_error(x, codes, cw, m):
    d = x.shape[1] // m
    X, C = x.astype(np.float64), cw.astype(np.float64)
    for i in range(m):
        s = slice(i * d, (i + 1) * d)
        dist = ((X[:, None, s] - C[None, :, s]) ** 2).sum(axis=2)
        got = dist[np.arange(len(X)), codes[:, i].astype(int)]
        bad = got > dist.min(axis=1) * (1 + 1e-5) + 1e-12
        if bad.any():
            r = int(np.argmax(bad))
            return "sub-vector %d of %s is coded as word %d %s although %s is nearer" % (
                i, x[r].tolist(), codes[r, i], cw[int(codes[r, i]), s].tolist(), cw[int(dist[r].argmin()), s].tolist())
    return None


def case_errors(case, ctx):
    m, k, dt = case["m"], case["k"], case["dtype"]
    train = np.array(case["train"], dtype=dt)
    n, dim = train.shape
    q = ProductQuantizer({"m": m, "k": k})
    q.initialize()
    keep = train.copy()
    q.train(train)
    if not same(train, keep):
        return "input", "training changed its input"
    ek = q.get_stats()["effective_k"]
    if not 1 <= ek <= k or q.get_stats()["dimensions"] != dim or q.get_stats()["subvector_dimensions"] * m != dim:
        return "stats", "statistics %s" % q.get_stats()
    cw = words(q, m, ek)
    if cw.shape != (ek, dim) or not np.isfinite(cw).all():
        return "words", "code words %s" % (cw,)
    some = cw[:6].astype(np.float64)                 # nearly half way between two code words
    mids = [a * f + b * (1 - f) for a in some for b in some for f in (0.4996, 0.50001) if dt in ("float32", "float64")]
    x = np.concatenate([train, np.array(case["inputs"]).astype(dt), cw.astype(dt)] + ([np.array(mids).astype(dt)] if mids else []))
    keep = x.copy()
    codes = q.quantize(x)
    if not same(x, keep):
        return "input", "quantizing changed its input"
    if codes.shape != (len(x), m) or codes.dtype.kind not in "iu":
        return "codes", "codes have dtype %s and shape %s" % (codes.dtype, codes.shape)
    if codes.min() < 0 or int(codes.max()) >= ek:
        return "codes", "codes %s with %d code words" % (codes.tolist(), ek)
    ctx.outcome(codes.tobytes())
    e = nearest_error(x, codes, cw, m)
    if e:
        return "nearest", e
    kc = codes.copy()
    deq = q.dequantize(codes)
    if not same(codes, kc):
        return "input", "dequantizing changed its input"
    d = dim // m
    want = np.concatenate([cw[codes[:, i].astype(int), i * d:(i + 1) * d] for i in range(m)], axis=1)
    if not np.array_equal(deq, want):
        return "decode", "decoded vectors are not made of the code words"
    if dt != "float16" and not same(q.dequantize(q.quantize(deq)), deq):
        return "stable", "coding a decoded vector does not reproduce it"
    if dt != "float16":
        for i in range(m):
            s = slice(i * d, (i + 1) * d)
            if len({r.tobytes() for r in train[:, s].astype(np.float64) + 0.0}) <= min(k, n):
                err = np.abs(deq[:n, s].astype(np.float64) - train[:, s]).max()
                if err > 4e-6 * np.abs(train[:, s].astype(np.float64)).max():
                    return "exact", "sub-vectors %s, no more than %d words, are decoded as %s" % (train[:, s].tolist(), k, deq[:n, s].tolist())
    for i in list(range(0, len(x), case.get("every", 1))):
        if not same(q.quantize(x[i:i + 1].copy()), codes[i:i + 1].copy()):
            return "rows", "row %s alone has codes %s, together %s" % (x[i].tolist(), q.quantize(x[i:i + 1]).tolist(), codes[i].tolist())
        if not same(q.dequantize(codes[i:i + 1].copy()), deq[i:i + 1].copy()):
            return "rows", "row %d alone is decoded differently" % i
    for i in range(0, len(x), max(1, len(x) // 7)):
        for j in range(0, len(x), max(1, len(x) // 5)):
            got = q.compute_distance(x[i].copy(), codes[j].copy())
            want = float(np.linalg.norm(x[i].astype(np.float64) - deq[j].astype(np.float64)))
            if abs(got - want) > 1e-5 * (1 + want):
                return "distance", "distance of %s to the decoded %s is %r, expected %r" % (x[i].tolist(), deq[j].tolist(), got, want)
    return None


def one(case, ctx):
    ctx.current = case
    ctx.n("states")
    ctx.n("transitions", 4)
    with env.limit(60):
        e = case_errors(case, ctx)
    if e:
        ctx.violation(e[0], "%s training %s, m=%d, k=%d: %s" % (case["dtype"], str(case["train"])[:200], case["m"], case["k"], e[1]), case)
    else:
        ctx.n("traces_validated_against_impl")


def jobs(tier):
    q = tier == "quick"
    out = []
    for d in GRIDS:
        for m in (1, 2, 4):
            if d % m:
                continue
            for k in KS:
                for s in range(1 if q else 2):
                    out.append({"dim": d, "m": m, "k": k, "rows": 4 if q else 5, "slice": s, "slices": 1 if q else 2})
    for m, k in ((1, 1), (2, 1), (2, 2), (1, 3), (2, 256)):
        out.append({"cfg": {"q": "product", "config": {"m": m, "k": k}}, "depth": 6 if q else 10})
    for k, n in ((255, 255), (256, 256), (257, 257), (300, 300), (256, 257), (300, 256)):
        out.append({"big": n, "k": k})
    for dim, m in ((3, 3), (6, 3), (8, 2), (8, 4), (8, 8), (9, 3), (16, 8), (16, 16), (24, 4), (32, 8), (33, 11), (64, 16), (64, 1), (128, 32), (130, 10)):
        out.append({"wide": dim, "m": m})
    return out


def run_job(job, ctx):
    if "cfg" in job:
        explore.bfs(ctx, QuantSystem, job["cfg"], job["depth"])
    elif "big" in job:
        n = job["big"]
        for m in (1, 2):
            tr = [[(i * 7) % n + 0.0, i * 2.0 - n] for i in range(n)]
            one({"train": tr, "m": m, "k": job["k"], "dtype": "float32", "inputs": [[0.2, 0.2], [-5000, 5000], [n - 0.6, n / 2.0]], "every": 29}, ctx)
    elif "wide" in job:
        d, m = job["wide"], job["m"]
        for rows, every, k in ((1, 1, 4), (2, 1, 1), (10, 3, 4), (11, 3, 256), (33, 8, 16), (65, 16, 16), (101, 40, 8), (130, 50, 256), (300, 100, 256)):
            for dt in ("float32", "float64", "float16", "int16"):
                if ctx.late():
                    return
                if dt != "float32" and rows > 65:
                    continue
                tr = [[float((i * (j % 6 + 1) * 3 + j * 5 + (i // 4) * (j % 3)) % 23 - 7) for j in range(d)] for i in range(rows)]
                more = [[tr[i % rows][j] * 0.75 + ((i + j) % 4) * 0.3 for j in range(d)] for i in range(rows + 40)]
                one({"train": tr, "m": m, "k": k, "dtype": dt, "inputs": more, "every": every}, ctx)
    else:
        d = job["dim"]
        n = 0
        for rows in range(1, job["rows"] + 1):
            for i, t in enumerate(itertools.combinations_with_replacement(GRIDS[d], rows)):
                for dt in ("float32", "float64", "float16", "int16"):
                    n += 1
                    if n % job["slices"] != job["slice"]:
                        continue
                    if ctx.late():
                        return
                    if dt == "int16" and any(v != int(v) for r in t for v in r):
                        continue
                    tt = list(t)[::-1] if n % 2 else list(t)
                    one({"train": tt, "m": job["m"], "k": job["k"], "dtype": dt, "inputs": inputs(d), "every": 1 if n % 11 == 0 else 41}, ctx)
    if "dim" in job or "wide" in job:
        ctx.sample(job)


def replay(case, ctx):
    if "cfg" in case:
        explore.replay_history(ctx, QuantSystem, case["cfg"], case["hist"])
    else:
        one(case, ctx)
