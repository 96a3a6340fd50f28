"""C19: scalar quantization is bounded, deterministic, order-preserving and error-limited."""
import itertools

import numpy as np

from .. import env, explore
from ..quantlib import QuantSystem, ScalarQuantizer, same

LEVEL = "model_checking"
ASSUMPTIONS = ["finite training values whose range is finite in double precision"]
BOUNDS = {"quick": "all training columns of 1-4 values from a 13-value grid, one or two (differing) columns, float16/32/64 and integer dtypes, 24 bit widths from 1 to 64; 60-odd inputs per column inside, on, between and outside the trained range; 3-300 columns with 1-1025 training rows; all histories of initialise, close, train, rejected training, rejected quantization to depth 6 or exhaustion",
          "thorough": "columns of up to 5 values, three columns"}
BITS = list(range(1, 17)) + [20, 24, 25, 31, 32, 33, 53, 63, 64]
GRID = [0.0, 1.0, -1.0, 0.1, -2.5, 3.0, 1000.0, 1e-3, -1e-8, 1e6, 123.456, -7e10, 1e30]
ROWS = (1, 2, 5, 11, 33, 64, 101, 129, 257, 1025)
DTYPES = ["float32", "float64", "float16", "int32", "uint8", "int64"]


def grid(dt):
    g = np.array(GRID)
    if dt == "float16":
        g = g[np.abs(g) < 60000]
    if dt == "int32":
        g = np.array([0, 1, -1, 7, -100, 255, 2**31 - 1, -2**31, 1000])
    if dt == "uint8":
        g = np.array([0, 1, 2, 100, 128, 200, 254, 255])
    if dt == "int64":
        g = np.array([0, 1, -5, 10**6, -10**9, 2**40, -2**52, 2**53])
    return sorted(set(g.astype(dt).tolist()))


def probes(lo, hi, dt):
    lo, hi = float(lo), float(hi)
    w = hi - lo
    out = [lo, hi, lo - w, hi + w, lo - 1, hi + 1, lo - 1e-3, hi + 1e-3, 0.0, 1e6, -1e6]
    for k in (1, 3, 7, 15, 16):
        out += [lo + w * j / k for j in range(k + 1)] + [lo + w * (j + 0.5) / k for j in range(k)]
    info = np.iinfo(dt) if np.dtype(dt).kind in "iu" else np.finfo(dt)
    out = [x for x in out if float(info.min) <= x < float(info.max)]
    a = np.array(out).astype(dt)
    if np.dtype(dt).kind == "f":
        a = np.concatenate([a, np.nextafter(np.array([lo, hi], dtype=dt), np.array([-np.inf, np.inf], dtype=dt)),
                            np.array([-np.inf, np.inf], dtype=dt)])
    return np.unique(a)


def column_errors(x, codes, deq, lo, hi, bits, dt):
    """x: probes of one dimension, ascending"""
    top = min(2 ** bits - 1, 2 ** 63 - 1)
    if codes.min() < 0 or int(codes.max()) > top:
        return "range", "codes %s outside 0..%d" % (codes.tolist(), top)
    if np.any(np.diff(codes.astype(object)) < 0):
        return "order", "ascending values %s got codes %s" % (x.tolist(), codes.tolist())
    xf, d = x.astype(np.float64), deq.astype(np.float64)
    lo, hi = float(lo), float(hi)
    eps = float(np.finfo(deq.dtype).eps)
    tol = 4 * eps * max(abs(lo), abs(hi))
    if np.any(np.diff(d) < -tol):
        return "order", "decoded values %s are not ascending" % d.tolist()
    if hi > lo:
        step = (hi - lo) / top
        ok = np.abs(d - np.clip(xf, lo, hi)) <= step / 2 * (1 + 1e-9) + tol
        if not ok.all():
            i = int(np.argmin(ok))
            return ("error" if lo <= xf[i] <= hi else "clip"), "value %r with trained range [%r, %r] at %d bits is decoded as %r" % (x[i].item(), lo, hi, bits, deq[i].item())
        low, high = codes[xf <= lo], codes[xf >= hi]
        if bits <= 33 and (np.any(low != 0) or np.any(high.astype(object) != top)):     # beyond, rounding may be off by some codes
            return "clip", "values at or below the range got codes %s, at or above %s (of 0..%d)" % (low.tolist(), high.tolist(), top)
    else:
        i = int(np.argmin(np.abs(xf - lo)))
        if abs(d[i] - lo) > tol:
            return "error", "the constant value %r is decoded as %r" % (lo, deq[i].item())
    return None


def case_errors(case, ctx):
    dt, bits = case["dtype"], case["bits"]
    train = np.array(case["train"], dtype=dt)
    q = ScalarQuantizer({"bits": bits})
    q.initialize()
    keep = train.copy()
    q.train(train)
    if not same(train, keep):
        return "input", "training changed its input"
    cols = [probes(train[:, j].min(), train[:, j].max(), dt) for j in range(train.shape[1])]
    n = max(len(c) for c in cols)
    x = np.stack([np.concatenate([c, np.repeat(c[-1:], n - len(c))]) for c in cols], axis=1)
    keep = x.copy()
    codes = q.quantize(x)
    if not same(x, keep):
        return "input", "quantizing changed its input"
    if codes.dtype.kind not in "iu" or codes.shape != x.shape:
        return "shape", "codes have dtype %s and shape %s for input of shape %s" % (codes.dtype, codes.shape, x.shape)
    kc = codes.copy()
    deq = q.dequantize(codes)
    if not same(codes, kc):
        return "input", "dequantizing changed its input"
    if deq.dtype.kind != "f" or deq.shape != x.shape:
        return "shape", "decoded vectors have dtype %s and shape %s" % (deq.dtype, deq.shape)
    if dt == "float64" and deq.dtype != np.float64 or dt == "float32" and deq.dtype != np.float32:
        return "shape", "training with %s decodes to %s" % (dt, deq.dtype)
    for j in range(x.shape[1]):
        e = column_errors(x[:, j], codes[:, j], deq[:, j], train[:, j].min(), train[:, j].max(), bits, dt)
        if e:
            return e[0], "dimension %d: %s" % (j, e[1])
    # rows on their own, in another order, and twice
    if not same(q.quantize(x[::-1].copy()), codes[::-1].copy()):
        return "rows", "codes depend on the order of the rows"
    ctx.outcome(codes.tobytes())
    if case.get("single"):
        for i in range(0, n, 1):
            if not same(q.quantize(x[i:i + 1].copy()), codes[i:i + 1].copy()):
                return "rows", "row %s alone has codes %s, together %s" % (x[i].tolist(), q.quantize(x[i:i + 1]).tolist(), codes[i].tolist())
            if not same(q.dequantize(codes[i].copy()), deq[i:i + 1].copy()):
                return "rows", "row %d alone is decoded differently" % i
        q2 = ScalarQuantizer({"bits": bits})
        q2.initialize()
        q2.train(train[::-1].copy())
        if not same(q2.quantize(x.copy()), codes):
            return "rows", "codes depend on the order of the training vectors"
        for i in range(0, n, 5):
            v = deq[i].astype(np.float32)
            for k in (0, n // 2, n - 1):
                u = x[k].astype(np.float32)
                if not np.isfinite(u).all() or not np.isfinite(v).all():
                    continue
                got = q.compute_distance(x[k].copy(), codes[i].copy())
                with np.errstate(all="ignore"):
                    a, b = u.astype(np.float64), v.astype(np.float64)
                    na, nb = np.linalg.norm(a), np.linalg.norm(b)
                    if max(na, nb) > 1e18 or 0 < min(na, nb) < 1e-15 or min(na, nb) == 0:
                        continue
                    want = 1 - a.dot(b) / (na * nb)
                if abs(got - want) > 1e-5:
                    return "distance", "distance of %s to the decoded %s is %r, expected %r" % (u.tolist(), v.tolist(), got, want)
    # the decoded value of a code has that code again
    if bits <= 16 and dt in ("float64", "int32", "uint8"):
        top = 2 ** bits - 1
        some = np.unique(np.concatenate([np.arange(min(top + 1, 300)), np.linspace(0, top, 50).astype(int)]))
        some = np.stack([some] * x.shape[1], axis=1).astype(codes.dtype)
        d = q.dequantize(some)
        vary = np.array([train[:, j].max() > train[:, j].min() and
                         (float(train[:, j].max()) - float(train[:, j].min())) / top > 64 * np.finfo(d.dtype).eps * float(np.abs(train[:, j].astype(float)).max())
                         for j in range(x.shape[1])])
        if dt == "float64" and vary.any() and not np.array_equal(q.quantize(d)[:, vary], some[:, vary]):
            return "stable", "quantizing a decoded vector changes its codes"
    return None


def one(case, ctx):
    ctx.current = case
    ctx.n("states")
    ctx.n("transitions", 4)
    with env.limit(20):
        e = case_errors(case, ctx)
    if e:
        ctx.violation("%s:%s" % (e[0], "bits>31" if case["bits"] > 31 else "bits<=31"), "%s training %s, %d bits: %s" % (case["dtype"], str(case["train"])[:300], case["bits"], e[1]), case)
    else:
        ctx.n("traces_validated_against_impl")


def jobs(tier):
    q = tier == "quick"
    out = []
    for dt in DTYPES:
        for s in range(1 if q else 4):
            out.append({"dtype": dt, "rows": 3 if q else 4, "slice": s, "slices": 1 if q else 4})
    for dim in (3, 4, 5, 7, 8, 9, 16, 17, 32, 33, 64, 65, 128, 130, 300):
        out.append({"wide": dim})
    for bits in (1, 2, 8, 32):
        out.append({"cfg": {"q": "scalar", "config": {"bits": bits}}, "depth": 6 if q else 10})
    return out


def run_job(job, ctx):
    if "cfg" in job:
        explore.bfs(ctx, QuantSystem, job["cfg"], job["depth"])
        return
    if "wide" in job:
        d = job["wide"]
        for dt in DTYPES:
            g = grid(dt)
            for rows in ROWS:
                for bi, bits in enumerate((1, 3, 8, 9, 16, 32)):
                    if ctx.late() or (d * rows > 20000 and bi % 3):
                        continue
                    train = [[g[(i * (j % 5 + 1) + j * 3 + i // 7) % len(g)] for j in range(d)] for i in range(rows)]
                    one({"dtype": dt, "train": train, "bits": bits, "single": bi == 2 and d * rows < 5000}, ctx)
        ctx.sample(job)
        return
    dt = job["dtype"]
    g = grid(dt)
    n = 0
    for rows in range(1, job["rows"] + 1):
        cols = list(itertools.combinations_with_replacement(g, rows))
        for ci, c in enumerate(cols):
            if ctx.late():
                return
            for bi, bits in enumerate(BITS):
                n += 1
                if n % job["slices"] != job["slice"]:
                    continue
                # a second column with other values, reversed, so that dimensions differ
                other = cols[(ci * 7 + bi) % len(cols)][::-1]
                one({"dtype": dt, "train": [list(r) for r in zip(c, other)], "bits": bits, "single": n % 9 == 0}, ctx)
        for c in cols[:: 3 if ctx.quick else 1]:
            one({"dtype": dt, "train": [[v] for v in c], "bits": 8, "single": True}, ctx)
    ctx.sample({"dtype": dt, "grid": g, "bits": BITS})


def replay(case, ctx):
    if "cfg" in case:
        explore.replay_history(ctx, QuantSystem, case["cfg"], case["hist"])
    else:
        one(case, ctx)
