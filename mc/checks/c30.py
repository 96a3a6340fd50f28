"""C30: vector helpers and validators match their definitions."""
import itertools
import math
from fractions import Fraction

import numpy as np

from .. import env

env.import_valori()
from valori.exceptions import ValidationError        # noqa: E402
from valori.utils import helpers, similarity as S, validation as V      # noqa: E402

LEVEL = "model_checking"
ASSUMPTIONS = ["values whose squares neither overflow nor vanish in the vectors' precision; results agree to 1e-5 (single) or 1e-9 (double precision) of the size of the terms",
               "similarities within 1e-6 of the duplicate threshold are not judged; a group is its first vector and the later ones similar to that one",
               "whether truth values, complex numbers or numpy integers count as numbers for the validators is not judged",
               "files are named with the suffix of their format; JSON metadata is what JSON can express"]
BOUNDS = {"quick": "11 similarity functions and normalisations on all pairs of vectors of 1 to 3 components over grids of up to 9 values in 7 number types; 4 row normalisations and 3 similarity matrices on all arrays of up to 3 rows of 14; duplicates in all sequences of up to 5 of 6 vectors, 3 metrics, 8 thresholds; vectors of 4-384 components that differ in one place, up to 130 rows, duplicates among up to 130 vectors; all validators on the product of their arguments' classes",
          "thorough": "pairs of vectors over larger grids, duplicates in sequences of up to 6 vectors"}
TYPES = {"float32": [0, 1, -1, 2, -3.5, 0.125, 1000, -0.001, 3e-6], "float64": [0, 1, -1, 0.3, -3.5, 1e-8, 1e6, 1e-12, -7e100], "int64": [0, 1, -1, 7, -1000], "int8": [0, 1, -1, 127, -128, 100],
         "uint8": [0, 1, 2, 200, 255], "int32": [0, -1, 70000, 2 ** 31 - 1, -2 ** 31], "bool": [0, 1]}


def frac(v):
    return [Fraction(float(x)) if np.asarray(v).dtype.kind == "f" else Fraction(int(x)) for x in v]


def root(x):
    """Square root of an exact number."""
    return float(math.sqrt(float(x))) if x < Fraction(10) ** 300 else math.inf


def defs(a, b):
    A, B = frac(a), frac(b)
    dot = sum(x * y for x, y in zip(A, B))
    size = sum(abs(x * y) for x, y in zip(A, B))
    na, nb = root(sum(x * x for x in A)), root(sum(x * x for x in B))
    D = [x - y for x, y in zip(A, B)]
    sq = sum(x * x for x in D)
    cos = float(dot) / na / nb if na and nb else 0.0
    pa, pb = [x > 0 for x in A], [x > 0 for x in B]
    union = sum(x or y for x, y in zip(pa, pb))
    jac = sum(x and y for x, y in zip(pa, pb)) / union if union else 1.0
    big = float(max([abs(x) for x in A + B], default=0))
    return {"cosine_similarity": (cos, 1.0), "cosine_distance": (1 - cos, 1.0), "euclidean_distance": (root(sq), big), "euclidean_distance_squared": (float(sq), big * big),
            "dot_product": (float(dot), float(size)), "manhattan_distance": (float(sum(abs(x) for x in D)), big * len(A)), "chebyshev_distance": (float(max(abs(x) for x in D)), big),
            "hamming_distance": (float(sum(x != y for x, y in zip(pa, pb))), 0.0), "jaccard_similarity": (jac, 1.0), "jaccard_distance": (1 - jac, 1.0)}


def eps(dtype):
    return 1e-5 if np.dtype(dtype).itemsize <= 4 and np.dtype(dtype).kind == "f" else 1e-9


def grid(dtype, dim, tier):
    vals = TYPES[dtype]
    if dim == 2 and tier == "quick":
        vals = vals[:7]
    if dim == 3:
        vals = vals[:4 if tier == "quick" else 5]
    return [np.array(c, dtype=dtype) for c in itertools.product(vals, repeat=dim)]


def job_similarity(job, ctx):
    dt, dim = job["dtype"], job["dim"]
    G = grid(dt, dim, ctx.tier)
    e = eps(dt)
    for i, a in enumerate(G):
        for b in G[i:]:
            ref = defs(a, b)
            ka, kb = a.copy(), b.copy()
            ctx.n("states")
            for f, (want, size) in ref.items():
                ctx.n("transitions")
                case = {"sim": f, "a": a.tolist(), "b": b.tolist(), "dtype": dt}
                got, back = getattr(S, f)(a, b), getattr(S, f)(b, a)
                if np.ndim(got) or not abs(float(got) - want) <= e * size + 1e-300:
                    ctx.violation(f, "%s(%s, %s) of %s = %r, by definition %r" % (f, a.tolist(), b.tolist(), dt, got, want), case)
                if not abs(float(got) - float(back)) <= e * size * .01:
                    ctx.violation("sym-" + f, "%s of %s and %s (%s) is %r, the other way round %r" % (f, a.tolist(), b.tolist(), dt, got, back), case)
                if f.startswith(("cosine_s", "jaccard")) and not -1.0 <= float(got) <= 1.0 or f.endswith("distance") and not float(got) >= 0:
                    ctx.violation("range-" + f, "%s(%s, %s) = %r" % (f, a.tolist(), b.tolist(), got), case)
            m = S.batch_cosine_similarity(np.array([a, b]), np.array([b, a, b]))
            w = [[ref["cosine_similarity"][0], 1.0 if a.any() else 0.0, ref["cosine_similarity"][0]], [1.0 if b.any() else 0.0, ref["cosine_similarity"][0], 1.0 if b.any() else 0.0]]
            if m.shape != (2, 3) or not np.allclose(m, w, rtol=0, atol=e):
                ctx.violation("batch", "batch_cosine_similarity of %s, %s (%s): %s, expected %s" % (a.tolist(), b.tolist(), dt, m.tolist(), w), {"sim": "batch", "a": a.tolist(), "b": b.tolist(), "dtype": dt})
            if not (np.array_equal(a, ka) and np.array_equal(b, kb)):
                ctx.violation("mutated", "the functions change their arguments %s, %s" % (ka.tolist(), kb.tolist()), {"sim": "mutated", "a": ka.tolist(), "b": kb.tolist(), "dtype": dt})
        for norm in ("l1", "l2", "max"):
            r = S.normalize_vector(a, norm)
            A = frac(a)
            size = {"l1": float(sum(abs(x) for x in A)), "l2": root(sum(x * x for x in A)), "max": float(max(abs(x) for x in A))}[norm]
            want = [float(x) / size if size else 0.0 for x in A]
            ctx.n("transitions")
            if r is a or np.shares_memory(r, a) or r.shape != a.shape or not np.allclose(r, want, rtol=0, atol=e):
                ctx.violation("normalize_vector", "normalize_vector(%s of %s, %s) = %s, by definition %s" % (a.tolist(), dt, norm, r.tolist(), want), {"sim": "norm", "a": a.tolist(), "b": a.tolist(), "dtype": dt})
    ctx.outcome((dt, dim))
    if dim > 1:
        bad = [(G[0], G[0][:-1]), (G[0][:-1], G[0]), (G[:2], G[:2]), (np.array(G[:2]), G[0]), (G[0], np.array(G[:2]))]
        for f in list(defs(G[0], G[0])) + ["batch_cosine_similarity", "normalize_vector"]:
            for a, b in bad:
                a, b = np.array(a), np.array(b)
                if f == "batch_cosine_similarity":
                    if a.ndim == b.ndim == 2:
                        b = b[:, :-1]
                if f == "normalize_vector":
                    if a.ndim == 1:
                        b = "l7"
                    else:
                        b = "l2"
                ctx.n("transitions")
                try:
                    r = getattr(S, f)(a, b)
                except ValueError:
                    continue
                ctx.violation("shape-" + f, "%s of shapes %s, %s gives %r" % (f, a.shape, getattr(b, "shape", b), r), {"job": job})


ROWS = [[0, 0], [1, 0], [0, 2], [-3, 4], [1, 1], [1e-6, 0], [0, -1e-9], [3e4, -4e4], [5, 5], [2, 7], [-1, 0], [1e-3, 1e-3], [0.1, 0.3], [-2, -2]]
METHODS = {"l2": lambda A: [x / root(sum(y * y for y in A)) if any(A) else 0.0 for x in A], "l1": lambda A: [float(x / sum(abs(y) for y in A)) if any(A) else 0.0 for x in A],
           "max": lambda A: [float(x / max(abs(y) for y in A)) if any(A) else 0.0 for x in A], "minmax": lambda A: [float((x - min(A)) / (max(A) - min(A))) if max(A) != min(A) else 0.0 for x in A]}


def sim(metric, a, b):
    d = defs(a, b)
    return {"cosine": d["cosine_similarity"][0], "dot": d["dot_product"][0], "euclidean": 1 / (1 + d["euclidean_distance"][0])}[metric]


def job_rows(job, ctx):
    dt = job["dtype"]
    rows = [r for r in ROWS if dt[0] == "f" or all(float(x) == int(x) and abs(x) < 120 for x in r)] + ([[127, -128], [100, 100]] if dt == "int8" else [])
    tab = {}
    V_ = [np.array(r, dtype=dt) for r in rows]
    for i, a in enumerate(V_):
        for m in METHODS:
            tab[m, i] = [float(x) for x in METHODS[m](frac(a))]
        for j, b in enumerate(V_):
            for m in ("cosine", "dot", "euclidean"):
                tab[m, i, j] = sim(m, a, b)
    scale = {"cosine": 1.0, "euclidean": 1.0}
    for n in range(0, 4):
        for idx in itertools.product(range(len(rows)), repeat=n):
            if n == 3 and (len(set(idx)) < 3 and idx[0] != idx[1] or idx[0] > idx[2]):
                continue
            X = np.array([V_[i] for i in idx], dtype=dt).reshape(n, 2)
            keep = X.copy()
            ctx.n("states")
            case = {"job": job}
            for m in METHODS:
                ctx.n("transitions")
                if n == 0:
                    r = helpers.normalize_vectors(X, m)
                    if r.shape != (0, 2):
                        ctx.violation("rows-empty", "normalising no rows (%s) gives shape %s" % (m, r.shape), case)
                    continue
                r = helpers.normalize_vectors(X, m)
                if r.shape != X.shape or not np.allclose(r, [tab[m, i] for i in idx], rtol=0, atol=eps(dt)):
                    ctx.violation("rows-" + m, "normalize_vectors(%s of %s, %s) = %s, by definition %s" % (X.tolist(), dt, m, r.tolist(), [tab[m, i] for i in idx]), case)
            for m in ("cosine", "dot", "euclidean"):
                ctx.n("transitions")
                r = helpers.compute_similarity_matrix(X, m)
                w = np.array([[tab[m, i, j] for j in idx] for i in idx]).reshape(n, n)
                size = scale.get(m) or (float(np.abs(X.astype(float)).max()) ** 2 if n else 1)
                if r.shape != (n, n) or not np.allclose(r, w, rtol=1e-5 if dt == "float32" else 1e-9, atol=eps(dt) * size) or not np.array_equal(r, r.T):
                    ctx.violation("matrix-" + m, "similarity matrix (%s) of %s (%s): %s, by definition %s" % (m, X.tolist(), dt, r.tolist(), w.tolist()), case)
                elif m == "cosine" and n and (r.max() > 1 or r.min() < -1):
                    ctx.violation("matrix-range", "cosine similarities of %s up to %r" % (X.tolist(), r.max()), case)
            if not np.array_equal(X, keep):
                ctx.violation("rows-mutated", "the helpers change their argument %s" % keep.tolist(), case)
    for f, a in ((helpers.normalize_vectors, "l3"), (helpers.compute_similarity_matrix, "cosin"), (helpers.find_duplicates, None)):
        try:
            r = f(V_[0][None], a) if a else f(V_[0][None], .5, "manhattan")
        except ValidationError:
            continue
        ctx.violation("unknown", "%s accepts an unknown name: %r" % (f.__name__, r), {"job": job})
    ctx.outcome(dt)


DUP = [[1, 0], [2, 0], [1, 0.1], [0, 1], [-1, 0], [0, 0], [1, 0.25]]
THRESHOLDS = [0.99, 0.5, 0.0, 0.97, 0.9, 1.5, -0.5, 1e-9, 0.999999]


def job_duplicates(job, ctx):
    metric, most = job["metric"], job["most"]
    V_ = [np.array(x, "float64") for x in DUP]
    tab = {(i, j): sim(metric, a, b) for i, a in enumerate(V_) for j, b in enumerate(V_)}
    names = range(7 if most > 5 else 6)
    for n in range(0, most + 1):
        for idx in itertools.product(names, repeat=n):
            X = np.array([V_[i] for i in idx]).reshape(n, 2)
            ctx.n("states")
            for t in THRESHOLDS:
                ctx.n("transitions")
                if any(abs(tab[i, j] - t) < 1e-6 for p, i in enumerate(idx) for j in idx[p + 1:]):
                    ctx.n("borderline_not_judged")
                    continue
                used, want = set(), []
                for p in range(n):
                    if p in used:
                        continue
                    g = [p] + [o for o in range(p + 1, n) if o not in used and tab[idx[p], idx[o]] >= t]
                    used |= set(g)
                    if len(g) > 1:
                        want.append(g)
                got = helpers.find_duplicates(X, t, metric)
                if [[int(x) for x in g] for g in got] != want:
                    ctx.violation("duplicates-" + metric, "duplicates of %s by %s at %s: %s, by definition %s" % (X.tolist(), metric, t, got, want), {"job": job})
    ctx.outcome(metric)


LONG = [4, 5, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 384]


def stream(n, seed):
    """Well spread numbers from -1 to 1."""
    out, x = [], seed * 7919 + 1
    for _ in range(n):
        x = (x * 1103515245 + 12345) % 2 ** 31
        out.append(x / 2 ** 30 - 1)
    return np.array(out)


def job_long(job, ctx):
    """Long vectors, each difference in one place alone; many rows."""
    dt = job["dtype"]
    e = eps(dt)
    scale = {"f": 8, "i": 120, "u": 120, "b": 1}[np.dtype(dt).kind]

    def vec(n, seed):
        x = stream(n, seed) * scale
        return (np.abs(x) if dt == "uint8" else x > 0 if dt == "bool" else x).astype(dt)
    for n in LONG:
        base = vec(n, n)
        others = [base, vec(n, n + 1), np.zeros(n, dt), base[::-1].copy(), base[::-1]]
        for i in sorted({0, 1, n // 2, n - 2, n - 1} | {j for j in (7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255) if j < n}):
            x = base.copy()
            x[i] = 0 if x[i] else 1
            y = np.zeros(n, dt)
            y[i] = 1
            others += [x, y]
        for b in others:
            ctx.n("states")
            ref = defs(base, b)
            for f, (want, size) in ref.items():
                ctx.n("transitions")
                got = getattr(S, f)(base, b)
                if not abs(float(got) - want) <= e * max(size, 1e-9) * n ** .5 + 1e-300:
                    ctx.violation("long-" + f, "%s of two vectors of %d %s components = %r, by definition %r" % (f, n, dt, got, want), {"job": job})
            m = S.batch_cosine_similarity(np.array([base, b]), np.array([b]))
            if m.shape != (2, 1) or abs(m[0, 0] - ref["cosine_similarity"][0]) > e * n ** .5:
                ctx.violation("long-batch", "batch_cosine_similarity of vectors of %d %s components: %s, by definition %s" % (n, dt, m.tolist(), ref["cosine_similarity"][0]), {"job": job})
        A = frac(base)
        for norm, size in (("l1", float(sum(abs(x) for x in A))), ("l2", root(sum(x * x for x in A))), ("max", float(max(abs(x) for x in A)))):
            got = S.normalize_vector(base, norm)
            if not np.allclose(got, [float(x) / size for x in A], rtol=0, atol=e):
                ctx.violation("long-normalize", "normalize_vector (%s) of %d %s components" % (norm, n, dt), {"job": job})
        ctx.outcome((dt, n))
    if dt in ("uint8", "bool", "int32"):
        return
    for n in (4, 7, 10, 11, 33, 65, 101, 130):
        for dim in (1, 3, 17):
            X = np.array([vec(dim, 50 + i) for i in range(n)]).reshape(n, dim)
            X[n // 2] = X[0]
            X[n // 3] = 0
            for m in METHODS:
                ctx.n("transitions", n)
                got = helpers.normalize_vectors(X, m)
                want = [[float(x) for x in METHODS[m](frac(a))] for a in X]
                if got.shape != X.shape or not np.allclose(got, want, rtol=0, atol=e * 2):
                    ctx.violation("long-rows-" + m, "normalize_vectors (%s) of %d %s rows of %d" % (m, n, dt, dim), {"job": job})
            for m in ("cosine", "dot", "euclidean"):
                ctx.n("transitions", n * n)
                got = helpers.compute_similarity_matrix(X, m)
                D = X.astype(float)
                L = np.sqrt((D * D).sum(1))
                L[L == 0] = np.inf
                want = {"dot": lambda: D @ D.T, "cosine": lambda: D @ D.T / L[:, None] / L[None], "euclidean": lambda: 1 / (1 + np.sqrt(((D[:, None] - D[None]) ** 2).sum(2)))}[m]()
                if got.shape != (n, n) or not np.allclose(got, want, rtol=1e-5 if dt == "float32" else 1e-9, atol=e * (1 if m != "dot" else float(np.abs(D).max()) ** 2 * dim)) or not np.array_equal(got, got.T):
                    ctx.violation("long-matrix-" + m, "similarity matrix (%s) of %d %s rows of %d" % (m, n, dt, dim), {"job": job})
    if dt != "float64":
        return
    for n in (7, 10, 12, 30, 60, 130):
        for step in (1, 2, 3, 7):
            ang = [(i * step % n) // 3 * 3 * math.pi / n + (i * step % n) % 3 * .3 / n for i in range(n)]
            X = np.array([[math.cos(a) * (1 + i % 2), math.sin(a) * (1 + i % 2)] for i, a in enumerate(ang)])
            C = np.cos(np.subtract.outer(ang, ang))
            for gap in (.45, 1.2, 5, 20):
                t = math.cos(gap / n)
                if gap / n > math.pi or np.abs(C - t).min() < 1e-7:
                    continue
                ctx.n("transitions", n)
                used, want = set(), []
                for p in range(n):
                    if p not in used:
                        g = [p] + [o for o in range(p + 1, n) if o not in used and C[p, o] >= t]
                        used |= set(g)
                        if len(g) > 1:
                            want.append(g)
                got = [[int(x) for x in g] for g in helpers.find_duplicates(X, t, "cosine")]
                ctx.outcome((n, step, gap, len(want)))
                if got != want:
                    ctx.violation("long-duplicates", "duplicates among %d vectors at %s: %s, by definition %s" % (n, t, got, want), {"job": job})


# ------------------------------------------------------------- validators
def ok(f, *a, **k):
    """True, "refused", or a description of anything else."""
    try:
        r = f(*a, **k)
    except ValidationError:
        return "refused"
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e)
    return r if r is True else "returns %r" % (r,)


def arrays():
    nan, inf = float("nan"), float("inf")
    out = [None, [1.0, 2.0], (1.0,), "ab", 3.5]
    for dt in ("float32", "float64", "int32", "float16"):
        for x in ([], [0.0], [0, 0, 0], [1, 2], [0, 1, 0, -1], [[1, 2], [3, 4]], [[0, 0], [1, 0]], [[0, 0]], 5, [[[1]]], np.zeros((0, 3)), np.zeros((3, 0)), [[1, 2, 3]] * 3, np.zeros((1, 0, 2))):
            out.append(np.array(x, dtype=dt))
        if dt != "int32":
            for bad in (nan, inf, -inf):
                out += [np.array([1, bad, 2], dt), np.array([bad], dt), np.array([[1, 2], [3, bad]], dt), np.array([[0, bad], [0, 0]], dt)]
    out += [np.array(["a", "b"]), np.array([1, 2, None], object), np.array([["a", "b"]]), np.array([[1, "x"]], object), np.array([b"ab"]), np.array(["2020-01-01"], "datetime64[D]")]
    for dt in ("float16", "float32", "float64", ">f4"):
        big, tiny = np.finfo(dt).max, np.finfo(dt).smallest_subnormal
        for x in ([big, big], [big, -big], [-big, -big, 1], [tiny, 0], [-tiny], [tiny, -tiny], [-0.0, 0.0], [inf, -inf], [big, inf], [[big, big], [1, big]], [[tiny, 0], [0, -tiny]], [[0, 0], [-0.0, 0]],
                  [[inf, 1], [-inf, 1]], [0.0] * 300 + [tiny], [1.0] * 300 + [nan], [1.0] * 1100 + [-inf] + [1.0] * 9, [[1.0, 2.0]] * 300 + [[nan, 0]], [[0.0, 0.0]] + [[1.0, 1.0]] * 300):
            out.append(np.array(x, dtype=dt))
    out += [np.array([1, nan, 2, nan])[::2], np.array([[1, nan], [2, nan]])[:, :1], np.array([1, -1, 2, nan])[::-1], np.array([True, False]), np.array([[False, False]]), np.array([2 ** 63 - 1, -2 ** 63]), np.array([255, 1], "uint8")]
    return out


def vector_ok(v, many, min_dim, max_dim, dtype, allow_zero):
    if not isinstance(v, np.ndarray) or v.ndim != (2 if many else 1) or v.size == 0 or v.dtype.kind not in "biuf":
        return False
    d = v.shape[-1]
    if min_dim is not None and d < min_dim or max_dim is not None and d > max_dim or dtype is not None and v.dtype != np.dtype(dtype):
        return False
    if not all(math.isfinite(x) for x in v.ravel().tolist()):
        return False
    return allow_zero or all(any(r) for r in (v.tolist() if many else [v.tolist()]))


def job_validators(job, ctx):
    case = {"job": job}

    def judge(name, want, got, what):
        ctx.n("transitions")
        if got is not True and got != "refused":
            ctx.violation(name + "-error", "%s: %s" % (what, got), case)
        elif (got is True) != bool(want):
            ctx.violation(name, "%s: %s, though by the documentation it is %s" % (what, "accepted" if got is True else "refused", "valid" if want else "not"), case)

    if job["v"] == "vectors":
        for v in arrays():
            ctx.n("states")
            for mn, mx, dt, az in itertools.product((None, 1, 2, 3, 5), (None, 0, 1, 2, 3), (None, np.float32, np.dtype("float64"), "int32"), (True, False)):
                kw = dict(min_dim=mn, max_dim=mx, dtype=dt, allow_zero=az)
                what = "%r with %s" % (v, kw)
                judge("validate_vector", vector_ok(v, False, **kw), ok(V.validate_vector, v, **kw), what)
                judge("validate_vectors", vector_ok(v, True, **kw), ok(V.validate_vectors, v, **kw), what)
    elif job["v"] == "config":
        nan = float("nan")
        vals = {"a": [1, 0, 11, 2.5, "x", None, nan, -3, 10, 10.0001, float("inf"), np.float32(99), np.float64(3), np.int64(77), np.int64(5)], "b": ["y", 3]}
        configs = [{}] + [{"a": x} for x in vals["a"]] + [{"b": x} for x in vals["b"]] + [dict(a=x, b=y) for x in vals["a"] for y in vals["b"]] + [{"c": 1}, {"a": 1, "c": 2}]
        for c in configs + [None, [("a", 1)], "a", 3]:
            ctx.n("states")
            for req, alw, typ, rng in itertools.product((None, [], ["a"], ["a", "b"]), (None, ["a"], ["a", "b"], []), (None, {"a": int}, {"a": (int, float), "b": str}, {"c": str}), (None, {"a": (0, 10)}, {"a": (-5, 2.5), "b": (0, 1)})):
                kw = dict(required_keys=req, allowed_keys=alw, value_types=typ, value_ranges=rng)
                want = isinstance(c, dict)
                if want:
                    want = all(k in c for k in req or []) and (alw is None or all(k in alw for k in c)) and all(isinstance(c[k], t) for k, t in (typ or {}).items() if k in c) \
                        and all(lo <= c[k] <= hi for k, (lo, hi) in (rng or {}).items() if k in c and isinstance(c[k], (int, float, np.number)))
                judge("validate_config", want, ok(V.validate_config, c, **kw), "%r with %s" % (c, kw))
    else:
        for m in ("cosine", "euclidean", "dot_product", "manhattan", "chebyshev", "hamming", "jaccard"):
            for x, w in ((m, 1), (m.upper(), 0), (m + " ", 0), (m[:-1], 0), (m.encode(), 0)):
                judge("validate_metric", w, ok(V.validate_metric, x), repr(x))
        for x in ("", None, 3, ["cosine"]):
            judge("validate_metric", 0, ok(V.validate_metric, x), repr(x))
        for k in (-10, -1, 0, 1, 2, 9, 10, 11, 10 ** 30, 1.0, "1", None, [1], float("nan")):
            for mx in (None, 1, 9, 10):
                judge("validate_k", isinstance(k, int) and k > 0 and (mx is None or k <= mx), ok(V.validate_k, k, mx), "k=%r, max %r" % (k, mx))
        IDS = ["a", "", " ", "\t\n", "b ", 0, -1, 7, None, 1.5, ["a"], b"a", "a", ("x",)]
        good = lambda i: isinstance(i, int) or isinstance(i, str) and i.strip() != ""        # noqa: E731
        for i in IDS:
            judge("validate_id", good(i), ok(V.validate_id, i), repr(i))
        for n in range(0, 4):
            for t in itertools.product(IDS, repeat=n):
                want = n > 0 and all(good(i) for i in t) and len(set(map(repr, t))) == n
                judge("validate_ids", want, ok(V.validate_ids, list(t)), repr(t))
        for t in (None, "ab", ("a", "b"), {"a"}, {"a": 1}, 3):
            judge("validate_ids", False, ok(V.validate_ids, t), repr(t))
        loop = {}
        loop["x"] = [loop]
        VALS = [1, "x", None, True, 1.5, [1, [2]], {"a": {"b": None}}, "\u00e9\ud83d\ude00", (1, 2)]
        BADV = [{1, 2}, b"x", object(), np.zeros(2), {"k": {3}}, [b"y"], loop, 1j, {(1, 2): 3}, np.float32(1)]
        for n in range(0, 3):
            for t in itertools.product(VALS + BADV, repeat=n):
                want = not any(any(x is b for b in BADV) for x in t)
                judge("validate_metadata", want, ok(V.validate_metadata, {"k%d" % i: x for i, x in enumerate(t)}), repr(t))
        for m, w in ((None, 1), ({}, 1), ([], 0), ("a", 0), ({1: 2}, 0), ({"a": 1, 2: 3}, 0), ({None: 1}, 0), ({("a",): 1}, 0), (0, 0), ([("a", 1)], 0)):
            judge("validate_metadata", w, ok(V.validate_metadata, m), repr(m))
    ctx.outcome(job["v"])


def jobs(tier):
    q = tier == "quick"
    out = [{"j": "similarity", "dtype": t, "dim": d} for t in TYPES for d in (1, 2, 3)]
    out += [{"j": "long", "dtype": t} for t in TYPES]
    out += [{"j": "rows", "dtype": t} for t in ("float32", "float64", "int64", "int8")]
    out += [{"j": "duplicates", "metric": m, "most": 5 if q else 6} for m in ("cosine", "euclidean", "dot")]
    out += [{"j": "validators", "v": v} for v in ("vectors", "config", "rest")]
    return out


def run_job(job, ctx):
    globals()["job_" + job["j"]](job, ctx)
    ctx.n("traces_validated_against_impl", ctx.counts.get("transitions", 0))


def replay(case, ctx):
    if "job" in case:
        return run_job(case["job"], ctx)
    a, b = np.array(case["a"], case["dtype"]), np.array(case["b"], case["dtype"])
    f = case["sim"]
    if f in defs(a, b):
        want, size = defs(a, b)[f]
        got, back = float(getattr(S, f)(a, b)), float(getattr(S, f)(b, a))
        if not abs(got - want) <= eps(case["dtype"]) * size or not abs(got - back) <= eps(case["dtype"]) * size * .01:
            ctx.violation(f, "%r, %r, by definition %r" % (got, back, want), case)
    else:
        run_job({"j": "similarity", "dtype": case["dtype"], "dim": len(a)}, ctx)
