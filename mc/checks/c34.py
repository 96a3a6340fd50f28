"""C34: profilers, analysers, inspectors and decorators report true figures and disturb nothing."""
import contextlib
import io
import itertools
import json
import math
import os
import re
import sys
import time
import types
from fractions import Fraction

import numpy as np

from .. import doclib, env

env.import_valori()
from valori.client import VectorDBClient                          # noqa: E402
from valori.exceptions import ValidationError, ValoriError        # noqa: E402
from valori.indices import AnnoyIndex, FlatIndex, HNSWIndex, IVFIndex, LSHIndex   # noqa: E402
from valori.storage import MemoryStorage                          # noqa: E402
from valori.utils import debugging, helpers                       # noqa: E402

LEVEL = "model_checking"
ASSUMPTIONS = ["figures agree to 1e-5 (single) or 1e-9 (double precision)", "time and memory use are what the clock functions and psutil report; both are stand-ins with scripted values",
               "in sets of more than a thousand vectors only the figures that need no sample are judged"]
BOUNDS = {"quick": "3 decorators by 7 outcomes by 4 calls, with and without psutil; all histories of up to 5 measurements (nested, failing) of the profiler by clock steps; query reports over all sequences of up to 3 of 18 queries and of 1300; 1100 measurements; analysis reports on all arrays of up to 3 rows of 10, and arrays of up to 1200 rows that differ in one place; inspection of 5 indexes after all histories of 4 operations and with up to 250 vectors",
          "thorough": "histories of up to 6 measurements, query sequences of up to 4, inspection after histories of 5 operations"}


def cosine(a, b):
    A, B = [Fraction(float(x)) for x in a], [Fraction(float(x)) for x in b]
    na, nb = sum(x * x for x in A), sum(x * x for x in B)
    return float(sum(x * y for x, y in zip(A, B))) / math.sqrt(float(na)) / math.sqrt(float(nb)) if na and nb else 0.0


def job_wrappers(job, ctx):
    """The decorators change nothing about the function: called once, same result, same error."""
    case = {"job": job}
    fakes = {"with psutil": {"psutil": sys.modules.get("psutil") or _fake_psutil()}, "without psutil": {"psutil": None}}
    for lib, m in fakes.items():
        for deco in (helpers.timing_decorator, helpers.memory_usage_decorator, debugging.debug_function):
            for outcome in (5, None, np.arange(3.0), ImportError("inside"), ValueError("v"), ValidationError("w"), KeyboardInterrupt()):
                for args, kw in (((), {}), ((1, "a"), {}), ((), {"x": 2}), ((1,), {"y": [3]})):
                    calls = []

                    def f(*a, **k):
                        "doc of f"
                        calls.append((a, k))
                        if isinstance(outcome, BaseException):
                            raise outcome
                        return outcome
                    g = deco(f)
                    ctx.n("transitions")
                    with doclib.modules(m), contextlib.redirect_stdout(io.StringIO()):
                        try:
                            r = g(*args, **kw)
                        except BaseException as e:
                            r = e
                    if calls != [(args, kw)] or r is not outcome:
                        ctx.violation("decorator", "%s, %s: function called %d times (%s), result %r instead of %r" % (deco.__name__, lib, len(calls), calls, r, outcome), case)
                    if g.__name__ != "f" or g.__doc__ != "doc of f":
                        ctx.violation("decorator-name", "%s names the function %s" % (deco.__name__, g.__name__), case)
        with doclib.modules(m):
            p = debugging.PerformanceProfiler()
            want = {}
            for hist in itertools.product("abx", repeat=3):
                for h in hist:
                    try:
                        with p.measure(h):
                            if h == "x":
                                raise KeyError(h)
                    except KeyError:
                        pass
                    want[h] = want.get(h, 0) + 1
                ctx.n("transitions", 3)
                s = p.get_summary()
                if {k: v["count"] for k, v in s.items()} != want:
                    ctx.violation("profiler", "after %s the summary counts %s" % (want, s), case)
                for v in s.values():
                    for part in ("duration", "memory"):
                        x = v[part]
                        if not x["min"] <= x["avg"] + 1e-9 or not x["avg"] <= x["max"] + 1e-9 or abs(x["avg"] * v["count"] - x["total"]) > 1e-6:
                            ctx.violation("profiler-values", "inconsistent summary %s" % v, case)
    ctx.outcome("wrappers")
    ctx.n("states")


def close(a, b):
    return set(a) == set(b) and all(abs(float(a[k]) - float(b[k])) < 1e-9 for k in b)


def _fake_psutil():
    m = types.ModuleType("psutil")

    class Process:
        def memory_info(self):
            return types.SimpleNamespace(rss=1 << 20)
    m.Process = Process
    return m


ANA = [[1e-30, 0, 2e-31], [0, 0, 0], [1, 0, 0], [1, 1, 1], [-1, 0, 0], [2, 0, 0.1], [0, 0, 5], [float("nan"), 1, 0], [float("inf"), 0, 0], [-3, 2, 1]]


def job_analysis(job, ctx):
    """Reports on a set of vectors against their definitions."""
    case = {"job": job}
    va = debugging.VectorAnalyzer()
    if "error" not in va.analyze_vectors(np.zeros((0, 3))):
        ctx.violation("analysis-empty", "no error for an empty set", case)
    for n in range(0, 4):
        for idx in itertools.product(range(len(ANA)), repeat=n):
            X = np.array([ANA[i] for i in idx], dtype=job["dtype"]).reshape(n, 3)
            keep = X.copy()
            ctx.n("states")
            ctx.n("transitions")
            try:
                with np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
                    r = va.analyze_vectors(X)
                    if n < 3:
                        va.print_analysis(X)
            except Exception as e:
                ctx.violation("analysis-error", "analysing %s: %r" % (X.tolist(), e), case)
                continue
            if not np.array_equal(X, keep, equal_nan=True):
                ctx.violation("analysis-mutated", "changes %s" % keep.tolist(), case)
            if n == 0:
                continue
            rows = [[float(x) for x in v] for v in X]
            flat = [x for v in rows for x in v]
            zero = sum(not any(v) for v in rows)
            const = sum(all(x == v[0] for x in v) for v in rows)
            nan, inf = sum(x != x for x in flat), sum(math.isinf(x) for x in flat)
            q, b = r["quality"], r["basic_stats"]
            score = max(0.0, 1 - .5 * (nan + inf) / len(flat) - .3 * const / n - .2 * zero / n)
            if (q["nan_values"], q["inf_values"], q["constant_vectors"], q["zero_vectors"]) != (nan, inf, const, zero) or abs(q["quality_score"] - score) > 1e-9:
                ctx.violation("analysis-quality", "%s: %s, by definition NaN %d, infinite %d, constant %d, zero %d, score %g" % (rows, q, nan, inf, const, zero, score), case)
            if b["count"] != n or b["dimension"] != 3 or abs(b["memory_size_mb"] * 1024 * 1024 - X.nbytes) > 1e-6 or abs(b["sparsity"] - sum(x == 0 for x in flat) / len(flat)) > 1e-9:
                ctx.violation("analysis-basic", "%s: %s; %d of %d values are zero" % (rows, b, sum(x == 0 for x in flat), len(flat)), case)
            if nan or inf:
                continue
            mean = sum(flat) / len(flat)
            if abs(b["mean"] - mean) > 1e-5 or (b["min"], b["max"]) != (min(flat), max(flat)) or abs(b["std"] - math.sqrt(sum((x - mean) ** 2 for x in flat) / len(flat))) > 1e-5:
                ctx.violation("analysis-values", "%s: %s" % (rows, b), case)
            norms = [math.sqrt(sum(x * x for x in v)) for v in rows]
            d = r["distribution"]["norms"]
            if not np.allclose([d["mean"], d["min"], d["max"], d["std"]], [sum(norms) / n, min(norms), max(norms), np.std(norms)], atol=1e-5):
                ctx.violation("analysis-norms", "%s: %s, the norms are %s" % (rows, d, norms), case)
            cs = [cosine(rows[i], rows[j]) for i in range(n) for j in range(i + 1, n)]
            s = r["similarity"]
            if any(0 < x < 1e-12 for x in norms):      # directions of tiny vectors are not judged
                continue
            if cs:
                st = s["similarity_stats"]
                if not np.allclose([st["mean"], st["min"], st["max"], st["std"]], [sum(cs) / len(cs), min(cs), max(cs), np.std(cs)], atol=1e-5):
                    ctx.violation("analysis-similarity", "%s: %s, the similarities of pairs are %s" % (rows, st, cs), case)
            if (s["high_similarity_pairs"], s["low_similarity_pairs"]) != (sum(x > .95 for x in cs), sum(x < -.5 for x in cs)):
                ctx.violation("analysis-pairs", "%s: %s, the similarities of pairs are %s" % (rows, s, cs), case)
    ctx.outcome(job["dtype"])


KINDS = {"flat": lambda: FlatIndex({"metric": "euclidean"}), "hnsw": lambda: HNSWIndex({"metric": "euclidean"}), "ivf": lambda: IVFIndex({"metric": "euclidean", "n_clusters": 2, "n_probes": 2}),
         "lsh": lambda: LSHIndex({"metric": "cosine"}), "annoy": lambda: AnnoyIndex({"metric": "euclidean"})}


def look(x, live):
    """What searches find."""
    if not live:
        return None
    try:
        return [[(str(h["id"]), h["distance"], h.get("metadata")) for h in x.search(v, 3)] for v in list(live.values())[:2]]
    except ValoriError as e:          # not built
        return str(e)


def job_inspect(job, ctx):
    kind = job["index"]
    for n in (99, 100, 101, 250):
        x = KINDS[kind]()
        db = VectorDBClient(MemoryStorage({}), x)
        db.initialize()
        v = np.array([[i, i % 7, 3.0] for i in range(n)], "float32")
        ids = x.insert(v, [{"n": i} for i in range(n)])
        for gone in (0, 1, n // 2):
            if gone:
                x.delete(ids[:gone])
            r = debugging.IndexInspector(x).inspect_index()
            ctx.n("transitions")
            if r.get("vector_info", {"count": n - gone})["count"] != n - gone or r.get("vector_info", {}).get("dimension", 3) != 3:
                ctx.violation("inspect-count", "%s with %d vectors, %d deleted: %s" % (kind, n, gone, r["vector_info"]), {"job": job})
            hi = r.get("hash_info")
            if hi and hi.get("table_count") and (hi["total_entries"] != (n - gone) * hi["table_count"] or abs(hi["avg_entries_per_bucket"] * hi["total_buckets"] - hi["total_entries"]) > 1e-6):
                ctx.violation("inspect-hash", "%s with %d vectors, %d deleted: %s" % (kind, n, gone, hi), {"job": job})
        db.close()
    for hist in itertools.chain.from_iterable(itertools.product(("one", "three", "delfirst", "dellast", "upd", "clear"), repeat=n) for n in range(0, job["depth"] + 1)):
        x = KINDS[kind]()
        db = VectorDBClient(MemoryStorage({}), x)
        db.initialize()
        live, no = {}, 0
        ctx.n("states")
        for h in hist:
            ctx.n("transitions")
            if h in ("one", "three"):
                k = 1 if h == "one" else 3
                v = np.array([[no + i, 2.0 + i, no % 2] for i in range(k)], "float32")
                no += k
                live.update(zip(db.insert(v, [{"n": i} for i in range(k)]), v))
            elif h == "clear":
                if not hasattr(x, "clear"):
                    continue
                x.clear()
                live = {}
            elif live:
                i = list(live)[0 if h != "dellast" else -1]
                if h == "upd":
                    live[i] = live[i] + np.float32(.5)
                    db.update(i, live[i], {"n": 9})
                else:
                    db.delete([i])
                    live.pop(i)
        insp = debugging.IndexInspector(x)
        case = {"job": job}
        before = (x.get_stats(), look(x, live))
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                r = insp.inspect_index()
                insp.print_inspection()
        except Exception as e:
            ctx.violation("inspect-error", "%s after %s: %r" % (kind, hist, e), case)
            db.close()
            continue
        if (x.get_stats(), look(x, live)) != before or r["stats"] != before[0]:
            ctx.violation("inspect-disturbs", "%s after %s: before the inspection %s, afterwards %s; reported %s" % (kind, hist, before, (x.get_stats(), look(x, live)), r), case)
        if r["type"] != type(x).__name__ or r["initialized"] is not True:
            ctx.violation("inspect-head", "%s after %s: %s" % (kind, hist, r), case)
        vi = r.get("vector_info")
        if vi is not None:
            if vi["count"] != len(live):
                ctx.violation("inspect-count", "%s after %s: %s of %d vectors" % (kind, hist, vi, len(live)), case)
            elif live and "dimension" in vi:
                a = np.array(list(live.values()))
                if vi["dimension"] != 3 or kind != "lsh" and abs(vi["sample_stats"]["mean"] - a.mean()) > 1e-5:
                    ctx.violation("inspect-values", "%s after %s: %s" % (kind, hist, vi), case)
        hi = r.get("hash_info")
        if hi and hi.get("table_count") and hi["total_entries"] != len(live) * hi["table_count"]:
            ctx.violation("inspect-hash", "%s after %s: %s for %d vectors" % (kind, hist, hi, len(live)), case)
        db.close()
    # adding test data and measuring
    for n, nq in ((1, 1), (5, 2), (9, 4), (3, 0)):
        x = KINDS[kind]()
        db = VectorDBClient(MemoryStorage({}), x)
        db.initialize()
        v = np.array([[i, i * i + 1.0, 1.0] for i in range(n)], "float32")
        ctx.n("transitions")
        try:
            r = helpers.validate_index_performance(x, v, v[:nq], k=1)
        except Exception as e:
            ctx.violation("performance-error", "%s: %r" % (kind, e), {"job": job})
            db.close()
            continue
        for i in range(n if kind != "lsh" else 0):
            h = x.search(v[i], 1)
            if not h or h[0]["metadata"] != {"id": i}:
                ctx.violation("performance-rows", "%s: vector %d is found as %s" % (kind, i, h), {"job": job})
        if not set(r) >= {"add_time", "add_throughput", "avg_search_time", "search_throughput", "index_stats"} or r["index_stats"].get("vector_count", n) != n:
            ctx.violation("performance-report", "%s: %s" % (kind, r), {"job": job})
        db.close()
    ctx.outcome(kind)


# ------------------------------------------------------------- scripted clock and memory
class Clock:
    """All clocks of the time module, moved by hand."""

    def __init__(self):
        self.now, self.mem = 1000.0, 64.0

    @contextlib.contextmanager
    def __call__(self):
        keep = {f: getattr(time, f) for f in ("time", "perf_counter", "monotonic", "process_time")}
        keep_ns = {f: getattr(time, f) for f in ("time_ns", "perf_counter_ns", "monotonic_ns")}
        m = types.ModuleType("psutil")
        me = self

        class Process:
            def __init__(self, pid=None):
                pass

            def memory_info(self):
                return types.SimpleNamespace(rss=int(me.mem * (1 << 20)), vms=0)
        m.Process = Process
        real = {id(getattr(time, f)): f for f in list(keep) + list(keep_ns)}
        swapped = [(mod, n, v) for mod in (debugging, helpers) for n, v in list(vars(mod).items()) if id(v) in real or n == "psutil"]     # imported by name
        try:
            for f in keep:
                setattr(time, f, lambda: me.now)
            for f in keep_ns:
                setattr(time, f, lambda: int(me.now * 10 ** 9))
            for mod, n, v in swapped:
                setattr(mod, n, m if n == "psutil" else getattr(time, real[id(v)]))
            with doclib.modules({"psutil": m}):
                yield
        finally:
            for mod, n, v in swapped:
                setattr(mod, n, v)
            for f, g in list(keep.items()) + list(keep_ns.items()):
                setattr(time, f, g)


# a step of a profile: [name, time, memory, fails, steps inside]
def measure(p, c, step, want):
    name, dt, dm, fails, inner = step
    t0, m0 = c.now, c.mem
    try:
        with p.measure(name):
            c.now += dt
            c.mem += dm
            for s in inner:
                measure(p, c, s, want)
            if fails:
                raise KeyError(name)
    except KeyError:
        pass
    want.setdefault(name, []).append((c.now - t0, c.mem - m0))


def profile(hist, ctx):
    case = {"profile": hist}
    c = Clock()
    d = env.fresh_dir("p")
    out = io.StringIO()
    with c():
        p, want = debugging.PerformanceProfiler(), {}
        other = debugging.PerformanceProfiler()
        for s in hist:
            measure(p, c, s, want)
            ctx.n("transitions")
        r = p.get_summary()
        p.save_report(os.path.join(d, "r.json"))
        with contextlib.redirect_stdout(out):
            p.print_summary()
        again = p.get_summary()
        none = other.get_summary()
    exact = {}
    for n, ms in want.items():
        e = {"count": len(ms)}
        for key, i in (("duration", 0), ("memory", 1)):
            xs = [m[i] for m in ms]
            e[key] = {"min": min(xs), "max": max(xs), "avg": sum(xs) / len(xs), "total": sum(xs)}
        exact[n] = e

    def same(a, b):
        if isinstance(b, dict):
            return isinstance(a, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in b)
        return abs(a - b) < 1e-6
    if not same(r, exact) or r != again or none:
        ctx.violation("profile", "after %s the summary is %s, expected %s" % (hist, r, exact), case)
    f = json.load(open(os.path.join(d, "r.json")))
    if not same(f["summary"], exact) or {k: len(v) for k, v in f["raw_data"].items()} != {k: len(v) for k, v in want.items()} or any(
            abs(a["duration"] - b[0]) > 1e-6 or abs(a["memory_delta"] - b[1]) > 1e-6 for k in want for a, b in zip(f["raw_data"][k], want[k])):
        ctx.violation("profile-report", "after %s the report file holds %s, expected %s" % (hist, f, exact), case)
    text = out.getvalue()
    for n, e in exact.items():
        block = re.search(r"(?m)^%s:\n((?:  .*\n)*)" % re.escape(n), text)
        nums = re.findall(r"-?\d+\.?\d*", block.group(1)) if block else []
        w = ["%d" % e["count"]] + ["%.4f" % e["duration"][k] for k in ("avg", "min", "max")] + ["%.2f" % e["memory"][k] for k in ("avg", "min", "max")]
        if not block or any(x not in nums and x.lstrip("-") not in nums for x in w):
            ctx.violation("profile-print", "after %s printed %r, expected the numbers %s for %s" % (hist, text, w, n), case)
    env.drop_dir(d)
    ctx.n("states")


STEPS = [["a", 1.0, 0.0, 0, []], ["a", 0.25, 2.0, 1, []], ["b c", 0.0, -3.0, 0, []], ["a", 0.5, 1.0, 0, [["b c", 2.0, 1.5, 1, []]]], ["b c", 4.0, 0.0, 0, [["a", 1.0, 1.0, 0, [["a", 8.0, -4.0, 0, []]]], ["b c", 0.125, 0.0, 0, []]]]]


def job_profile(job, ctx):
    for n in range(0, job["most"]):
        for rest in itertools.product(STEPS, repeat=n):
            profile([job["first"]] + list(rest), ctx)
    if job["most"]:
        profile([STEPS[i * i % len(STEPS)] for i in range(1100)], ctx)
    # durations the decorators print
    c = Clock()
    case = {"job": job}
    for dt, dm in itertools.product((0.0, 0.5, 2.25, 61.0), (0.0, 3.0, -2.0)):
        for deco, want in ((helpers.timing_decorator, "%.4f" % dt), (helpers.memory_usage_decorator, "%.2f" % dm), (debugging.debug_function, "%.4f" % dt)):
            for fails in (0, 1):
                out = io.StringIO()

                def f():
                    c.now += dt
                    c.mem += dm
                    if fails:
                        raise KeyError("x")
                ctx.n("transitions")
                with c(), contextlib.redirect_stdout(out), contextlib.suppress(KeyError):
                    deco(f)()
                if (not fails or deco is debugging.debug_function) and want not in out.getvalue():
                    ctx.violation("decorator-figure", "%s after %s s, %s MB, %s: printed %r" % (deco.__name__, dt, dm, "failing" if fails else "returning", out.getvalue()), case)
    ctx.outcome("profile")


# ------------------------------------------------------------- query reports
QUERIES = [(v, ds, k) for v in ([3.0, 4.0], [0.0], [1, -1, 2]) for ds in ([], [0.5], [1.0, 2.0, -4.0]) for k in (0, 3)]


def job_queries(job, ctx):
    for n in range(0, job["most"]):
        for rest in itertools.product(range(len(QUERIES)), repeat=n):
            queries([job["first"]] + list(rest), ctx)
    if job["first"] < 4:
        queries([(job["first"] + i * i) % len(QUERIES) for i in range(1300)], ctx, {50, 99, 100, 101, 256, 512, 999, 1000, 1001, 1299})
    ctx.outcome("queries")


def spread(xs):
    mean = sum(xs) / len(xs)
    return {"mean": mean, "min": min(xs), "max": max(xs), "std": math.sqrt(sum((x - mean) ** 2 for x in xs) / len(xs))}


def queries(hist, ctx, looks=None):
    case = {"queries": hist, "looks": looks and sorted(looks)}
    q = debugging.QueryAnalyzer()
    if "error" not in q.analyze_query_patterns():
        ctx.violation("queries-empty", "patterns without queries: %s" % q.analyze_query_patterns(), case)
    times, cnts = [], []
    ctx.n("states")
    for n, i in enumerate(hist):
        v, ds, k = QUERIES[i]
        t = 0.25 * (len(times) + 1) * (1 + i % 3)
        vec = np.array(v)
        res = [{"id": j, "distance": x} for j, x in enumerate(ds)]
        r = q.analyze_query(vec, res, k, t)
        times.append(t)
        cnts.append(len(ds))
        ctx.n("transitions")
        w = {"count": len(ds), "expected_count": k, "search_time": t}
        if ds:
            w.update({"distance_" + a: b for a, b in spread(ds).items()})
        s = spread(v)
        if not close(r["result_stats"], w) or not close(r["query_stats"], {"vector_norm": math.sqrt(sum(x * x for x in v)), "vector_mean": s["mean"], "vector_std": s["std"]}):
            ctx.violation("query", "query %s, results %s, k %s, time %s: %s" % (v, ds, k, t, r), case)
        if vec.tolist() != v or res != [{"id": j, "distance": x} for j, x in enumerate(ds)]:
            ctx.violation("query-mutated", "query %s, results %s: now %s, %s" % (v, ds, vec, res), case)
        if looks and n not in looks:
            continue
        pt = q.analyze_query_patterns()
        if pt["total_queries"] != len(times) or not close(pt["search_time"], spread(times)) or not close(pt["result_count"], spread(cnts)):
            ctx.violation("patterns", "%s after times %s, result counts %s" % (pt, times, cnts), case)


# ------------------------------------------------------------- larger sets
def job_large(job, ctx):
    """One special row or value at each place of interest in sets of many sizes."""
    case = {"job": job}
    va = debugging.VectorAnalyzer()
    for n in (5, 99, 100, 101, 999, 1000, 1001, 1200):
        for at in sorted({0, 1, n // 2, min(99, n - 1), min(100, n - 1), n - 2, n - 1}):
            for special, (nan, inf, const, zero) in (([0, 0, 0], (0, 0, 1, 1)), ([7, 7, 7], (0, 0, 1, 0)), ([float("nan"), 1, 2], (1, 0, 0, 0)), ([1, float("-inf"), float("inf")], (0, 2, 0, 0)), ([500, -1, 1], (0, 0, 0, 0))):
                X = np.array([[1 + i % 3, 2 + i % 5, 9 + i % 7] for i in range(n)], dtype=job["dtype"])
                X[at] = special
                keep = X.copy()
                ctx.n("states")
                ctx.n("transitions")
                out = io.StringIO()
                with np.errstate(all="ignore"), contextlib.redirect_stdout(out):
                    r = va.analyze_vectors(X)
                    if n < 102:
                        va.print_analysis(X)
                q, b = r["quality"], r["basic_stats"]
                if not np.array_equal(X, keep, equal_nan=True):
                    ctx.violation("large-mutated", "%d rows, %s at %d" % (n, special, at), case)
                score = 1 - .5 * (nan + inf) / X.size - .3 * const / n - .2 * zero / n
                if (q["nan_values"], q["inf_values"], q["constant_vectors"], q["zero_vectors"]) != (nan, inf, const, zero) or abs(q["quality_score"] - score) > 1e-9:
                    ctx.violation("large-quality", "%d rows, %s at %d: %s" % (n, special, at, q), case)
                zeros = int(sum(x == 0 for x in special))
                if b["count"] != n or b["dimension"] != 3 or abs(b["sparsity"] - zeros / X.size) > 1e-9:
                    ctx.violation("large-basic", "%d rows, %s at %d: %s" % (n, special, at, b), case)
                if not nan and not inf:
                    flat = [float(x) for x in X.ravel()]
                    norms = [math.sqrt(sum(float(x) ** 2 for x in v)) for v in X]
                    d = r["distribution"]["norms"]
                    for name, got, want in (("values", b, spread(flat)), ("norms", d, spread(norms))):
                        if not np.allclose([got[x] for x in ("mean", "min", "max", "std")], [want[x] for x in ("mean", "min", "max", "std")], rtol=1e-4):
                            ctx.violation("large-" + name, "%d rows, %s at %d: %s, by definition %s" % (n, special, at, got, want), case)
                    if n <= 101:
                        cs = [cosine(X[i], X[j]) for i in range(n) for j in range(i + 1, n)] if n < 100 or at in (0, n - 1) else None
                        if cs:
                            s, w = r["similarity"], spread(cs)
                            if not np.allclose([s["similarity_stats"][x] for x in ("mean", "min", "max", "std")], [w[x] for x in ("mean", "min", "max", "std")], atol=1e-5) \
                                    or (s["high_similarity_pairs"], s["low_similarity_pairs"]) != (sum(x > .95 for x in cs), sum(x < -.5 for x in cs)) and not any(abs(x - .95) < 1e-6 for x in cs):
                                ctx.violation("large-similarity", "%d rows, %s at %d: %s, by definition %s" % (n, special, at, s, w), case)
                if n < 102:
                    text = out.getvalue()
                    for label, want in (("Count", "%d" % n), ("Dimension", "3"), ("NaN values", "%d" % nan), ("Inf values", "%d" % inf), ("Constant vectors", "%d" % const), ("Zero vectors", "%d" % zero), ("Quality Score", "%.2f" % score)):
                        if not re.search(r"(?m)^\s*%s: %s$" % (label, re.escape(want)), text):
                            ctx.violation("large-print", "%d rows, %s at %d: printed %r, %s is %s" % (n, special, at, text, label, want), case)
    ctx.outcome(job["dtype"])


def jobs(tier):
    q = tier == "quick"
    out = [{"j": "wrappers"}]
    out += [{"j": "profile", "first": s, "most": 5 if q else 6} for s in STEPS]
    out += [{"j": "queries", "first": i, "most": 3 if q else 4} for i in range(len(QUERIES))]
    out += [{"j": "analysis", "dtype": t} for t in ("float32", "float64")] + [{"j": "large", "dtype": t} for t in ("float32", "float64")]
    out += [{"j": "inspect", "index": k, "depth": 4 if q else 5} for k in KINDS]
    return out


def run_job(job, ctx):
    globals()["job_" + job["j"]](job, ctx)
    ctx.n("traces_validated_against_impl", ctx.counts.get("transitions", 0))


def replay(case, ctx):
    if "profile" in case:
        profile(case["profile"], ctx)
    elif "queries" in case:
        queries(case["queries"], ctx, set(case.get("looks") or ()))
    else:
        run_job(case["job"], ctx)
