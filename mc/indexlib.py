"""Vector databases (client + storage + index) against a brute-force reference model."""
import os
import re
import tempfile

import numpy as np

from . import env
from .explore import System, deep, tree
from .storagelib import brief, make_storage, meta, same_meta, same_rec

from valori import VectorDBClient
from valori.exceptions import ValoriError
from valori.indices import AnnoyIndex, FlatIndex, HNSWIndex, IVFIndex, LSHIndex

PTS = [(1, 0), (0, 1), (1, 1), (0, 0), (-1, 0), (2, 1), (3, -2), (0.5, 0.25), (-2, -2), (1, 0.5), (5, 5), (0, -3)]
PTS += [((i * 7) % 23 - 11 + (i % 3) * 0.25, (i * 13) % 17 - 8 + (i % 5) * 0.125) for i in range(660)]
ISLE = len(PTS)                   # two groups far apart, by distance and by angle, without ties
PTS += [(10, 0.25), (10.5, 1.1875), (9.75, -0.5), (-0.375, 10), (0.8125, 10.25), (0.125, 9.5)]
FAR = len(PTS)                    # close to each other, far from the origin
PTS += [(1e8, 0), (1e8, 1), (1e8 + 3, 0.5), (1e8, -2.5), (1e8 + 0.75, 0.25)]
TINY = len(PTS)                   # all of them near the origin
PTS += [(1e-9, 0), (0, 2e-9), (3e-9, 1e-9), (-1e-9, 1e-9), (2.5e-9, 1.25e-9)]
BULK = len(PTS)                   # many, all different
PTS += [((i * 37) % 101 - 50 + (i % 7) * 0.125, (i * 53) % 89 - 44 + (i // 89 % 8) * 0.0625) for i in range(5000)]
CLOSE = len(PTS)                  # apart by less than single precision can tell
PTS += [(1 + 4e-9, 1e-9), (1 + 1e-9, 6e-9), (1, 3e-9), (1 + 2.5e-9, 9e-9), (1 + 6e-9, 0)]
UUID = re.compile(r"[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}")
OWN = ("lsh", "annoy")            # keep their records themselves


def pt(i, dtype="float32"):
    return np.array(PTS[i], dtype=dtype)


def make_index(c):
    kind = c["index"]
    conf = dict(c.get("iconf") or {})
    if c.get("metric"):
        conf["metric"] = c["metric"]
    return {"flat": FlatIndex, "hnsw": HNSWIndex, "ivf": IVFIndex, "lsh": LSHIndex, "annoy": AnnoyIndex}[kind](conf)


def default_metric(kind):
    return "angular" if kind == "annoy" else "cosine"


def score(kind, metric, q, v):
    """the number a search is documented to report as 'distance'"""
    q, v = np.asarray(q, dtype=np.float64), np.asarray(v, dtype=np.float64)
    nq, nv = np.sqrt(np.dot(q, q)), np.sqrt(np.dot(v, v))
    if kind in ("flat", "hnsw", "ivf"):
        if metric == "cosine":
            return 1.0 if nq == 0 or nv == 0 else 1.0 - float(np.dot(q, v)) / (nq * nv)
        return float(np.sqrt(np.sum((q - v) ** 2)))
    if kind == "lsh":
        if metric == "cosine":
            return 0.0 if nq == 0 or nv == 0 else float(np.dot(q, v)) / (nq * nv)
        if metric == "euclidean":
            return 1.0 / (1.0 + float(np.sqrt(np.sum((q - v) ** 2))))
        return 1.0 / (1.0 + float(np.sum(np.abs(q - v))))
    if metric == "angular":
        if nq == 0 or nv == 0:
            d = np.sqrt(2.0)
        else:
            d = np.sqrt(max(0.0, 2.0 - 2.0 * float(np.dot(q, v)) / (nq * nv)))
        return max(0.0, 1.0 - d / 2.0)
    if metric == "euclidean":
        return 1.0 / (1.0 + float(np.sqrt(np.sum((q - v) ** 2))))
    if metric == "manhattan":
        return 1.0 / (1.0 + float(np.sum(np.abs(q - v))))
    if metric == "dot":
        return max(0.0, min(1.0, float(np.dot(q, v))))
    return None


def descending(kind):
    return kind in OWN


def tol(kind):
    return 4e-3 if kind == "annoy" else 1e-6


def allowed(kind, metric, q, v, s):
    """by how much a score may differ from its exact value s"""
    t = tol(kind)
    if kind in OWN or metric != "euclidean":
        return t * max(1, abs(s))
    return t * abs(s) + (1e-11 if q.dtype == v.dtype == np.float64 else 2e-7) * max(abs(q.astype(float)).max(), abs(v.astype(float)).max())


def separable(kind, metric, q, v, s):
    """by how much scores must differ for one to count as better"""
    if kind in OWN or not q.dtype == v.dtype == np.float64:
        return allowed(kind, metric, q, v, s)
    return 1e-10 * abs(s) + 1e-11 * (max(abs(q).max(), abs(v).max()) if metric == "euclidean" else 1)


def stat_count(kind, st):
    return st["num_vectors"] if kind in OWN else st["vector_count"]


def storage_count(kind, st):
    return st["disk"]["vector_count"] if kind == "hybrid" else st["vector_count"]


class IndexSystem(System):
    """cfg: storage, limit, index, metric, iconf, focus=[...], batches, pts, metas, dtype, dev, ops..."""

    def __init__(self, cfg):
        super().__init__(cfg)
        self.c = cfg
        self.kind = cfg["index"]
        self.metric = cfg.get("metric") or default_metric(self.kind)
        self.focus = set(cfg["focus"])
        self.dtype = cfg.get("dtype", "float32")
        self.dir = env.fresh_dir("x")
        tempfile.tempdir = self.dir
        self.model = {}             # id -> (vector, metadata), insertion order
        self.dead = []
        self.built = False
        self.open()

    def open(self):
        self.storage = make_storage(self.c.get("storage", "memory"), self.dir, self.c.get("limit"))
        self.index = make_index(self.c)
        self.db = VectorDBClient(self.storage, self.index)
        self.db.initialize()

    def close(self):
        if self.kind == "annoy":
            try:
                self.db.close()
            except Exception:
                pass
        env.drop_dir(self.dir)

    def bad(self, cat, key, msg):
        if cat in self.focus:
            return ("%s:%s" % (key, self.kind), msg)
        return (None, msg)

    def cats(self, *cs):
        return any(c in self.focus for c in cs)

    # ------------------------------------------------------------ operations
    def ops(self):
        c = self.c
        for b in c["batches"]:
            yield ["insert", b]
        n = len(self.model)
        slots = range(n) if n <= c.get("slots", 3) else [0, n // 2, n - 1]
        for r in slots:
            for p in c.get("upd_pts", [0, 5]):
                for m in c.get("upd_metas", [1]):
                    yield ["update", r, p, m]
            yield ["delete", [r]]
        if n >= 2 and c.get("multidel"):
            yield ["delete", [0, n - 1]]
        for x in c.get("extra", []):
            yield x

    def rec(self, r):
        return list(self.model)[r]

    def missing_ids(self):
        if self.kind in OWN:
            return ["-1", "99999", "x", "", "0x0", " 0", "0 ", "+0", "00", "1.0", "-0", "0_0"] + self.dead[:2]
        return ["00000000-0000-4000-8000-000000000000", "x", "../x", " "] + self.dead[:2]

    def observe(self):
        """everything a caller can see, for before/after comparison"""
        out = [("stats", deep(self.strip(self.db.get_stats()), self.ren()))]
        out.append(("list", sorted(self.storage.list_vectors())))
        for i in self.model:
            r = self.storage.retrieve_vector(i)
            out.append(("rec", i, deep(r, lambda s: s)))
        if self.kind != "annoy" or self.built:
            for q in self.c.get("queries", [0, 5]):
                for k in (1, len(self.model) + 1):
                    try:
                        out.append(("q", q, k, deep(self.db.search(pt(q, self.dtype), k), lambda s: s)))
                    except Exception as e:          # a query that cannot be answered stays that way
                        out.append(("q", q, k, type(e).__name__))
        return out

    @staticmethod
    def strip(st):
        """drop cache figures, which reading may change"""
        st = {k: (dict(v) if isinstance(v, dict) else v) for k, v in st.items()}
        st["index"].pop("cache_size", None)
        if "memory" in st["storage"]:
            st["storage"].pop("memory")
        return st

    def apply(self, op):
        k, db, m = op[0], self.db, self.model
        if k == "insert":
            rows = op[1]
            vs = np.array([PTS[p] for p, _ in rows], dtype=self.dtype).reshape(len(rows), 2)
            mets = [meta(x) for _, x in rows]
            if self.kind == "annoy" and self.built:
                return self.refused("insert into a built index", lambda: db.insert(vs, mets))
            arg = None if all(x is None for x in mets) and self.c.get("nometa", True) else mets
            try:
                ids = db.insert(vs, arg)
            except ValoriError as e:
                return self.bad("bind", "insert-failed", "insert of %d valid rows failed: %s" % (len(rows), e))
            if len(ids) != len(rows) or len(set(ids)) != len(ids) or set(ids) & set(m):
                return self.bad("bind", "ids", "insert of %d rows returned %r" % (len(rows), ids))
            for i, (p, x) in zip(ids, rows):
                m[i] = (pt(p, self.dtype), meta(x))
                if i in self.dead:
                    self.dead.remove(i)
        elif k == "update":
            i = self.rec(op[1])
            if self.kind == "annoy" and self.built:
                return self.refused("update of a built index", lambda: db.update(i, pt(op[2], self.dtype), meta(op[3])))
            try:
                ok = db.update(i, pt(op[2], self.dtype), meta(op[3]))
            except ValoriError as e:
                return self.bad("effect", "update-failed", "update of a live id failed: %s" % e)
            if not ok:
                return self.bad("effect", "update-result", "update of a live id returned %r" % (ok,))
            old = m[i]
            m[i] = (pt(op[2], self.dtype), meta(op[3]) if meta(op[3]) is not None or self.kind not in OWN else old[1])
        elif k == "delete":
            ids = [self.rec(r) for r in op[1]]
            try:
                ok = db.delete(list(ids))
            except ValoriError as e:
                return self.bad("effect", "delete-failed", "delete of a live id failed: %s" % e)
            if not ok:
                return self.bad("effect", "delete-result", "delete of a live id returned %r" % (ok,))
            for i in ids:
                del m[i]
                self.dead.insert(0, i)
        elif k == "missing":
            return self.missing()
        elif k == "search":
            try:
                db.search(pt(op[1], self.dtype), op[2])
            except ValoriError as e:
                if self.kind == "annoy" and not self.built:
                    return None
                return self.bad("valid", "search-failed", "search failed: %s" % e)
            except Exception as e:
                return self.bad("valid", "search-failed", "search failed: %r" % e)
        elif k == "stats":
            db.get_stats()
        elif k in ("reopen", "abandon", "reinit"):
            if k == "reinit":
                db.initialize()
            else:
                if k == "reopen":
                    db.close()
                self.open()
            if self.c.get("storage", "memory") == "memory" or self.kind in OWN:
                if self.kind not in OWN:
                    self.dead = list(m)[:2] + self.dead
                else:
                    self.dead = []
                m.clear()
                self.built = False
        elif k == "reopenas":        # another index type over the same data
            db.close()
            self.c = dict(self.c, index=op[1], iconf=op[2])
            self.kind = op[1]
            self.open()
        elif k == "cycle":           # close and initialise the same objects again
            db.close()
            db.initialize()
            if self.c.get("storage", "memory") == "memory" or self.kind in OWN:
                m.clear()
                self.dead = []
                self.built = False
        elif k == "clear":
            self.index.clear()
            m.clear()
            self.dead = []
            self.built = False
        elif k == "build":
            try:
                self.index.build()
            except Exception as e:
                if not self.built:
                    return self.bad("valid", "build-failed", "build failed: %r" % e)
            self.built = True
        elif k == "badop":
            return self.bad_op(op[1])
        else:
            raise AssertionError(op)
        return None

    def refused(self, what, f):
        before = self.observe()
        try:
            r = f()
        except Exception:
            r = None
        if r:
            return self.bad("reject", "not-refused", "%s returned %r" % (what, r))
        if self.observe() != before:
            return self.bad("reject", "refused-effect", "%s was refused but had an effect" % what)
        return None

    def missing(self):
        before = self.observe()
        for i in self.missing_ids():
            try:
                ok = self.db.delete([i])
            except (ValoriError, ValueError, TypeError):
                ok = False
            if ok:
                return self.bad("effect", "delete-missing", "delete of %r, which does not exist, returned %r" % (i, ok))
            try:
                ok = self.db.update(i, pt(1, self.dtype), meta(1))
            except (ValoriError, ValueError, TypeError):
                ok = False
            if ok:
                return self.bad("effect", "update-missing", "update of %r, which does not exist, returned %r" % (i, ok))
            now = self.observe()
            if now != before:
                return self.bad("effect", "missing-effect", "delete/update of %r, which does not exist, changed %s" % (
                    i, diff(before, now)))
        return None

    BAD = ["dim3", "dim1", "dim0", "nan-last", "inf-first", "1d", "3d", "complex", "updim", "upnan", "up2d", "up0", "sdim", "sdim1", "s2d",
           "snan", "obj", "str", "badmeta-last", "badmeta-up", "fewmeta"]

    def bad_op(self, what):
        """a request that must not be half-done; accepted or refused is checked per kind"""
        db, d = self.db, self.dtype
        m = self.model
        must = False                 # must be refused
        f2 = "float64" if np.dtype(d).kind not in "f" else d
        first = self.rec(0) if m else None
        others = len(m) > 1
        if what in ("dim3", "dim1") and self.kind in OWN and not m:
            return None              # these fix the dimension with the first row
        if what == "dim3":
            must, f = bool(m), lambda: db.insert(np.ones((2, 3), d), [{"a": 1}, {"a": 2}])
        elif what == "dim1":
            must, f = bool(m), lambda: db.insert(np.ones((1, 1), d), [{"a": 1}])
        elif what == "dim0":
            must, f = True, lambda: db.insert(np.ones((2, 0), d), [{}, {}])
        elif what == "nan-last":
            must, f = True, lambda: db.insert(np.array([[1, 0], [0, 1], [1, np.nan]], f2), [{}, {}, {}])
        elif what == "inf-first":
            must, f = True, lambda: db.insert(np.array([[np.inf, 0], [0, 1]], f2), None)
        elif what == "1d":
            must, f = True, lambda: db.insert(np.ones(2, d), [{}, {}])
        elif what == "3d":
            must, f = True, lambda: db.insert(np.ones((1, 2, 2), d), [{}])
        elif what == "complex":
            must, f = self.kind not in OWN, lambda: db.insert(np.array([[1 + 2j, 1]]), [{}])
            if not must:
                return None
        elif what == "obj":
            must, f = True, lambda: db.insert(np.array([[1, "x"], [None, 2]], dtype=object), [{}, {}])
        elif what == "str":
            must, f = True, lambda: db.insert(np.array([["a", "b"]]), [{}])
        elif what == "updim":
            must, f = others, lambda: db.update(first, np.ones(3, d), {"u": 1})
            if not others:
                return None
        elif what == "upnan":
            if not m:
                return None
            must, f = True, lambda: db.update(first, np.array([np.nan, 1], f2), {"u": 1})
        elif what == "up2d":
            if not m:
                return None
            must, f = True, lambda: db.update(first, np.ones((1, 2), d), {"u": 1})
        elif what == "up0":
            if not m:
                return None
            must, f = True, lambda: db.update(first, np.ones(0, d), {"u": 1})
        elif what in ("sdim", "sdim1", "s2d", "snan"):
            if not m or (self.kind == "annoy" and not self.built):
                return None
            q = {"sdim": np.ones(3, d), "sdim1": np.ones(1, d), "s2d": np.ones((1, 2), d), "snan": np.array([np.nan, 1], f2)}[what]
            must, f = True, lambda: [db.search(q, 3)]
        elif what == "badmeta-last":
            must, f = True, lambda: db.insert(np.ones((3, 2), d), [{"a": 1}, {}, {"bad": Unstorable()}])
        elif what == "badmeta-up":
            if not m:
                return None
            must, f = True, lambda: db.update(first, np.ones(2, d), {"bad": Unstorable()})
        elif what == "fewmeta":
            if self.kind not in OWN:
                return None
            must, f = True, lambda: db.insert(np.ones((3, 2), d), [{"a": 1}])
        else:
            raise AssertionError(what)
        before = self.observe()
        err = None
        try:
            r = f()
        except Exception as e:
            r, err = None, e
        if must and r:
            return self.bad("reject", "accepted-%s" % what, "%s was accepted: %r" % (what, r))
        if r:
            # legitimately accepted (an empty collection takes any dimension): undo, to go on from the same state
            for i in r:
                self.db.delete([i])
            return None
        now = self.observe()
        if now != before:
            return self.bad("reject", "effect-of-%s" % what, "%s was refused (%s) but changed %s" % (what, err, diff(before, now)))
        return None

    # ------------------------------------------------------------ examination
    def queries(self):
        return self.c.get("queries", list(range(7)))

    def ks(self):
        n = len(self.model)
        return sorted({0, 1, 2, n, n + 3} | ({5, 9, 10, 11, n // 2, n - 1} if n > 6 else set()))

    def check(self):
        return self.check_stats() or self.check_records() or self.check_searches() or self.check_missing() or self.again()

    def check_missing(self):
        if "effect" in self.focus and self.c.get("missing_always", True):
            e = self.missing()
            if e:
                return e
        return None

    def again(self):
        if "stats" in self.focus:
            return self.check_stats()
        return None

    def check_stats(self):
        if not self.cats("stats", "reopen"):
            return None
        cat = "stats" if "stats" in self.focus else "reopen"
        n = len(self.model)
        st = self.db.get_stats()
        got = stat_count(self.kind, st["index"])
        if got != n:
            return self.bad(cat, "index-count", "index reports %r vectors, %d live" % (got, n))
        if self.kind not in OWN:
            got = storage_count(self.c.get("storage", "memory"), st["storage"])
            if got != n:
                return self.bad(cat, "storage-count", "storage reports %r vectors, %d live" % (got, n))
        ix = st["index"]
        if self.kind == "ivf" and ix["trained"]:
            tot = sum(ix["cluster_stats"].values())
            if tot != n:
                return self.bad(cat, "cluster-sum", "cluster figures add up to %d, %d live" % (tot, n))
        if self.kind == "ivf" and not ix["trained"] and sum(ix["cluster_stats"].values()) not in (0, n):
            return self.bad(cat, "cluster-sum", "cluster figures add up to %r" % (ix["cluster_stats"],))
        if "cache_size" in ix and ix["cache_size"] > n:
            return self.bad(cat, "cache-size", "cache holds %r of %d vectors" % (ix["cache_size"], n))
        if self.kind == "lsh":
            if n == 0:
                if ix["max_bucket_size"] != 0 or ix["avg_bucket_size"] != 0:
                    return self.bad(cat, "bucket", "empty index reports bucket sizes %r %r" % (ix["avg_bucket_size"], ix["max_bucket_size"]))
            else:
                nb = sum(ix["hash_table_sizes"])
                if not (1 <= ix["max_bucket_size"] <= n) or abs(ix["avg_bucket_size"] * nb - n * ix["num_hash_tables"]) > 1e-6:
                    return self.bad(cat, "bucket", "%d vectors in %d tables, but average bucket %r in %r buckets, largest %r" % (
                        n, ix["num_hash_tables"], ix["avg_bucket_size"], ix["hash_table_sizes"], ix["max_bucket_size"]))
        return None

    def check_records(self):
        if self.kind in OWN or not self.cats("bind", "reopen", "reject"):
            return None
        cat = [c for c in ("bind", "reopen", "reject") if c in self.focus][0]
        got = self.storage.list_vectors()
        if sorted(got) != sorted(self.model):
            return self.bad(cat, "records", "stored ids %r, expected %r" % (len(got), len(self.model)))
        for i, want in self.model.items():
            r = self.storage.retrieve_vector(i)
            if not same_rec(r, want):
                return self.bad(cat, "record", "record holds %r, expected %r" % (brief(r), brief(want)))
        return None

    def exhaustive(self):
        """does this configuration promise the true nearest neighbours now?"""
        n = len(self.model)
        ic = self.c.get("iconf") or {}
        if self.kind == "flat":
            return True
        if self.kind == "ivf":
            return ic.get("n_probes", 10) >= ic.get("n_clusters", 100) or not self.db.get_stats()["index"]["trained"]
        if self.kind == "hnsw":
            return n <= ic.get("m", 16) and n <= ic.get("ef_search", 50)
        if self.kind == "annoy":
            return self.metric in ("angular", "euclidean", "manhattan")
        return False

    def results(self, q, k):
        try:
            return self.db.search(pt(q, self.dtype), k), None
        except Exception as e:
            return None, e

    def check_searches(self):
        if not self.cats("exact", "valid", "effect", "bind", "reopen", "self"):
            return None
        kind = self.kind
        if kind == "annoy" and not self.built:
            r, e = self.results(0, 3)
            if not isinstance(e, ValoriError):
                return self.bad("valid", "unbuilt-search", "search before building gave %r" % (r if e is None else e,))
            return None
        t = tol(kind)
        sgn = -1 if descending(kind) else 1
        exh = self.exhaustive()
        main = [c for c in ("exact", "valid", "effect", "bind", "reopen", "self") if c in self.focus][0]
        strs = {str(i): i for i in self.model}
        for q in self.queries():
            qv = pt(q, self.dtype)
            true = {i: score(kind, self.metric, qv, v) for i, (v, _) in self.model.items()}
            for k in self.ks():
                res, e = self.results(q, k)
                if e is not None:
                    return self.bad(main, "search-raised", "search(%s, k=%d) over %d vectors raised %r" % (PTS[q], k, len(true), e))
                ids = [str(r["id"]) for r in res]
                if "valid" in self.focus or "exact" in self.focus:
                    if len(res) > k:
                        return self.bad(main, "too-many", "k=%d gave %d results" % (k, len(res)))
                    if len(set(ids)) != len(ids):
                        return self.bad(main, "repeated", "search(%s, %d) repeats a result: %r" % (PTS[q], k, ids))
                for r, i in zip(res, ids):
                    if i not in strs:
                        return self.bad(main, "dead-result", "search(%s, %d) returned %r, which is not live (%s)" % (
                            PTS[q], k, i, "deleted" if i in map(str, self.dead) else "unknown"))
                    v, m = self.model[strs[i]]
                    if not same_meta(r["metadata"], m) and not (kind in OWN and m is None and r["metadata"] in ({}, None)):
                        return self.bad(main, "metadata", "result metadata %r, record has %r" % (r["metadata"], m))
                    s = true[strs[i]]
                    if s is not None and not abs(float(r["distance"]) - s) <= allowed(kind, self.metric, qv, v, s):
                        return self.bad(main, "score", "search(%s): result at %s has distance %r, the %s value is %r" % (
                            PTS[q], v.tolist(), r["distance"], self.metric, s))
                if self.cats("valid", "exact"):
                    ds = [sgn * float(r["distance"]) for r in res]
                    double = kind not in OWN and qv.dtype == np.float64 and all(v.dtype == np.float64 for v, _ in self.model.values())
                    r = 1e-12 if double else 1e-7
                    if any(a > b + r * min(1, abs(b)) + 4e-15 for a, b in zip(ds, ds[1:])):
                        return self.bad(main, "order", "search(%s, %d) is not ordered: %r" % (PTS[q], k, ds))
                    if kind == "hnsw" and k > 0 and true and not res:
                        return self.bad(main, "empty", "search(%s, %d) over %d vectors found nothing" % (PTS[q], k, len(true)))
                    if kind == "lsh":
                        th = (self.c.get("iconf") or {}).get("threshold", 0.5)
                        if any(float(r["distance"]) < th for r in res):
                            return self.bad(main, "threshold", "result below the threshold %r: %r" % (th, res))
                if exh and self.cats("exact", "effect", "bind", "reopen"):
                    if len(res) != min(k, len(true)):
                        return self.bad(main, "count", "search(%s, %d) over %d live vectors gave %d results" % (
                            PTS[q], k, len(true), len(res)))
                    if None not in true.values():
                        slack = max([separable(kind, self.metric, qv, v, true[i]) for i, (v, _) in self.model.items()], default=0)
                        best = sorted(sgn * s for s in true.values())[:len(res)]
                        got = sorted(sgn * true[strs[i]] for i in ids)
                        for a, b in zip(best, got):
                            if abs(a - b) > slack:
                                return self.bad(main, "not-nearest", "search(%s, %d) returned scores %r, the best are %r" % (
                                    PTS[q], k, got, best))
        if "self" in self.focus or (kind == "lsh" and "effect" in self.focus) or self.c.get("near"):
            e = self.check_self()
            if e:
                return e
        return None

    def check_self(self):
        """hash index: a stored vector finds itself with a perfect score; inverted file over well separated
        groups (cfg near): a stored vector is found by probing the nearest cluster only"""
        if self.kind == "ivf":
            for i, (v, m) in self.model.items():
                try:
                    res = self.db.search(v, len(self.model) + 1)
                except Exception as e:
                    return self.bad(self.c["near"], "self-raised", "search with a stored vector raised %r" % e)
                if i not in [r["id"] for r in res]:
                    return self.bad(self.c["near"], "self-missed", "stored vector %s is not found in its own cluster (%d results)" % (v.tolist(), len(res)))
            return None
        th = (self.c.get("iconf") or {}).get("threshold", 0.5)
        cat = "self" if "self" in self.focus else "effect"
        for i, (v, m) in self.model.items():
            perfect = score(self.kind, self.metric, v, v)
            if perfect < 0.999 or th > 0.999999:
                continue
            try:
                res = self.db.search(v, len(self.model) + 1)
            except Exception as e:
                return self.bad(cat, "self-raised", "search with a stored vector raised %r" % e)
            hit = [r for r in res if str(r["id"]) == str(i)]
            if not hit:
                return self.bad(cat, "self-missed", "stored vector %s does not find itself (%d results)" % (v.tolist(), len(res)))
            if abs(float(hit[0]["distance"]) - 1.0) > 1e-6:
                return self.bad(cat, "self-score", "stored vector %s finds itself with score %r" % (v.tolist(), hit[0]["distance"]))
            if not same_meta(hit[0]["metadata"], m) and not (m is None and hit[0]["metadata"] in ({}, None)):
                return self.bad(cat, "self-meta", "stored vector finds itself with metadata %r, not %r" % (hit[0]["metadata"], m))
        return None

    # ------------------------------------------------------------ state image
    def ren(self):
        live = {i: "#%d" % n for n, i in enumerate(self.model)}
        d = self.dir

        def f(s):
            if d in s:
                s = s.replace(d, "$D")
            return UUID.sub(lambda m: live.get(m.group(0), "#dead"), s)
        return f

    def canon(self):
        ren = self.ren()
        files = sorted((ren(k), v) for k, v in tree(self.dir).items()) if self.c.get("storage") in ("disk", "hybrid") else None
        return (deep(self.db, ren), files, self.built, len(self.dead) > 0,
                tuple((ren(str(k)), deep(v, ren)) for k, v in self.model.items()))


class Unstorable(dict):
    """metadata that can be neither copied nor pickled"""

    def copy(self):
        raise TypeError("cannot be copied")

    def __copy__(self):
        raise TypeError("cannot be copied")

    def __deepcopy__(self, memo):
        raise TypeError("cannot be copied")

    def __reduce_ex__(self, p):
        raise TypeError("cannot be pickled")


def diff(a, b):
    for x, y in zip(a, b):
        if x != y:
            return ("%r -> %r" % (x, y))[:300]
    return "%d -> %d observations" % (len(a), len(b))


def script(ctx, cls, cfg, ops, every=1, limit=120):
    """one long history, everything examined after every operation (or every so many, and at the end)"""
    env.reset_ids()
    hist = []
    ctx.current = {"cfg": cfg, "hist": hist}
    with env.limit(limit):
        s = cls(cfg)
        try:
            for n, op in enumerate(ops):
                hist.append([op, []])
                with env.choices(env.Chooser([])):
                    err = s.apply(op) or (s.check() if n % every == every - 1 or n == len(ops) - 1 else None)
                ctx.n("transitions")
                ctx.n("states")
                if err:
                    if err[0] is None:
                        ctx.n("pruned")
                    else:
                        ctx.violation(err[0], err[1], {"cfg": cfg, "hist": [list(h) for h in hist]})
                    return
            ctx.n("traces_validated_against_impl")
        finally:
            s.close()


def size_script(n, kind="flat", tail=()):
    """insert n rows in one batch, delete every third, update every fourth, insert again, delete all but one"""
    rows = [[12 + i, i % 5] for i in range(n)]
    ops = [["insert", rows]] if n else []
    if kind == "annoy":
        ops.append(["build"])
    if n >= 3:
        dels = list(range(0, n, 3))
        ops.append(["delete", dels])
        left = n - len(dels)
        if kind != "annoy":
            for r in range(0, left, max(1, left // 6)):
                ops.append(["update", r, 12 + n + r, 1])
            ops.append(["insert", [[12 + 2 * n + i, 3] for i in range(min(n, 9))]])
    ops += list(tail)
    return ops


def bulk_script(n, kind="flat", step=0):
    """step 0: n rows in one batch, then changes; otherwise batches of step rows, with changes now and then"""
    if not step:
        rows = [[BULK + i, i % 5] for i in range(n)]
        ops = [["insert", rows]] + ([["build"]] if kind == "annoy" else [])
        ops.append(["delete", [0, n // 2, n - 1]])
        if kind != "annoy":
            ops += [["update", r, BULK + n + r, 1] for r in (0, n // 2 - 1, n - 4)]
            ops += [["insert", [[BULK + 2 * n + i, 3] for i in range(3)]]]
        ops.append(["delete", list(range(5, n - 4, 2))])
        return ops
    ops, have = [], 0
    for j in range(n // step):
        ops.append(["insert", [[BULK + j * step + i, (i + j) % 5] for i in range(step)]])
        have += step
        if j % 3 == 2:
            ops.append(["update", (j * 7) % have, BULK + 2 * n + j, j % 5])
        if j % 4 == 3:
            ops.append(["delete", [(j * 5) % have]])
            have -= 1
    return ops + ([["build"]] if kind == "annoy" else [])


class Base:
    """the shape shared by the index checks: cfgs(tier) -> [(cfg, depth)], scripts(tier) -> [(cfg, n)]"""


def index_jobs(cfgs, sizes=(), tail=(), bulk=()):
    jobs = [{"cfg": c, "depth": d} for c, d in cfgs]
    jobs.sort(key=lambda j: -j["depth"])
    for c, ns in sizes:
        for n in ns:
            jobs.append({"cfg": c, "size": n, "tail": list(tail)})
    for c, n, step in bulk:
        jobs.insert(0, {"cfg": c, "bulk": n, "step": step, "tail": list(tail)})
    return jobs


BULK_KINDS = [("flat", "euclidean", {}), ("flat", "cosine", {}), ("ivf", "euclidean", {"n_clusters": 8, "n_probes": 8}), ("ivf", "cosine", {"n_clusters": 8, "n_probes": 2}), ("hnsw", "euclidean", {}),
              ("hnsw", "cosine", {"m": 4, "ef_search": 12}), ("lsh", "cosine", {}), ("lsh", "euclidean", {"num_hash_tables": 2, "hash_size": 5, "num_projections": 9, "threshold": 0.0}), ("annoy", "angular", {"num_trees": 5}),
              ("annoy", "euclidean", {})]


def bulk_jobs(focus, tier, kinds=BULK_KINDS, sizes=((520, 0), (1030, 0), (2060, 0), (300, 1), (1030, 10)), **more):
    if tier != "quick":
        sizes = tuple(sizes) + ((4100, 0), (700, 1), (2500, 7))
    return [(dict({"index": k, "metric": m, "iconf": ic, "batches": [], "focus": focus, "queries": [0, 20], "missing_always": False}, **more), n, step) for k, m, ic in kinds for n, step in sizes if not (k == "hnsw" and n > 2000)]


def run_bulk(job, ctx, cls):
    ops = bulk_script(job["bulk"], job["cfg"]["index"], job["step"]) + list(job["tail"])
    script(ctx, cls, job["cfg"], ops, 1 if not job["step"] else max(1, len(ops) // 6), 400)


def index_run(job, ctx):
    from . import explore
    cls = type("Sys", (IndexSystem,), {"dev": job["cfg"].get("dev", 0)})
    if "bulk" in job:
        run_bulk(job, ctx, cls)
    elif "size" in job:
        script(ctx, cls, job["cfg"], size_script(job["size"], job["cfg"]["index"], job["tail"]))
    else:
        explore.bfs(ctx, cls, job["cfg"], job["depth"])


def index_replay(case, ctx):
    from . import explore
    explore.replay_history(ctx, IndexSystem, case["cfg"], case["hist"])
