"""Storage backends against a plain-map reference model."""
import os

import collections
import datetime
import decimal
import fractions
import functools

import numpy as np

from . import env
from .explore import System, deep, digest, tree

from valori.exceptions import StorageError, ValoriError  # noqa: E402
from valori.storage import DiskStorage, HybridStorage, MemoryStorage  # noqa: E402


def vec(i):
    return [
        lambda: np.array([1.0, 2.0, 3.0], dtype=np.float32),
        lambda: np.array([0.1, -0.0, 1e300], dtype=np.float64),
        lambda: np.array([7, -7], dtype=np.int8),
        lambda: np.arange(12, dtype=np.float64)[1::4],             # not contiguous
        lambda: np.array([5.5], dtype=">f4"),                      # other byte order
        lambda: np.zeros(0, dtype=np.float32),
        lambda: np.array([np.nan, np.inf, -np.inf], dtype=np.float32),
        lambda: np.array([True, False]),
        lambda: np.array([1.0, 2.0, 3.0], dtype=np.float64),       # equal to 0, other dtype
        lambda: np.arange(6, dtype=np.float32)[::-1],              # negative stride
        lambda: np.array([2 ** 60, -1], dtype=np.int64),
        lambda: np.linspace(0, 1, 300, dtype=np.float32),
        lambda: np.arange(6, dtype=np.float32).reshape(2, 3),      # from here on: EXTRA_VEC
        lambda: np.asfortranarray(np.arange(6, dtype=np.float64).reshape(2, 3)),
        lambda: np.array(2.5),
        lambda: np.array([1 + 2j, -1j]),
        lambda: np.array([0.1, 65504.0], dtype=np.float16),
        lambda: np.array(["a", "\u00e9\u4e2d"]),
        lambda: np.array(["2020-01-02", "NaT"], dtype="datetime64[D]"),
        lambda: np.array([(1, 2.5), (3, -0.0)], dtype=[("i", "i4"), ("x", "f8")]),
        lambda: np.arange(300000, dtype=np.float32) / 7,           # more than a megabyte
        lambda: np.array([2 ** 64 - 1, 1], dtype=np.uint64),
        lambda: np.broadcast_to(np.float32(3), (4,)),
        lambda: np.zeros((0, 3), dtype=np.int16),
    ][i]()


NVEC = 12
EXTRA_VEC = range(12, 24)


def meta(i):
    return [
        lambda: None,
        lambda: {"a": 1},
        lambda: {},
        lambda: {"n": {"x": [1, 2, {"y": None}]}, "t": (1, "é"), "a": 1.5},
        lambda: {1: "k", None: b"\0\xff", "set": {1, 2}},
        lambda: {"a": 2, "text": "line\nline\t\"q\" \\ \u2028 %s {}"},
        lambda: {"a": "1"},
        lambda: {"id": "other", "vector": [1], "metadata": None},
        lambda: {"n": {"x": [1, {"y": [2]}]}, "arr": np.arange(3.0), "s": {1}, "l": [{"z": 1}, []], "t": ([1],)},
        lambda: {"when": datetime.datetime(2024, 2, 29, 1, 2, 3, 4), "d": datetime.date(1, 1, 1), "dec": decimal.Decimal("1.10"), "fr": fractions.Fraction(1, 3)},
        lambda: {"big": 2 ** 100, "neg": -2 ** 64, "f": float("inf"), "z": -0.0, "tiny": 5e-324, "c": 1j, "bool": True, "one": 1},
        lambda: collections.OrderedDict([("z", 1), ("a", 2)]),
        lambda: {"text": "x" * 200000 + "\u00e9", "": "empty key", "k" * 3000: 1},
        lambda: {"np": np.float32(0.1), "npi": np.int64(-3), "npb": np.bool_(True), "arr": np.arange(4, dtype=np.int8).reshape(2, 2)},
        lambda: {"frozen": frozenset((1, 2)), "bytes": bytes(range(256)), "ba": bytearray(b"ab"), "range": range(3), ("tu", 1): 2, 1.5: 3},
        lambda: {"deep": functools.reduce(lambda a, _: [a], range(60), {"end": 1})},
        lambda: {"a": {"b": {}}, "rows": [{"i": i} for i in range(3000)]},
        lambda: {"nul": "a\0b", "cr": "a\r\nb\r", "bom": "\ufeffx", "emoji": "\U0001f600", "comb": "e\u0301", "rtl": "\u202ex"},
    ][i]()


NMETA = 8
EXTRA_META = range(8, 18)


def ident(x):
    return deep(x, lambda s: s)


def same_meta(a, b):
    return ident(a) == ident(b)


def same_vec(a, b):
    a_, b_ = np.asarray(a), np.asarray(b)
    return isinstance(a, np.ndarray) and a_.dtype == b_.dtype and a_.shape == b_.shape and a_.tobytes() == b_.tobytes()


def same_rec(got, want):
    if want is None or got is None:
        return got is None and want is None
    return same_vec(got[0], want[0]) and same_meta(got[1], want[1])


def brief(r):
    if r is None:
        return None
    if not isinstance(r[0], np.ndarray):
        return ("?", repr(r[0])[:80], r[1])
    return (r[0].dtype, np.atleast_1d(r[0]).tolist()[:4], r[1])


def make_storage(kind, d, limit=None):
    if kind == "memory":
        return MemoryStorage({})
    if kind == "disk":
        return DiskStorage({"data_dir": os.path.join(d, "data")})
    cfg = {"disk": {"data_dir": os.path.join(d, "data")}}
    if limit is not None:
        cfg["memory_limit"] = limit
    return HybridStorage(cfg)


def counts_of(kind, st):
    """vector counts a backend reports, normalised to a list of (what, n, expected-function name)"""
    if kind == "hybrid":
        return st["disk"]["vector_count"], st["memory"]["vector_count"]
    return st["vector_count"], None


class StorageSystem(System):
    """cfg: kind, limit, ids, vals=[(vec,meta)], reopen, reads, twin, lists"""

    def __init__(self, cfg):
        super().__init__(cfg)
        self.kind = cfg["kind"]
        self.dir = env.fresh_dir("s")
        self.real = make_storage(self.kind, self.dir, cfg.get("limit"))
        self.real.initialize()
        self.model = {}
        self.nops = 0

    def close(self):
        env.drop_dir(self.dir)

    def ops(self):
        c = self.cfg
        for i in c["ids"]:
            for v in c["vals"]:
                yield ["store", i, v[0], v[1]]
            for v in c["vals"]:
                yield ["update", i, v[0], v[1]]
            yield ["delete", i]
            if c.get("reads"):
                yield ["get", i]
        if c.get("reopen"):
            yield ["reopen"]
            yield ["abandon"]
        for x in c.get("extra", []):
            yield x
        if c.get("lists"):
            yield ["list", None]
            yield ["list", 1]
            yield ["stats"]

    def apply(self, op):
        k, r, m = op[0], self.real, self.model
        K = self.kind
        if k == "store":
            v, me = vec(op[2]), meta(op[3])
            got = r.store_vector(op[1], v, me)
            if not got:
                return ("store-refused:" + K, "store(%r) returned %r" % (op[1], got))
            m[op[1]] = (vec(op[2]), meta(op[3]))
        elif k == "update":
            v, me = vec(op[2]), meta(op[3])
            got = r.update_vector(op[1], v, me)
            if bool(got) != (op[1] in m):
                return ("update-result:" + K, "update(%r) returned %r, id %s" % (
                    op[1], got, "exists" if op[1] in m else "missing"))
            if op[1] in m:
                m[op[1]] = (vec(op[2]), meta(op[3]))
        elif k == "delete":
            got = r.delete_vector(op[1])
            if bool(got) != (op[1] in m):
                return ("delete-result:" + K, "delete(%r) returned %r, id %s" % (
                    op[1], got, "exists" if op[1] in m else "missing"))
            m.pop(op[1], None)
        elif k == "get":
            got = r.retrieve_vector(op[1])
            if not same_rec(got, m.get(op[1])):
                return ("get:" + K, "retrieve(%r) = %r, expected %r" % (op[1], brief(got), brief(m.get(op[1]))))
        elif k == "reopen":
            r.close()
            self.real = make_storage(K, self.dir, self.cfg.get("limit"))
            self.real.initialize()
            if K == "memory":
                m.clear()
        elif k == "abandon":
            self.real = make_storage(K, self.dir, self.cfg.get("limit"))
            self.real.initialize()
            if K == "memory":
                m.clear()
        elif k in ("cycle", "reinit"):       # the same object again
            if k == "cycle":
                r.close()
            r.initialize()
            if K == "memory":
                m.clear()
        elif k == "list":
            return self.check_list(op[1])
        elif k == "stats":
            return self.check_stats()
        else:
            raise AssertionError(op)
        if self.cfg.get("stats_every"):
            return self.check_stats()
        return None

    def check_list(self, limit):
        got = self.real.list_vectors(limit) if limit is not None else self.real.list_vectors()
        want = len(self.model) if limit is None else min(limit, len(self.model))
        if len(got) != want or len(set(got)) != len(got) or not set(got) <= set(self.model):
            return ("list:%s" % self.kind, "list(%r) = %r, live ids %r" % (limit, got, sorted(self.model)))
        return None

    def check_stats(self):
        st = self.real.get_stats()
        n, mem = counts_of(self.kind, st)
        if n != len(self.model):
            return ("count:%s" % self.kind, "statistics report %r vectors, %d live" % (n, len(self.model)))
        if mem is not None:
            lim = self.cfg.get("limit")
            if mem > len(self.model):
                return ("memcount:hybrid", "memory tier reports %r of %d vectors" % (mem, len(self.model)))
            if lim is not None and mem > lim:
                return ("limit:hybrid", "memory tier holds %d vectors, limit %d" % (mem, lim))
            tier = getattr(self.real, "memory_storage", None)
            if tier is not None and lim is not None and len(tier.list_vectors()) > lim:
                return ("limit:hybrid", "memory tier lists %d vectors, limit %d" % (len(tier.list_vectors()), lim))
        return None

    def probe_ids(self):
        return list(self.cfg["ids"]) + ["missing"]

    def check(self):
        e = self.check_stats()
        if e:
            return e
        for lim in [None, 0] + list(range(1, len(self.model) + 2)):
            e = self.check_list(lim)
            if e:
                return e
        twin = None
        if self.cfg.get("twin"):
            twin = DiskStorage({"data_dir": os.path.join(self.dir, "data")})
            twin.initialize()
        for rnd in (0, 1):          # twice: reading must not disturb
            for i in self.probe_ids():
                got = self.real.retrieve_vector(i)
                if not same_rec(got, self.model.get(i)):
                    return ("get:%s" % self.kind, "retrieve(%r) = %r, expected %r" % (
                        i, brief(got), brief(self.model.get(i))))
                if twin is not None:
                    t = twin.retrieve_vector(i)
                    if not same_rec(t, self.model.get(i)):
                        return ("twin:%s" % self.kind, "disk holds %r for %r, expected %r" % (
                            brief(t), i, brief(self.model.get(i))))
                e = self.check_stats()
                if e:
                    return e
        e = self.check_list(None)
        if e:
            return e
        # the empty id is refused, and touches nothing
        try:
            ok = self.real.store_vector("", vec(0), meta(1))
        except ValoriError:
            ok = False
        if ok:
            return ("empty-id:%s" % self.kind, "store('') returned %r" % (ok,))
        return self.check_list(None) or self.check_stats()

    def canon(self):
        ren = lambda s: s.replace(self.dir, "$D")  # noqa: E731
        return (deep(self.real, ren), sorted(tree(self.dir).items()),
                tuple((k, ident(v)) for k, v in sorted(self.model.items())))
