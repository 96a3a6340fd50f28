"""Persistence managers against a map from (kind of save, path) to the value saved last."""
import itertools
import json
import os
import pickle
import re
import tempfile

import numpy as np

from . import env
from .explore import System, deep, tree

from valori.exceptions import PersistenceError
from valori.persistence import IncrementalPersistence, TensorPersistence

STATES = [
    lambda: {"n": 1, "l": [1, {"x": None}]},
    lambda: {"vectors": np.arange(6, dtype=np.float32).reshape(2, 3), "t": (1, "é"), "s": {1, 2}},
    lambda: {},
    lambda: {"big": list(range(50)), "b": b"\0\xff" * 20, 1: None},
    lambda: [1, 2],
    lambda: {"config": {"a": 1.5, "m": {"deep": [[], [[]]]}}, "f": np.float64(2.5), "nan": np.array([np.nan, -0.0])},
    lambda: {"table": np.arange(300000), "text": "\u00e9" * 70000, "items": [{"id": i, "v": [i, str(i)]} for i in range(5000)]},
    lambda: {"n": 2, "l": [1, {"x": None}]},                      # as long as the first one
]
VECTORS = [
    (lambda: np.array([[1, 0], [0.5, -2]], dtype=np.float32), lambda: ["a", "b"]),
    (lambda: np.arange(3, dtype=np.float64).reshape(3, 1), lambda: [7, 5, 6]),
    (lambda: np.zeros((0, 4), dtype=np.float32), lambda: []),
    (lambda: np.array([[np.nan, np.inf, -0.0, 1e-45]], dtype=np.float32), lambda: ["é\u2028 x"]),
    (lambda: np.asfortranarray(np.arange(12, dtype=np.int32).reshape(3, 4)), lambda: ["c", "a", "b" * 70]),
    (lambda: np.arange(24, dtype=np.float16).reshape(2, 3, 4), lambda: ["x", ""]),
    (lambda: np.array([1, 2, 3], dtype=np.uint8), lambda: [2 ** 40, 0, -1]),
    (lambda: np.array([[1 + 2j]]), lambda: ("t",)),
    (lambda: np.array([[True], [False]]), lambda: ["10", "9"]),
    (lambda: np.arange(20, dtype=np.float32).reshape(10, 2)[::2], lambda: ["i%d" % i for i in range(5)]),
    (lambda: np.arange(60, dtype=np.float32).reshape(30, 2), lambda: ["id-%d" % (i * 7 % 30) for i in range(30)]),
    (lambda: np.ones((2, 2), dtype=">f4"), lambda: np.array(["p", "q"])),
    (lambda: np.ones((2, 2), dtype=np.float32), lambda: np.array([3, 1])),
    (lambda: np.array([[1, 0], [0.5, -3]], dtype=np.float32), lambda: ["a", "c"]),       # as long as the first one
    (lambda: np.arange(3300, dtype=np.float32).reshape(1100, 3) / 7, lambda: ["r%d" % (i * i) for i in range(1100)]),
    (lambda: np.arange(80000, dtype=np.float64).reshape(40000, 2) * 1e-3, lambda: list(range(40000, 0, -1))),
    (lambda: (np.arange(129 * 1024) % 251).astype(np.float32).reshape(129, 1024), lambda: ["n" * (i % 90 + 1) + str(i) for i in range(129)]),
    # values that may be refused, but must not come back changed
    (lambda: np.ones((2, 2), dtype=np.float32), lambda: [1, "a"]),
    (lambda: np.ones((2, 2), dtype=np.float32), lambda: ["a\0", "b"]),
    (lambda: np.ones((1, 2), dtype=np.float32), lambda: [None]),
    (lambda: np.ones((1, 2), dtype=np.float32), lambda: [2 ** 70]),
    (lambda: np.array([[1, "x"]], dtype=object), lambda: ["a"]),
    (lambda: np.ones((2, 2), dtype=np.float32), lambda: [b"raw", b"\xff"]),
    (lambda: np.ones((2, 2), dtype=np.float32), lambda: [1.5, 2]),
    (lambda: np.ones((1, 2), dtype=np.float32), lambda: [{"not": "an id"}]),
    (lambda: np.ones((2, 1), dtype=np.float32), lambda: [("a", 1), ("b", 2)]),
]
SURE = 17                    # the first of VECTORS must be accepted


def manager(c, d):
    if c["manager"] == "tensor":
        return TensorPersistence({"data_dir": os.path.join(d, "p"), "compression": bool(c.get("compression"))})
    conf = {"data_dir": os.path.join(d, "p")}
    if c.get("interval"):
        conf["checkpoint_interval"] = c["interval"]
    return IncrementalPersistence(conf)


def same(a, b):
    return deep(a, lambda s: s) == deep(b, lambda s: s)


def same_vectors(got, want):
    if want is None:
        return got is None or (isinstance(got, tuple) and len(got) == 2 and got[0] is None and got[1] is None)
    if not isinstance(got, tuple) or len(got) != 2 or got[0] is None:
        return False
    v, ids = got
    w, wids = want
    wids = wids.tolist() if isinstance(wids, np.ndarray) else list(wids)
    return (isinstance(v, np.ndarray) and v.dtype == w.dtype and v.shape == w.shape and v.tobytes() == w.tobytes()
            and isinstance(ids, list) and len(ids) == len(wids) and all(x == y and isinstance(x, str) == isinstance(y, str)
                                                                        and isinstance(x, bytes) == isinstance(y, bytes)
                                                                        and (type(x) is type(y) or not isinstance(x, np.generic)) for x, y in zip(ids, wids)))


def value(kind, i):
    return (VECTORS[i][0](), VECTORS[i][1]()) if kind == "vectors" else STATES[i]()


def save(m, kind, path, val):
    if kind == "vectors":
        return m.save_vectors(val[0], val[1], path)
    return (m.save_state if kind == "state" else m.save_index)(val, path)


def load(m, kind, path):
    return {"state": m.load_state, "index": m.load_index, "vectors": m.load_vectors}[kind](path)


def matches(kind, got, i):
    if kind == "vectors":
        return same_vectors(got, None if i is None else value(kind, i))
    return got is None if i is None else (got is not None and same(got, value(kind, i)))


def spoil(kind, val):
    """what a careless caller may do to a value it passed in or was given"""
    if kind == "vectors":
        if val[0] is not None and val[0].size and val[0].flags.writeable:
            val[0][...] = 0
        if isinstance(val[1], list):
            val[1].append("spoiled")
    elif isinstance(val, dict):
        for x in val.values():
            if isinstance(x, list):
                x.append("spoiled")
            elif isinstance(x, np.ndarray):
                x[...] = 9
        val["spoiled"] = 1
    elif isinstance(val, list):
        val.append("spoiled")


class Unpicklable:
    def __reduce__(self):
        raise pickle.PicklingError("no")


BAD = [lambda: {"f": lambda: None}, lambda: {"a": list(range(100)), "u": Unpicklable()}]
TIME = re.compile(rb'"timestamp": "[^"]*"')


class PersistSystem(System):
    """cfg: manager, compression, interval, saves = [[kind, path, [values]]], ops.

    Model: self.latest[(kind, path)] = value index; for the incremental manager the state saved last
    is one value whatever the path; self.log = the operations logged so far."""

    def __init__(self, cfg):
        super().__init__(cfg)
        self.c = cfg
        self.inc = cfg["manager"] == "incremental"
        tempfile._name_sequence = ("tmp%d" % i for i in itertools.count())
        self.dir = env.fresh_dir("p")
        self.latest = {}
        self.log = []
        self.last = 0                   # operations at the last checkpoint
        self.nstates = 0
        self.open()

    def open(self):
        self.m = manager(self.c, self.dir)
        self.m.initialize()

    def close(self):
        tempfile._name_sequence = None
        env.drop_dir(self.dir)

    def key(self, kind, path):
        return (kind, None) if self.inc and kind == "state" else (kind, path)

    def ops(self):
        for kind, path, vals in self.c["saves"]:
            for v in vals:
                yield ["save", kind, path, v]
        for x in self.c["ops"]:
            yield x

    def apply(self, op):
        k = op[0]
        if k == "save":
            return self.do_save(*op[1:])
        if k == "bad":
            return self.refused(lambda: save(self.m, op[1], op[2], BAD[op[3]]()), op)
        if k == "load":
            try:
                got = load(self.m, op[1], op[2])
            except Exception as e:
                return "load-failed", "loading %s raised %r" % (op[1:], e)
            if not matches(op[1], got, self.latest.get(self.key(op[1], op[2]))):
                return "load", "loading %s gives %r" % (op[1:], got)
            spoil(op[1], got)
        elif k == "restart":
            if op[1:]:
                self.c = dict(self.c, compression=not self.c.get("compression"))
            self.m.close()
            self.open()
        elif k == "abandon":
            self.open()
        elif k == "reinit":
            self.m.initialize()
        elif k == "cycle":
            self.m.close()
            self.m.initialize()
        elif k == "stats":
            self.m.get_stats()
        return None

    def do_save(self, kind, path, v):
        val = value(kind, v)
        try:
            ok = save(self.m, kind, path, val)
        except PersistenceError as e:
            if kind == "vectors" and v >= SURE:
                return None                      # refused: check() sees that nothing changed
            return "save-failed", "saving %s raised %s" % ((kind, path, v), e)
        except Exception as e:
            return "save-failed", "saving %s raised %r" % ((kind, path, v), e)
        if ok is not True:
            return "save-result", "saving %s returned %r" % ((kind, path, v), ok)
        spoil(kind, val)
        self.latest[self.key(kind, path)] = v
        n = len(self.log)
        self.log.append((kind, path, v))
        if kind == "state":
            self.nstates += 1
            self.last = n
        if n + 1 - self.last >= (self.c.get("interval") or 100):
            self.last = n + 1
        return None

    def refused(self, f, op):
        try:
            r = f()
        except PersistenceError:
            return None
        except Exception as e:
            return "refuse-error", "%s raised %r instead of a persistence error" % (op, e)
        return "not-refused", "%s returned %r" % (op, r)

    def figures(self):
        """sizes reported against the files there are"""
        st = self.m.get_stats()
        sizes = [len(v) for v in tree(os.path.join(self.dir, "p")).values() if v is not None]
        if st.get("disk_usage_bytes") != sum(sizes) or abs(st.get("disk_usage_mb", -1) * 1048576 - sum(sizes)) > 1:
            return "disk-usage:" + self.c["manager"], "files of %d bytes, statistics %s" % (sum(sizes), st)
        if not self.inc and st.get("file_count") != len(sizes):
            return "file-count:" + self.c["manager"], "%d files, statistics %s" % (len(sizes), st)
        if self.m.get_stats() != st:
            return "twice:" + self.c["manager"], "statistics read twice differ: %s, %s" % (st, self.m.get_stats())
        return None

    def paths(self):
        return [(kind, path) for kind, path, _ in self.c["saves"]]

    def check(self):
        for kind, path in self.paths():
            want = self.latest.get(self.key(kind, path))
            for again in (0, 1):
                try:
                    got = load(self.m, kind, path)
                except Exception as e:
                    return "load-failed", "loading %s raised %r; last saved there: %s" % ((kind, path), e, want)
                if not matches(kind, got, want):
                    return "load", "loading %s gives %r, last saved there: %s" % ((kind, path), got, None if want is None else value(kind, want))
                if got is not None:
                    spoil(kind, got)
        if self.inc and self.c.get("counters"):
            return self.check_counters()
        return None

    def entries(self):
        with open(os.path.join(self.dir, "p", "operations.log")) as f:
            return [json.loads(line) for line in f if line.strip()]

    def check_counters(self):
        try:
            log = self.entries()
        except Exception as e:
            return "log-unreadable", "the operation log cannot be read: %r" % e
        want = [("save_" + k, p) for k, p, _ in self.log]
        if [(e["operation"], e["data"]["path"]) for e in log] != want:
            return "log", "log lists %s, performed were %s" % ([(e["operation"], e["data"]["path"]) for e in log], want)
        for e, (k, p, v) in zip(log, self.log):
            if k == "vectors":
                vs, ids = value(k, v)
                if e["data"]["vector_count"] != len(vs) or e["data"]["ids"] != list(ids)[:10]:
                    return "log-data", "log entry %s for vectors of %d rows, ids %s" % (e, len(vs), ids)
        nums = [e["operation_id"] for e in log]
        if any(b <= a for a, b in zip(nums, nums[1:])):
            return "numbers", "operation numbers %s" % nums
        st = self.m.get_stats()
        n = len(self.log)
        if st.get("operation_count") != n or st.get("logged_operations") != n:
            return "counters", "%d operations performed, statistics %s" % (n, st)
        if st["checkpoint_count"] != self.nstates:
            return "checkpoints", "%d states saved, %d checkpoints kept" % (self.nstates, st["checkpoint_count"])
        if st["last_checkpoint"] != self.last:
            return "last-checkpoint", "last checkpoint %d, statistics %s" % (self.last, st)
        return None

    def canon(self):
        t = {k: (v if v is None else TIME.sub(b"", v)) for k, v in tree(self.dir).items()}
        d = vars(self.m)
        return (sorted(t.items()), deep({k: v for k, v in d.items() if k not in ("config", "_load_count", "data_dir", "log_file", "checkpoint_file")},
                                        lambda s: s), sorted(self.latest.items(), key=repr), len(self.log), self.last)
