"""C03: stored records are isolated from every object the caller holds."""
import copy

import numpy as np

from .. import explore
from ..indexlib import IndexSystem, script, size_script
from ..storagelib import StorageSystem

LEVEL = "model_checking"
ASSUMPTIONS = ["the caller changes objects between calls, not during one",
               "metadata made of dictionaries, lists, tuples, sets and arrays"]
BOUNDS = {"quick": "all histories of calls to depth 3 (storages) and 2-3 (5 index types x 3 storages); in every state every array, dictionary, list, set and nested value ever passed in or handed out is overwritten, then everything is read again, twice",
          "thorough": "depth 4 and 3-4, more values and dtypes"}


def scramble(o, seen=None):
    """change every mutable part of o in place"""
    seen = set() if seen is None else seen
    if id(o) in seen:
        return
    seen.add(id(o))
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            for x in o.ravel():
                scramble(x, seen)
        try:
            if not o.flags.writeable:
                o.flags.writeable = True
            if o.size:
                o[...] = (o.astype(np.float64) * 0 + 77).astype(o.dtype) if o.dtype.kind in "fiub" else o
        except (ValueError, TypeError):
            pass
        if o.base is not None and isinstance(o.base, np.ndarray):
            scramble(o.base, seen)
    elif isinstance(o, dict):
        for v in list(o.values()):
            scramble(v, seen)
        for k in list(o):
            if not isinstance(o[k], (dict, list, set, np.ndarray)):
                o[k] = "scrambled"
        o["scrambled"] = ["by caller"]
        for k in list(o)[:1]:
            o.pop(k)
    elif isinstance(o, (list, tuple)):
        for v in list(o):
            scramble(v, seen)
        if isinstance(o, list):
            o.append("scrambled")
            o.insert(0, {"scrambled": 1})
    elif isinstance(o, set):
        o.clear()
        o.add("scrambled")


READS = ("search", "retrieve_vector", "list_vectors", "get_stats")


def flat(o):
    """an image two equal answers have in common"""
    if isinstance(o, np.ndarray):
        return (o.dtype.str, o.shape, repr(o.tolist()))
    if isinstance(o, dict):
        return (type(o).__name__, [(k, flat(v)) for k, v in o.items()])
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [flat(v) for v in o])
    if isinstance(o, (set, frozenset)):
        return (type(o).__name__, sorted(map(repr, o)))
    return repr(o)


class Rec:
    """passes calls through and keeps hold of every object that crosses the border"""

    def __init__(self, target, names, handles, repeat=None):
        self.__dict__.update(_t=target, _n=names, _h=handles, _r=repeat)

    def __getattr__(self, name):
        f = getattr(self._t, name)
        if name not in self._n:
            return f

        def call(*a, **k):
            if name == "insert" and len(a) > 1 and isinstance(a[1], list):
                # rows with equal metadata share one object
                same = {}
                a = (a[0], [same.setdefault(repr(m), m) for m in a[1]]) + a[2:]
            if name == "search":
                a = copy.deepcopy(a)             # queries may be the model's own vectors
            if self._r is not None and name in READS:
                # the same question twice in a row, the first answer changed in between
                a2 = copy.deepcopy(a)
                r = f(*a, **k)
                first = copy.deepcopy(r)
                scramble(r)
                scramble(a)
                r2 = f(*a2, **k)
                if flat(r2) != flat(first):
                    self._r.append(f"{name} answered {first!r}; asked again, after the caller changed that answer: {r2!r}")
                self._h.append((a2, r2))
                return first
            self._h.append((a, k))
            r = f(*a, **k)
            # hand a pristine copy to the harness, keep the original to scramble
            self._h.append(r)
            return copy.deepcopy(r)
        return call


class Alias:
    def ops(self):
        yield from super().ops()
        yield ["mutate"]

    def scramble_all(self):
        for h in self.handles:
            scramble(h)
        del self.handles[:]

    def apply(self, op):
        if op[0] == "mutate":
            self.scramble_all()
            return None
        e = super().apply(op)
        if self.repeat:
            return ("aliased:repeat:" + self.name, self.repeat[0])
        return (None, e[1]) if e else None

    def check(self):
        e = super().check()
        if self.repeat:
            return ("aliased:repeat:" + self.name, self.repeat[0])
        if e:
            # wrong already: not by the caller's hand, unless it was before ("mutate" earlier in the history)
            return self.verdict(e)
        for rnd in (0, 1):
            self.scramble_all()
            self.touched = True
            e = super().check()
            if e:
                return self.verdict(e)
        return None

    def verdict(self, e):
        if e is not None and self.touched:
            return ("aliased:" + str(e[0] or "") + ":" + self.name, "after the caller changed its own objects: " + str(e[1]))
        return (None, e[1]) if e else None


class StorageAlias(Alias, StorageSystem):
    def __init__(self, cfg):
        self.handles = []
        self.touched = False
        self.repeat = [] if cfg.get("repeat") else None
        super().__init__(cfg)
        self.name = cfg["kind"]
        self.real_ = self.real
        self.wrap()

    def wrap(self):
        self.real = Rec(self.real, ("store_vector", "update_vector", "retrieve_vector", "list_vectors", "get_stats"), self.handles, self.repeat)

    def apply(self, op):
        if op[0] == "mutate":
            self.touched = True
        e = super().apply(op)
        if op[0] in ("reopen", "abandon"):
            self.wrap()
        if e and self.touched and not self.repeat:
            return ("aliased-op:" + self.name, e[1])
        return e

    def canon(self):
        r, self.real = self.real, self.real._t
        try:
            return super().canon(), self.touched
        finally:
            self.real = r


class IndexAlias(Alias, IndexSystem):
    def __init__(self, cfg):
        self.handles = []
        self.touched = False
        self.repeat = [] if cfg.get("repeat") else None
        self.name = cfg["index"] + "/" + cfg.get("storage", "memory")
        super().__init__(cfg)

    def open(self):
        super().open()
        self.db = Rec(self.db, ("insert", "search", "update", "get_stats"), self.handles, self.repeat)
        self.storage = Rec(self.storage, ("retrieve_vector", "list_vectors", "get_stats"), self.handles, self.repeat)

    def apply(self, op):
        if op[0] == "mutate":
            self.touched = True
        e = super().apply(op)
        if e and self.touched and not self.repeat:
            return ("aliased-op:" + self.name, e[1])
        return e

    def check(self):
        # what an index reports is compared through searches and, for the storage-backed ones, the records
        self.focus = {"exact", "bind", "stats", "valid", "effect"}
        return super().check()

    def canon(self):
        db, self.db = self.db, self.db._t
        try:
            return super().canon(), self.touched
        finally:
            self.db = db


def jobs(tier):
    q = tier == "quick"
    out = []
    for kind, lim in (("memory", None), ("disk", None), ("hybrid", 1), ("hybrid", 10000)):
        out.append({"t": "storage", "depth": 3 if q else 4, "cfg": {"kind": kind, "limit": lim, "ids": ["a", "b"], "vals": [[0, 8], [3, 3]] if q else [[0, 8], [3, 3], [10, 8]],
                                                                "reads": True, "lists": True, "reopen": kind != "memory"}})
        out.append({"t": "storage", "depth": 2, "cfg": {"kind": kind, "limit": lim, "ids": ["a"], "vals": [[v, m] for v in (0, 1, 2, 3, 9, 11) for m in (0, 1, 3, 4, 8)],
                                                     "reads": True, "lists": True, "reopen": kind != "memory"}})
    B = [[[0, 8]], [[5, 3], [2, 3], [1, 0]]]
    for st, lim in (("memory", None), ("disk", None), ("hybrid", 1), ("hybrid", 10000)):
        for idx, metric, ic in (("flat", "cosine", {}), ("hnsw", "euclidean", {}), ("ivf", "cosine", {"n_clusters": 2, "n_probes": 2}),
                                ("ivf", "euclidean", {"n_clusters": 50, "n_probes": 50})):
            out.append({"t": "index", "depth": 2 if q else 3, "cfg": {
                "index": idx, "metric": metric, "iconf": ic, "storage": st, "limit": lim, "batches": B, "upd_pts": [6], "upd_metas": [8, 0],
                "extra": [["search", 1, 2]] + ([["reopen"]] if st != "memory" else [["reinit"]]), "queries": [0, 5], "missing_always": False}})
        if st == "memory":
            for dt in ("float32", "float64", "int8"):
                for idx, metric, ic in (("flat", "euclidean", {}), ("hnsw", "cosine", {}), ("ivf", "euclidean", {"n_clusters": 2, "n_probes": 2}),
                                        ("lsh", "cosine", {"threshold": -1.0}), ("lsh", "euclidean", {"threshold": 0.0, "num_hash_tables": 2, "hash_size": 2}),
                                        ("annoy", "angular", {"num_trees": 2}), ("annoy", "euclidean", {"num_trees": 2})):
                    out.append({"t": "index", "depth": 3 if q else 4, "cfg": {
                        "index": idx, "metric": metric, "iconf": ic, "batches": B, "upd_pts": [6], "upd_metas": [8] if q else [8, 0], "dtype": dt,
                        "extra": [["search", 1, 2]] + ([["build"]] if idx == "annoy" else []), "queries": [0, 5], "missing_always": False}})
    for idx in ("flat", "hnsw", "ivf", "lsh", "annoy"):
        for n in (8, 40) if q else (8, 40, 130):
            out.append({"t": "size", "n": n, "cfg": {"index": idx, "iconf": {"threshold": -1.0} if idx == "lsh" else {}, "batches": [], "queries": [0, 20], "missing_always": False}})
    # every question asked twice in a row
    for j in list(out):
        if j["t"] == "size":
            out.append(dict(j, cfg=dict(j["cfg"], repeat=True)))
        elif j["t"] == "storage" and len(j["cfg"]["ids"]) > 1:
            out.append(dict(j, depth=2 if q else 3, cfg=dict(j["cfg"], repeat=True)))
        elif j["t"] == "index":
            out.append(dict(j, depth=j["depth"] - 1, cfg=dict(j["cfg"], repeat=True)))
    return out


def prep(cfg):
    return dict(cfg, focus=["exact", "bind", "stats", "valid", "effect"])


def run_job(job, ctx):
    if job["t"] == "storage":
        explore.bfs(ctx, StorageAlias, job["cfg"], job["depth"])
    elif job["t"] == "index":
        explore.bfs(ctx, IndexAlias, prep(job["cfg"]), job["depth"])
    else:
        script(ctx, IndexAlias, prep(job["cfg"]), size_script(job["n"], job["cfg"]["index"], [["mutate"], ["search", 0, 5]]))


def replay(case, ctx):
    explore.replay_history(ctx, StorageAlias if "kind" in case["cfg"] else IndexAlias, case["cfg"], case["hist"])
