"""C05: a storage operation that is refused or fails leaves every record entirely old or entirely new."""
import errno

import numpy as np

from .. import crashlib, env
from ..explore import digest
from ..indexlib import Unstorable
from ..storagelib import brief, make_storage, meta, same_rec, vec
from .c04 import IDS, VALS, after, do, ops_for, val

LEVEL = "model_checking"
ASSUMPTIONS = ["a failing file-system call has no effect itself", "metadata whose text form raises is not considered"]
BOUNDS = {"quick": "every operation after all histories of <=1 operations (<=2 for hybrid reads), with an OSError at every file-system call (open, rename, remove, mkdir, list), once or from there on, two error codes; a write failing after every possible number of bytes; 22 kinds of unusable metadata or vector; on memory, disk and hybrid (limits 0, 1, 10000) stores",
          "thorough": "histories of <=2 operations"}

BADMETA = ["lambda", "uncopiable", "generator", "deep", "local-class", "nested", "lock", "module", "str-boom", "no-deepcopy"]
BADVEC = ["object", "none", "uncopiable-vec", "list", "ragged", "tuple", "set", "dict", "text", "number", "masked", "bytes"]
ODD = {"list": [1.0, 2.0], "ragged": [[1], [1, 2]], "tuple": (1, 2), "set": {1.5}, "dict": {0: 1.0}, "text": "1 2", "number": 5, "bytes": bytearray(b"ab")}


class Single:
    """can be pickled, but not copied"""

    def __deepcopy__(self, memo):
        raise TypeError("not to be copied")

    def __reduce__(self):
        return (dict, ())


def bad(what):
    if what == "lambda":
        return vec(0), {"a": 1, "f": lambda: 0}
    if what == "uncopiable":
        return vec(0), {"bad": Unstorable()}
    if what == "generator":
        return vec(0), {"g": (x for x in ())}
    if what == "deep":
        m = {}
        for _ in range(5000):
            m = {"n": m}
        return vec(0), m
    if what == "local-class":
        class L:
            pass
        return vec(0), {"o": L()}
    if what == "nested":
        return vec(0), {"ok": [1, 2], "n": {"x": [1, Unstorable()]}}
    if what == "lock":
        import _thread
        return vec(0), {"l": _thread.allocate_lock()}
    if what == "module":
        return vec(0), {"m": env}
    if what == "no-deepcopy":
        return vec(0), {"s": Single()}
    if what == "str-boom":
        return vec(0), {"a" * 3000: "\ud800" * 10}
    if what == "object":
        return np.array([1, "x", None], dtype=object), meta(1)
    if what == "none":
        return None, meta(1)
    if what == "uncopiable-vec":
        return Unstorable(), meta(1)
    if what == "masked":
        return np.ma.array([1.0, 2.0], mask=[0, 1]), meta(1)
    if what in ODD:
        return ODD[what], meta(1)
    raise AssertionError(what)


def same_or(got, models, i):
    return any(same_rec(got, val(m.get(i))) for m in models)


class Case:
    """one store, one operation with a fault, everything examined afterwards"""

    def __init__(self, c, ctx):
        self.c, self.ctx = c, ctx
        self.kind, self.limit = c["kind"], c["limit"]

    def bad(self, key, msg):
        c = self.c
        f = "%s, %s" % (c["ops"], c["fault"])
        self.ctx.violation("%s:%s" % (key, self.kind), "%s (fault hit: %s): %s" % (f, self.fired, msg), c)

    def build(self, d):
        st = make_storage(self.kind, d, self.limit)
        st.initialize()
        model = {}
        for op in self.c["ops"][:-1]:
            do(st, op)
            model = after(model, op)
        return st, model

    def read(self, st, models, where):
        """which of the models the store shows, or None after reporting"""
        try:
            got = {i: st.retrieve_vector(i) for i in IDS}
            listed = st.list_vectors()
            st.get_stats()
        except Exception as e:
            self.bad("unreadable", "%s: reading raised %r" % (where, e))
            return None
        for m in models:
            if all(same_rec(got[i], val(m.get(i))) for i in IDS):
                if sorted(listed) != sorted(m):
                    self.bad("list", "%s: listing gives %r, records %r" % (where, listed, sorted(m)))
                    return None
                return m
        self.bad("record", "%s: records read %r, acceptable %r" % (
            where, {i: brief(g) for i, g in got.items()}, [{i: brief(val(x)) for i, x in m.items()} for m in models]))
        return None

    def run(self):
        """returns the number of fault points met, for enumeration"""
        c = self.c
        d = env.fresh_dir("f")
        self.fired = None
        try:
            st, model = self.build(d)
            op = c["ops"][-1]
            new = after(model, op)
            fault = c["fault"]
            res = exc = None
            inj = crashlib.Inject(d, fault.get("at"), fault.get("stuck", False), fault.get("errno", errno.EIO))
            if "bad" in fault:
                v, m = bad(fault["bad"])
                new = model
                try:
                    res = (st.store_vector if op[0] == "store" else st.update_vector)(op[1], v, m)
                    self.fired = fault["bad"]
                except Exception as e:
                    exc = e
                if res:
                    # accepted: then it must read back, and nothing else may have changed
                    return self.accepted(st, d, model, op, v, m)
            elif "bytes" in fault:
                with crashlib.small_files(fault["bytes"]):
                    try:
                        res = do(st, op)
                    except Exception as e:
                        exc = e
                self.fired = "write beyond %d bytes" % fault["bytes"] if exc or not res else None
            else:
                with env.fs_listener(inj):
                    try:
                        if op[0] == "open":
                            st2 = make_storage(self.kind, d, self.limit)
                            st2.initialize()
                            res = True
                        else:
                            res = do(st, op)
                    except Exception as e:
                        exc = e
                self.fired = inj.fired
            self.ctx.outcome(digest((repr(op), repr(fault), type(exc).__name__, bool(res))))
            if op[0] == "get":
                models = [model]
                if exc is None and not same_rec(res, val(model.get(op[1]))):
                    self.bad("wrong-read", "retrieve(%r) gave %r, expected %r" % (op[1], brief(res), brief(val(model.get(op[1])))))
                    return inj.n
            elif exc is None and res:
                models = [new]
            else:
                models = [model, new]
                if exc is None and self.fired is None and bool(res) != (new != model or op[0] == "store" or (op[0] == "update" and op[1] in model)):
                    self.bad("result", "no fault, but the operation returned %r" % (res,))
            m = self.read(st, models, "same store")
            if m is None:
                return inj.n
            st3 = make_storage(self.kind, d, self.limit)
            try:
                st3.initialize()
            except Exception as e:
                self.bad("reopen", "cannot be opened afterwards: %r" % e)
                return inj.n
            if self.kind != "memory" and self.read(st3, [m], "reopened store") is None:
                return inj.n
            # the cause is gone: the same operation succeeds
            if op[0] in ("store", "update", "delete"):
                if "bad" in fault:
                    op = [op[0], op[1]] + c["ops"][-1][2:]
                try:
                    res = do(st, op)
                except Exception as e:
                    self.bad("retry", "repeating it without the fault raised %r" % e)
                    return inj.n
                want = after(m, op)
                if bool(res) != (op[0] == "store" or op[1] in m):
                    self.bad("retry", "repeating it without the fault returned %r" % (res,))
                    return inj.n
                if self.read(st, [want], "after repeating it") is None:
                    return inj.n
                if self.kind != "memory":
                    st4 = make_storage(self.kind, d, self.limit)
                    st4.initialize()
                    self.read(st4, [want], "after repeating it and reopening")
            return inj.n
        finally:
            env.drop_dir(d)

    def accepted(self, st, d, model, op, v, m):
        others = [i for i in IDS if i != op[1]]
        try:
            for i in others:
                if not same_rec(st.retrieve_vector(i), val(model.get(i))):
                    return self.bad("other", "accepted, but %r changed" % i)
            got = st.retrieve_vector(op[1])
            if got is None:
                return self.bad("vanished", "accepted, but not there")
            st.list_vectors()
            st.get_stats()
            if st.store_vector(others[0], vec(9), meta(1)) is not True or not same_rec(st.retrieve_vector(others[0]), (vec(9), meta(1))):
                return self.bad("poisoned", "accepted, but then %r cannot be stored" % others[0])
            if st.delete_vector(op[1]) is not True or st.retrieve_vector(op[1]) is not None:
                return self.bad("poisoned", "accepted, but cannot be deleted")
        except Exception as e:
            return self.bad("poisoned", "accepted, but then %r" % e)


def one(case, ctx):
    ctx.current = case
    with env.limit(30):
        n = Case(case, ctx).run()
    ctx.n("transitions")
    ctx.n("states")
    ctx.n("traces_validated_against_impl")
    return n


def jobs(tier):
    out = []
    for kind, lim in (("memory", None), ("disk", None), ("hybrid", 0), ("hybrid", 1), ("hybrid", 10000)):
        for vals in VALS:
            for part in range(3):
                out.append({"kind": kind, "limit": lim, "vals": vals, "pre": 1 if tier == "quick" else 2, "part": part})
    return out


def run_job(job, ctx):
    kind, lim = job["kind"], job["limit"]
    vals = VALS[job["vals"]]
    all_ops = list(ops_for(vals))
    stores = [o for o in all_ops if o[0] == "store"]
    pres = [[]] + [[o] for o in stores] + [[a, b] for a in stores[:1] for b in stores if b[1] != a[1]]
    if job["pre"] > 1:
        pres += [[a, b] for a in stores for b in all_ops]
    base = {"kind": kind, "limit": lim}
    k = 0
    for pre in pres:
        gets = [["get", i] for i in IDS] if kind != "memory" else []
        for op in all_ops + gets + ([["open"]] if kind != "memory" else []):
            k += 1
            if k % 3 != job["part"] or ctx.late():
                continue
            ops = list(pre) + [op]
            n = one(dict(base, ops=ops, fault={}), ctx)
            if kind != "memory":
                for at in range(n or 0):
                    for stuck in (False, True):
                        for e in (errno.EIO, errno.ENOENT) if job["vals"] == "small" and not stuck else (errno.ENOSPC,):
                            one(dict(base, ops=ops, fault={"at": at, "stuck": stuck, "errno": e}), ctx)
            if op[0] in ("store", "update"):
                for b in BADMETA + BADVEC:
                    one(dict(base, ops=ops, fault={"bad": b}), ctx)
                if kind != "memory" and len(pre) < 2:
                    for nb in crashlib.lens(0, 420, job["vals"] == "mixed" and kind != "hybrid" or not pre) or []:
                        one(dict(base, ops=ops, fault={"bytes": nb}), ctx)
    ctx.sample(ctx.current)


def replay(case, ctx):
    Case(case, ctx).run()
