"""C02: different ids never share a record; nothing is written outside the data folder."""
import itertools
import os

import numpy as np

from .. import env
from ..storagelib import DiskStorage, make_storage, same_rec
from valori.exceptions import ValoriError

LEVEL = "model_checking"
ASSUMPTIONS = ["a case-sensitive file system that accepts every file name without '/' and NUL",
               "ids whose file name would exceed the file system's limit may be refused"]
ALPHA = ["a", "A", "/", ".", "_", "%", "é", " ", "2", "F", "\\", ":", "-"]
EXTRA = ["a/b", "a_b", "a%2Fb", "a%2fb", "a%252Fb", "a b", "a+b", "a__b", "a//b", "a.b", "../x", "..", "../../etc/x", "/abs/x",
         "/tmp/valori-escape", "a/../b", "./a", "a/", "a.npy", "a.tmp", "a.pkl", "a.npy.tmp", "vectors", "metadata",
         "../metadata/a", "../vectors/a", "é", "e\u0301", "É", "ß", "ss", "ﬁ", "Ⅷ", "٣", "a\tb", "a\nb", "a\x00b", "a\x01",
         "*", "?", "[a]", "[!a]", "~", "$HOME", "a|b", "a&b", "\ud800", "\udcff", "😀", "😀a", "日本", "a\u200b", "a'b", 'a"b', "a`b",
         "%00", "%C3%A9", "%E9", "x" * 120, "x" * 119 + "y", "x" * 120 + "/", "x" * 120 + "_", "-rf", "con", "NUL", "a.", "a..", ".a",
         "None", "0", "00", "0.0", "1e3", "True", "a" * 30 + "/" * 10]
BOUNDS = {"quick": "all ids of length 1-2 over %r plus %d chosen ids: every one stored alone against every other (retrieve, update, delete), and all of them together with each deleted and updated in turn, three backends, reopened" % (ALPHA, len(EXTRA)),
          "thorough": "as quick with ids up to length 3 for the together runs"}


def ids(tier):
    out = ["".join(t) for n in ((1, 2) if tier == "quick" else (1, 2, 3)) for t in itertools.product(ALPHA, repeat=n)]
    return list(dict.fromkeys(out + EXTRA))


def jobs(tier):
    n = len(ids("quick"))
    parts = 6
    out = []
    for kind, lim in (("disk", None), ("hybrid", 3), ("hybrid", 10000), ("memory", None)):
        for p in range(parts if kind != "memory" else 1):
            out.append({"t": "alone", "kind": kind, "limit": lim, "part": p, "parts": parts if kind != "memory" else 1})
        for p in range(4 if kind != "memory" else 1):
            out.append({"t": "all", "kind": kind, "limit": lim, "part": p, "parts": 4 if kind != "memory" else 1, "tier": "quick"})
        if tier == "thorough":
            for p in range(8):
                out.append({"t": "all", "kind": kind, "limit": lim, "part": p, "parts": 8, "tier": tier})
    return out


def V(k):
    return np.array([k, k + 0.5], dtype=np.float32)


class Watch:
    def __init__(self, d):
        self.data = os.path.join(d, "data")
        self.bad = []

    def __call__(self, kind, paths, w):
        if w:
            for p in paths:
                if p is not None and not (p == self.data or p.startswith(self.data + "/")):
                    self.bad.append((kind, p))


def attempt(f, *a):
    try:
        return f(*a)
    except ValoriError as e:
        return e


def alone(case, ctx):
    """one id stored, every other id must be absent and stay without effect on it"""
    kind, a, others = case["kind"], case["id"], case["others"]
    d = env.fresh_dir("i")
    w = Watch(d)
    try:
        with env.fs_listener(w):
            r = make_storage(kind, d, case["limit"])
            r.initialize()
            ok = attempt(r.store_vector, a, V(1), {"id": a})
            if ok is not True:
                return ctx.violation("store:%s" % kind, "store(%r) gave %r" % (a, ok), case)
            want = (V(1), {"id": a})
            for b in others:
                if b == a:
                    continue
                g = attempt(r.retrieve_vector, b)
                if g is not None and not isinstance(g, ValoriError):
                    return ctx.violation("shared-read:%s" % kind, "%r stored, but %r can be read: %r" % (a, b, g), case)
                u = attempt(r.update_vector, b, V(2), {"id": b})
                if u is not False and not isinstance(u, ValoriError):
                    return ctx.violation("shared-update:%s" % kind, "%r stored, update(%r) gave %r" % (a, b, u), case)
                x = attempt(r.delete_vector, b)
                if x is not False and not isinstance(x, ValoriError):
                    return ctx.violation("shared-delete:%s" % kind, "%r stored, delete(%r) gave %r" % (a, b, x), case)
            for rnd in range(2):
                if not same_rec(r.retrieve_vector(a), want):
                    return ctx.violation("lost:%s" % kind, "%r reads %r after operations on other ids" % (a, r.retrieve_vector(a)), case)
                l = r.list_vectors()
                if l != [a]:
                    return ctx.violation("list:%s" % kind, "%r stored, listing gives %r" % (a, l), case)
                if kind == "memory" or rnd:
                    break
                r = make_storage(kind, d, case["limit"])
                r.initialize()
            if r.update_vector(l[0], V(3)) is not True or not same_rec(r.retrieve_vector(a), (V(3), None)):
                return ctx.violation("update:%s" % kind, "update(%r) through its listed id failed" % a, case)
            if r.delete_vector(l[0]) is not True or r.retrieve_vector(a) is not None or r.list_vectors():
                return ctx.violation("delete:%s" % kind, "delete(%r) through its listed id failed" % a, case)
        if w.bad:
            return ctx.violation("escape:%s" % kind, "id %r: file operation outside the data folder: %r" % (a, w.bad[:3]), case)
        ctx.n("transitions", 3 * len(others) + 6)
        ctx.n("states", len(others))
    finally:
        env.drop_dir(d)


def together(case, ctx):
    kind, part, parts = case["kind"], case["part"], case["parts"]
    all_ids = ids(case["tier"])
    d = env.fresh_dir("i")
    w = Watch(d)
    try:
        with env.fs_listener(w):
            r = make_storage(kind, d, case["limit"])
            r.initialize()
            model = {}
            for k, i in enumerate(all_ids):
                ok = attempt(r.store_vector, i, V(k), {"id": i})
                if ok is not True:
                    return ctx.violation("store:%s" % kind, "store(%r) gave %r" % (i, ok), case)
                model[i] = (V(k), {"id": i})

            def verify(after, r):
                for i in all_ids:
                    g = r.retrieve_vector(i)
                    if not same_rec(g, model.get(i)):
                        return ctx.violation("collision:%s" % kind, "%s: %r reads %r" % (after, i, g), case)
                l = r.list_vectors()
                if sorted(l) != sorted(model):
                    diff = set(l) ^ set(model)
                    return ctx.violation("list-all:%s" % kind, "%s: %d listed of %d, difference %r" % (
                        after, len(l), len(model), sorted(diff)[:6]), case)

            verify("all stored", r)
            step = max(1, len(all_ids) // 60) if kind != "memory" else 1
            for k, i in enumerate(all_ids):
                if k % parts != part:
                    continue
                if r.delete_vector(i) is not True:
                    return ctx.violation("delete:%s" % kind, "delete(%r) failed" % i, case)
                del model[i]
                j = all_ids[(k * 7 + 3) % len(all_ids)]
                if j in model:
                    if r.update_vector(j, V(k + 5000), None) is not True:
                        return ctx.violation("update:%s" % kind, "update(%r) failed" % j, case)
                    model[j] = (V(k + 5000), None)
                if k // parts % step == 0:
                    verify("deleted %r, updated %r" % (i, j), r)
                    ctx.n("states", len(all_ids))
                if k % 3 == 0:
                    r.store_vector(i, V(k), {"again": i})
                    model[i] = (V(k), {"again": i})
                ctx.n("transitions", 3)
            verify("end", r)
            if kind != "memory":
                r.close()
                r2 = make_storage(kind, d, case["limit"])
                r2.initialize()
                verify("reopened", r2)
                t = DiskStorage({"data_dir": os.path.join(d, "data")})
                t.initialize()
                verify("opened as a disk store", t)
        if w.bad:
            return ctx.violation("escape:%s" % kind, "file operation outside the data folder: %r" % (w.bad[:3],), case)
    finally:
        env.drop_dir(d)


def run_job(job, ctx):
    if job["t"] == "all":
        ctx.current = dict(job)
        with env.limit(300):
            together(job, ctx)
        ctx.n("traces_validated_against_impl")
        return
    all_ids = ids("quick")
    for k, a in enumerate(all_ids):
        if k % job["parts"] != job["part"]:
            continue
        case = {"alone": 1, "kind": job["kind"], "limit": job["limit"], "id": a, "others": all_ids}
        ctx.current = {"alone": 1, "kind": job["kind"], "limit": job["limit"], "id": a}
        with env.limit(60):
            alone(case, ctx)
        ctx.n("traces_validated_against_impl")
    ctx.sample({"id": a, "kind": job["kind"]})


def replay(case, ctx):
    if case.get("alone"):
        case.setdefault("others", ids("quick"))
        alone(case, ctx)
    else:
        together(case, ctx)
