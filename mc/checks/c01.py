"""C01: every storage backend is a map."""
import itertools
import os
import pickle

import numpy as np

from .. import env, explore
from ..storagelib import (EXTRA_META, EXTRA_VEC, NMETA, NVEC, StorageSystem, brief, make_storage, meta, same_rec, vec)

LEVEL = "model_checking"
ASSUMPTIONS = ["single-threaded use (concurrency is C14)", "no I/O errors or crashes (C04, C05)"]
BOUNDS = {"quick": "BFS to the fixpoint (or depth 5) over 2-3 ids x 2-3 values with reopen; all ordered pairs of 12 vectors x 8 metadata values overwritten by store and by update; 44 rarer vectors and metadata (shapes, number types, over a megabyte, dates, sets, deep nesting); all histories of up to 3 of 8 operations on a folder as earlier versions wrote it; all collection sizes 0..24, 130 and 520 (1030 in memory)",
          "thorough": "as quick with depth 7, 3 ids and 4 values; collection sizes 0..60, 400, 1100"}
KINDS = [("memory", None), ("disk", None), ("hybrid", 0), ("hybrid", 1), ("hybrid", 2), ("hybrid", None)]


def jobs(tier):
    q = tier == "quick"
    out = []
    for kind, lim in KINDS:
        base = {"kind": kind, "limit": lim, "reads": kind == "hybrid", "reopen": True, "lists": True}
        out.append({"t": "bfs", "cfg": dict(base, ids=["a", "b"], vals=[[0, 0], [1, 1], [2, 3]]),
                    "depth": (8 if kind == "memory" else 4) if q else 8})
        out.append({"t": "bfs", "cfg": dict(base, ids=["a", "a.npy", "a_b"], vals=[[0, 1], [3, 0]]),
                    "depth": (8 if kind == "memory" else 3) if q else 6})
        for part in range(4):
            out.append({"t": "vals", "kind": kind, "limit": lim, "part": part, "parts": 4})
        out.append({"t": "extra", "kind": kind, "limit": lim})
        if kind != "memory":
            out.append({"t": "old", "kind": kind, "limit": lim})
        out.append({"t": "bulk", "kind": kind, "limit": lim if lim is None else lim * 5,
                    "sizes": list(range(0, 25)) + [130] + ([1030] if kind == "memory" else [520]) if q else list(range(0, 61)) + [400, 1100]})
    return out


def vals_case(case, ctx):
    """store A, overwrite with B by store or update, reopen or not; both ids checked"""
    kind, lim = case["kind"], case["limit"]
    (v1, m1), (v2, m2), how, reopen = case["a"], case["b"], case["how"], case["reopen"]
    d = env.fresh_dir("v")
    try:
        r = make_storage(kind, d, lim)
        r.initialize()
        ok = r.store_vector("x", vec(v1), meta(m1)) and r.store_vector("y", vec(v2), meta(m2))
        g1 = r.retrieve_vector("x")
        if not ok or not same_rec(g1, (vec(v1), meta(m1))):
            return ctx.violation("vals-first:%s" % kind, "stored %r, got %r" % (brief((vec(v1), meta(m1))), brief(g1)), case)
        ok = (r.store_vector if how == "store" else r.update_vector)("x", vec(v2), meta(m2))
        if reopen and kind != "memory":
            r.close()
            r = make_storage(kind, d, lim)
            r.initialize()
        g2 = r.retrieve_vector("x")
        if not ok or not same_rec(g2, (vec(v2), meta(m2))):
            return ctx.violation("vals-over:%s:%s" % (kind, how), "overwrote %r by %r with %s, got %r" % (
                brief(g1), brief((vec(v2), meta(m2))), how, brief(g2)), case)
        g3 = r.retrieve_vector("y")
        if not same_rec(g3, (vec(v2), meta(m2))):
            return ctx.violation("vals-other:%s" % kind, "other id reads %r" % (brief(g3),), case)
        ctx.n("transitions", 3)
    finally:
        env.drop_dir(d)


def bulk_case(case, ctx):
    kind, lim, n = case["kind"], case["limit"], case["n"]
    d = env.fresh_dir("v")
    try:
        r = make_storage(kind, d, lim)
        r.initialize()
        model = {}

        def full(tag):
            got = r.list_vectors()
            if sorted(got) != sorted(model):
                return ctx.violation("bulk-list:%s" % kind, "%s: %d listed, %d live" % (tag, len(got), len(model)), case)
            for l in {0, 1, len(model) // 2, len(model), len(model) + 1}:
                g = r.list_vectors(l)
                if len(g) != min(l, len(model)) or len(set(g)) != len(g) or not set(g) <= set(model):
                    return ctx.violation("bulk-limit:%s" % kind, "%s: limit %d gave %d of %d" % (tag, l, len(g), len(model)), case)
            for k, want in model.items():
                if not same_rec(r.retrieve_vector(k), want):
                    return ctx.violation("bulk-get:%s" % kind, "%s: %s reads %r" % (tag, k, brief(r.retrieve_vector(k))), case)
            st = r.get_stats()
            c = st["disk"]["vector_count"] if kind == "hybrid" else st["vector_count"]
            if c != len(model):
                return ctx.violation("bulk-count:%s" % kind, "%s: reports %r of %d" % (tag, c, len(model)), case)

        for j in range(n):
            val = (vec(j % NVEC), meta(j % NMETA))
            if not r.store_vector("id%d" % j, vec(j % NVEC), meta(j % NMETA)):
                return ctx.violation("bulk-store:%s" % kind, "store %d refused" % j, case)
            model["id%d" % j] = val
        ctx.n("transitions", n)
        full("stored")
        for j in range(0, n, 3):
            r.delete_vector("id%d" % j)
            del model["id%d" % j]
        for j in range(1, n, 3):
            r.update_vector("id%d" % j, vec((j + 5) % NVEC), meta((j + 3) % NMETA))
            model["id%d" % j] = (vec((j + 5) % NVEC), meta((j + 3) % NMETA))
        for j in range(0, n, 6):
            r.store_vector("id%d" % j, vec((j + 7) % NVEC), meta((j + 1) % NMETA))
            model["id%d" % j] = (vec((j + 7) % NVEC), meta((j + 1) % NMETA))
        full("changed")
        if kind != "memory":
            r.close()
            r = make_storage(kind, d, lim)
            r.initialize()
            full("reopened")
    finally:
        env.drop_dir(d)


OLD_OPS = [("update", "a", 3, 1), ("update", "a", 1, 0), ("update", "b", 2, 3), ("store", "a", 2, 3), ("store", "c", 0, 1), ("delete", "a"), ("delete", "b"), ("reopen",)]


def old_case(case, ctx):
    """A folder as earlier versions wrote it (metadata in a file of its own) is the same map."""
    kind, lim = case["kind"], case["limit"]
    d = env.fresh_dir("v")
    try:
        make_storage(kind, d, lim).initialize()
        base = next(b for b, dirs, f in os.walk(d) if "vectors" in dirs)
        model = {}
        for i, v, m in (("a", 0, 3), ("b", 11, 0)):
            np.save(os.path.join(base, "vectors", i + ".npy"), vec(v))
            if m:
                os.makedirs(os.path.join(base, "metadata"), exist_ok=True)
                with open(os.path.join(base, "metadata", i + ".pkl"), "wb") as f:
                    pickle.dump(meta(m), f)
            model[i] = (vec(v), meta(m))
        r = make_storage(kind, d, lim)
        r.initialize()
        for n, op in enumerate([None] + case["old"]):
            if op is None:
                pass
            elif op[0] == "reopen":
                r.close()
                r = make_storage(kind, d, lim)
                r.initialize()
            elif op[0] == "delete":
                if r.delete_vector(op[1]) is not (op[1] in model):
                    return ctx.violation("old-delete:%s" % kind, "%s: delete answered wrongly" % case["old"][:n], case)
                model.pop(op[1], None)
            else:
                ok = (r.update_vector if op[0] == "update" else r.store_vector)(op[1], vec(op[2]), meta(op[3]))
                if ok is not (op[0] == "store" or op[1] in model):
                    return ctx.violation("old-write:%s" % kind, "%s: answered %r" % (case["old"][:n], ok), case)
                if ok:
                    model[op[1]] = (vec(op[2]), meta(op[3]))
            ctx.n("transitions")
            got = {i: r.retrieve_vector(i) for i in ("a", "b", "c")}
            if sorted(r.list_vectors()) != sorted(model) or any(not same_rec(got[i], model.get(i)) for i in got):
                return ctx.violation("old:%s" % kind, "records of an earlier version, after %s: %s, expected %s" % (
                    case["old"][:n], {i: brief(g) for i, g in got.items()}, {i: brief(g) for i, g in model.items()}), case)
    finally:
        env.drop_dir(d)


def run_job(job, ctx):
    if job["t"] == "old":
        for n in range(4):
            for h in itertools.product(OLD_OPS, repeat=n):
                old_case({"kind": job["kind"], "limit": job["limit"], "old": [list(o) for o in h]}, ctx)
                ctx.n("states")
                ctx.n("traces_validated_against_impl")
        return
    if job["t"] == "bfs":
        explore.bfs(ctx, StorageSystem, job["cfg"], job["depth"])
        return
    if job["t"] == "vals":
        vals = [(v, m) for v in range(NVEC) for m in range(NMETA)]
        n = 0
        for a in vals:
            for b in vals[::1 if ctx.tier == "thorough" else 3] if a[1] else vals:
                n += 1
                if n % job["parts"] != job["part"]:
                    continue
                how = ("store", "update")[(n // 4) % 2] if ctx.quick else None
                for h in ([how] if how else ["store", "update"]):
                    case = {"vals": 1, "kind": job["kind"], "limit": job["limit"], "a": a, "b": b, "how": h,
                            "reopen": bool((n // 8) % 2)}
                    ctx.current = case
                    with env.limit(20):
                        vals_case(case, ctx)
                    ctx.n("traces_validated_against_impl")
        ctx.sample(case)
        return
    if job["t"] == "extra":
        some = [(0, 0), (11, 3)]
        rare = [(v, m) for v in EXTRA_VEC for m in (0, 1)] + [(0, m) for m in EXTRA_META] + [(EXTRA_VEC[n % len(EXTRA_VEC)], m) for n, m in enumerate(EXTRA_META)]
        pairs = [(a, b) for x in rare for y in some for a, b in ((x, y), (y, x))] + list(zip(rare, rare[1:] + rare[:1]))
        for a, b in pairs:
            for how in ("store", "update"):
                for reopen in (False, True):
                    case = {"vals": 1, "kind": job["kind"], "limit": job["limit"], "a": a, "b": b, "how": how, "reopen": reopen}
                    ctx.current = case
                    with env.limit(20):
                        vals_case(case, ctx)
                    ctx.n("traces_validated_against_impl")
        return
    for n in job["sizes"]:
        case = {"bulk": 1, "kind": job["kind"], "limit": job["limit"], "n": n}
        ctx.current = case
        with env.limit(60):
            bulk_case(case, ctx)
        ctx.n("traces_validated_against_impl")


def replay(case, ctx):
    if "old" in case:
        return old_case(case, ctx)
    if "hist" in case:
        explore.replay_history(ctx, StorageSystem, case["cfg"], case["hist"])
    elif "vals" in case:
        vals_case(case, ctx)
    else:
        bulk_case(case, ctx)
