"""C04: a crash at any point of a disk operation leaves every record as before or as after it."""
from .. import crashlib, env
from ..explore import digest, put_tree, tree
from ..indexlib import PTS, make_index
from ..storagelib import DiskStorage, brief, make_storage, meta, same_rec, vec
from valori import VectorDBClient

import os
import numpy as np

LEVEL = "model_checking"
ASSUMPTIONS = ["process crash: bytes handed to the operating system survive, in the order written; power loss is not modelled",
               "a crash falls between file-system calls or after any prefix of the bytes written between them"]
BOUNDS = {"quick": "every crash point and torn prefix (every byte for single-file changes up to 700 bytes) of every operation after all histories of <=1 completed operations, then again of every operation run after the first crash; disk and hybrid stores; batches through the client with three index types",
          "thorough": "two completed operations before each crash, three crashes in a row"}

IDS = ["a", "b/c"]
VALS = {"small": [[0, 1], [2, 0]], "mixed": [[11, 5], [0, 3]], "dtype": [[1, 4], [5, 2]]}


def ops_for(vals):
    for i in IDS:
        for v, m in vals:
            yield ["store", i, v, m]
        yield ["update", i] + vals[1]
        yield ["update", i] + vals[0]
        yield ["delete", i]


def do(st, op):
    if op[0] == "store":
        return st.store_vector(op[1], vec(op[2]), meta(op[3]))
    if op[0] == "update":
        return st.update_vector(op[1], vec(op[2]), meta(op[3]))
    if op[0] == "delete":
        return st.delete_vector(op[1])
    if op[0] == "get":
        return st.retrieve_vector(op[1])
    if op[0] == "open":
        return None


def after(model, op):
    m = dict(model)
    if op[0] == "store" or (op[0] == "update" and op[1] in m):
        m[op[1]] = (op[2], op[3])
    elif op[0] == "delete":
        m.pop(op[1], None)
    return m


def val(spec):
    return None if spec is None else (vec(spec[0]), meta(spec[1]))


def recover(d, kind, limit, models, what, afterlife=True):
    """open the tree and see which of the acceptable models it is; returns (model, None) or (None, (key, msg))"""
    st = make_storage(kind, d, limit)
    try:
        st.initialize()
    except Exception as e:
        return None, ("open:" + kind, "%s: the store cannot be opened: %r" % (what, e))
    try:
        listed = st.list_vectors()
        got = {i: st.retrieve_vector(i) for i in IDS}
        for i in listed:
            st.retrieve_vector(i)
        stats = st.get_stats()
    except Exception as e:
        return None, ("read:" + kind, "%s: reading after the crash raised %r" % (what, e))
    cnt = (stats["disk"] if kind == "hybrid" else stats).get("vector_count")
    for m in models:
        if all(same_rec(got[i], val(m.get(i))) for i in IDS):
            break
    else:
        return None, ("record:" + kind, "%s: records read %r, acceptable are %r" % (
            what, {i: brief(g) for i, g in got.items()}, [{i: brief(val(x)) for i, x in m.items()} for m in models]))
    if sorted(listed) != sorted(m):
        return None, ("list:" + kind, "%s: listing gives %r, readable are %r" % (what, listed, sorted(m)))
    if cnt != len(m) or "error" in (stats["disk"] if kind == "hybrid" else stats):
        return None, ("count:" + kind, "%s: statistics %r, %d live" % (what, stats, len(m)))
    if not afterlife:
        return m, None
    try:
        for i in IDS:
            if st.store_vector(i, vec(9), meta(1)) is not True or not same_rec(st.retrieve_vector(i), (vec(9), meta(1))):
                return None, ("after:" + kind, "%s: cannot store %r afterwards" % (what, i))
            for j in IDS:
                if j > i and not same_rec(st.retrieve_vector(j), val(m.get(j))):
                    return None, ("after:" + kind, "%s: storing %r afterwards changed %r" % (what, i, j))
        if sorted(st.list_vectors()) != sorted(IDS):
            return None, ("after:" + kind, "%s: listing afterwards gives %r" % (what, st.list_vectors()))
        for i in IDS:
            if st.delete_vector(i) is not True or st.retrieve_vector(i) is not None:
                return None, ("after:" + kind, "%s: cannot delete %r afterwards" % (what, i))
        st.close()
        st = make_storage(kind, d, limit)
        st.initialize()
        if st.list_vectors():
            return None, ("after:" + kind, "%s: deleted records return: %r" % (what, st.list_vectors()))
    except Exception as e:
        return None, ("after:" + kind, "%s: afterwards %r" % (what, e))
    return m, None


def run_case(case):
    """one session from a tree; returns list of (what, tree, acceptable models)"""
    kind, limit = case["kind"], case["limit"]

    def session(d):
        model = dict(case["model"])
        st = make_storage(kind, d, limit)
        ops = case["ops"]
        if ops[-1][0] == "open":
            _, exc, snaps = crashlib.watched(st.initialize, d)
            return [(w, t, [model]) for w, t, r in crashlib.crash_trees(snaps, case["fine"])]
        st.initialize()
        for op in ops[:-1]:
            do(st, op)
            model = after(model, op)
        _, exc, snaps = crashlib.watched(lambda: do(st, ops[-1]), d)
        new = after(model, ops[-1])
        out = []
        for w, t, returned in crashlib.crash_trees(snaps, case["fine"]):
            out.append((w, t, [new] if returned and exc is None else [model, new]))
        return out
    return crashlib.in_tree(case["tree"], session)


def examine(case, crash, ctx):
    w, t, models = crash
    what = "%s interrupted (%s)" % (case["ops"], w)
    m, err = crashlib.in_tree(t, lambda d: recover(d, case["kind"], case["limit"], models, what))
    if err is None and case["kind"] == "hybrid":
        _, err = crashlib.in_tree(t, lambda d: recover(d, "disk", None, [m], what + ", opened as a disk store", False))
    return m, err


def enc(case, w):
    c = dict(case, crash=w)
    c["tree"] = {k: (None if v is None else v.hex()) for k, v in case["tree"].items()}
    return c


def dec(case):
    c = dict(case)
    c["tree"] = {k: (None if v is None else bytes.fromhex(v)) for k, v in case["tree"].items()}
    c["model"] = {k: tuple(v) for k, v in case["model"].items()}
    return c


def storage_job(job, ctx):
    kind, limit = job["kind"], job["limit"]
    vals = VALS[job["vals"]]
    seen = set()
    frontier = [({}, {})]
    q = ctx.quick
    for depth in range(job["crashes"]):
        nxt = []
        for t0, m0 in frontier:
            seqs = [[["open"]]]
            for pre in ([()] if depth or job["pre"] == 0 else [()] + [(p,) for p in ops_for(vals)]):
                seqs += [list(pre) + [op] for op in ops_for(vals)]
                seqs += [list(pre) + [["get", i]] for i in IDS] if kind == "hybrid" and pre else []
            if job["pre"] > 1 and not depth:
                seqs += [[a, b, c] for a in ops_for(vals) for b in ops_for(vals) for c in ops_for(vals) if a[0] == "store"]
            for ops in seqs:
                if ctx.late():
                    return
                case = {"kind": kind, "limit": limit, "ops": ops, "tree": t0, "model": m0, "fine": depth == 0 and len(ops) < 3}
                ctx.current = enc(case, None)
                with env.limit(60):
                    for crash in run_case(case):
                        ctx.n("transitions")
                        key = digest((sorted(crash[1].items()), sorted(map(repr, crash[2]))))
                        if key in seen:
                            continue
                        seen.add(key)
                        ctx.n("states")
                        ctx.n("traces_validated_against_impl")
                        ctx.outcome(key)
                        m, err = examine(case, crash, ctx)
                        if err:
                            ctx.violation(err[0], err[1], enc(case, crash[0]))
                            continue
                        nxt.append((crash[1], m))
        # go on from states that differ in more than the length of a torn file
        reps = {}
        for t, m in nxt:
            sig = (tuple(sorted((k, None if v is None else len(v) > 0) for k, v in t.items())), repr(sorted(m.items())))
            reps.setdefault(sig, (t, m))
        frontier = list(reps.values())
        if frontier:
            ctx.sample({"kind": kind, "model": frontier[-1][1], "files": sorted(frontier[-1][0])})


# ---------------------------------------------------------------- batches through the client
def client(d, job):
    st = make_storage(job["kind"], d, job["limit"])
    db = VectorDBClient(st, make_index({"index": job["index"], "iconf": {"n_clusters": 2, "n_probes": 2}}))
    db.initialize()
    return db, st


def contents(d, job):
    db, st = client(d, job)
    out = contents_raw(st)
    n = db.get_stats()["index"]["vector_count"]
    found = {r["id"] for r in db.search(np.array([1, 0], np.float32), 50)}
    return out, n, found


CLIENT_OPS = [["insert", [0]], ["insert", [0, 5, 3]], ["update", 0], ["delete", [0]], ["delete", [0, 1]]]


def cdo(db, ids, op):
    if op[0] == "insert":
        return db.insert(np.array([PTS[p] for p in op[1]], np.float32), [{"p": p, "n": {"x": [p]}} for p in op[1]])
    if op[0] == "update":
        return db.update(ids[op[1]], np.array([7, 7], np.float32), {"u": 1})
    return db.delete([ids[j] for j in op[1]])


def client_case(case, ctx):
    job = case["job"]

    def session(d):
        env.reset_ids()
        db, st = client(d, job)
        with env.choices(env.Chooser()):
            for op in case["pre"]:
                cdo(db, st.list_vectors(), op)
            ids = sorted(st.list_vectors())
            if case["op"][0] != "insert" and len(ids) < (max(case["op"][1]) if isinstance(case["op"][1], list) else 0) + 1:
                return []
            before = contents_raw(st)
            _, exc, snaps = crashlib.watched(lambda: cdo(db, ids, case["op"]), d)
            new = contents_raw(st)
        return [(w, t, r, before, new) for w, t, r in crashlib.crash_trees(snaps, case["fine"])]

    for w, t, returned, old, new in crashlib.in_tree({}, session):
        ctx.n("transitions")
        ctx.n("states")

        def look(d):
            with env.choices(env.Chooser()):
                return contents(d, job)
        try:
            got, n, found = crashlib.in_tree(t, look)
        except Exception as e:
            ctx.violation("client-open:" + job["index"], "%s: %r" % (w, e), dict(case, crash=w))
            continue
        if returned and got != new:
            ctx.violation("client-lost:" + job["index"], "%s had returned, contents differ from its effect" % (case["op"],), dict(case, crash=w))
            continue
        for i in set(old) | set(new) | set(got):
            if got.get(i) not in (old.get(i), new.get(i)):
                ctx.violation("client-record:" + job["index"], "%s (%s): record %r is neither old nor new" % (case["op"], w, i), dict(case, crash=w))
                break
        if n != len(got) or found != set(got):
            ctx.violation("client-index:" + job["index"], "%s (%s): %d records on disk, index counts %r and finds %d" % (
                case["op"], w, len(got), n, len(found)), dict(case, crash=w))
        ctx.n("traces_validated_against_impl")


def contents_raw(st):
    out = {}
    for i in st.list_vectors():
        v, m = st.retrieve_vector(i)
        out[i] = (v.dtype.str, v.shape, v.tobytes(), repr(m))
    return out


def jobs(tier):
    q = tier == "quick"
    out = []
    for kind, lim in (("disk", None), ("hybrid", 1), ("hybrid", 0), ("hybrid", 10000)):
        for vals in VALS:
            out.append({"t": "storage", "kind": kind, "limit": lim, "vals": vals, "pre": 1 if q else 2, "crashes": 2 if q else 3})
    for idx in ("flat", "hnsw", "ivf"):
        for kind, lim in (("disk", None), ("hybrid", 1)):
            out.append({"t": "client", "kind": kind, "limit": lim, "index": idx})
    return out


def run_job(job, ctx):
    if job["t"] == "storage":
        return storage_job(job, ctx)
    pres = [[]] + [[o] for o in CLIENT_OPS[:2]] + [[CLIENT_OPS[1], o] for o in CLIENT_OPS[2:]]
    for pre in pres:
        for op in CLIENT_OPS:
            case = {"client": 1, "job": job, "pre": pre, "op": op, "fine": False}
            ctx.current = case
            with env.limit(60):
                client_case(case, ctx)


def replay(case, ctx):
    if case.get("client"):
        return client_case(case, ctx)
    case = dec(case)
    for crash in run_case(case):
        if case.get("crash") in (None, crash[0]):
            m, err = examine(case, crash, ctx)
            if err:
                ctx.violation(err[0], err[1], {})
