"""C15: one client used by several threads; parallel batch insertion under every completion order."""
import itertools
import tempfile
import threading
import time

import numpy as np

from .. import env, linear, sched
from ..indexlib import OWN, default_metric, descending, make_index, pt, score, stat_count, storage_count, tol
from ..storagelib import make_storage, meta, same_meta, same_rec

from valori import VectorDBClient
from valori.exceptions import ValoriError
from valori.utils import BatchManager

LEVEL = "model_checking"
ASSUMPTIONS = ["threads are switched between source lines of valori and at its lock operations; library calls are atomic",
               "in the batch part the completion order of the batches is owned by the checker; the pool's own threads run freely in between"]
BOUNDS = {"quick": "client: 2 threads x 1 operation of 8 on flat, graph and hash index, of 5 on inverted-file and tree index and on a flat index over disk and hybrid storage, 1 preemption (2 for chosen pairs), some 2 x 2 and all 3 x 1 programs of 4 operations on a flat index with 1; batches: up to 4 batches, every completion order the worker count allows, every set of failing batches, 1-4 workers, ragged last batches; 11-101 batches by up to 12 workers in 4 orders of completion",
          "thorough": "one preemption more, 2 x 2 operations for every index type, 3 threads; up to 5 batches"}
SYSTEMS = {
    "flat": {"index": "flat", "storage": "memory"},
    "flat-hybrid": {"index": "flat", "storage": "hybrid", "limit": 1},
    "flat-disk": {"index": "flat", "storage": "disk", "metric": "euclidean"},
    "hnsw": {"index": "hnsw", "storage": "memory"},
    "ivf": {"index": "ivf", "storage": "memory", "iconf": {"n_clusters": 2, "n_probe": 2}},
    "lsh": {"index": "lsh", "storage": "memory", "iconf": {"num_hash_tables": 2, "hash_size": 2, "num_projections": 4, "threshold": 0.0, "random_seed": 1}},
    "annoy": {"index": "annoy", "storage": "memory", "iconf": {"num_trees": 2, "random_seed": 1}},
}
FIRST = [(0, 1), (1, 3)]
OPS = [["insert", [[2, 1], [5, 2]]], ["insert", [[1, 0]]], ["search", 0], ["update", 0, 5, 2], ["update", 1, 0, 1], ["delete", [0]], ["delete", [0, 1]],
       ["stats"]]


class Program:
    def __init__(self, case):
        self.c = case
        self.s = SYSTEMS[case["system"]]
        self.kind = self.s["index"]
        self.metric = self.s.get("metric") or default_metric(self.kind)
        self.exact = self.kind not in OWN
        self.dir = None

    def make(self):
        self.done()
        env.seed_all()
        self.dir = env.fresh_dir("k")
        tempfile.tempdir = self.dir
        sched.CONTROL["making"] = True
        try:
            self.st = make_storage(self.s["storage"], self.dir, self.s.get("limit"))
            self.index = make_index(self.s)
            self.db = VectorDBClient(self.st, self.index)
        finally:
            sched.CONTROL["making"] = False
        self.db.initialize()
        self.ids = self.insert(FIRST)
        self.recs = []
        return linear.bodies_of(self.c["threads"], self.perform, self.recs)

    def insert(self, rows):
        return self.db.insert(np.array([pt(p) for p, _ in rows]), [meta(x) for _, x in rows])

    def perform(self, op):
        k = op[0]
        if k == "insert":
            return self.insert(op[1])
        if k == "search":
            return self.db.search(pt(op[1]), 50)
        if k == "update":
            return self.db.update(self.ids[op[1]], pt(op[2]), meta(op[3]))
        if k == "delete":
            return self.db.delete([self.ids[i] for i in op[1]])
        return self.db.get_stats()

    # the sequential model: a tuple of (id, point, metadata index)
    def step(self, state, op, result):
        how, r = result
        model = {i: (p, m) for i, p, m in state}
        k = op[0]
        if how == "exc":
            r = False
            if k not in ("update", "delete") or not isinstance(result[1], ValoriError):
                return None
        if k == "insert":
            if len(r) != len(op[1]) or len(set(map(str, r))) != len(r) or set(map(str, r)) & set(model):
                return None
            for i, (p, m) in zip(r, op[1]):
                model[str(i)] = (p, m)
        elif k == "update":
            i = self.ids[op[1]]
            if bool(r) != (i in model):
                return None
            if r:
                model[i] = (op[2], op[3])
        elif k == "delete":
            there = [self.ids[j] in model for j in op[1]]
            if all(there) != bool(r):
                if all(there) or not any(there):
                    return None
            if how == "exc" and any(there):
                return None
            for j in op[1]:
                model.pop(self.ids[j], None)
        elif k == "search":
            if not self.search_ok(model, pt(op[1]), r):
                return None
        elif not self.stats_ok(model, r):
            return None
        return tuple((i, p, m) for i, (p, m) in sorted(model.items()))

    def stats_ok(self, model, st):
        if stat_count(self.kind, st["index"]) != len(model):
            return False
        return self.kind in OWN or storage_count(self.s["storage"], st["storage"]) == len(model)

    def search_ok(self, model, q, res):
        got = [str(x["id"]) for x in res]
        if len(set(got)) != len(got) or not set(got) <= set(model):
            return False
        ds = []
        for x in res:
            p, m = model[str(x["id"])]
            d = x["distance"] if "distance" in x else x["similarity"]
            if abs(d - score(self.kind, self.metric, q, pt(p))) > tol(self.kind) or not same_meta(x.get("metadata") or None, meta(m) or None):
                return False
            ds.append(d)
        if ds != sorted(ds, reverse=descending(self.kind)):
            return False
        if self.exact:
            return len(got) == len(model)
        return {i for i, (p, m) in model.items() if np.array_equal(pt(p), q)} <= set(got)

    def judge(self, s, devs, ctx):
        c = self.c
        case = dict(c, devs=[list(x) for x in devs])
        ctx.n("transitions")
        name = c["system"]
        if s.failure:
            return ctx.violation("stuck:%s" % name, "%s: %s" % (c["threads"], s.failure), case)
        for r in self.recs:
            if r.result[0] == "exc" and not (r.op[0] in ("update", "delete") and isinstance(r.result[1], ValoriError)):
                return ctx.violation("failed:%s" % name, "%s: %s of thread %d raised %r" % (c["threads"], r.op, r.thread, r.result[1]), case)
        try:
            stats = self.db.get_stats()
            every = set(map(str, self.ids)) | {str(i) for r in self.recs if r.op[0] == "insert" for i in r.result[1]}
            recs = {i: self.st.retrieve_vector(i) for i in every} if self.exact else None
            listed = sorted(self.st.list_vectors()) if self.exact else None
            if self.kind == "annoy":
                self.index.build()
            found = [self.db.search(pt(q), 50) for q in (0, 5)] if not (self.kind == "annoy" and not stats["index"]["num_vectors"]) else []
        except Exception as e:
            return ctx.violation("broken:%s" % name, "%s: afterwards %r" % (c["threads"], e), case)

        def final(state):
            model = {i: (p, m) for i, p, m in state}
            if not self.stats_ok(model, stats):
                return False
            if self.exact and (listed != sorted(model) or any(
                    not same_rec(r, None if i not in model else (pt(model[i][0]), meta(model[i][1]))) for i, r in recs.items())):
                return False
            return all(self.search_ok(model, pt(q), f) for q, f in zip((0, 5), found))

        init = tuple(sorted((str(i), p, m) for i, (p, m) in zip(self.ids, FIRST)))
        self.ids = [str(i) for i in self.ids]
        ctx.outcome((name, repr(c["threads"]), repr([(r.thread, r.op, str(r.result)) for r in self.recs])[:400]))
        if not linear.explain(self.recs, init, self.step, final):
            ctx.violation("order:%s" % name, "no order explains %s | final %s" % (
                "; ".join("T%d %s -> %s" % (r.thread, r.op, str(r.result)[:300]) for r in self.recs), stats["index"]), case)

    def done(self):
        if self.dir:
            env.drop_dir(self.dir)
            self.dir = None


def explore_case(case, ctx):
    p = Program(case)
    ctx.current = case
    try:
        n, capped = sched.schedules(p.make, case["bound"], lambda s, d: p.judge(s, d, ctx), ctx.late)
    finally:
        p.done()
    ctx.n("states", n)
    ctx.n("programs")
    ctx.n("traces_validated_against_impl", n)


READ = ("search", "stats")


def programs(tier, name):
    extra = 0 if tier == "quick" else 1
    few = tier == "quick" and name not in ("flat", "hnsw", "lsh")
    for a, b in itertools.combinations_with_replacement([OPS[i] for i in (0, 2, 3, 5, 7)] if few else OPS, 2):
        if a[0] in READ and b[0] in READ and a != b:
            continue
        if name == "annoy" and "search" in (a[0], b[0]):
            continue
        deep = name == "flat" and a is OPS[0] and b in (OPS[1], OPS[2], OPS[5])
        yield {"threads": [[a], [b]], "bound": 1 + extra + (1 if deep and tier == "quick" else 0)}
    if name == "flat" or tier != "quick":
        some = [OPS[0], OPS[2], OPS[3], OPS[5]]
        if name == "annoy":
            some.remove(OPS[2])
        seqs = [[x, y] for x in some for y in some if x is not y]
        for n, (s, t) in enumerate(itertools.combinations_with_replacement(seqs, 2)):
            if tier != "quick" or n % 8 == 0:
                yield {"threads": [s, t], "bound": 1}
        for t in itertools.combinations_with_replacement(some, 3):
            yield {"threads": [[o] for o in t], "bound": 1}


# ------------------------------------------------------------------ parallel batches
class Boom(Exception):
    pass


class Gated:
    """a client whose insert calls finish only in the order the checker lets them"""

    def __init__(self, real, fail):
        self.real, self.fail = real, fail
        self.cond = threading.Condition(threading.Lock())
        self.waiting = {}            # batch number -> released?
        self.calls = []

    def insert(self, vectors, metadata=None):
        b = metadata[0]["batch"]
        with self.cond:
            self.calls.append((b, [m["row"] for m in metadata], np.array(vectors).tolist()))
            self.waiting[b] = False
            self.cond.notify_all()
            while not self.waiting[b]:
                if not self.cond.wait(20):
                    raise Boom("never released")
        if b in self.fail:
            raise Boom(b)
        return self.real.insert(vectors, metadata)


def orders(n, workers):
    """every order in which n batches can finish when at most `workers` run at once (in submission order)"""
    def go(running, nxt, done):
        if len(done) == n:
            yield list(done)
            return
        for b in running:
            rest = [x for x in running if x != b]
            yield from go(rest + ([nxt] if nxt < n else []), nxt + 1, done + [b])
    yield from go(list(range(min(n, workers))), min(n, workers), [])


def batch_case(case, ctx):
    ctx.current = case
    rows, size, workers, order, fail = case["rows"], case["size"], case["workers"], case["order"], set(case["fail"])
    env.reset_ids()
    st = make_storage("memory", None)
    db = VectorDBClient(st, make_index({"index": "flat", "metric": "euclidean"}))
    db.initialize()
    g = Gated(db, fail)
    bm = BatchManager(batch_size=size, max_workers=workers)
    progress, errors = [], []
    bm.set_progress_callback(lambda a, b: progress.append((a, b)))
    bm.set_error_callback(lambda e, data: errors.append(e.args[0]))
    vs = np.array([[i, i + 0.5] for i in range(rows)], dtype=np.float32)
    mets = [{"row": i, "batch": i // size} for i in range(rows)]
    n = len({m["batch"] for m in mets})
    seen = []

    def control():
        for pos, b in enumerate(order):
            with g.cond:
                while b not in g.waiting:
                    if not g.cond.wait(20):
                        return seen.append("batch %d was not handed over while %s had finished" % (b, order[:pos]))
                g.waiting[b] = True
                g.cond.notify_all()
            t = time.time()
            while len(progress) <= pos:            # let the manager collect it before the next one finishes
                if time.time() - t > 20:
                    return seen.append("batch %d finished but was not reported" % b)
                time.sleep(0.0002)
    w = threading.Thread(target=control)
    w.start()
    try:
        got = bm.parallel_batch_insert(g, vs, mets, show_progress=False)
    finally:
        w.join()
    ctx.n("states")
    ctx.n("transitions", n)
    ctx.n("traces_validated_against_impl")

    def bad(key, msg):
        ctx.violation("batch:" + key, "%s: %s" % ({k: case[k] for k in ("rows", "size", "workers", "order", "fail")}, msg), case)
    if seen:
        return bad("stuck", seen[0])
    want = [i for i in range(rows) if i // size not in fail]
    if len(got) != len(want) or len(set(got)) != len(got):
        return bad("ids", "%d ids for %d rows" % (len(got), len(want)))
    for i, r in zip(got, want):
        rec = st.retrieve_vector(i)
        if not same_rec(rec, (vs[r], mets[r])):
            return bad("order", "id number %d is bound to %s instead of row %d" % (want.index(r), rec, r))
    if sorted(st.list_vectors()) != sorted(got):
        return bad("contents", "the database holds other records than the ids returned")
    if sorted(errors) != sorted(fail):
        return bad("errors", "errors reported for %s" % errors)
    if sorted(c[1] for c in g.calls) != [[i for i in range(rows) if i // size == b] for b in range(n)]:
        return bad("calls", "batches handed over: %s" % [c[1] for c in g.calls])
    s = bm.get_stats()
    if (s["total_items"], s["processed_items"], s["failed_items"]) != (rows, len(want), rows - len(want)):
        return bad("stats", "statistics %s" % s)
    if progress[-1:] != [(len(want), rows)] or [a for a, _ in progress] != sorted(a for a, _ in progress):
        return bad("progress", "progress %s" % progress)
    ctx.outcome(("batch", n, workers, tuple(order), tuple(sorted(fail))))


def batch_cases(tier):
    top = 4 if tier == "quick" else 5
    for n in range(1, top + 1):
        for workers in range(1, min(n, 4) + 1):
            for o in orders(n, workers):
                for k in range(n + 1):
                    for fail in itertools.combinations(range(n), k):
                        for rows, size in ((n * 2, 2), (n * 2 - 1, 2), (n, 1)):
                            if rows - size * 0 == n * 2 - 1 and n == 1:
                                continue
                            if (rows, size) != (n * 2 - 1, 2) and n == top:
                                continue
                            yield {"rows": rows, "size": size, "workers": workers, "order": o, "fail": list(fail)}
    for n, workers in itertools.product((11, 12, 25, 101), (1, 2, 4, 12)):       # many batches, chosen orders
        for pick in (lambda i, k: 0, lambda i, k: k - 1, lambda i, k: i % k, lambda i, k: 1 % k):
            running, nxt, o = list(range(min(n, workers))), min(n, workers), []
            while running:
                o.append(running.pop(pick(len(o), len(running))))
                if nxt < n:
                    running.append(nxt)
                    nxt += 1
            for fail in ([], [0], [n - 1], list(range(1, n, 3))):
                yield {"rows": n * 2 - 1, "size": 2, "workers": workers, "order": o, "fail": fail}


def jobs(tier):
    out = []
    for name, parts in (("flat", 8), ("hnsw", 3), ("ivf", 4), ("lsh", 2), ("annoy", 2), ("flat-hybrid", 6), ("flat-disk", 6)):
        parts = parts if tier == "quick" else parts * 4
        out += [{"system": name, "part": p, "parts": parts} for p in range(parts)]
    out += [{"system": "batches", "part": p, "parts": 4} for p in range(4)]
    return out


def run_job(job, ctx):
    cases = batch_cases(ctx.tier) if job["system"] == "batches" else programs(ctx.tier, job["system"])
    for k, c in enumerate(cases):
        if k % job["parts"] != job["part"]:
            continue
        if job["system"] == "batches":
            batch_case(dict(c, system="batches"), ctx)
        else:
            explore_case(dict(c, system=job["system"]), ctx)
        if ctx.late():
            return
    ctx.sample(c)


def replay(case, ctx):
    if case["system"] == "batches":
        return batch_case(case, ctx)
    devs = case.pop("devs", None)
    if devs is None:
        return explore_case(case, ctx)
    p = Program(case)
    s = sched.Scheduler(p.make(), [tuple(x) for x in devs]).run()
    p.judge(s, [tuple(x) for x in devs], ctx)
    p.done()
