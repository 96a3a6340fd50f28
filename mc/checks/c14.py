"""C14: memory and hybrid stores are linearizable under every explored interleaving."""
import itertools

from .. import env, linear, sched
from ..storagelib import brief, make_storage, meta, same_rec, vec

LEVEL = "model_checking"
ASSUMPTIONS = ["threads are switched between source lines (in a second set of programs between byte-code instructions) of valori and at its lock operations; library calls are atomic",
               "sequentially consistent memory (CPython)"]
BOUNDS = {"quick": "memory store: 2 threads x 1 operation (all pairs of 9 operations, 3 initial states) with 2 preemptions by line and 1 by instruction, 2 threads x 2 operations and 3 threads x 1 with 1 preemption; hybrid store (limits 0, 1, 3): all pairs with 1 preemption, chosen pairs with 2 and by instruction, a part of the longer programs",
          "thorough": "one preemption more everywhere"}
INIT = {"empty": [], "a": [("a", 0, 1)], "ab": [("a", 0, 1), ("b", 2, 0)]}
OPS = [["store", "a", 8, 3], ["store", "b", 0, 1], ["update", "a", 2, 0], ["delete", "a"], ["get", "a"], ["get", "b"], ["list", None], ["list", 1], ["stats"]]


def perform(st, op):
    k = op[0]
    if k == "store":
        return st.store_vector(op[1], vec(op[2]), meta(op[3]))
    if k == "update":
        return st.update_vector(op[1], vec(op[2]), meta(op[3]))
    if k == "delete":
        return st.delete_vector(op[1])
    if k == "get":
        return st.retrieve_vector(op[1])
    if k == "list":
        return st.list_vectors() if op[1] is None else st.list_vectors(op[1])
    return st.get_stats()


_usage = {}


def usage(model):
    """bytes a memory store reports for these records (asked from a store used by one thread)"""
    key = repr(sorted(model.items()))
    if key not in _usage:
        st = make_storage("memory", None)
        st.initialize()
        for i, (v, m) in sorted(model.items()):
            st.store_vector(i, vec(v), meta(m))
        _usage[key] = st.get_stats()["memory_usage_bytes"]
    return _usage[key]


def stats_ok(kind, limit, st, model):
    if kind == "memory":
        return st["vector_count"] == len(model) and st["memory_usage_bytes"] == usage(model)
    return (st["disk"]["vector_count"] == len(model) and "error" not in st["disk"]
            and st["memory"]["vector_count"] <= min(limit, len(model)))


def stepper(kind, limit):
    def step(state, op, result):
        how, r = result
        if how != "ok":
            return None
        model = dict(state)
        k = op[0]
        if k == "store":
            if r is not True:
                return None
            model[op[1]] = (op[2], op[3])
        elif k == "update":
            if bool(r) != (op[1] in model):
                return None
            if op[1] in model:
                model[op[1]] = (op[2], op[3])
        elif k == "delete":
            if bool(r) != (op[1] in model):
                return None
            model.pop(op[1], None)
        elif k == "get":
            w = model.get(op[1])
            if not same_rec(r, None if w is None else (vec(w[0]), meta(w[1]))):
                return None
        elif k == "list":
            n = len(model) if op[1] is None else min(op[1], len(model))
            if len(r) != n or len(set(r)) != n or not set(r) <= set(model):
                return None
        elif not stats_ok(kind, limit, r, model):
            return None
        return tuple(sorted(model.items()))
    return step


def finals(kind, limit, st):
    got = {i: st.retrieve_vector(i) for i in ("a", "b", "c")}
    listed = st.list_vectors()
    stats = st.get_stats()

    def final(state):
        model = dict(state)
        return (sorted(listed) == sorted(model) and stats_ok(kind, limit, stats, model) and
                all(same_rec(g, None if i not in model else (vec(model[i][0]), meta(model[i][1]))) for i, g in got.items()))
    return final, got, listed, stats


def show(recs, got, listed, stats):
    return "; ".join("T%d %s -> %s" % (r.thread, r.op, brief(r.result[1]) if r.result and r.op[0] == "get" and r.result[0] == "ok" else
                                     r.result and r.result[1] if not r.op[0] == "stats" else "stats") for r in recs) + \
        " | final %s, listed %s, count %s" % ({i: brief(g) for i, g in got.items()}, listed, stats.get("vector_count", stats.get("disk", {}).get("vector_count")))


class Program:
    def __init__(self, case):
        self.c = case

    def make(self):
        c = self.c
        if getattr(self, "dir", None):
            env.drop_dir(self.dir)
        self.dir = env.fresh_dir("k") if c["kind"] != "memory" else None
        sched.CONTROL["making"] = True
        try:
            self.st = make_storage(c["kind"], self.dir, c["limit"])
        finally:
            sched.CONTROL["making"] = False
        self.st.initialize()
        for i, v, m in INIT[c["init"]]:
            self.st.store_vector(i, vec(v), meta(m))
        self.recs = []
        return linear.bodies_of(c["threads"], lambda op: perform(self.st, op), self.recs)

    def judge(self, s, devs, ctx):
        c = self.c
        case = dict(c, devs=[list(x) for x in devs])
        ctx.n("transitions")
        if s.failure:
            return ctx.violation("stuck:%s" % c["kind"], "%s: %s" % (c["threads"], s.failure), case)
        for r in self.recs:
            if r.result[0] == "exc":
                return ctx.violation("failed:%s" % c["kind"], "%s: %s of thread %d raised %r" % (c["threads"], r.op, r.thread, r.result[1]), case)
        init = tuple(sorted((i, (v, m)) for i, v, m in INIT[c["init"]]))
        try:
            final, got, listed, stats = finals(c["kind"], c["limit"], self.st)
        except Exception as e:
            return ctx.violation("broken:%s" % c["kind"], "%s: afterwards %r" % (c["threads"], e), case)
        ctx.outcome((repr(c["threads"]), repr([(r.thread, r.op, str(r.result)) for r in self.recs])[:500]))
        if not linear.explain(self.recs, init, stepper(c["kind"], c["limit"]), final):
            ctx.violation("order:%s" % c["kind"], "no order explains %s" % show(self.recs, got, listed, stats), case)

    def done(self):
        if getattr(self, "dir", None):
            env.drop_dir(self.dir)


def explore_case(case, ctx):
    p = Program(case)
    ctx.current = case
    n0 = ctx.counts.get("transitions", 0)
    sched.OPCODES = case.get("opcodes", False)
    try:
        n, capped = sched.schedules(p.make, case["bound"], lambda s, d: p.judge(s, d, ctx), ctx.late)
    finally:
        sched.OPCODES = False
        p.done()
    ctx.n("states", n)
    ctx.n("programs")
    ctx.n("traces_validated_against_impl", n)


CORE = [("store", "delete"), ("store", "get"), ("store", "store"), ("update", "delete"), ("update", "get"), ("store", "stats"), ("delete", "get")]


def programs(tier, kind, limit):
    extra = 0 if tier == "quick" else 1
    deep = kind == "memory" or tier != "quick"
    pairs = list(itertools.combinations_with_replacement(OPS, 2))
    readers = ("get", "list", "stats")
    for init in INIT:
        for a, b in pairs:
            if a[0] in readers and b[0] in readers and (init == "empty" or kind == "memory"):
                continue
            core = init == "a" and (a[0], b[0]) in CORE and limit == 1
            yield {"init": init, "threads": [[a], [b]], "bound": (2 if deep or core else 1) + extra}
            if deep or (init == "a" and limit == 1 and (a[0], b[0]) in CORE[:2]):
                yield {"init": init, "threads": [[a], [b]], "bound": 1 + (extra if kind == "memory" else 0), "opcodes": True}
    two = [["store", "a", 8, 3], ["update", "a", 2, 0], ["delete", "a"], ["get", "a"], ["store", "b", 0, 1], ["list", None]]
    seqs = [[x, y] for x in two for y in two if x != y]
    n = 0
    for s1, s2 in itertools.combinations_with_replacement(seqs, 2):
        if all(o[0] in ("get", "list") for o in s1) or all(o[0] in ("get", "list") for o in s2):
            continue
        n += 1
        if deep or (limit == 1 and n % 8 == 0):
            yield {"init": "a", "threads": [s1, s2], "bound": 1 + (extra if kind == "memory" else 0)}
    three = [["store", "a", 8, 3], ["store", "b", 0, 1], ["delete", "a"], ["update", "a", 2, 0], ["get", "a"], ["stats"]]
    for n, t in enumerate(itertools.combinations_with_replacement(three, 3)):
        for init in ("empty", "ab"):
            if deep or (limit == 1 and n % 4 == 0):
                yield {"init": init, "threads": [[o] for o in t], "bound": 1 + (extra if kind == "memory" else 0)}


def jobs(tier):
    out = []
    for kind, lim in (("hybrid", 1), ("memory", None), ("hybrid", 0), ("hybrid", 3)):
        parts = 16 if lim in (1, None) else 4
        for p in range(parts):
            out.append({"kind": kind, "limit": lim, "part": p, "parts": parts})
    return out


def run_job(job, ctx):
    for k, c in enumerate(programs(ctx.tier, job["kind"], job["limit"])):
        if k % job["parts"] != job["part"]:
            continue
        c = dict(c, kind=job["kind"], limit=job["limit"])
        explore_case(c, ctx)
        if ctx.late():
            return
    ctx.sample(c)


def replay(case, ctx):
    devs = case.pop("devs", None)
    p = Program(case)
    sched.OPCODES = case.get("opcodes", False)
    if devs is None:
        return explore_case(case, ctx)
    s = sched.Scheduler(p.make(), [tuple(x) for x in devs]).run()
    p.judge(s, [tuple(x) for x in devs], ctx)
    p.done()
