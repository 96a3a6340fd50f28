"""C18: a save that is interrupted or fails never costs an earlier saved snapshot."""
import contextlib
import json
import os

import numpy as np

from .. import crashlib, env
from ..explore import digest
from ..persistlib import load, manager, matches, save, value, Unpicklable

LEVEL = "model_checking"
ASSUMPTIONS = ["process crash: bytes handed to the operating system survive, in the order written; power loss is not modelled",
               "a crash falls between file-system calls or after any prefix of the bytes written between them"]
BOUNDS = {"quick": "both managers, both compression settings, checkpoint intervals 1, 2 and 100: every crash point and torn prefix (every byte up to 700) of opening and of every save after all histories of <=2 completed saves, then of opening and of one save of each kind after that crash; every file-system call of every save failing once, or from there on, and the file size limit hit at several lengths; every kind of value that cannot be serialised",
          "thorough": "three completed saves before a crash, three crashes in a row"}
MANAGERS = [{"manager": "tensor"}, {"manager": "tensor", "compression": 1}, {"manager": "incremental"}, {"manager": "incremental", "interval": 1},
            {"manager": "incremental", "interval": 2}]
OPS = [["state", "s.pkl", 0], ["state", "s.pkl", 3], ["vectors", "v.npz", 0], ["vectors", "v.npz", 1], ["index", "d/i.pkl", 1], ["index", "d/i.pkl", 0]]
PATHS = [("state", "s.pkl"), ("vectors", "v.npz"), ("index", "d/i.pkl")]


class Late:
    """fails to serialise after much has been written"""

    def __reduce__(self):
        raise ValueError("no")


class Odd:
    def __array__(self, *a, **k):
        raise ValueError("no")


# values that cannot be saved
BAD = {"state": [lambda: {"f": lambda: None}, lambda: {"a": list(range(9)), "g": (i for i in ())}, lambda: {"b": b"x" * 200000, "u": Unpicklable()}, lambda: {"b": b"x" * 70000, "u": Late()}],
       "vectors": [lambda: (Odd(), ["a"]), lambda: (np.array([[Late()]], dtype=object), ["a"]), lambda: (np.ones((1, 2)), [Late()]), lambda: (np.ones((1, 2)), 5)]}
BAD["index"] = BAD["state"]


def op_save(m, op):
    if op[2] == "bad":
        return save(m, op[0], op[1], BAD[op[0]][op[3]]())
    return save(m, op[0], op[1], value(op[0], op[2]))


def name(op):
    return "%s %s=%s" % tuple(op[:3]) if len(op) > 2 else op[0]


class World:
    """what may be found: the values acknowledged, and the ones a save that did not finish may have left"""

    def __init__(self, latest=(), maybe=(), log=()):
        self.latest, self.maybe, self.log = dict(latest), {k: list(v) for k, v in dict(maybe).items()}, list(log)

    def copy(self):
        return World(self.latest, self.maybe, self.log)

    def acked(self, op):
        w = self.copy()
        w.latest[(op[0], op[1])] = op[2]
        w.maybe.pop((op[0], op[1]), None)
        w.log.append(("save_" + op[0], op[1], True))
        return w

    def unfinished(self, op):
        w = self.copy()
        k = (op[0], op[1])
        if op[2] != "bad":
            w.maybe.setdefault(k, []).append(op[2])
        w.log.append(("save_" + op[0], op[1], False))
        return w

    def sig(self):
        return repr((sorted(self.latest.items()), sorted(self.maybe.items()), self.log))


def read_log(d):
    p = os.path.join(d, "p", "operations.log")
    if not os.path.exists(p):
        return []
    with open(p, "rb") as f:
        return [json.loads(x) for x in f.read().decode().split("\n") if x.strip()]


def log_error(d, w):
    try:
        log = read_log(d)
    except Exception as e:
        return "the operation log is damaged: %r" % e
    nums = [e["operation_id"] for e in log]
    if any(b <= a for a, b in zip(nums, nums[1:])):
        return "operation numbers %s" % nums
    have = [(e["operation"], e["data"]["path"]) for e in log]
    # every acknowledged operation once, in order; unfinished ones at most once at their place
    reach = {0}
    for o, p, sure in w.log:
        reach = {i + 1 for i in reach if i < len(have) and have[i] == (o, p)} | (set() if sure else reach)
    if len(have) not in reach:
        return "log lists %s, performed were %s" % (have, w.log)
    return None


def inspect(m, d, c, w, what):
    """read everything; returns (settled world, None) or (None, error)"""
    settled = w.copy()
    for kind, path in PATHS:
        k = (kind, path)
        ok = [w.latest.get(k)] + w.maybe.get(k, [])
        try:
            got = load(m, kind, path)
        except Exception as e:
            return None, ("load", "%s: loading %s raised %r" % (what, k, e))
        for i in ok:
            if matches(kind, got, i):
                break
        else:
            return None, ("value", "%s: loading %s gives %r, acceptable are %s" % (what, k, got, [i if i is None else value(kind, i) for i in ok]))
        if i is not None:
            settled.latest[k] = i
        settled.maybe.pop(k, None)
    st = m.get_stats()
    if "error" in st:
        return None, ("stats", "%s: statistics report %s" % (what, st))
    return settled, None


def afterlife(d, c, w, what):
    """open, read, save again, restart, read"""
    try:
        m = manager(c, d)
        m.initialize()
    except Exception as e:
        return None, ("open", "%s: the manager cannot be opened again: %r" % (what, e))
    w1, err = inspect(m, d, c, w, what)
    if err:
        return None, err
    if c["manager"] == "incremental":
        e = log_error(d, w1)
        if e:
            return None, ("log", "%s: %s" % (what, e))
    w2 = w1
    for op in (["vectors", "v.npz", 10], ["state", "s.pkl", 1], ["index", "d/i.pkl", 3], ["state", "s.pkl", 5]):
        try:
            op_save(m, op)
        except Exception as e:
            return None, ("later", "%s: afterwards saving %s raised %r" % (what, op, e))
        w2 = w2.acked(op)
    for again in (0, 1):
        w3, err = inspect(m, d, c, w2, what + "; after later saves" + (" and a restart" if again else ""))
        if err:
            return None, err
        if c["manager"] == "incremental":
            e = log_error(d, w2)
            if e:
                return None, ("log", "%s; later: %s" % (what, e))
        m.close()
        m = manager(c, d)
        m.initialize()
    return w1, None


def reopened(d, c, w, what):
    m = manager(c, d)
    try:
        m.initialize()
    except Exception as e:
        return None, ("open", "%s: the manager cannot be opened again: %r" % (what, e))
    return inspect(m, d, c, w, what)


def crash_case(case):
    """[(what, tree, world)] for one session"""
    c = case["cfg"]

    def session(d):
        m = manager(c, d)
        w = case["world"].copy()
        ops = case["ops"]
        if ops[-1][0] == "open":
            _, exc, snaps = crashlib.watched(m.initialize, d)
            return [(x, t, w) for x, t, r in crashlib.crash_trees(snaps, case["fine"])]
        m.initialize()
        for op in ops[:-1]:
            op_save(m, op)
            w = w.acked(op)
        _, exc, snaps = crashlib.watched(lambda: op_save(m, ops[-1]), d)
        return [(x, t, w.acked(ops[-1]) if r and exc is None else w.unfinished(ops[-1])) for x, t, r in crashlib.crash_trees(snaps, case["fine"])]
    return crashlib.in_tree(case["tree"], session)


def enc(case, **kw):
    c = dict(case, **kw)
    c["tree"] = {k: (None if v is None else v.hex()) for k, v in case["tree"].items()}
    w = case["world"]
    c["world"] = [[list(k) + [v] for k, v in w.latest.items()], [[list(k), v] for k, v in w.maybe.items()], w.log]
    return c


def dec(case):
    c = dict(case)
    c["tree"] = {k: (None if v is None else bytes.fromhex(v)) for k, v in case["tree"].items()}
    a, b, l = case["world"]
    c["world"] = World({(x[0], x[1]): x[2] for x in a}, {tuple(k): v for k, v in b}, [tuple(x) for x in l])
    return c


def examine(case, crash, full=True):
    x, t, w = crash
    what = "%s, the last interrupted (%s)" % ([name(o) for o in case["ops"]], x)
    return crashlib.in_tree(t, lambda d: (afterlife if full else reopened)(d, case["cfg"], w, what))


def crash_job(job, ctx):
    c = job["cfg"]
    mn = c["manager"]
    seen = set()
    frontier = [({}, World())]
    for depth in range(job["crashes"]):
        nxt = []
        for t0, w0 in frontier:
            seqs = [[["open"]]] + [[op] for op in (OPS[::2] if depth and ctx.quick else OPS)]
            if depth == 0:
                seqs += [[p, op] for p in OPS[::2] for op in OPS]
                seqs += [[p, q, op] for p in OPS[::2] for q in OPS[1::2] for op in OPS[::2] if p[0] != q[0]]
                if job["pre"] > 2:
                    seqs += [[p, q, r, op] for p in OPS[::2] for q in OPS[1::2] for r in OPS[::2] for op in OPS[1::2]]
            for n, ops in enumerate(seqs):
                if ctx.late():
                    return
                if not depth and n % job["slices"] != job["slice"]:
                    continue
                case = {"cfg": c, "ops": ops, "tree": t0, "world": w0, "fine": depth == 0 and len(ops) < 3}
                ctx.current = enc(case)
                with env.limit(120):
                    for crash in crash_case(case):
                        ctx.n("transitions")
                        key = digest((sorted((k, len(v or b"") if "operations" in k or "checkpoint.json" in k else v) for k, v in crash[1].items()), crash[2].sig()))
                        if key in seen:
                            continue
                        seen.add(key)
                        ctx.n("states")
                        ctx.n("traces_validated_against_impl")
                        ctx.outcome(key)
                        shape = digest((sorted((k, len(v or b"") > 0) for k, v in crash[1].items()), crash[2].sig(), crash[0].split(" at ")[0]))
                        full = shape not in seen or "operations.log" in crash[0]
                        seen.add(shape)
                        w, err = examine(case, crash, full)
                        if err:
                            ctx.violation("crash-%s:%s" % (err[0], mn), err[1], enc(case, crash=crash[0]))
                            continue
                        nxt.append((crash[1], w))
        reps = {}
        for t, w in nxt:
            s = (tuple(sorted((k, None if v is None else len(v) > 0, k.endswith(".log") and v[-1:] == b"\n") for k, v in t.items())), repr(sorted(w.latest.items())), len(w.log))
            reps.setdefault(s, (t, w))
        frontier = list(reps.values())
        if frontier:
            ctx.sample({"cfg": c, "files": sorted(frontier[-1][0])})


def fault_case(case, ctx):
    """the last save meets an error at one file-system call (or a full disk); returns number of calls, or None"""
    c = case["cfg"]
    ctx.current = case

    def session(d):
        m = manager(c, d)
        m.initialize()
        w = World()
        for op in case["pre"]:
            op_save(m, op)
            w = w.acked(op)
        if case["op"][2] == "bad":
            inj, guard = None, contextlib.nullcontext()
        elif case.get("size") is not None:
            inj, guard = None, crashlib.small_files(case["size"])
        else:
            inj = crashlib.Inject(d, case["at"], case["stuck"])
            guard = env.fs_listener(inj)
        exc = None
        with guard:
            try:
                r = op_save(m, case["op"])
            except Exception as e:
                exc, r = e, False
        if case.get("at", 0) is None and case["op"][2] != "bad":
            return inj.n
        where = inj.fired if inj else "the value" if case["op"][2] == "bad" else "file size limit %d" % case["size"]
        what = "%s with error at %s (%s)" % ([name(o) for o in case["pre"] + [case["op"]]], where, "every later call too" if case.get("stuck") else "once")
        bad = lambda key, msg: ctx.violation("fault-%s:%s" % (key, c["manager"]), "%s: %s" % (what, msg), case)
        if inj and not inj.fired:
            return None
        if case["op"][2] == "bad" and r:
            return bad("accepted", "the save is acknowledged")
        ctx.n("states")
        if exc is not None and type(exc).__name__ != "PersistenceError":
            return bad("error", "raised %r" % exc)
        w = w.acked(case["op"]) if r else w.unfinished(case["op"])
        w1, err = inspect(m, d, c, w, what)
        if err:
            return bad(*err)
        if case["then"]:
            try:
                op_save(m, case["then"])
            except Exception as e:
                return bad("retry", "afterwards saving %s raised %r" % (case["then"], e))
            w1 = w1.acked(case["then"])
            _, err = inspect(m, d, c, w1, what + ", then " + name(case["then"]))
            if err:
                return bad(*err)
            if c["manager"] == "incremental":
                st = m.get_stats()
                if st["operation_count"] != st["logged_operations"]:
                    return bad("counters", "statistics %s" % st)
        _, err = afterlife(d, c, w1, what + (", then " + name(case["then"]) if case["then"] else ""))
        if err:
            return bad(*err)
        ctx.n("traces_validated_against_impl")
    return crashlib.in_tree({}, session)


def fault_job(job, ctx):
    c = job["cfg"]
    for pre in [[]] + [[p] for p in OPS[::2]] + [[OPS[0], OPS[2], OPS[4]], [OPS[4], OPS[0]], [OPS[2], OPS[0]]]:
        for op in OPS:
            base = {"cfg": c, "pre": pre, "op": op, "then": None, "fault": 1}
            with env.limit(120):
                n = fault_case(dict(base, at=None, stuck=False), ctx)
                for then in (None, op, OPS[1], OPS[3]):
                    for at in range(n):
                        for stuck in (False, True):
                            fault_case(dict(base, at=at, stuck=stuck, then=then), ctx)
                            ctx.n("transitions")
                    for size in (0, 1, 20, 60, 100, 130, 200, 260, 400):
                        fault_case(dict(base, size=size, then=then), ctx)
                        ctx.n("transitions")
            if ctx.late():
                return
        for kind, path in PATHS:
            for i in range(len(BAD[kind])):
                for then in (None, OPS[1], OPS[2], OPS[5]):
                    for at, p in [(x, y) for x, y in PATHS if x == kind] + [(kind, "new")]:
                        with env.limit(60):
                            fault_case({"cfg": c, "pre": pre, "op": [kind, p, "bad", i], "then": then, "fault": 1}, ctx)
                        ctx.n("transitions")


def jobs(tier):
    q = tier == "quick"
    out = []
    for c in MANAGERS:
        n = 3 if c["manager"] == "incremental" else 1
        for k in range(n if q else n * 4):
            out.append({"t": "crash", "cfg": c, "pre": 2 if q else 3, "crashes": 2 if q else 3, "slice": k, "slices": n if q else n * 4})
        out.append({"t": "fault", "cfg": c})
    return out


def run_job(job, ctx):
    (crash_job if job["t"] == "crash" else fault_job)(job, ctx)


def replay(case, ctx):
    if case.get("fault"):
        return fault_case(case, ctx)
    case = dec(case)
    for crash in crash_case(case):
        if case.get("crash") in (None, crash[0]):
            w, err = examine(case, crash)
            if err:
                ctx.violation("crash-" + err[0], err[1], {})
