"""Explicit-state search over the real implementation, and exhaustive choice enumeration.

A state is the history that reaches it; every transition rebuilds a fresh real object, replays
the history and performs one more operation (so the observation made in `check` can never
disturb the exploration).  States are merged only when a deep structural image of the real
object, its files and the reference model are equal.
"""
import hashlib
import itertools
import os
import pathlib
import types

import numpy as np

from . import env

_opaque = itertools.count()
_LOCKS = ("lock", "RLock", "CoopLock", "CoopRLock")


def deep(o, ren, memo=None):
    """A hashable image of an object graph; equal images => equal future behaviour."""
    if memo is None:
        memo = {}
    if o is None or isinstance(o, (bool, int, float, complex)):
        return (type(o).__name__, repr(o))
    if isinstance(o, str):
        return ren(o)
    if isinstance(o, bytes):
        return ("b", o)
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ("ndo", o.shape, tuple(deep(x, ren, memo) for x in o.ravel()))
        return ("nd", o.dtype.str, o.shape, o.tobytes())
    if isinstance(o, np.generic):
        return ("ng", o.dtype.str, o.tobytes())
    if isinstance(o, (type, types.FunctionType, types.BuiltinFunctionType, types.ModuleType)):
        return ("n", getattr(o, "__name__", "?"))
    if isinstance(o, pathlib.PurePath):
        return ("p", ren(str(o)))
    if type(o).__module__ in ("datetime", "decimal", "fractions", "uuid") or isinstance(o, (bytearray, range)):
        return ("v", type(o).__name__, repr(o))
    if type(o) is tuple:                # whether two places share a tuple makes no difference
        return ("l", "tuple", tuple(deep(x, ren, memo) for x in o))
    if id(o) in memo:
        return ("ref", memo[id(o)])
    memo[id(o)] = len(memo)
    if isinstance(o, dict):
        return ("d", type(o).__name__, tuple((deep(k, ren, memo), deep(v, ren, memo)) for k, v in o.items()))
    if isinstance(o, (list, tuple)) or type(o).__name__ == "deque":
        return ("l", type(o).__name__, tuple(deep(x, ren, memo) for x in o))
    if isinstance(o, (set, frozenset)):
        return ("s", tuple(sorted((repr(deep(x, ren, memo)) for x in o))))
    tn = type(o).__name__
    if tn in _LOCKS:
        return ("lock",)
    if isinstance(o, np.random.RandomState):
        st = o.get_state()
        return ("rs", st[1].tobytes(), st[2])
    if isinstance(o, types.MethodType):
        return ("m", o.__func__.__name__, deep(o.__self__, ren, memo))
    if type(o).__name__ == "Annoy" and hasattr(o, "get_item_vector"):
        return ("annoy", o.f, o.get_n_trees(), tuple(tuple(o.get_item_vector(i)) for i in range(o.get_n_items())))
    if hasattr(o, "__dict__") and not type(o).__module__.startswith(("annoy", "builtins")):
        return ("o", tn, tuple((k, deep(v, ren, memo)) for k, v in sorted(vars(o).items())))
    return ("opaque", next(_opaque))


def tree(d):
    out = {}
    for dp, dn, fn in os.walk(d):
        for x in dn:
            out[os.path.relpath(os.path.join(dp, x), d) + "/"] = None
        for x in fn:
            p = os.path.join(dp, x)
            with open(p, "rb") as f:
                out[os.path.relpath(p, d)] = f.read()
    return out


def put_tree(t, d):
    os.makedirs(d, exist_ok=True)
    for k in sorted(t):
        p = os.path.join(d, k)
        if t[k] is None:
            os.makedirs(p, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(t[k])


def digest(x):
    return hashlib.md5(repr(x).encode("utf-8", "surrogatepass")).digest()


def choice_runs(run, max_dev, budget=None):
    """Call run(chooser) for every answer vector with at most max_dev non-default answers.

    Yields (answers, result).  Iterative: 0 deviations first."""
    stack = [([], 0)]
    n = 0
    while stack:
        prefix, dev = stack.pop()
        ch = env.Chooser(prefix)
        res = run(ch)
        if ch.answers()[:len(prefix)] != list(prefix):
            raise env.ReplayMismatch("prefix %r answered as %r" % (prefix, ch.answers()))
        yield ch.answers(), res
        n += 1
        if budget and n >= budget:
            return
        if dev < max_dev:
            for i in range(len(ch.trace) - 1, len(prefix) - 1, -1):
                for alt in range(ch.trace[i][1] - 1, 0, -1):
                    stack.append((ch.answers()[:i] + [alt], dev + 1))


class System:
    """One real object under test plus its reference model."""

    dev = 0            # deviations of random choices allowed per operation
    case_limit = 20.0

    def __init__(self, cfg):
        self.cfg = cfg

    def ops(self):
        raise NotImplementedError

    def apply(self, op):
        """Perform op on real and model; return None or (key, message)."""
        raise NotImplementedError

    def check(self):
        return None

    def canon(self):
        return None

    def close(self):
        pass


LOOK = ["look"]         # everything that is read when a state is examined, as an operation of a history


def build(cls, cfg, hist):
    env.reset_ids()
    s = cls(cfg)
    for op, ans in hist:
        with env.choices(env.Chooser(ans)):
            err = s.check() if op == LOOK else s.apply(op)
        if err:
            return s, err
    return s, None


def replay_history(ctx, cls, cfg, hist):
    with env.limit(cls.case_limit * 3):
        s, err = build(cls, cfg, hist)
        if not err:
            with env.choices(env.Chooser()):
                err = s.check()
        s.close()
    if err and err[0] is not None:
        ctx.violation(err[0], err[1], {"cfg": cfg, "hist": hist})


def bfs(ctx, cls, cfg, depth, max_states=None, ops_filter=None, seeds=((),)):
    """Breadth-first search to `depth` operations; returns number of states."""
    seen = set()
    frontier = [list(h) for h in seeds]
    for h in frontier:
        s, err = build(cls, cfg, h)
        if err:
            if err[0] is None:
                ctx.n("pruned")
                return 0
            ctx.violation(err[0], err[1], {"cfg": cfg, "hist": h})
            return 0
        seen.add(digest(s.canon()))
        ctx.current = {"cfg": cfg, "hist": h}
        with env.choices(env.Chooser()):
            err = s.check()
        if err and err[0] is not None:
            ctx.violation(err[0], err[1], {"cfg": cfg, "hist": h})
        s.close()
    ctx.n("states", len(seen))
    for d in range(depth):
        nxt = []
        for h in frontier:
            if ctx.late():
                ctx.n("unexpanded_states", 1)
                continue
            ctx.current = {"cfg": cfg, "hist": h}
            with env.limit(cls.case_limit):
                s, err = build(cls, cfg, h)
                ops = list(s.ops())
                s.close()
            for op in ops:
                def run(ch):
                    ctx.current = {"cfg": cfg, "hist": h + [[op, ch.prefix]]}
                    with env.limit(cls.case_limit):
                        s, err = build(cls, cfg, h)
                        if err:
                            return s, err, None
                        with env.choices(ch):
                            err = s.apply(op)
                        k = None if err else digest(s.canon())
                        return s, err, k
                for ans, (s, err, k) in choice_runs(run, cls.dev):
                    hh = h + [[op, ans]]
                    ctx.n("transitions")
                    ctx.n("traces_validated_against_impl")
                    if err:
                        s.close()
                        if err[0] is None:          # not this property's business: do not go on from here
                            ctx.n("pruned")
                            continue
                        ctx.violation(err[0], err[1], {"cfg": cfg, "hist": hh})
                        continue
                    if k not in seen:
                        seen.add(k)
                        ctx.n("states")
                        ctx.outcome(k)
                        with env.limit(cls.case_limit), env.choices(env.Chooser()):
                            err = s.check()
                            k2 = None if err else digest(s.canon())
                        if err:
                            s.close()
                            if err[0] is None:
                                ctx.n("pruned")
                                continue
                            ctx.violation(err[0], err[1], {"cfg": cfg, "hist": hh})
                            continue
                        nxt.append(hh)
                        if k2 not in seen:          # reading left something behind: go on from here as well
                            seen.add(k2)
                            ctx.n("states")
                            ctx.n("states_changed_by_reading")
                            nxt.append(hh + [[LOOK, []]])
                    s.close()
                    if max_states and len(seen) >= max_states:
                        ctx.capped = "states>=%d" % max_states
                        return len(seen)
        frontier = nxt
        if frontier:
            ctx.sample({"cfg": cfg, "hist": frontier[len(frontier) // 2]})
    return len(seen)
