"""Linearizability of recorded executions against a sequential model (brute force, small histories)."""
import itertools


class Rec:
    __slots__ = ("thread", "op", "start", "end", "result")

    def __init__(self, thread, op, start):
        self.thread, self.op, self.start = thread, op, start
        self.end = self.result = None


def bodies_of(threads, perform, recs):
    """thread bodies for the scheduler: each runs its operations and records them"""
    def body(ti, ops):
        def run(s):
            for op in ops:
                r = Rec(ti, op, s.tick())
                recs.append(r)
                try:
                    r.result = ("ok", perform(op))
                except Exception as e:
                    r.result = ("exc", e)
                r.end = s.tick()
        return run
    return [body(i, ops) for i, ops in enumerate(threads)]


def explain(recs, init, step, final):
    """Is there an order of the operations, consistent with real time, in which the sequential model
    gives every result and reaches `final`?  step(state, op, result) -> new state or None."""
    n = len(recs)
    before = [[j for j in range(n) if recs[j].end < recs[i].start] for i in range(n)]

    def go(done, state):
        if len(done) == n:
            return final(state)
        for i in range(n):
            if i in done or any(j not in done for j in before[i]):
                continue
            s2 = step(state, recs[i].op, recs[i].result)
            if s2 is not None and go(done | {i}, s2):
                return True
        return False
    return go(frozenset(), init)
