"""Cooperative scheduler for real threads: every interleaving of valori source lines, bounded preemptions."""
import _thread
import sys
import threading

_real = {"Lock": threading.Lock, "RLock": threading.RLock, "_allocate_lock": getattr(threading, "_allocate_lock", None)}
CONTROL = {"s": None, "making": False}
SRC_MARK = "/valori/"
OPCODES = False


class Deadlock(Exception):
    pass


class Abort(BaseException):
    """Unwinds a controlled thread when an execution is abandoned."""


class CoopLock:
    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0
        self.real = _real["RLock"]() if self.reentrant else _real["Lock"]()

    def acquire(self, blocking=True, timeout=-1):
        s = CONTROL["s"]
        me = s.me() if s is not None else None
        if me is None:
            if s is None:
                if self.owner is not None and not (self.reentrant and self.owner == "main"):
                    if not blocking:
                        return False
                    raise Deadlock("lock still held by %r" % (self.owner,))
                self.owner = "main"
                self.count += 1
                return True
            return self.real.acquire(blocking, timeout)
        s.want[me] = self if blocking and (timeout is None or timeout < 0) else None
        s.point("acquire")
        s.want[me] = None
        while True:
            if self.owner is None:
                self.owner, self.count = me, 1
                return True
            if self.reentrant and self.owner == me:
                self.count += 1
                return True
            if not blocking or (timeout is not None and timeout >= 0):
                return False
            s.block(self)

    def release(self):
        s = CONTROL["s"]
        me = s.me() if s is not None else None
        if me is None and s is not None:
            return self.real.release()
        if self.owner is None:
            raise RuntimeError("release of an unlocked lock")
        if self.reentrant and self.owner != (me if me is not None else "main"):
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
            if s is not None:
                s.wake(self)
        if me is not None:
            s.point("release")

    def free_for(self, who):
        return self.owner is None or (self.reentrant and self.owner == who)

    def locked(self):
        return self.owner is not None

    def _is_owned(self):
        s = CONTROL["s"]
        return self.owner == (s.me() if s is not None else "main")

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class CoopRLock(CoopLock):
    reentrant = True


def _lock_factory():
    return CoopLock() if (CONTROL["making"] or _controlled()) else _real["Lock"]()


def _rlock_factory(*a, **k):
    return CoopRLock() if (CONTROL["making"] or _controlled()) else _real["RLock"]()


def _controlled():
    s = CONTROL["s"]
    return s is not None and s.me() is not None


threading.Lock = _lock_factory
threading.RLock = _rlock_factory
threading._allocate_lock = _lock_factory


MON = sys.monitoring
TOOL = 4
_watching = {"mode": None, "codes": {}}


def _codes():
    """every code object of valori reachable from its loaded modules"""
    import gc
    import types
    out = {}
    todo = [f.__code__ for f in gc.get_objects() if isinstance(f, types.FunctionType) and SRC_MARK in f.__code__.co_filename]
    while todo:
        c = todo.pop()
        if id(c) not in out:
            out[id(c)] = c
            todo.extend(k for k in c.co_consts if isinstance(k, types.CodeType))
    return out


def _event(code, where):
    s = CONTROL["s"]
    if s is not None:
        s.point()


def watch(mode):
    """make every source line ("line") or byte-code instruction ("instr") of valori a scheduling point"""
    if _watching["mode"] == mode:
        return
    if _watching["mode"] is None:
        MON.use_tool_id(TOOL, "sched")
        MON.register_callback(TOOL, MON.events.LINE, _event)
        MON.register_callback(TOOL, MON.events.INSTRUCTION, _event)
    _watching["codes"].update(_codes())
    for c in _watching["codes"].values():
        MON.set_local_events(TOOL, c, MON.events.LINE if mode == "line" else MON.events.INSTRUCTION)
    _watching["mode"] = mode


class Scheduler:
    """Runs thread bodies one at a time.

    `devs` maps a decision index to the thread to run there instead of the default (the running
    thread while it can run, else the lowest-numbered runnable one)."""

    def __init__(self, bodies, devs, horizon=200000):
        self.bodies = bodies
        self.devs = dict(devs)
        self.n = len(bodies)
        self.sem = [_thread.allocate_lock() for _ in bodies]
        for x in self.sem:
            x.acquire()
        self.done = _thread.allocate_lock()
        self.done.acquire()
        self.ready = _thread.allocate_lock()
        self.ready.acquire()
        self.state = ["ready"] * self.n       # ready / blocked / finished
        self.blocked_on = [None] * self.n
        self.want = [None] * self.n           # lock a parked thread is about to acquire
        self.cur = None
        self.ident = {}
        self.step = 0
        self.horizon = horizon
        self.points = []                      # (running thread or None, enabled others)
        self.failure = None
        self.abort = False
        self.results = [None] * self.n
        self.clock = 0
        self.log = []

    def me(self):
        return self.ident.get(_thread.get_ident())

    # ---- decisions
    def enabled(self):
        return [i for i in range(self.n) if self.state[i] == "ready" and (self.want[i] is None or self.want[i].free_for(i))]

    def decide(self, running, en=None):
        """choose who runs next; running = index of a still-runnable current thread or None"""
        en = self.enabled() if en is None else en
        if not en:
            return None
        i = self.step
        self.step += 1
        if self.step > self.horizon:
            self.fail("horizon exceeded (livelock)")
            return None
        default = running if running is not None else en[0]
        others = [x for x in en if x != default]
        self.points.append((running is not None, others))
        if i in self.devs:
            d = self.devs[i]
            if d not in en:
                raise AssertionError("schedule divergence at %d: %d not in %s" % (i, d, en))
            return d
        return default

    def fail(self, why):
        if self.failure is None:
            self.failure = why
        self.abort = True

    # ---- called by controlled threads
    def point(self, what=None):
        me = self.me()
        if me is None:
            return
        if self.abort:
            raise Abort()
        if sum(1 for s in self.state if s == "ready") < 2:
            return
        en = self.enabled()
        if en == [me]:
            return
        nxt = self.decide(me if me in en else None, en)
        if nxt is None:
            self.fail("deadlock: %s" % (self.state,))
        elif nxt != me:
            self.switch(me, nxt)
        if self.abort:
            raise Abort()

    def block(self, lock):
        me = self.me()
        if self.abort:
            raise Abort()
        self.state[me] = "blocked"
        self.blocked_on[me] = lock
        nxt = self.decide(None)
        if nxt is None:
            self.fail("deadlock: %s" % ([s for s in self.state],))
            self.state[me] = "ready"
            raise Abort()
        self.switch(me, nxt)
        if self.abort:
            raise Abort()

    def wake(self, lock):
        for i in range(self.n):
            if self.state[i] == "blocked" and self.blocked_on[i] is lock:
                self.state[i] = "ready"
                self.blocked_on[i] = None

    def switch(self, me, nxt):
        self.cur = nxt
        self.sem[nxt].release()
        self.sem[me].acquire()

    # ---- thread body
    def _run(self, i):
        self.ident[_thread.get_ident()] = i
        if len(self.ident) == self.n:
            self.ready.release()
        self.sem[i].acquire()
        try:
            if not self.abort:
                self.results[i] = ("ok", self.bodies[i](self))
        except Abort:
            self.results[i] = ("abort", None)
        except BaseException as e:            # noqa
            self.results[i] = ("exc", e)
        self.state[i] = "finished"
        nxt = None
        if self.abort:
            rest = [j for j in range(self.n) if self.state[j] != "finished"]
            nxt = rest[0] if rest else None
        else:
            try:
                nxt = self.decide(None)
            except AssertionError as e:
                self.fail(str(e))
            if nxt is None:
                rest = [j for j in range(self.n) if self.state[j] != "finished"]
                if rest:
                    self.fail("deadlock: threads %s wait for a lock nobody will release" % rest)
                    nxt = rest[0]
        if nxt is None:
            self.done.release()
        else:
            self.cur = nxt
            self.sem[nxt].release()

    def tick(self):
        self.clock += 1
        return self.clock

    def run(self):
        watch("instr" if OPCODES else "line")
        CONTROL["s"] = self
        try:
            for i in range(self.n):
                _thread.start_new_thread(self._run, (i,))
            self.ready.acquire()
            first = self.decide(None)
            self.cur = first
            self.sem[first].release()
            self.done.acquire()
        finally:
            CONTROL["s"] = None
        return self


def schedules(make_bodies, bound, on_exec, late=lambda: False, max_exec=None):
    """Run every schedule with at most `bound` preemptions; on_exec(sched, devs)."""
    stack = [()]
    n = 0
    while stack:
        if late():
            return n, True
        devs = stack.pop()
        s = Scheduler(make_bodies(), devs).run()
        n += 1
        on_exec(s, devs)
        if max_exec and n >= max_exec:
            return n, bool(stack)
        if devs and devs[-1][0] >= len(s.points):
            raise AssertionError("execution is not repeatable: %s" % (devs,))
        cost = sum(1 for i, _ in devs if s.points[i][0])
        start = devs[-1][0] + 1 if devs else 0
        for i in range(len(s.points) - 1, start - 1, -1):
            was_running, others = s.points[i]
            c = cost + (1 if was_running else 0)
            if c > bound:
                continue
            for t in others:
                stack.append(devs + ((i, t),))
    return n, False
