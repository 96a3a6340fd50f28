"""C29: batch operations hand over every row once, in order; a failure affects its batch alone; counts are exact."""
import contextlib
import copy
import io
import itertools
import threading

import numpy as np

from .. import env, explore

env.import_valori()
from valori.client import VectorDBClient                          # noqa: E402
from valori.exceptions import ValoriError                         # noqa: E402
from valori.indices import FlatIndex, HNSWIndex, IVFIndex         # noqa: E402
from valori.storage import HybridStorage, MemoryStorage           # noqa: E402
from valori.utils.batch_manager import BatchManager, ProgressTracker   # noqa: E402
from valori.utils.helpers import batch_search as helper_search  # noqa: E402

LEVEL = "model_checking"
ASSUMPTIONS = ["a failing batch or query is one for which the client raises an exception; failing rows in the middle of a batch fail the batch, as the client inserts all rows or none",
               "parallel insertion: all orders in which the batches running at one time can finish; the insert calls themselves are the business of C14"]
BOUNDS = {"quick": "0-7 rows, batch sizes 1 to one more than the rows, every set of failing batches or queries, with and without callbacks and printing, a progress or error callback that raises at each call; all pairs of such runs on one manager; parallel insertion of up to 5 batches by 1-5 workers in every feasible order of completion with every set of failing batches; 11-2500 rows in up to 130 batches and with the default batch size, 7 sets of failing batches, 4 orders of completion; all patterns of equal rows up to 5 rows, in 6 number types; the same against real databases (3 indexes) with unusable rows at every subset of places; batch sizes of zero and below",
          "thorough": "0-10 rows, parallel insertion of up to 6 batches, real databases with 8 rows"}


class Boom(Exception):
    pass


class Halt(Exception):
    """Raised by a callback of ours."""


class Client:
    """Records what it is given and fails as told."""

    def __init__(self, fail=()):
        self.fail, self.rows, self.calls, self.k = set(fail), [], [], []
        self.next = 0

    def insert(self, vectors, metadata=None):
        me = len(self.calls)
        self.calls.append([float(v[0]) for v in vectors])
        rows = [(float(v[0]), m["n"]) for v, m in zip(vectors, metadata)]
        if len(vectors) != len(metadata):
            raise AssertionError("lengths differ")
        if self.verdict(me):
            raise Boom(me)
        self.rows += rows
        return ["id%g" % r[0] for r in rows]

    def verdict(self, me):
        return me in self.fail

    def search(self, q, k=10):
        me = len(self.calls)
        self.calls.append([float(q[0])])
        self.k.append(k)
        if me in self.fail:
            raise Boom(me)
        return [{"id": "hit%g" % q[0], "k": k}]


def rows(n, base=0):
    return np.array([[base + i, 1.5] for i in range(n)], dtype="float32"), [{"n": base + i} for i in range(n)]


def groups(n, b):
    return [list(range(i, min(i + b, n))) for i in range(0, n, b)]


def counts(m):
    s = m.get_stats()
    return s["processed_items"], s["failed_items"], s["total_items"]


class Log:
    def __init__(self, m, progress, error, halt=None):
        self.p, self.e, self.items, self.halt = [], [], [], halt
        m.set_progress_callback(self.progress if progress else None)
        m.set_error_callback(self.error if error else None)

    def progress(self, done, total):
        self.p.append((int(done), int(total)))
        if self.halt == ("p", len(self.p)):
            raise Halt()

    def error(self, exc, item):
        self.e.append(exc)
        item = item["vectors"] if isinstance(item, dict) else item
        self.items.append([float(x) for x in np.atleast_2d(item)[:, 0]])
        if self.halt == ("e", len(self.e)):
            raise Halt()


def insert_run(m, n, b, fail, progress, error, show, base=0, halt=None):
    """One batch_insert run; what is wrong with it, or None."""
    m.batch_size = b
    v, meta = rows(n, base)
    keep = v.copy()
    c, log = Client(fail), Log(m, progress, error, halt)
    halted = False
    try:
        ids = m.batch_insert(c, v, meta, show_progress=show)
    except Halt:
        halted, ids = True, None
    g = groups(n, b)
    want = [[base + i for i in x] for x in g]
    got = [[int(x) for x in y] for y in c.calls]
    ok = [r for i, x in enumerate(want) if i not in fail for r in x]
    if halt is None and halted:
        return "halted", "raises on its own"
    if got != want[:len(got)] or (halt is None and got != want):
        return "calls", "hands over %s instead of %s" % (got, want)
    if [x[0] for x in c.rows] != [x[1] for x in c.rows] or not np.array_equal(v, keep) or meta != rows(n, base)[1]:
        return "binding", "rows and metadata given to the database: %s" % c.rows
    done = len(c.rows)
    bad = sum(len(x) for i, x in enumerate(got) if i in fail)
    if ids is not None and (list(ids) != ["id%g" % x for x, _ in c.rows] or (halt is None and [x for x, _ in c.rows] != ok)):
        return "ids", "%s for %s" % (ids, c.rows)
    if counts(m) != (done, bad, n):
        return "stats", "counts %s, but %s rows are in, %s were refused and %s were given" % (counts(m), done, bad, n)
    if error and len(log.e) != len([i for i in range(len(got)) if i in fail]) or any(type(e) is not Boom for e in log.e):
        return "errors", "the error callback is called with %s" % log.e
    if error and log.items != [[float(x) for x in got[i]] for i in range(len(got)) if i in fail]:
        return "errors", "the error callback is given rows %s, failing were batches %s" % (log.items, sorted(fail))
    if progress:
        steps = [0] + list(itertools.accumulate(len(x) for i, x in enumerate(got) if i not in fail))
        if [p for p in log.p if p[1] != n or p[0] not in steps] or [p[0] for p in log.p] != sorted(p[0] for p in log.p) or set(steps[1:]) - {p[0] for p in log.p}:
            return "progress", "progress callback called with %s; after each batch %s of %s rows were in" % (log.p, steps, n)
    return None


def search_run(m, n, b, fail, progress, error, show, k, base=0, halt=None):
    m.batch_size = b
    v, _ = rows(n, base)
    c, log = Client(fail), Log(m, progress, error, halt)
    halted = False
    try:
        res = m.batch_search(c, v, k=k, show_progress=show)
    except Halt:
        halted, res = True, None
    want = [[float(base + i)] for i in range(n)]
    if halt is None and halted:
        return "halted", "raises on its own"
    if c.calls != want[:len(c.calls)] or (halt is None and c.calls != want) or set(c.k) - {k}:
        return "queries", "asks %s (k %s) instead of %s (k %s)" % (c.calls, set(c.k), want, k)
    exp = [[] if i in fail else [{"id": "hit%g" % (base + i), "k": k}] for i in range(n)]
    if res is not None and res != exp:
        return "results", "%s, expected %s" % (res, exp)
    bad = len([i for i in range(len(c.calls)) if i in fail])
    if halt is None:
        if counts(m) != (n - bad, bad, n):
            return "stats", "counts %s, but %s of %s queries succeeded and %s failed" % (counts(m), n - bad, n, bad)
        if error and len(log.e) != bad:
            return "errors", "error callback called %d times for %d failing queries" % (len(log.e), bad)
        if error and log.items != [[float(base + i)] for i in range(n) if i in fail]:
            return "errors", "error callback given %s, failing were queries %s" % (log.items, sorted(fail))
    if progress:
        steps = [sum(1 for i in range(min(e, n)) if i not in fail) for e in range(b, n + b, b)] if n else []
        if [p for p in log.p if p[1] != n] or [p[0] for p in log.p] != steps[:len(log.p)] or (halt is None and len(log.p) != len(steps)):
            return "progress", "progress callback called with %s, after each batch %s of %s queries had succeeded" % (log.p, steps, n)
    return None


class Turns(Client):
    """A client whose calls finish in an order chosen step by step."""

    def __init__(self, chooser, nb, workers, fail, b, real=None):
        super().__init__(fail)
        self.ch, self.nb, self.workers, self.b, self.real = chooser, nb, workers, b, real
        self.cv = threading.Condition()
        self.waiting, self.released, self.order, self.dead = {}, 0, [], None

    def insert(self, vectors, metadata=None):
        me = int(vectors[0][0]) // self.b
        with self.cv:
            self.waiting[me] = False
            self.cv.notify_all()
            self.cv.wait_for(lambda: self.waiting[me] or self.dead, 60)
            if not self.waiting[me]:
                self.dead = self.dead or "batch %d never had its turn: no callback after an earlier batch" % me
                self.cv.notify_all()
        r = [(float(v[0]), m["n"]) for v, m in zip(vectors, metadata)]
        if me in self.fail:
            raise Boom(me)
        if self.real is not None:
            return self.real.insert(vectors, metadata)
        with self.cv:
            self.rows += r
        return ["id%g" % x[0] for x in r]

    def go(self):
        """Let one of the calls under way finish."""
        with self.cv:
            left = self.nb - self.released
            if not left:
                return
            need = min(self.workers, left)
            if self.dead or not self.cv.wait_for(lambda: len([x for x in self.waiting.values() if not x]) >= need, 30):
                self.dead = self.dead or "only batches %s are started when %d of %d have finished and %d workers are allowed" % (sorted(self.waiting), self.released, self.nb, self.workers)
                self.cv.notify_all()
                return
            en = sorted(i for i, r in self.waiting.items() if not r)
            i = en[self.ch.choose(len(en))]
            self.order.append(i)
            self.waiting[i] = True
            self.released += 1
            self.cv.notify_all()


def parallel_run(ch, n, b, workers, fail, error, real=None):
    m = BatchManager(batch_size=b, max_workers=workers)
    v, meta = rows(n)
    g = groups(n, b)
    c = Turns(ch, len(g), workers, fail, b, real)
    log = Log(m, True, error)

    def step(done, total):
        log.p.append((int(done), int(total), [g[i] for i in c.order]))
        c.go()

    m.set_progress_callback(step)
    first = threading.Thread(target=c.go)
    first.start()
    ids = m.parallel_batch_insert(c, v, meta, show_progress=True)
    first.join()
    if c.dead:
        return c, ids, ("parallel-stuck", c.dead)
    if len(c.order) != len(g) or sorted(c.order) != list(range(len(g))):
        return c, ids, ("parallel-calls", "batches handed over: %s of %d" % (c.order, len(g)))
    ok = [i for k, x in enumerate(g) if k not in fail for i in x]
    if real is None:
        if list(ids) != ["id%d" % i for i in ok]:
            return c, ids, ("parallel-ids", "ids %s for rows %s (completion order %s)" % (ids, ok, c.order))
        if sorted(int(x) for x, _ in c.rows) != ok or any(a != d for a, d in c.rows):
            return c, ids, ("parallel-rows", "rows handed over %s" % c.rows)
    if counts(m) != (len(ok), n - len(ok), n):
        return c, ids, ("parallel-stats", "counts %s, but %d of %d rows are in" % (counts(m), len(ok), n))
    if error and len(log.e) != len(fail):
        return c, ids, ("parallel-errors", "error callback called %d times for %d failing batches" % (len(log.e), len(fail)))
    if error and log.items != [[float(x) for x in g[i]] for i in c.order if i in fail]:
        return c, ids, ("parallel-errors", "error callback given rows %s, failing were batches %s" % (log.items, [i for i in c.order if i in fail]))
    done = 0
    for (p, total, order), i in zip(log.p, c.order):
        done += 0 if i in fail else len(g[i])
        if p != done or total != n:
            return c, ids, ("parallel-progress", "progress %d of %d when %d of %d rows are in" % (p, total, done, n))
    if len(log.p) != len(g):
        return c, ids, ("parallel-progress", "%d calls for %d batches" % (len(log.p), len(g)))
    return c, ids, None


def subsets(k):
    return [set(i for i in range(k) if s >> i & 1) for s in range(1 << k)]


def hushed(f, *a, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **kw)


def job_single(job, ctx):
    n = job["n"]
    for b in range(1, n + 2):
        for fail in subsets(len(groups(n, b))):
            for progress, error, show in itertools.product((0, 1), repeat=3):
                case = {"f": "insert", "a": [n, b, sorted(fail), progress, error, show]}
                e = hushed(insert_run, BatchManager(b), n, b, fail, progress, error, show)
                ctx.n("transitions", len(groups(n, b)))
                if e:
                    ctx.violation("insert-" + e[0], "%d rows in batches of %d, failing %s: %s" % (n, b, sorted(fail), e[1]), case)
            for i in range(1, len(groups(n, b)) + 1):
                for halt in (("p", i), ("e", i)):
                    ctx.n("transitions")
                    e = hushed(insert_run, BatchManager(b), n, b, fail, 1, 1, 0, 0, halt)
                    if e:
                        ctx.violation("insert-halt-" + e[0], "%d rows in batches of %d, failing %s, callback %s raises: %s" % (n, b, sorted(fail), halt, e[1]),
                                      {"f": "insert", "a": [n, b, sorted(fail), 1, 1, 0, 0, list(halt)]})
        for fail in subsets(n):
            ctx.n("states")
            for progress, error, show in ((0, 0, 0), (1, 0, 1), (1, 1, 0), (0, 1, 1)):
                ctx.n("transitions", n)
                e = hushed(search_run, BatchManager(b), n, b, fail, progress, error, show, 3 + b)
                if e:
                    ctx.violation("search-" + e[0], "%d queries in batches of %d, failing %s: %s" % (n, b, sorted(fail), e[1]), {"f": "search", "a": [n, b, sorted(fail), progress, error, show, 3 + b]})
            for i in (1, 2):
                for halt in (("p", i), ("e", i)):
                    e = hushed(search_run, BatchManager(b), n, b, fail, 1, 1, 0, 5, 0, halt)
                    ctx.n("transitions")
                    if e:
                        ctx.violation("search-halt-" + e[0], "%d queries in batches of %d, failing %s, callback %s raises: %s" % (n, b, sorted(fail), halt, e[1]),
                                      {"f": "search", "a": [n, b, sorted(fail), 1, 1, 0, 5, 0, list(halt)]})
        # the plain helper: failing queries are not its business
        c = Client()
        v, _ = rows(n)
        r = helper_search(c, v, k=4, batch_size=b)
        ctx.n("transitions", n)
        if r != [[{"id": "hit%d" % i, "k": 4}] for i in range(n)] or c.calls != [[float(i)] for i in range(n)]:
            ctx.violation("helper-search", "%d queries in batches of %d: %s" % (n, b, r), {"job": job})
    ctx.outcome(n)


def job_pairs(job, ctx):
    """All pairs of runs on one manager: the second is counted on its own."""
    q = ctx.quick
    runs = []
    for n in (0, 1, 3, 4) if q else (0, 1, 2, 3, 4, 5):
        for b in (1, 2, 5):
            for fail in ([], [0], [1], [0, 1]):
                runs += [("insert", n, b, fail), ("search", n, b, fail)]
    for a in runs[job["part"]::job["of"]]:
        for z in runs:
            m = BatchManager(a[2])
            ctx.n("states")
            for no, (f, n, b, fail) in enumerate((a, z)):
                fail = {i for i in fail if i < (len(groups(n, b)) if f == "insert" else n)}
                ctx.n("transitions")
                e = hushed(insert_run, m, n, b, fail, 1, 1, 0, 10 * no) if f == "insert" else hushed(search_run, m, n, b, fail, 1, 1, 0, 2, 10 * no)
                if e:
                    ctx.violation("again-" + e[0], "%s then %s: run %d %s" % (a, z, no + 1, e[1]), {"job": job})
    ctx.outcome(job["part"])


def job_parallel(job, ctx):
    nb, workers, b, short = job["nb"], job["workers"], job["b"], job["short"]
    n = nb * b - short
    for fail in subsets(nb):
        for error in (0, 1):
            def one(ch):
                ctx.n("schedules")
                ctx.n("transitions", nb)
                c, ids, e = hushed(parallel_run, ch, n, b, workers, fail, error)
                ctx.outcome((nb, workers, tuple(c.order), tuple(sorted(fail))))
                if e:
                    ctx.violation(e[0], "%d batches, %d workers, failing %s, finishing in order %s: %s" % (nb, workers, sorted(fail), c.order, e[1]), {"job": job})
            for out, _ in explore.choice_runs(one, 99):
                pass


INDEX = {"flat": lambda: FlatIndex({"metric": "euclidean"}), "hnsw": lambda: HNSWIndex({"metric": "euclidean", "m": 4}), "ivf": lambda: IVFIndex({"metric": "euclidean", "n_clusters": 1, "n_probes": 1})}


def database(kind, d):
    s = MemoryStorage({}) if kind != "hnsw" else HybridStorage({"memory_limit": 3, "disk": {"data_dir": d}})
    db = VectorDBClient(s, INDEX[kind]())
    db.initialize()
    return db


def job_real(job, ctx):
    """Against real databases: what is in is exactly the rows of the batches that did not fail."""
    n, kind, b = job["n"], job["index"], job["b"]
    for bad in subsets(n):
        if len(bad) > 3:
            continue
        modes = ["insert"] + (["parallel"] if len(bad) < 2 else [])
        for mode in modes:
            def one(ch):
                d = env.fresh_dir("b")
                db = database(kind, d)
                v, meta = rows(n)
                for i in bad:
                    v[i, 1] = np.nan
                g = groups(n, b)
                fail = {i for i, x in enumerate(g) if set(x) & bad}
                ok = [i for k, x in enumerate(g) if k not in fail for i in x]
                case = {"job": job}
                try:
                    if mode == "insert":
                        m = BatchManager(b)
                        ids = hushed(m.batch_insert, db, v, meta)
                        if counts(m) != (len(ok), n - len(ok), n):
                            return ctx.violation("real-stats", "%s: rows %s unusable, batches of %d: counts %s" % (kind, sorted(bad), b, counts(m)), case)
                    else:
                        ctx.n("schedules")
                        _, ids, e = hushed(parallel_run_real, ch, n, b, 2, fail, v, meta, db)
                        if e:
                            return ctx.violation("real-" + e[0], "%s: %s" % (kind, e[1]), case)
                    ctx.n("transitions", len(g))
                    if len(ids) != len(ok) or len(set(ids)) != len(ids):
                        return ctx.violation("real-ids", "%s: rows %s unusable, batches of %d: %d ids for %d rows" % (kind, sorted(bad), b, len(ids), len(ok)), case)
                    for i, x in zip(ok, ids):
                        r = db.search(v[i], k=1)
                        if not r or r[0]["id"] != x or r[0]["metadata"] != meta[i] or abs(r[0]["distance"]) > 1e-6:
                            return ctx.violation("real-record", "%s: row %d has id %s, but searching for it gives %s" % (kind, i, x, r), case)
                    m = BatchManager(b)
                    res = hushed(m.batch_search, db, v, k=2)
                    refused = 0
                    for i in range(n):
                        try:
                            want = db.search(v[i], k=2)
                        except ValoriError:
                            want, refused = [], refused + 1
                        if res[i] != want:
                            return ctx.violation("real-search", "%s: query %d gives %s instead of %s" % (kind, i, res[i], want), case)
                    if counts(m) != (n - refused, refused, n):
                        return ctx.violation("real-search-stats", "%s: %d of %d queries are refused: counts %s" % (kind, refused, n, counts(m)), case)
                    if len(db.search(np.array([0, 1.5], "float32"), k=50)) != len(ok):
                        return ctx.violation("real-others", "%s: rows %s unusable, batches of %d: other rows than %s are found" % (kind, sorted(bad), b, ok), case)
                finally:
                    db.close()
                    env.drop_dir(d)
            if mode == "insert":
                one(None)
            else:
                for _ in explore.choice_runs(one, 99):
                    pass
            ctx.n("states")
            ctx.outcome((kind, b, tuple(sorted(bad)), mode))
    ctx.n("traces_validated_against_impl", ctx.counts.get("transitions", 0))


def parallel_run_real(ch, n, b, workers, fail, v, meta, db):
    m = BatchManager(batch_size=b, max_workers=workers)
    g = groups(n, b)
    c = Turns(ch, len(g), workers, set(), b, db)
    m.set_progress_callback(lambda *a: c.go())
    first = threading.Thread(target=c.go)
    first.start()
    ids = m.parallel_batch_insert(c, v, meta, show_progress=False)
    first.join()
    if c.dead:
        return c, ids, ("parallel-stuck", c.dead)
    ok = sum(len(x) for i, x in enumerate(g) if i not in fail)
    if counts(m) != (ok, n - ok, n):
        return c, ids, ("parallel-stats", "counts %s, but %d of %d rows are in" % (counts(m), ok, n))
    return c, ids, None


class Rule:
    """Chooses by a rule instead of being driven through all choices."""

    def __init__(self, f):
        self.f, self.i = f, -1

    def choose(self, n):
        self.i += 1
        return self.f(self.i, n) % n


SIZES = [(11, 1), (12, 1), (25, 2), (33, 32), (64, 32), (101, 10), (130, 1), (257, 256), (999, None), (1000, None), (1001, None), (2500, None)]


def job_sizes(job, ctx):
    """Many batches and the default batch size: chosen sets of failures, chosen orders of completion."""
    n, b = job["size"]
    b = b or BatchManager().batch_size
    nb = len(groups(n, b))
    for fail in [set(), {0}, {nb - 1}, {1, 2} & set(range(nb)), set(range(0, nb, 2)), set(range(2, nb, 3)), set(range(nb))]:
        for error in (0, 1):
            ctx.n("transitions", nb)
            ctx.n("states")
            e = hushed(insert_run, BatchManager(b), n, b, fail, 1, error, error)
            if e:
                ctx.violation("insert-" + e[0], "%d rows in batches of %d, failing %s: %s" % (n, b, sorted(fail)[:9], e[1][:600]), {"f": "insert", "a": [n, b, sorted(fail), 1, error, error]})
            ctx.n("transitions", n)
            bad = {i for x in fail for i in groups(n, b)[x][::2]}
            e = hushed(search_run, BatchManager(b), n, b, bad, 1, error, error, 7)
            if e:
                ctx.violation("search-" + e[0], "%d queries in batches of %d, failing %s: %s" % (n, b, sorted(bad)[:9], e[1][:600]), {"f": "search", "a": [n, b, sorted(bad), 1, error, error, 7]})
            for workers in (1, 2, 4, 12):
                for rule in (lambda i, k: 0, lambda i, k: k - 1, lambda i, k: i, lambda i, k: 1):
                    ctx.n("schedules")
                    ctx.n("transitions", nb)
                    c, ids, e = hushed(parallel_run, Rule(rule), n, b, workers, fail, error)
                    ctx.outcome((n, b, workers, tuple(c.order[:20]), tuple(sorted(fail))[:20]))
                    if e:
                        ctx.violation(e[0], "%d batches, %d workers, failing %s, finishing in order %s...: %s" % (nb, workers, sorted(fail)[:9], c.order[:20], e[1][:600]), {"job": job})
        if n > 500:
            for size in (7, 1000):
                r = hushed(helper_search, Client(), rows(n)[0], k=2, batch_size=size)
                if r != [[{"id": "hit%g" % i, "k": 2}] for i in range(n)]:
                    ctx.violation("helper-search", "%d queries in batches of %d" % (n, size), {"job": job})
    ctx.n("traces_validated_against_impl", ctx.counts.get("transitions", 0))


def job_edges(job, ctx):
    """Batch sizes of zero and below are refused or work; metadata of another length binds no row to another's."""
    for b in (0, -1, -5):
        for f in ("insert", "search", "parallel", "helper"):
            ctx.n("transitions")
            c = Client()
            v, meta = rows(4)
            try:
                if f == "helper":
                    r = helper_search(c, v, k=2, batch_size=b)
                else:
                    m = BatchManager(batch_size=b)
                    r = hushed({"insert": lambda: m.batch_insert(c, v, meta), "parallel": lambda: m.parallel_batch_insert(c, v, meta), "search": lambda: m.batch_search(c, v)}[f])
            except ValoriError:
                if c.calls:
                    ctx.violation("edge-late", "%s, batch size %d: refused after %s" % (f, b, c.calls), {"job": job})
                continue
            except Exception as e:
                ctx.violation("edge-error", "%s, batch size %d: %r" % (f, b, e), {"job": job})
                continue
            if len(r) != 4:
                ctx.violation("edge-silent", "%s, batch size %d: %d of 4 rows were processed, without an error" % (f, b, len(r)), {"job": job})
    for kind in INDEX:
        for nm in range(0, 6):
            for b in (1, 2, 3, 4, 9):
                for par in (0, 1):
                    ctx.n("transitions")
                    d = env.fresh_dir("b")
                    db = database(kind, d)
                    v, meta = rows(5)
                    m = BatchManager(b, 1)
                    try:
                        ids = hushed(m.parallel_batch_insert if par else m.batch_insert, db, v, meta[:nm])
                        hit = {h["id"]: h for h in db.search(v[0], k=50)}
                        p, f, t = counts(m)
                        if set(hit) != set(ids) or p != len(ids) or p + f != 5:
                            ctx.violation("short-count", "%s: 5 rows, %d metadata: ids %s, found %s, counts %s" % (kind, nm, ids, sorted(hit), counts(m)), {"job": job})
                        for h in hit.values():
                            row = int(round(h["distance"]))
                            if h["metadata"] and h["metadata"] != {"n": row}:
                                ctx.violation("short-binding", "%s: 5 rows, %d metadata, batches of %d: row %d has metadata %s" % (kind, nm, b, row, h["metadata"]), {"job": job})
                    except ValoriError:
                        if db.search(v[0], k=50):
                            ctx.violation("short-partial", "%s: 5 rows, %d metadata: refused, but rows are in" % (kind, nm), {"job": job})
                    finally:
                        db.close()
                        env.drop_dir(d)
    for total in (0, 1, 2, 5):
        for steps in itertools.product((1, 2), repeat=3):
            t = ProgressTracker(total, "x")
            with contextlib.redirect_stdout(io.StringIO()) as o:
                for s in steps:
                    t.update(s)
                if t.current != sum(steps):
                    ctx.violation("tracker", "after %s the tracker is at %s" % (steps, t.current), {"job": job})
                t.finish()
            ctx.n("transitions")
            if t.current != total or "(%d/%d)" % (total, total) not in o.getvalue() or "100.0%" not in o.getvalue():
                ctx.violation("tracker-finish", "finished at %s of %s: %r" % (t.current, total, o.getvalue()), {"job": job})
    ctx.outcome("edges")


class Counting:
    """Answers by the number of the call; keeps copies of what it is given."""

    def __init__(self, fail):
        self.fail, self.calls, self.lock = fail, [], threading.Lock()

    def take(self, x):
        with self.lock:
            self.calls.append(copy.deepcopy(x))
            return len(self.calls) - 1

    def insert(self, vectors, metadata=None):
        me = self.take((vectors, metadata))
        if me in self.fail:
            raise Boom(me)
        return ["call%d-%d" % (me, i) for i in range(len(vectors))]

    def search(self, q, k=10):
        me = self.take(q)
        if me in self.fail:
            raise Boom(me)
        return [{"id": "call%d" % me}]


def equal_run(f, pattern, b, fail, dt):
    """Rows that are partly equal, in several types: each is handed over by itself, as it is."""
    n = len(pattern)
    v = np.array([[p, 1.25, 1 / 3] for p in pattern]).reshape(n, 3)
    v = (v * 7).astype(dt) if np.dtype(dt).kind in "iu" else v.astype(dt)
    meta = [None if p == 2 else {"n": p} for p in pattern]
    c, m = Counting(fail), BatchManager(b, max_workers=1)
    keep, keepm = v.copy(), copy.deepcopy(meta)
    g = groups(n, b)

    def rows_same(got, want):
        return getattr(got, "dtype", None) == want.dtype and np.array_equal(got, want)
    if f == "search":
        res = m.batch_search(c, v, k=3)
        if len(c.calls) != n or not all(rows_same(x, y) for x, y in zip(c.calls, v)):
            return "equal-queries", "hands over %s" % c.calls
        want = [[] if i in fail else [{"id": "call%d" % i}] for i in range(n)]
        cnt = (n - len(fail & set(range(n))), len(fail & set(range(n))), n)
    elif f == "helper":
        c.fail = set()
        res = helper_search(c, v, k=3, batch_size=b)
        if len(c.calls) != n or not all(rows_same(x, y) for x, y in zip(c.calls, v)):
            return "equal-helper", "hands over %s" % c.calls
        want, cnt = [[{"id": "call%d" % i}] for i in range(n)], counts(m)
    else:
        res = m.batch_insert(c, v, meta) if f == "insert" else m.parallel_batch_insert(c, v, meta, show_progress=False)
        if len(c.calls) != len(g):
            return "equal-batches", "hands over %d batches instead of %d" % (len(c.calls), len(g))
        for x, (got, gm) in zip(g, c.calls):
            if not rows_same(np.asarray(got), v[x]) or list(gm) != [keepm[i] for i in x]:
                return "equal-rows", "hands over %s, %s for rows %s" % (got, gm, v[x])
        want = ["call%d-%d" % (j, i) for j, x in enumerate(g) if j not in fail for i in range(len(x))]
        bad = sum(len(x) for j, x in enumerate(g) if j in fail)
        cnt = (n - bad, bad, n)
    if res != want:
        return "equal-results", "%s, expected %s" % (res, want)
    if counts(m) != cnt:
        return "equal-counts", "counts %s, expected %s" % (counts(m), cnt)
    if not np.array_equal(v, keep) or v.dtype != keep.dtype or meta != keepm:
        return "equal-mutated", "rows or metadata changed"


def job_equal(job, ctx):
    n = job["n"]
    for pattern in itertools.product((0, 1, 2) if n < 5 else (0, 1), repeat=n):
        for b in (1, 2, n, n + 1):
            for f in ("search", "insert", "parallel", "helper"):
                for fail in ((), (0,), (1,), (0, 2)):
                    for dt in ("float32", "float64", "float16", "int8", "uint8", "int64") if not fail else ("float64",):
                        ctx.n("states")
                        ctx.n("transitions", n)
                        e = hushed(equal_run, f, pattern, max(b, 1), set(fail), dt)
                        if e:
                            ctx.violation(e[0], "%s of rows %s (%s) in batches of %d, failing calls %s: %s" % (f, pattern, dt, b, fail, e[1]), {"job": job})


def jobs(tier):
    q = tier == "quick"
    out = [{"j": "edges"}]
    out += [{"j": "single", "n": n} for n in range(8 if q else 11)]
    out += [{"j": "pairs", "part": i, "of": 4} for i in range(4)]
    for nb in range(0, 6 if q else 7):
        for w in range(1, 6 if q else 7):
            if w <= max(nb, 1) or w == 5:
                out.append({"j": "parallel", "nb": nb, "workers": w, "b": 2, "short": 1 if nb else 0})
    out += [{"j": "equal", "n": n} for n in range(1, 6 if q else 8)]
    out += [{"j": "sizes", "size": x} for x in SIZES]
    n = 6 if q else 8
    out += [{"j": "real", "index": k, "n": n, "b": b} for k in INDEX for b in range(1, n + 1)]
    return out


def run_job(job, ctx):
    {"edges": job_edges, "equal": job_equal, "single": job_single, "pairs": job_pairs, "parallel": job_parallel, "real": job_real, "sizes": job_sizes}[job["j"]](job, ctx)


def replay(case, ctx):
    if "job" in case:
        return run_job(case["job"], ctx)
    a = case["a"]
    a = a[:2] + [set(a[2])] + a[3:]
    if len(a) > 6 and isinstance(a[-1], list):
        a[-1] = tuple(a[-1])
    e = hushed(insert_run if case["f"] == "insert" else search_run, BatchManager(a[1]), *a)
    if e:
        ctx.violation(case["f"] + "-" + e[0], e[1], case)
