"""Process-wide setup.  Import this before anything of valori.

* makes the run deterministic (ids, random module, hash seed, BLAS threads);
* imports valori from /repo/src (VALORI_SRC overrides, used for scratch copies);
* keeps every file-system effect inside scratch folders (write guard).
"""
import os
import sys

FIX = {"OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
       "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg"}
if any(os.environ.get(k) != v for k, v in FIX.items()):
    os.environ.update(FIX)
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("VALORI_SRC", "/repo/src")
sys.dont_write_bytecode = True
if SRC in sys.path:
    sys.path.remove(SRC)
sys.path.insert(0, SRC)

import atexit
import contextlib
import errno
import io
import itertools
import random
import resource
import shutil
import signal
import tempfile
import threading
import uuid
import warnings

warnings.filterwarnings("ignore")

# ------------------------------------------------------------------ scratch
_BASE = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp"
_scratch = {"pid": None, "root": None, "n": 0}
ROOT_MAIN = tempfile.mkdtemp(prefix="valmc-", dir=_BASE)
_main_pid = os.getpid()


def _cleanup():
    if os.getpid() == _main_pid:
        shutil.rmtree(ROOT_MAIN, ignore_errors=True)


atexit.register(_cleanup)


def scratch_root():
    """This process's own scratch folder."""
    if _scratch["pid"] != os.getpid():
        _scratch.update(pid=os.getpid(), root=os.path.join(ROOT_MAIN, "p%d" % os.getpid()), n=0)
        os.makedirs(_scratch["root"], exist_ok=True)
    return _scratch["root"]


def fresh_dir(tag="d"):
    root = scratch_root()
    _scratch["n"] += 1
    d = os.path.join(root, "%s%d" % (tag, _scratch["n"]))
    os.mkdir(d)
    return d


def drop_dir(d):
    assert d.startswith(ROOT_MAIN + "/"), d
    old, _fs["busy"] = _fs["busy"], True
    try:
        shutil.rmtree(d, ignore_errors=True)
    finally:
        _fs["busy"] = old


# ------------------------------------------------- file-system event tracking
# Handlers see every mutating file-system call of Python code *before* it happens.
MUTATING = {"os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.truncate", "os.link",
            "os.symlink", "os.chmod", "os.chown", "os.utime", "shutil.rmtree"}
_fs = {"guard": False, "listener": None, "busy": False, "escapes": []}
_WRITE_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def _abs(p, dir_fd=-1):
    try:
        p = os.fspath(p)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if isinstance(dir_fd, int) and dir_fd >= 0 and not os.path.isabs(p):
        p = os.path.join(os.readlink("/proc/self/fd/%d" % dir_fd), p)
    return os.path.abspath(p)


def _allowed(p):
    return p is None or p == ROOT_MAIN or p.startswith(ROOT_MAIN + "/") or p == "/dev/null" or (
        p.startswith("/proc/self/"))


class Escape(PermissionError):
    pass


def _hook(event, args):
    if not (_fs["guard"] or _fs["listener"]) or _fs["busy"]:
        return
    if event == "open":
        path, mode, flags = args[0], args[1], args[2]
        if isinstance(path, int):
            return
        w = (isinstance(mode, str) and any(c in mode for c in "wax+")) or (
            mode is None and isinstance(flags, int) and flags & _WRITE_FLAGS)
        paths = [_abs(path)]
        t = (isinstance(mode, str) and any(c in mode for c in "wx")) or (
            mode is None and isinstance(flags, int) and flags & os.O_TRUNC)
        kind = "open-t" if w and t else "open-w" if w else "open-r"
    elif event in MUTATING:
        if event in ("os.rename", "os.link"):
            paths = [_abs(args[0], args[2]), _abs(args[1], args[3])]
        elif event == "os.symlink":
            paths = [_abs(args[1], args[2])]
        else:
            if isinstance(args[0], int):
                return
            fd = args[2] if event == "os.mkdir" else args[1] if event in ("os.remove", "os.rmdir") else -1
            paths = [_abs(args[0], fd)]
        kind, w = event, True
    elif event in ("os.scandir", "os.listdir"):
        if args[0] is None or isinstance(args[0], int):
            return
        paths, kind, w = [_abs(args[0])], event, False
    else:
        return
    _fs["busy"] = True
    try:
        if _fs["guard"] and w:
            for p in paths:
                if not _allowed(p):
                    _fs["escapes"].append((kind, p))
                    raise Escape(errno.EPERM, "write outside the scratch folder blocked", p)
        if _fs["listener"] is not None:
            _fs["listener"](kind, paths, w)
    finally:
        _fs["busy"] = False


sys.addaudithook(_hook)


def guard(on=True):
    _fs["guard"] = on


def escapes():
    e, _fs["escapes"] = _fs["escapes"], []
    return e


@contextlib.contextmanager
def fs_listener(fn):
    old = _fs["listener"]
    _fs["listener"] = fn
    try:
        yield
    finally:
        _fs["listener"] = old


# ------------------------------------------------------------ deterministic ids
_real_uuid4 = uuid.uuid4
_idc = itertools.count(1)


def reset_ids():
    global _idc
    _idc = itertools.count(1)


def _uuid4():
    n = next(_idc)
    # spread like a random id, unique per run of one history
    return uuid.UUID(int=((n * 0x9E3779B97F4A7C15F39CC0605CEDC835) & ((1 << 128) - 1)), version=4)


uuid.uuid4 = _uuid4

# ------------------------------------------------------------ controlled randomness
_real_random = {n: getattr(random, n) for n in ("random", "sample", "choice", "shuffle", "randint", "randrange", "uniform")}


class ReplayMismatch(Exception):
    pass


class Chooser:
    """One execution's answers to nondeterministic choices (prefix replay, then defaults)."""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.trace = []          # (answer, alternatives)

    def choose(self, n):
        i = len(self.trace)
        a = self.prefix[i] if i < len(self.prefix) else 0
        if a >= n:
            raise ReplayMismatch("choice %d of %d at point %d" % (a, n, i))
        self.trace.append((a, n))
        return a

    def answers(self):
        return [a for a, _ in self.trace]


_chooser = {"c": None}


@contextlib.contextmanager
def choices(ch):
    old = _chooser["c"]
    _chooser["c"] = ch
    try:
        yield ch
    finally:
        _chooser["c"] = old


def _comb_unrank(pop, k, r):
    return list(list(itertools.islice(itertools.combinations(pop, k), r, r + 1))[0])


def _r_random():
    c = _chooser["c"]
    if c is None:
        return _real_random["random"]()
    return (0.9, 0.1)[c.choose(2)]


def _r_sample(population, k, **kw):
    c = _chooser["c"]
    if c is None:
        return _real_random["sample"](population, k, **kw)
    pop = list(population)
    if k > len(pop) or k < 0:
        raise ValueError("Sample larger than population or is negative")
    import math
    n = math.comb(len(pop), k)
    # default: the most recent elements, so that index 0 is not an accident of order
    return _comb_unrank(pop, k, c.choose(n))


def _r_choice(seq):
    c = _chooser["c"]
    if c is None:
        return _real_random["choice"](seq)
    return seq[c.choose(len(seq))]


random.random = _r_random
random.sample = _r_sample
random.choice = _r_choice


def seed_all(seed=1):
    import numpy as np
    random.seed(seed)
    np.random.seed(seed % (2 ** 32))
    reset_ids()


# ------------------------------------------------------------ limits
class CaseTimeout(BaseException):
    pass


def _alarm(sig, frame):
    raise CaseTimeout()


@contextlib.contextmanager
def limit(seconds):
    """Abort code that does not come back (main thread only)."""
    if threading.current_thread() is not threading.main_thread():
        yield
        return
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def cap_memory(gb=4):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    except Exception:
        pass


@contextlib.contextmanager
def quiet():
    """Swallow prints of the code under test."""
    old = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = old


# ------------------------------------------------------------ import the code under test
import numpy  # noqa: E402,F401
import sklearn.cluster  # noqa: E402,F401
import sklearn.decomposition  # noqa: E402,F401
import sklearn.metrics.pairwise  # noqa: E402,F401
import sklearn.preprocessing  # noqa: E402,F401


def import_valori():
    """Compile valori from source (never from a stale .pyc), with locks under our control."""
    import importlib
    import pkgutil
    from . import sched                       # noqa: F401  (patches lock factories first)
    sys.pycache_prefix = "/nonexistent-pycache"
    try:
        import valori
        assert os.path.abspath(valori.__file__).startswith(os.path.abspath(SRC) + "/"), valori.__file__
        for m in pkgutil.walk_packages(valori.__path__, "valori."):
            try:
                importlib.import_module(m.name)
            except ImportError:
                pass
    finally:
        sys.pycache_prefix = None
    return valori
