"""Crash points, torn files and injected I/O errors, enumerated from the file-system events of real code.

Crash model: the process dies; what reached the files stays, in order.  A crash can fall before any
mutating file-system call and, between two such calls, after any prefix of the bytes written.
"""
import errno
import itertools
import os
import resource
import signal

from . import env
from .explore import digest, put_tree, tree


class Snap:
    def __init__(self, kind, rels, t):
        self.kind, self.rels, self.tree = kind, rels, t
        self.what = " ".join([kind] + rels)


def watched(fn, root):
    """run fn(); returns (result, exception, [Snap before each mutating event] + [Snap at return])"""
    snaps = []

    def see(kind, paths, w):
        if not w or not paths or not any(p is not None and p.startswith(root) for p in paths):
            return
        snaps.append(Snap(kind, [os.path.relpath(p, root) for p in paths], tree(root)))
    res = exc = None
    with env.fs_listener(see):
        try:
            res = fn()
        except Exception as e:
            exc = e
    snaps.append(Snap("return", [], tree(root)))
    return res, exc, snaps


def effect(s, nxt):
    """the tree right after the call a snapshot was taken before"""
    t = dict(s.tree)
    if s.kind in ("open-t", "open-w", "os.rename", "os.link") and s.rels[-1] not in nxt:
        return t                              # the call failed
    if s.kind == "open-t" or (s.kind == "open-w" and s.rels[0] not in t):
        t[s.rels[0]] = b""
    elif s.kind == "os.rename":
        a, b = s.rels
        if a in t:
            t[b] = t.pop(a)
        elif a + "/" in t:
            for k in list(t):
                if k.startswith(a + "/"):
                    t[b + k[len(a):]] = t.pop(k)
    elif s.kind == "os.remove":
        t.pop(s.rels[0], None)
    elif s.kind == "os.mkdir":
        t[s.rels[0] + "/"] = None
    elif s.kind == "os.rmdir":
        t.pop(s.rels[0] + "/", None)
    elif s.kind in ("os.link",):
        if s.rels[0] in t:
            t[s.rels[1]] = t[s.rels[0]]
    return t


def lens(a, b, fine):
    """write positions from a (inclusive) to b (exclusive)"""
    n = b - a
    if n <= 0:
        return []
    if fine and n <= 700:
        return list(range(a, b))
    if fine:
        return sorted(set(list(range(a, a + 80)) + list(range(a + 80, b - 80, 41)) + list(range(b - 80, b))))
    return sorted({a, a + 1, a + n // 3, a + 2 * n // 3, b - 1} & set(range(a, b)))


def torn(base, nxt, fine):
    """trees strictly between a tree and a later one with nothing but writes in between"""
    changed = [k for k in sorted(set(base) | set(nxt)) if base.get(k, 0) != nxt.get(k, 0) and isinstance(nxt.get(k), bytes)]
    if not changed:
        return
    if len(changed) == 1:
        k = changed[0]
        new, old = nxt[k], base.get(k) or b""
        rest = {x: nxt[x] for x in nxt if x != k}
        if new.startswith(old):
            for n in lens(len(old), len(new), fine):
                yield "torn %s at %d" % (k, n), dict(rest, **{k: new[:n]})
        else:
            for n in lens(1, max(len(new), len(old)), False):
                yield "overwritten %s to %d" % (k, n), dict(rest, **{k: new[:n] + old[n:]})
        return
    opts = []
    for k in changed[:4]:
        new, old = nxt[k], base.get(k)
        o = [("old", old), ("new", new)]
        if new and not old:
            o += [("half", new[:len(new) // 2])]
        opts.append([(k,) + x for x in o])
    for combo in itertools.product(*opts):
        t = dict(nxt)
        for k, w, b in combo:
            if b is None:
                t.pop(k, None)
            else:
                t[k] = b
        yield "torn " + ",".join("%s=%s" % (k, w) for k, w, b in combo), t


def crash_trees(snaps, fine):
    """(description, tree, returned?) without repeats"""
    seen = set()

    def new(t):
        d = digest(sorted(t.items()))
        if d in seen:
            return False
        seen.add(d)
        return True

    for i, s in enumerate(snaps):
        if i:
            base = effect(snaps[i - 1], s.tree)
            if new(base):
                yield "after " + snaps[i - 1].what, base, False
            for what, t in torn(base, s.tree, fine):
                if new(t):
                    yield what, t, False
        if i == len(snaps) - 1:
            yield s.what, s.tree, True
        elif new(s.tree):
            yield "before " + s.what, s.tree, False


class Inject:
    """raise at the i-th file-system event (and, if `stuck`, at every later one)"""

    def __init__(self, root, at=None, stuck=False, err=errno.EIO, reads=True):
        self.root, self.at, self.stuck, self.err, self.reads = root, at, stuck, err, reads
        self.n = 0
        self.fired = None

    def __call__(self, kind, paths, w):
        if not paths or paths[0] is None or not paths[0].startswith(self.root):
            return
        if not w and not self.reads:
            return
        i = self.n
        self.n += 1
        if self.at is not None and (i == self.at or (self.stuck and i > self.at)):
            self.fired = "%s %s" % (kind, os.path.relpath(paths[0], self.root))
            raise OSError(self.err, os.strerror(self.err), paths[0])


class small_files:
    """no file can grow beyond n bytes while this is active (a full disk, seen as a failing write)"""

    def __init__(self, n):
        self.n = n

    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
        self.sig = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.n, self.old[1]))

    def __exit__(self, *a):
        resource.setrlimit(resource.RLIMIT_FSIZE, self.old)
        signal.signal(signal.SIGXFSZ, self.sig)


def in_tree(t, fn):
    """fn(dir) on a fresh copy of a tree"""
    d = env.fresh_dir("t")
    try:
        put_tree(t, d)
        return fn(d)
    finally:
        env.drop_dir(d)
