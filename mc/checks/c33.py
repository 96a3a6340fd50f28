"""C33: logging writes every message once to every destination set up, and nothing else."""
import contextlib
import io
import itertools
import logging
import os
import re
import sys

from .. import env

env.import_valori()
from valori.utils import debugging, logging as L     # noqa: E402

LEVEL = "model_checking"
ASSUMPTIONS = ["the console is standard output (standard error for the debugging set-up)", "a logger's level is the one it was first requested with",
               "no other handlers than those of the library"]
BOUNDS = {"quick": "all sequences of up to 4 calls out of 8 set-ups (levels, formats, log files, none) and 6 logger requests (three nested names, levels), each followed by messages of all levels through every name and the nine log helpers; all sequences of 3 with messages in between; all sequences of up to 3 debugging set-ups; rotation for 5 sizes, 4 numbers of backups, 4 message lengths and up to 60 messages, with a new set-up half-way",
          "thorough": "sequences of up to 5, and 4 with messages in between; up to 200 messages"}
NAMES = ("app", "app.part", "valori")
LV = {"DEBUG": 10, "INFO": 20, "WARNING": 30, "ERROR": 40, "CRITICAL": 50}
TS = r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d"
FORMATS = {None: TS + r" - {name} - {level} - {msg}", "S": r"{level}\|{name}\|{msg}", "Y": r"\d{{4}}T {msg}"}
FORMATS[None] = FORMATS[None].replace("{4}", "{{4}}")
SETUPS = [{}, None, {"level": "DEBUG"}, {"level": "warning", "format": "S"}, {"level": "ERROR", "log_to_file": True, "log_file": "a/b/x.log"},
          {"log_to_file": True, "log_file": "y.log", "format": "S"}, {"level": "DEBUG", "log_to_file": True, "log_file": "a/b/x.log", "format": "Y"},
          {"log_to_file": False, "log_file": "z.log", "level": "LOUD"}]
GETS = [("app", "INFO"), ("app.part", "DEBUG"), ("app.part", "ERROR"), ("valori", "WARNING"), ("app", "debug"), ("valori", None)]
HELPERS = [("log_performance", ("fn", 1.5), {"extra": "e1"}, "valori.performance", 20, ["'fn'", "1.5", "'e1'"]),
           ("log_memory_usage", ("op1", 1048576, 3 * 1048576), {}, "valori.memory", 20, ["op1", "2.00 MB"]),
           ("log_memory_usage", ("op2", 3 * 1048576, 1048576 * 2), {}, "valori.memory", 20, ["op2", "-1.00 MB"]),
           ("log_vector_operation", ("op3", 7, 11), {"more": 13}, "valori.operations", 20, ["'op3'", "7", "11", "13"]),
           ("log_index_stats", ("flat", 17), {"trees": 19}, "valori.index", 20, ["'flat'", "17", "19"]),
           ("log_search_query", (23, 29, 31, 0.5), {}, "valori.search", 20, ["23", "29", "31", "0.5"]),
           ("log_error", (ValueError("wrong9"), "ctx"), {}, "valori.error", 40, ["ValueError", "wrong9", "ctx"]),
           ("log_warning", ("careful",), {"why": "w1"}, "valori.warning", 30, ["careful", "w1"]),
           ("log_warning", ("careful2",), {}, "valori.warning", 30, ["careful2"]),
           ("log_info", ("note1",), {"why": "w2"}, "valori.info", 20, ["note1", "w2"]),
           ("log_info", ("note2",), {}, "valori.info", 20, ["note2"]),
           ("log_debug", ("tiny1",), {"why": "w3"}, "valori.debug", 10, ["tiny1", "w3"])]


@contextlib.contextmanager
def clean():
    """Fresh logging state, console and folder."""
    root, man = logging.getLogger(), logging.Logger.manager
    keep = (root.handlers[:], root.level, dict(man.loggerDict), sys.stdout, sys.stderr, os.getcwd(), logging.lastResort)
    d = env.fresh_dir()
    os.chdir(d)
    root.handlers[:] = []
    root.setLevel(logging.WARNING)
    for n in list(man.loggerDict):
        if n.split(".")[0] in ("app", "valori", "other"):
            del man.loggerDict[n]
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    logging.lastResort = logging.NullHandler()
    try:
        yield d
    finally:
        for h in root.handlers + [h for x in man.loggerDict.values() for h in getattr(x, "handlers", [])]:
            if h not in keep[0]:
                with contextlib.suppress(Exception):
                    h.close()
        root.handlers[:] = keep[0]
        root.setLevel(keep[1])
        man.loggerDict.clear()
        man.loggerDict.update(keep[2])
        sys.stdout, sys.stderr, logging.lastResort = keep[3], keep[4], keep[6]
        for x in man.loggerDict.values():
            if hasattr(x, "_cache"):
                x._cache.clear()
        os.chdir(keep[5])
        env.drop_dir(d)


class Model:
    """What has been set up, as the documentation says it counts."""

    def __init__(self):
        self.setup, self.own = None, {}      # set-up in force; requested loggers: level

    def line(self, name):
        parts = name.split(".")
        return [".".join(parts[:i]) for i in range(len(parts), 0, -1)]

    def admitted(self, name, lvl):
        for n in self.line(name):
            if n in self.own:
                return lvl >= self.own[n]
        return lvl >= (self.setup["lvl"] if self.setup else 30)

    def console(self, name, lvl):
        """formats a line on the console may have, or nothing"""
        if not self.admitted(name, lvl):
            return []
        out = [self.setup["fmt"]] if self.setup and lvl >= self.setup["lvl"] else []
        if any(n in self.own and lvl >= self.own[n] for n in self.line(name)):
            out.append(FORMATS[None])
        return out

    def file(self, name, lvl):
        s = self.setup
        return s["file"] if s and s["file"] and self.admitted(name, lvl) and lvl >= s["lvl"] else None


def setup_of(i):
    c = SETUPS[i]
    if c is None:
        return None, {"lvl": 20, "fmt": FORMATS[None], "file": None}
    real = dict(c)
    f = real.get("format")
    if f == "S":
        real["format"] = "%(levelname)s|%(name)s|%(message)s"
    elif f == "Y":
        real["format"], real["date_format"] = "%(asctime)s %(message)s", "%YT"
    return real, {"lvl": LV.get(c.get("level", "INFO").upper(), 20), "fmt": FORMATS[f], "file": c["log_file"] if c.get("log_to_file") else None}


class World:
    def __init__(self, d):
        self.d, self.m, self.n = d, Model(), 0
        self.out = self.err = 0
        self.sizes = {}

    def news(self):
        """what was written since the last look"""
        s = sys.stdout.getvalue()
        r = {"out": s[self.out:]}
        self.out = len(s)
        s = sys.stderr.getvalue()
        r["err"] = s[self.err:]
        self.err = len(s)
        for base, _, fs in os.walk(self.d):
            for f in fs:
                p = os.path.relpath(os.path.join(base, f), self.d)
                b = open(os.path.join(base, f), "rb").read().decode()
                r[p] = b[self.sizes.get(p, 0):]
                self.sizes[p] = len(b)
        return r

    def apply(self, op):
        if op[0] == "setup":
            real, model = setup_of(op[1])
            keep = dict(real) if real is not None else None
            L.setup_logging(real) if real is not None or op[1] % 2 else L.setup_logging()
            if real != keep:
                return "set-up changed the configuration given: %r, was %r" % (real, keep)
            self.m.setup = model
            if model["file"] and not os.path.exists(os.path.join(self.d, model["file"])):
                return "no log file %s after set-up" % model["file"]
        elif op[0] == "get":
            name, lv = GETS[op[1]]
            g = L.get_logger(name, lv) if lv else L.get_logger(name)
            self.m.own.setdefault(name, LV[(lv or "INFO").upper()])
            if g is not logging.getLogger(name):
                return "get_logger(%r) is not the logger of that name" % name
        elif op[0] == "say":
            return self.say(op[1], op[2])
        elif op[0] == "help":
            return self.help(op[1])
        r = self.news()
        bad = {k: v for k, v in r.items() if v}
        return "%s wrote %r" % (op, bad) if bad else None

    def expect(self, name, lvl, bits, level):
        r = self.news()
        want = self.m.console(name, lvl)
        f = self.m.file(name, lvl)
        what = "message %r of %s at %s" % (bits, name, level)

        def one(text, formats, where):
            text = re.sub(r"(?m)^(NoneType: None|Traceback.*|  .*|ValueError: .*)\n", "", text) if name == "valori.error" else text
            lines = text.split("\n")
            if lines[-1] != "" or len(lines) != 2:
                return "%s: %s got %r, expected one line" % (what, where, text)
            for fm in formats:
                mm = re.fullmatch(fm.format(name=re.escape(name), level=level, msg="(.*)"), lines[0])
                if mm and all(b in mm.group(1) for b in bits):
                    return None
            return "%s: %s got %r, not in the format configured or without the values" % (what, where, text)
        for k, v in r.items():
            if k == "err" or (k == "out" and not want) or (k not in ("out", f)):
                if v:
                    return "%s: should not be written to %s, got %r" % (what, k, v)
        e = one(r["out"], want, "the console") if want else None
        if not e and f:
            e = one(r.get(f, ""), [self.m.setup["fmt"]], "the log file " + f)
        return e

    def say(self, name, level):
        self.n += 1
        msg = "m%dm" % self.n
        logging.getLogger(name).log(LV[level], msg)
        return self.expect(name, LV[level], [msg], level)

    def help(self, i):
        f, a, k, name, lvl, bits = HELPERS[i]
        getattr(L, f)(*a, **k)
        self.m.own.setdefault(name, 20)
        return self.expect(name, lvl, bits, {v: n for n, v in LV.items()}[lvl])


CHECKS = [["say", n, l] for n in NAMES + ("other", "app.part.deep") for l in LV] + [["help", i] for i in range(len(HELPERS))]


def history(hist, ctx, tail=True):
    case = {"hist": hist}
    with clean() as d:
        w = World(d)
        for i, op in enumerate(list(hist) + (CHECKS if tail else [])):
            e = w.apply(op)
            ctx.n("transitions")
            if e:
                ctx.violation("log-" + op[0], "after %s: %s" % (hist[:i], e), case)
                return
    ctx.n("states")
    ctx.n("traces_validated_against_impl")


# ---------------------------------------------------------------- debugging set-up
DSETUPS = [("INFO", None), ("debug", "d.log"), ("WARNING", "e.log")]


def debug_history(hist, ctx):
    case = {"debug": hist}
    with clean() as d:
        w = World(d)
        cur = None
        for i in hist:
            lv, f = DSETUPS[i]
            debugging.setup_logging(lv, f) if f else debugging.setup_logging(lv)
            cur = (LV[lv.upper()], f)
            for name in ("valori", "valori.index.flat", "other"):
                for level, v in LV.items():
                    msg = "m%s%dm" % (level, v)
                    logging.getLogger(name).log(v, msg)
                    r = w.news()
                    hit = name != "other" and v >= cur[0]
                    for k in set(r) | {"err", f or "err"}:
                        want = hit and k in ("err", f)
                        got = r.get(k, "")
                        ok = re.fullmatch(r".* - %s - %s - %s\n" % (re.escape(name), level, msg), got) if want else got == ""
                        ctx.n("transitions")
                        if not ok:
                            ctx.violation("debug-log", "debugging set-ups %s: message of %s at %s written to %s as %r, expected %s" % (
                                [DSETUPS[j] for j in hist], name, level, k, got, "one line" if want else "nothing"), case)
                            return
        ctx.n("states")
        ctx.n("traces_validated_against_impl")


# ---------------------------------------------------------------- rotation
def rotation(size, backups, length, count, again, ctx):
    case = {"rot": [size, backups, length, count, again]}
    with clean() as d:
        c = {"format": "%(message)s", "log_to_file": True, "log_file": "r.log", "max_file_size": size, "backup_count": backups}
        L.setup_logging(c)
        said = []
        for i in range(count):
            if again and i == count // 2:
                L.setup_logging(c)
            msg = ("%d-" % i).ljust(length[i % len(length)], "x")
            logging.getLogger("app").info(msg)
            said.append(msg)
            names = sorted(os.listdir(d), key=lambda f: -int(f.rsplit(".", 1)[1]) if f != "r.log" else 1)
            ctx.n("transitions")
            text = {f: open(os.path.join(d, f)).read() for f in names}
            got = "".join(text[f] for f in names).splitlines()
            full = sum(len(m) + 1 for m in said)
            bad = None
            if got != said[len(said) - len(got):]:
                bad = "the files hold %s, not the latest messages in order" % got
            elif not set(names) <= {"r.log"} | {"r.log.%d" % j for j in range(1, backups + 1)}:
                bad = "files %s" % names
            elif backups and size and any(len(t) > size for t in text.values() if t.count("\n") > 1):
                bad = "files of %s bytes" % {f: len(t) for f, t in text.items()}
            elif len(got) < len(said) and (not backups or not size or len(names) < backups + 1):
                bad = "messages lost although only %d files are there" % len(names)
            elif backups and size and len(names) > 1 and any(
                    len(text[a]) + len(text[b].split("\n", 1)[0]) + 1 < size for a, b in zip(names, names[1:]) if text[b]):
                bad = "rotated early: files of %s bytes" % {f: len(t) for f, t in text.items()}
            elif (not backups or not size) and names != ["r.log"]:
                bad = "files %s" % names
            if bad is not None:
                ctx.violation("rotation", "size %s, %s backups, after %d messages (%d bytes): %s" % (size, backups, len(said), full, bad), case)
                return
        if sys.stdout.getvalue().splitlines() != said:
            ctx.violation("rotation-console", "console: %r, messages %r" % (sys.stdout.getvalue(), said), case)
        ctx.n("states")
        ctx.n("traces_validated_against_impl")


# ---------------------------------------------------------------- jobs
OPS = [["setup", i] for i in range(len(SETUPS))] + [["get", i] for i in range(len(GETS))]
TALK = [["say", "app", "INFO"], ["say", "app.part", "ERROR"], ["say", "valori", "DEBUG"], ["help", 0], ["help", 6], ["help", 10]]


def jobs(tier):
    q = tier == "quick"
    out = [{"t": "seq", "first": a, "depth": 3 if q else 4, "tail": "all"} for a in OPS]
    out += [{"t": "seq4", "first": a} for a in OPS]
    out += [{"t": "mix", "first": a, "depth": 3 if q else 4} for a in OPS + TALK]
    out += [{"t": "debug", "depth": 3 if q else 5}]
    out += [{"t": "rot", "size": s, "count": 60 if q else 200} for s in (0, 30, 64, 100, 1000)]
    return out


def run_job(job, ctx):
    if job["t"] == "seq":
        for n in range(job["depth"]):
            for rest in itertools.product(OPS, repeat=n):
                history([job["first"]] + list(rest), ctx)
        if job["first"] == OPS[0]:
            history([], ctx)
    elif job["t"] == "seq4":
        for rest in itertools.product(OPS, repeat=3):
            history([job["first"]] + list(rest) + [CHECKS[i] for i in (1, 2, 6, 8, 11, 25, 31)], ctx, tail=False)
    elif job["t"] == "mix":
        for rest in itertools.product(OPS + TALK, repeat=job["depth"] - 1):
            history([job["first"]] + list(rest), ctx, tail=False)
    elif job["t"] == "debug":
        for n in range(1, job["depth"] + 1):
            for h in itertools.product(range(len(DSETUPS)), repeat=n):
                debug_history(list(h), ctx)
    else:
        for backups in (0, 1, 2, 5):
            for length in ([9], [20], [29], [5, 28, 12]):
                for again in (False, True):
                    rotation(job["size"], backups, length, job["count"], again, ctx)


def replay(case, ctx):
    if "rot" in case:
        rotation(*case["rot"], ctx)
    elif "debug" in case:
        debug_history(case["debug"], ctx)
    else:
        history(case["hist"], ctx, tail=True)
