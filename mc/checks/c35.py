"""C35: vector files and vectors made from texts and files keep every row with its own data."""
import contextlib
import io
import itertools
import json
import os
import pathlib

import numpy as np

from .. import doclib, env

env.import_valori()
from valori.exceptions import ValidationError                     # noqa: E402
from valori.utils import helpers                                  # noqa: E402

LEVEL = "model_checking"
ASSUMPTIONS = ["files are named with the suffix of their format; JSON metadata is what JSON can express",
               "the byte order of loaded numbers is not judged", "the embedding model is a stand-in, a fixed function of the text"]
BOUNDS = {"quick": "3 file formats by 42 arrays by 8 metadata lists; arrays of 7 memory layouts and of up to 70000 rows; all histories of up to 4 saves (2 files, 5 contents, 2 of them refused) per format; files to vectors: all sequences of up to 4 of 6 files; texts to vectors: all sequences of up to 3 of 5 texts",
          "thorough": "histories of up to 5 saves, file sequences of up to 5"}
SUFFIX = {"npz": ".npz", "pickle": ".pkl", "json": ".json"}


def same(r, x):
    return isinstance(r, np.ndarray) and r.shape == x.shape and r.dtype.newbyteorder("=") == x.dtype.newbyteorder("=") and np.array_equal(r, x, equal_nan=x.dtype.kind == "f")


class Unsavable:
    def __reduce__(self):
        raise TypeError("not to be saved")


def content(i):
    if i == "tiny":
        return np.array([[1, 2]], "float32"), [{"only": 1}]
    if i == "wide":
        return np.arange(60, dtype="float64").reshape(3, 20) / 7, [{"r": j, "t": "x" * 40} for j in range(3)]
    if i == "empty":
        return np.zeros((0, 4), "int8"), []
    if i == "refused":
        return np.ones((2, 2)), [{"a": 1}, {"b": Unsavable()}]
    return np.ones((500, 8)), [{"n": j} for j in range(499)] + [{"b": {"c": [Unsavable()]}}]       # refused-late


OPS = [(f, c) for f in (0, 1) for c in ("tiny", "wide", "empty", "refused", "refused-late")]


def history(fmt, hist, ctx):
    """Each file holds what was last saved in it, whatever was refused meanwhile."""
    d = env.fresh_dir("h")
    case = {"fmt": fmt, "hist": hist}
    now = {}
    for n, i in enumerate(hist):
        f, c = OPS[i]
        x, m = content(c)
        ctx.n("transitions")
        try:
            helpers.save_vectors_to_file(x, m, os.path.join(d, "v%d%s" % (f, SUFFIX[fmt])), format=fmt)
            if c.startswith("refused"):
                ctx.violation("history-accepted", "metadata that cannot be saved is accepted as %s" % fmt, case)
            now[f] = c
        except Exception as e:
            if not c.startswith("refused"):
                ctx.violation("history-refused", "%s: %r" % ([OPS[j] for j in hist[:n + 1]], e), case)
        for g, c in now.items():
            x, m = content(c)
            try:
                r, rm = helpers.load_vectors_from_file(os.path.join(d, "v%d%s" % (g, SUFFIX[fmt])))
            except Exception as e:
                r, rm = None, repr(e)
            if not same(r, x) or rm != m:
                ctx.violation("history", "after the saves %s the file %d holds %s, %s, last saved there: %s" % ([OPS[j] for j in hist[:n + 1]], g, r, rm, c), case)
                env.drop_dir(d)
                return
    ctx.n("states")
    env.drop_dir(d)


def job_history(job, ctx):
    for n in range(0, job["most"]):
        for rest in itertools.product(range(len(OPS)), repeat=n):
            history(job["format"], [job["first"]] + list(rest), ctx)
    ctx.outcome(job["format"])


def job_layouts(job, ctx):
    d = env.fresh_dir("f")
    a = np.arange(24, dtype="float32").reshape(6, 4) / 3
    ro = a.copy()
    ro.flags.writeable = False
    arrays = {"transposed": a.T, "strided": a[::2, 1:3], "reversed": a[::-1], "fortran": np.asfortranarray(a), "read-only": ro, "big-endian": a.astype(">f4"), "float16": a.astype("float16"),
              "extreme": np.array([[np.finfo("float32").max, np.finfo("float32").tiny, 1e-45, -0.0]], "float32"), "extreme64": np.array([[np.finfo("float64").max, 5e-324, 0.1, 1 / 3]]),
              "int64": np.array([[2 ** 63 - 1, -2 ** 63, 2 ** 53 + 1]]), "uint64": np.array([[2 ** 64 - 1, 0]], "uint64"), "one row of many": np.linspace(-1, 1, 5000, dtype="float32").reshape(1, -1),
              "1000 rows": np.arange(3000.0).reshape(1000, 3), "1001 rows": np.arange(3003.0).reshape(1001, 3), "70000 rows": np.arange(70000, dtype="int32").reshape(-1, 1)}
    for fmt, suffix in SUFFIX.items():
        for name, x in arrays.items():
            m = [{"row": i} for i in range(len(x))]
            p = os.path.join(d, "v" + suffix)
            ctx.n("transitions", 2)
            ctx.n("states")
            try:
                helpers.save_vectors_to_file(x, m, p, format=fmt)
                r, rm = helpers.load_vectors_from_file(p)
            except Exception as e:
                ctx.violation("layout-error-" + fmt, "%s %s: %r" % (fmt, name, e), {"job": job})
                continue
            if not same(r, x) or rm != m or x.size < 30 and [str(v) for v in r.ravel()] != [str(v) for v in x.ravel()]:
                ctx.violation("layout-" + fmt, "%s %s: saved %s (%s), loaded %s (%s)" % (fmt, name, x, x.dtype, r, r.dtype), {"job": job})
    env.drop_dir(d)
    ctx.outcome("layouts")


METADATA = [[], [{"a": 1}], [{"a": 1}, {}], [{"t": "\u00e9 \u4e2d \U0001f600 \"q\" \n"}, {"n": None, "b": True, "f": 0.1, "l": [1, [2, {"x": "y"}]]}], [{"i": i} for i in range(5)], [{}, {}], [{"same": 1}] * 3, None]


def job_files(job, ctx):
    d = env.fresh_dir("f")
    fmt = job["format"]
    n = 0
    for dt in ("float32", "float64", "float16", "int64", "int8", "uint8", "bool"):
        for arr in ([[1.5, -2], [0, 3]], np.zeros((0, 3)), np.zeros((0, 0)), np.zeros((3, 0)), [[0.1]], [[1e-8, 3.3e8], [float("nan"), float("inf")], [-0.0, 7]]):
            if dt[0] != "f" and np.asarray(arr).size > 1 or dt == "float16" and np.asarray(arr).size == 6:
                arr = [[1, 100], [3, 7], [0, 1]]
            x = np.array(arr, dtype=dt)
            for meta in METADATA:
                for suffix in {"npz": [".npz"], "pickle": [".pkl", ".pickle"], "json": [".json"]}[fmt]:
                    for as_path in (0, 1):
                        n += 1
                        p = os.path.join(d, "v%d%s" % (n % 7, suffix))
                        keep, kmeta = x.copy(), json.dumps(meta)
                        kw = {} if fmt == "npz" and n % 2 else {"format": fmt}
                        case = {"job": job}
                        what = "%s array %s of %s, metadata %s" % (fmt, x.shape, dt, meta)
                        ctx.n("transitions", 2)
                        try:
                            helpers.save_vectors_to_file(x, meta, pathlib.Path(p) if as_path else p, **kw)
                            r, m = helpers.load_vectors_from_file(p if as_path else pathlib.Path(p))
                        except Exception as e:
                            ctx.violation("file-error-" + fmt, "%s: %r" % (what, e), case)
                            continue
                        if not isinstance(r, np.ndarray) or r.shape != x.shape or r.dtype != x.dtype or not np.array_equal(r, x, equal_nan=dt[0] == "f"):
                            ctx.violation("file-vectors-" + fmt, "%s: reads back as %s %s %s" % (what, r.shape, r.dtype, r.tolist()), case)
                        if json.dumps(m) != kmeta or type(m) is not type(meta):
                            ctx.violation("file-metadata-" + fmt, "%s: reads back as %r" % (what, m), case)
                        if not np.array_equal(x, keep, equal_nan=dt[0] == "f") or json.dumps(meta) != kmeta:
                            ctx.violation("file-mutated", what, case)
            ctx.n("states")
            ctx.outcome((fmt, dt, x.shape))
    for f in ("csv", "NPZ", "", "pkl"):
        before = sorted(os.listdir(d))
        p = os.path.join(d, "u." + (f or "x"))
        ctx.n("transitions")
        try:
            helpers.save_vectors_to_file(np.zeros((1, 2)), [{}], p, format=f)
            ctx.violation("file-unknown", "an unknown format %r is accepted" % f, {"job": job})
        except ValidationError:
            if sorted(os.listdir(d)) != before:
                ctx.violation("file-unknown-left", "an unknown format leaves %s" % os.listdir(d), {"job": job})
    for f in ("x.csv", "x", "x.npz.bak"):
        open(os.path.join(d, f), "w").write("1,2")
        try:
            r = helpers.load_vectors_from_file(os.path.join(d, f))
            ctx.violation("file-unknown-load", "%s loads as %r" % (f, r), {"job": job})
        except ValidationError:
            pass
    env.drop_dir(d)


def job_create(job, ctx):
    """Vectors out of texts and files: a row for each that can be read, with its own metadata."""
    d = env.fresh_dir("f")
    files = {"a.txt": b"Alpha text. With words", "b.md": b"# Beta\n\nmore", "gone.txt": None, "bad.pdf": b"%PDF-1.4 broken", "c.txt": "Gr\u00fc\u00dfe  an   alle".encode(), "x.unknown": b"\x00\x01"}
    for f, b in files.items():
        if b is not None:
            open(os.path.join(d, f), "wb").write(b)
    lib = dict(doclib.NO_DOCLING)
    lib["sentence_transformers"] = doclib.fake_sentence_transformers()
    case = {"job": job}
    single = {}
    with doclib.modules(lib), contextlib.redirect_stdout(io.StringIO()):
        for f in files:
            v, m = helpers.create_vectors_from_files([os.path.join(d, f)])
            if len(v) != len(m) or v.ndim != 2 or len(v) > 1 or (len(v) == 1) != (f in ("a.txt", "b.md", "c.txt")):
                ctx.violation("create-one", "%s: %d vectors, %d metadata, shape %s" % (f, len(v), len(m), v.shape), case)
            single[f] = (v, m)
        for n in range(0, job["most"] + 1):
            for t in itertools.product(files, repeat=n):
                ctx.n("transitions")
                ctx.n("states")
                try:
                    v, m = helpers.create_vectors_from_files([os.path.join(d, f) for f in t])
                except Exception as e:
                    ctx.violation("create-error", "%s: %r" % (t, e), case)
                    continue
                wv = [x for f in t for x in single[f][0]]
                wm = [x for f in t for x in single[f][1]]
                if v.ndim != 2 or len(v) != len(wv) or any(not np.array_equal(a, b) for a, b in zip(v, wv)) or doclib.plain(m) != doclib.plain(wm):
                    ctx.violation("create-rows", "%s: %d vectors with metadata %s, expected %d with %s" % (t, len(v), m, len(wv), wm), case)
        for n in range(0, 4):
            for t in itertools.product(["", "one", "two words", "\u00e9", "one "], repeat=n):
                for bs in (1, 2, 32):
                    ctx.n("transitions")
                    v, m = helpers.create_vectors_from_text(list(t), batch_size=bs)
                    if v.dtype != np.float32 or len(v) != n or len(m) != n or any(not np.array_equal(v[i], doclib.raw_vector(x)) for i, x in enumerate(t)) \
                            or any(m[i]["text"] != x or m[i]["text_length"] != len(x) or m[i]["embedding_dimension"] != doclib.DIM for i, x in enumerate(t)):
                        ctx.violation("create-text", "%s: %s, %s" % (t, v.tolist(), m), case)
    with doclib.modules({"sentence_transformers": None}):
        try:
            r = helpers.create_vectors_from_text(["a"])
            ctx.violation("create-missing", "without the library: %r" % (r,), case)
        except ValidationError:
            pass
    ctx.outcome("create")
    env.drop_dir(d)


def jobs(tier):
    q = tier == "quick"
    out = [{"j": "files", "format": f} for f in SUFFIX] + [{"j": "layouts"}]
    out += [{"j": "history", "format": f, "first": i, "most": 4 if q else 5} for f in SUFFIX for i in range(len(OPS))]
    return out + [{"j": "create", "most": 4 if q else 5}]


def run_job(job, ctx):
    globals()["job_" + job["j"]](job, ctx)
    ctx.n("traces_validated_against_impl", ctx.counts.get("transitions", 0))


def replay(case, ctx):
    if "hist" in case:
        history(case["fmt"], case["hist"], ctx)
    else:
        run_job(case["job"], ctx)
