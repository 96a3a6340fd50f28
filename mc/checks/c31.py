"""C31: every component refuses work outside its open lifetime, and restarts as a new one would."""
import contextlib
import itertools
import os
import shutil
import tempfile

import numpy as np

from .. import doclib, env
from ..explore import deep, tree

env.import_valori()
from valori.client import VectorDBClient                          # noqa: E402
from valori.exceptions import ParsingError, PersistenceError, ProcessingError, QuantizationError, StorageError, ValoriError, ValoriIndexError   # noqa: E402
from valori.indices import AnnoyIndex, FlatIndex, HNSWIndex, IVFIndex, LSHIndex   # noqa: E402
from valori.parsers import ParserRegistry, PDFParser, TextParser  # noqa: E402
from valori.parsers.docling_parser import DoclingParser           # noqa: E402
from valori.parsers.office_parser import OfficeParser             # noqa: E402
from valori.persistence import IncrementalPersistence, TensorPersistence   # noqa: E402
from valori.processors import ProcessingPipeline                  # noqa: E402
from valori.processors.chunking import ChunkingProcessor          # noqa: E402
from valori.processors.cleaning import CleaningProcessor          # noqa: E402
from valori.processors.embedding import EmbeddingProcessor        # noqa: E402
from valori.quantization import ProductQuantizer, SAQQuantizer, ScalarQuantizer   # noqa: E402
from valori.storage import DiskStorage, HybridStorage, MemoryStorage              # noqa: E402
from valori.storage.base import StorageBackend                    # noqa: E402

LEVEL = "model_checking"
ASSUMPTIONS = ["counters of the work a component has done (saves, texts, cache hits) may go on counting in its next life",
               "reports outside the open lifetime may be answered or refused with the component's error", "initialising an open component is not judged",
               "stand-ins for the embedding and docling libraries"]
BOUNDS = {"quick": "55 components (4 storages; 5 indexes over memory and disk; 3 quantizers; 4 persistence managers; cleaning, chunking, 3 embeddings, pipeline, registry and 4 parsers; 15 clients, and 4 with a quantizer and persistence); all histories of two lives: with at most one call in each life, all combinations of what precedes them (nothing, every call refused, close, a failing initialise, and their sequences), everything at once before the second life with at most two calls in the first life and one in the second, or two where the component has no more than three",
          "thorough": "at most two calls in the second life throughout, or three"}
COUNTERS = {"save_count", "load_count", "texts_processed", "embeddings_generated", "cache_hits", "cache_hit_rate", "cache_size", "disk_usage_mb",
            "chunks_created", "total_characters_processed", "average_chunk_size", "documents_processed", "total_characters_before", "total_characters_after", "characters_removed",
            "segmentation_time", "quantization_time", "processing_time", "timestamp"}
VARY = {"max_level", "levels", "cluster_stats", "disk_usage_bytes", "memory"}      # random, or depending on the order of a directory
V = np.array([[1, 2, 3], [-1, 0, 4], [2, -2, 0.5]], "float32")
T = np.array([[0, 1, 2, 3], [1, 0, 3, 2], [4, 4, 0, 0], [2, 2, 1, 5]], "float32")


class Broken(StorageBackend):
    """A storage that cannot be used."""

    def __init__(self):
        super().__init__({})

    def _no(self, *a, **k):
        raise StorageError("injected")
    initialize = store_vector = update_vector = delete_vector = retrieve_vector = list_vectors = get_stats = _no

    def close(self):
        pass


def plain(o, d):
    """A result without directories and counters, comparable."""
    if isinstance(o, dict):
        return {k: plain(v, d) for k, v in o.items() if k not in COUNTERS}
    if isinstance(o, (list, tuple)):
        return type(o)(plain(v, d) for v in o) if type(o) in (list, tuple) else repr(o)
    if isinstance(o, str):
        return o.replace(d, "DIR")
    return o


class Part:
    """One kind of component: how to make it, open it, use it and make opening it fail."""
    err = ValoriError
    calls = ()                       # calls that need an open component
    soft = ("stats",)                # reports, which may also answer outside
    mods = {}

    def __init__(self, c, d):
        self.c, self.d = c, d
        self.ids = []
        self.last = {}
        self.x = self.make()

    def open(self):
        self.x.initialize()

    def close(self):
        self.x.close()

    def fail(self):
        """Try to open where that cannot work; False when there is no way."""
        return False

    def stats(self):
        return self.x.get_stats()

    def done(self):
        pass


class Store(Part):
    err = StorageError
    calls = ("put", "put2", "change", "delete", "get", "list")

    def make(self):
        c = {"data_dir": os.path.join(self.d, "s")}
        k = self.c["kind"]
        return MemoryStorage({}) if k == "memory" else DiskStorage(c) if k == "disk" else HybridStorage({"memory_limit": self.c["limit"], "disk": c})

    def put(self):
        return self.x.store_vector("a", V[0].copy(), {"m": 1})

    def put2(self):
        return self.x.store_vector("b", V[1].copy(), None)

    def change(self):
        return self.x.update_vector("a", V[2].copy(), {"m": 2})

    def delete(self):
        return self.x.delete_vector("a")

    def get(self):
        return self.x.retrieve_vector("a"), self.x.retrieve_vector("b")

    def list(self):
        return sorted(self.x.list_vectors())

    def fail(self):
        return self.c["kind"] != "memory" and blocked(os.path.join(self.d, "s"), self.open)


def blocked(path, f):
    """A call of f while a file is in the way of the directory path."""
    def g():
        away = path + ".away"
        had = os.path.exists(path)
        if had:
            os.rename(path, away)
        open(path, "w").close()
        try:
            f()
        finally:
            os.unlink(path)
            if had:
                os.rename(away, path)
    return g


class Ind(Part):
    err = ValoriIndexError
    CLS = {"flat": FlatIndex, "hnsw": HNSWIndex, "ivf": IVFIndex, "lsh": LSHIndex, "annoy": AnnoyIndex}
    CONF = {"flat": {"metric": "euclidean"}, "hnsw": {"metric": "euclidean"}, "ivf": {"metric": "euclidean", "n_clusters": 2, "n_probes": 2}, "lsh": {"num_hash_tables": 4, "hash_size": 3, "threshold": 0.0, "metric": "euclidean"},
            "annoy": {"metric": "euclidean", "num_trees": 3}}

    def __init__(self, c, d):
        self.calls = ("insert", "insert2", "search", "delete", "update") + (("add", "remove") if c["kind"] in ("lsh", "annoy") else ()) + (("build", "save", "load") if c["kind"] == "annoy" else ())
        super().__init__(c, d)

    def make(self):
        self.storage = MemoryStorage({}) if self.c["store"] == "memory" else DiskStorage({"data_dir": os.path.join(self.d, "s")})
        self.storage.initialize()
        if self.c["kind"] == "annoy":                # a file saved by another index
            p = os.path.join(self.d, "other.ann")
            if not os.path.exists(p):
                o = AnnoyIndex({"metric": "angular", "num_trees": 2})
                o.initialize()
                o.insert(V.copy(), [{}] * 3)
                o.build()
                o.save(p)
                o.close()
        return self.CLS[self.c["kind"]](dict(self.CONF[self.c["kind"]]))

    def open(self):
        self.x.initialize(self.storage)

    def insert(self):
        r = self.x.insert(V[:1] + len(self.ids) / 3, [{"m": len(self.ids)}])
        self.ids += r
        return r

    def insert2(self):
        r = self.x.insert(V[1:] + len(self.ids) / 7, [{"m": 5}, None])
        self.ids += r
        return r

    def add(self):
        return self.x.add(V[:1].copy(), [{"m": 6}])

    def remove(self):
        return self.x.remove([0])

    def search(self):
        return [self.hits(V[0] + 0.25, 2), self.hits(V[1], 5)]

    def hits(self, q, k):
        return sorted(((str(h["id"]), round(float(h["distance"]), 4), h.get("metadata")) for h in self.x.search(q, k)), key=repr)

    def delete(self):
        return self.x.delete([str(self.ids[0]) if self.ids else "0"])

    def update(self):
        return self.x.update(str(self.ids[-1]) if self.ids else "0", V[2] + 1 + len(self.ids) / 9, {"m": 9})

    def build(self):
        return self.x.build()

    def save(self):
        return self.x.save(os.path.join(self.d, "mine.ann"))

    def load(self):
        return self.x.load(os.path.join(self.d, "other.ann"))

    def stats(self):
        s = self.x.get_stats()
        return {k: v for k, v in s.items() if k not in VARY}

    def fail(self):
        if self.c["kind"] in ("lsh", "annoy"):
            return False
        return lambda: self.x.initialize(Broken())

    def done(self):
        self.storage.close()


class Quant(Part):
    err = QuantizationError

    def __init__(self, c, d):
        self.calls = ("train", "train2", "quantize", "dequantize", "distance") + (("rescore",) if c["kind"] == "saq" else ())
        super().__init__(c, d)

    def make(self):
        k = self.c["kind"]
        return {"scalar": ScalarQuantizer, "product": ProductQuantizer, "saq": SAQQuantizer}[k]({"scalar": {"bits": 8}, "product": {"m": 2, "k": 3}, "saq": {"total_bits": 16, "n_segments": 2, "rescore_top_k": 2}}[k])

    def train(self):
        return self.x.train(T.copy())

    def train2(self):
        return self.x.train(T[::-1] * 2 + 1)

    def quantize(self):
        return self.x.quantize(T[1:3] + 0.25)

    def dequantize(self):
        return self.x.dequantize(self.x.quantize(T[:2]))

    def distance(self):
        return self.x.compute_distance(T[0].copy(), self.x.quantize(T[1:])) if self.c["kind"] != "x" else None

    def rescore(self):
        return self.x.search_with_rescoring(T[0].copy(), self.x.quantize(T), T.copy(), 2)


class Persist(Part):
    err = PersistenceError
    calls = ("save_state", "save_other", "load_state", "save_vectors", "load_vectors", "save_index", "load_index")

    def make(self):
        c = {"data_dir": os.path.join(self.d, "p"), **self.c["conf"]}
        return (TensorPersistence if self.c["kind"] == "tensor" else IncrementalPersistence)(c)

    def save_state(self):
        return self.x.save_state({"n": [1, {"x": None}]}, "one")

    def save_other(self):
        return self.x.save_state({"n": "other"}, "one")

    def load_state(self):
        return self.x.load_state("one")

    def save_vectors(self):
        return self.x.save_vectors(V.copy(), ["a", "b", "c"], "two")

    def load_vectors(self):
        return self.x.load_vectors("two")

    def save_index(self):
        return self.x.save_index({"k": 3}, "three")

    def load_index(self):
        return self.x.load_index("three")

    def stats(self):
        s = dict(self.x.get_stats())
        s.pop("disk_usage_bytes", None)              # the time a record is written is in it
        return s

    def fail(self):
        return blocked(os.path.join(self.d, "p"), self.open)


TEXT = "  The <b>first</b> sentence of it.  The second one, which is longer. A third! " * 3


class Proc(Part):
    err = ProcessingError
    LIBS = {"sentence_transformers": (doclib.fake_sentence_transformers, ["sentence_transformers"]), "openai": (doclib.fake_openai, ["openai"]), "huggingface": (doclib.fake_transformers, ["transformers"])}

    def __init__(self, c, d):
        self.calls = ("process", "process2") + (("batch",) if c["kind"] in self.LIBS else ())
        self.soft = ("stats",) + (("dimension",) if c["kind"] in self.LIBS else ())
        super().__init__(c, d)

    def make(self):
        k = self.c["kind"]
        if k == "cleaning":
            return CleaningProcessor({"remove_html": True, "normalize_whitespace": True, "lowercase": True, "remove_stopwords": True})
        if k == "chunking":
            return ChunkingProcessor({"strategy": self.c["strategy"], "chunk_size": 60, "chunk_overlap": 10, "min_chunk_size": 5})
        return EmbeddingProcessor({"model_type": k, "model_name": "m", "cache_embeddings": self.c.get("cache", True)})

    def stats(self):
        s = self.x.get_stats()
        return {k: v for k, v in s.items() if k != "compression_ratio"}

    def process(self):
        return self.x.process({"text": TEXT, "chunks": [{"text": "one"}, {"text": "two"}]} if self.c["kind"] in self.LIBS else {"text": TEXT})

    def process2(self):
        return self.x.process({"text": "another text entirely. Of two sentences, for it to be longer.", "metadata": {"x": 1}})

    def batch(self):
        return self.x.batch_process(["one", "three", "one"])

    def dimension(self):
        return self.x.get_embedding_dimension()

    def fail(self):
        k = self.c["kind"]
        if k not in self.LIBS:
            return False

        def f():
            with doclib.modules({n: None for n in self.LIBS[k][1]}):
                self.open()
        return f


class Pipe(Part):
    err = ProcessingError
    calls = ("document", "text", "batch")
    soft = ("formats", "info")

    def make(self):
        for n, b in (("a.txt", TEXT.encode()), ("b.pdf", doclib.pdf_bytes(["Page one.", "Page two."]))):
            if not os.path.exists(os.path.join(self.d, n)):
                open(os.path.join(self.d, n), "wb").write(b)
        return ProcessingPipeline({"parsers": {"text": {}, "pdf": {}}, "processors": {"cleaning": {"remove_html": True}, "chunking": {"chunk_size": 60, "chunk_overlap": 10, "min_chunk_size": 5}, "embedding": {"model_name": "m"}}})

    def document(self):
        return self.x.process_document(os.path.join(self.d, "a.txt"))

    def text(self):
        return self.x.process_text("some text", {"k": 1})

    def batch(self):
        return self.x.batch_process_documents([os.path.join(self.d, n) for n in ("a.txt", "b.pdf")])

    def formats(self):
        return sorted(self.x.get_supported_formats())

    def info(self):
        return self.x.get_pipeline_info()

    def fail(self):
        def f():
            with doclib.modules({"sentence_transformers": None}):
                self.open()
        return f


class Registry(Part):
    err = ParsingError
    calls = ("parse", "parse_pdf", "find")
    soft = ("formats", "info")

    def make(self):
        for n, b in (("a.txt", TEXT.encode()), ("b.pdf", doclib.pdf_bytes(["Page one.", "Page two."]))):
            if not os.path.exists(os.path.join(self.d, n)):
                open(os.path.join(self.d, n), "wb").write(b)
        return ParserRegistry({"parsers": {"text": {}, "pdf": {}, "docling": {}}})

    def parse(self):
        return self.x.parse_document(os.path.join(self.d, "a.txt"))

    def parse_pdf(self):
        return self.x.parse_document(os.path.join(self.d, "b.pdf"))

    def find(self):
        p = self.x.get_parser(os.path.join(self.d, "a.txt"))
        return type(p).__name__, p.parse(os.path.join(self.d, "a.txt"))

    def formats(self):
        return sorted(self.x.get_supported_formats())

    def info(self):
        return self.x.get_parser_info()


class Parser(Part):
    err = ParsingError
    calls = ("parse", "parse2")
    ALL = {"text": (TextParser, None), "pdf": (PDFParser, "PyPDF2"), "office": (OfficeParser, "docx"), "docling": (DoclingParser, "docling")}

    def make(self):
        k = self.c["kind"]
        two = {"text": (TEXT.encode(), "é\n\nx".encode()), "pdf": (doclib.pdf_bytes(["Page one."]), doclib.pdf_bytes(["Other", "Two"])), "docling": (b"x", b"y"),
               "office": (doclib.docx_bytes([("p", "A."), ("t", [["a", "b"]])]), doclib.xlsx_bytes([("S", [["a", 1]])]))}[k]
        ext = {"text": (".txt", ".md"), "pdf": (".pdf", ".pdf"), "docling": (".pdf", ".docx"), "office": (".docx", ".xlsx")}[k]
        self.paths = [os.path.join(self.d, "f%d%s" % (i, ext[i])) for i in (0, 1)]
        for p, b in zip(self.paths, two):
            if not os.path.exists(p):
                open(p, "wb").write(b)
        return self.ALL[k][0]({})

    def parse(self):
        return self.x.parse(self.paths[0])

    def parse2(self):
        return self.x.parse(self.paths[1])

    def fail(self):
        m = self.ALL[self.c["kind"]][1]
        if m is None:
            return False

        def f():
            with doclib.modules({m: None}):
                self.open()
        return f


class Client(Part):
    calls = ("insert", "insert2", "search", "delete", "update")
    soft = ("stats",)

    def make(self):
        k, s = self.c["kind"], self.c["store"]
        c = {"data_dir": os.path.join(self.d, "s")}
        st = MemoryStorage({}) if s == "memory" else DiskStorage(c) if s == "disk" else HybridStorage({"memory_limit": 2, "disk": c})
        kw = {}
        if self.c.get("full"):
            kw = {"quantizer": ScalarQuantizer({"bits": 8}), "persistence_manager": TensorPersistence({"data_dir": os.path.join(self.d, "p")}) if k != "flat" else IncrementalPersistence({"data_dir": os.path.join(self.d, "p")})}
        return VectorDBClient(st, Ind.CLS[k](dict(Ind.CONF[k])), **kw)

    insert, insert2, search, hits, delete, update = Ind.insert, Ind.insert2, Ind.search, Ind.hits, Ind.delete, Ind.update

    def parts(self):
        return [(self.x.storage_backend, lambda: self.x.storage_backend.list_vectors()), (self.x.index, lambda: self.x.index.search(V[0], 1))] + (
            [(self.x.quantizer, lambda: self.x.quantizer.train(T.copy())), (self.x.persistence_manager, lambda: self.x.persistence_manager.load_state("x"))] if self.c.get("full") else [])

    def closed(self):
        for part, f in self.parts():
            try:
                f()
            except ValoriError:
                continue
            except Exception as e:
                raise Wrong("part", "after close, the client's %s fails with %r" % (type(part).__name__, e))
            raise Wrong("part-open", "after close, the client's %s still works" % type(part).__name__)

    def stats(self):
        def cut(o):
            return {k: cut(v) for k, v in o.items() if k not in VARY} if isinstance(o, dict) else o
        return cut(self.x.get_stats())

    def fail(self):
        if self.c["kind"] in ("lsh", "annoy") and self.c["store"] == "memory":
            return False
        if self.c["store"] != "memory":
            return blocked(os.path.join(self.d, "s"), self.open)

        def f():
            good = self.x.storage_backend
            self.x.storage_backend = Broken()
            try:
                self.open()
            finally:
                self.x.storage_backend = good
        return f


PARTS = {"storage": Store, "index": Ind, "quantizer": Quant, "persistence": Persist, "processor": Proc, "pipeline": Pipe, "registry": Registry, "parser": Parser, "client": Client}


def components():
    out = [{"part": "storage", "kind": "memory"}, {"part": "storage", "kind": "disk"}] + [{"part": "storage", "kind": "hybrid", "limit": n} for n in (1, 9)]
    out += [{"part": "index", "kind": k, "store": s} for k in Ind.CLS for s in ("disk", "memory")]
    out += [{"part": "quantizer", "kind": k} for k in ("scalar", "product", "saq")]
    out += [{"part": "persistence", "kind": "tensor", "conf": {}}, {"part": "persistence", "kind": "tensor", "conf": {"compression": True}}] + [{"part": "persistence", "kind": "incremental", "conf": c} for c in ({}, {"checkpoint_interval": 2})]
    out += [{"part": "processor", "kind": "cleaning"}] + [{"part": "processor", "kind": "chunking", "strategy": s} for s in ("semantic", "fixed", "sentence", "paragraph")]
    out += [{"part": "processor", "kind": k} for k in Proc.LIBS] + [{"part": "processor", "kind": "openai", "cache": False}]
    out += [{"part": "pipeline"}, {"part": "registry"}] + [{"part": "parser", "kind": k} for k in Parser.ALL]
    out += [{"part": "client", "kind": k, "store": s} for k in Ind.CLS for s in ("memory", "disk", "hybrid")]
    out += [{"part": "client", "kind": k, "store": s, "full": True} for k in ("flat", "ivf") for s in ("memory", "disk")]
    return out


def libs():
    m = dict(doclib.fake_docling())
    for k, (f, _) in Proc.LIBS.items():
        x = f()
        m[x.__name__] = x
    m["torch"] = doclib.fake_torch()
    return m


class Wrong(Exception):
    pass


def step(i):
    env.seed_all(i + 1)
    for _ in range(i * 8):
        env._uuid4()


def attempt(p, f):
    try:
        return ["ok", plain(f(), p.d)]
    except Wrong:
        raise
    except Exception as e:
        return [type(e).__name__, isinstance(e, p.err), str(e).replace(p.d, "DIR")]


def refused(p, what, f):
    before = tree(p.d)
    try:
        r = f()
    except p.err:
        r = None
    except Exception as e:
        raise Wrong("refusal", "%s, not open: %r instead of %s" % (what, e, p.err.__name__))
    else:
        raise Wrong("accepted", "%s, not open: answers %r" % (what, r))
    if tree(p.d) != before:
        raise Wrong("touched", "%s, not open: refused, but files change" % what)


def poke(p):
    for c in p.calls:
        refused(p, c, getattr(p, c))
    for c in p.soft:
        before = tree(p.d)
        try:
            getattr(p, c)()
        except p.err:
            pass
        except Exception as e:
            raise Wrong("report", "%s, not open: %r" % (c, e))
        if tree(p.d) != before:
            raise Wrong("touched", "%s, not open: files change" % c)


def failing(*a, **k):
    raise ValoriError("cannot be initialised")


def between(p, what, first, ctx):
    """What happens while the component is closed."""
    for w in what:
        ctx.n("transitions")
        if w == "poke":
            poke(p)
        elif w == "close":
            try:
                p.close()
            except Exception as e:
                raise Wrong("close", "close raises %r" % e)
            if isinstance(p, Client):
                p.closed()
        elif w in ("parts", "parts-open"):
            for part, _ in p.parts() if isinstance(p, Client) else ():
                part.initialize = failing
                try:
                    p.open()
                except p.err:
                    pass
                except Exception as e:
                    raise Wrong("failing", "when its %s cannot be initialised, the client raises %r" % (type(part).__name__, e))
                else:
                    raise Wrong("failing-accepted", "the client opens although its %s cannot be initialised" % type(part).__name__)
                finally:
                    del part.initialize
                poke(p)
                if w == "parts":
                    p.close()
                    p.closed()
        else:
            p.failing = True
            try:
                f = p.fail()
                if f:
                    f()
            except p.err:
                continue
            except Exception as e:
                raise Wrong("failing", "a failing initialise raises %r" % e)
            if f:
                raise Wrong("failing-accepted", "initialise succeeds where it cannot work")


def history(c, ctx, gaps, works):
    """A component's lives, each next to a new component over a copy of the same files."""
    P = PARTS[c["part"]]
    root = env.fresh_dir("w")
    d = os.path.join(root, "x")
    os.makedirs(d)
    t, tempfile.tempdir = tempfile.tempdir, root
    done = []
    i = 0
    try:
        p = P(c, d)
        for life, (gap, work) in enumerate(zip(gaps, works)):
            between(p, gap, life == 0, ctx)
            done.append(gap)
            e = os.path.join(root, "y%d" % life)
            shutil.copytree(d, e)
            ref = P(c, e)
            ref.ids = list(p.ids)
            if c["part"] == "index" and c["store"] == "memory":
                for vid in p.storage.list_vectors():
                    ref.storage.store_vector(vid, *p.storage.retrieve_vector(vid))
            for call in ("open",) + tuple(work) + P_look(p):
                i += 1
                out = []
                for q in (p, ref):
                    step(i)
                    out.append(attempt(q, getattr(q, call)))
                ctx.n("transitions", 2)
                done.append(call)
                if deep(out[0], lambda s: s) != deep(out[1], lambda s: s):
                    raise Wrong("restart" if life else "start", "%s gives %s, a new one over the same files gives %s" % (call, out[0], out[1]))
                if call == "open" and out[0][0] != "ok":
                    raise Wrong("open", "initialise fails: %s" % out[0])
                if call in p.soft and out[0][0] != "ok":
                    raise Wrong("stats", "%s of an open component fails: %s" % (call, out[0]))
            ctx.n("states")
            ref.close()
            ref.done()
        between(p, ["close", "close", "poke", "close"], False, ctx)
        p.done()
        ctx.outcome(repr((c, gaps, works)))
        return None
    except Wrong as w:
        return w.args[0], "%s, after %s: %s" % (c, done, w.args[1])
    finally:
        tempfile.tempdir = t
        env.drop_dir(root)


def P_look(p):
    """Reports and reading calls at the end of a life."""
    return tuple(p.soft) + tuple(x for x in ("get", "list", "search", "load_state", "load_vectors", "load_index", "quantize", "process") if x in p.calls)


BEFORE = [(), ("poke",), ("close", "poke"), ("fail", "poke"), ("close", "fail", "close")]
BETWEEN = [("close",), ("close", "poke"), ("close", "close", "fail", "poke"), ("close", "fail")]
ALL = ("close", "poke", "fail", "poke", "close")


def histories(c, tier, calls):
    n = 0 if tier == "quick" else 1

    def runs(k):
        return [w for j in range(k + 1) for w in itertools.product(calls, repeat=j)]
    short = runs(1 + n)
    more = [("parts", "poke"), ("parts-open",), ("parts-open", "close")] if c["part"] == "client" else []
    for a, b, x, y in itertools.product(BEFORE + more, BETWEEN + [("close",) + m for m in more], runs(1), short):
        yield [a, b], [x, y]
    for x, y in itertools.product(runs(2), runs(1 + n if len(calls) > 3 else 2 + n)):
        yield [(), ALL], [x, y]
    for x in runs(1):
        yield [(), ("close",), ALL, ("close",)], [x, x, x, x]


def jobs(tier):
    n = 4 if tier == "quick" else 16
    return [{"c": c, "i": i, "n": n} for c in components() for i in range(n)]


def calls_of(c):
    d = env.fresh_dir("w")
    t, tempfile.tempdir = tempfile.tempdir, d
    try:
        p = PARTS[c["part"]](c, d)
        p.done()
        return p.calls
    finally:
        tempfile.tempdir = t
        env.drop_dir(d)


def run_job(job, ctx):
    c = job["c"]
    with doclib.modules(libs()):
        for j, (gaps, works) in enumerate(histories(c, ctx.tier, calls_of(c))):
            if j % job["n"] != job["i"]:
                continue
            case = {"c": c, "gaps": gaps, "works": works}
            ctx.current = case
            ctx.n("traces_validated_against_impl")
            v = history(c, ctx, gaps, works)
            if v:
                ctx.violation("%s:%s:%s" % (c["part"], c.get("kind"), v[0]), v[1], case)
                return
            if ctx.late():
                return


def replay(case, ctx):
    with doclib.modules(libs()):
        v = history(case["c"], ctx, case["gaps"], case["works"])
    if v:
        ctx.violation("%s:%s:%s" % (case["c"]["part"], case["c"].get("kind"), v[0]), v[1], case)
