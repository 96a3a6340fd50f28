"""C36: a document that was processed and stored is found by its own text and comes back with its own metadata."""
import contextlib
import copy
import io
import itertools
import os

import numpy as np

from .. import doclib, env

env.import_valori()
from valori.client import VectorDBClient                          # noqa: E402
from valori.exceptions import ValoriError                         # noqa: E402
from valori.indices import FlatIndex, HNSWIndex, IVFIndex, LSHIndex     # noqa: E402
from valori.processors import ProcessingPipeline                  # noqa: E402
from valori.storage import DiskStorage, HybridStorage, MemoryStorage    # noqa: E402

LEVEL = "model_checking"
ASSUMPTIONS = ["the embedding model is a stand-in, a fixed function of the text; docling is not installed",
               "what is extracted from a document and how it is cleaned and cut is the business of C22, C23, C24 and C26"]
BOUNDS = {"quick": "all histories of up to 3 of 15 operations, and of 4 of 9 for two configurations (documents of four formats, their chunks, batches with an unreadable file, texts, files rewritten and reprocessed, deletions, caller's changes, restarts) for 8 configurations of pipeline, storage and index; after every operation every stored item is looked for by its embedding and by its text",
          "thorough": "histories of up to 4, 5 for two configurations"}
EMB = {"model_name": "m"}
PIPES = {"plain": {"parsers": {"text": {"chunk_size": 1000}, "pdf": {"chunk_size": 1000}, "office": {"chunk_size": 1000}}, "processors": {"cleaning": {"normalize_whitespace": True}, "embedding": dict(EMB)}},
         "chunks": {"parsers": {"text": {"chunk_size": 12, "chunk_overlap": 0}, "pdf": {"chunk_size": 8, "chunk_overlap": 0}, "office": {"chunk_size": 11, "chunk_overlap": 1}},
                    "processors": {"cleaning": {"normalize_whitespace": True, "remove_html": True}, "chunking": {"strategy": "fixed_size", "chunk_size": 16, "chunk_overlap": 4, "min_chunk_size": 1},
                                   "embedding": dict(EMB, cache_embeddings=True)}},
         "normal": {"parsers": {"text": {}, "pdf": {}, "office": {}}, "processors": {"cleaning": {"lowercase": True}, "embedding": dict(EMB, normalize=True, cache_embeddings=True)}}}
STORES = {"memory": lambda d: MemoryStorage({}), "disk": lambda d: DiskStorage({"data_dir": d + "/data"}),
          "hybrid": lambda d: HybridStorage({"memory": {}, "disk": {"data_dir": d + "/data"}, "memory_limit": 2})}
INDEXES = {"flat": lambda: FlatIndex({"metric": "cosine"}), "flat-euclidean": lambda: FlatIndex({"metric": "euclidean"}), "hnsw": lambda: HNSWIndex({"metric": "cosine"}),
           "ivf": lambda: IVFIndex({"metric": "cosine", "n_clusters": 2, "n_probes": 2}), "lsh": lambda: LSHIndex({"metric": "cosine"})}
CONFIGS = [("plain", "memory", "flat"), ("plain", "disk", "hnsw"), ("chunks", "hybrid", "flat"), ("chunks", "memory", "hnsw"), ("normal", "disk", "flat-euclidean"), ("normal", "hybrid", "ivf"),
           ("chunks", "memory", "lsh"), ("normal", "memory", "ivf")]
DEEP = (2, 5)
FILES = ["a.txt", "b.md", "c.docx", "d.pdf"]
DATA = {"a.txt": b"Alpha   report. It has <b>two</b> sentences, and a few more words!", "b.md": "# Beta notes\n\n* eins \u00fc\u00df\n* zwei\n\nThe end.".encode()}
TEXTS = [("Gamma memo about nothing", {"who": "me", "tags": ["x", {"y": 1}]}), ("Alpha   report. It has <b>two</b> sentences, and a few more words!", None)]
OPS = [["doc", 0], ["doc", 1], ["doc", 2], ["doc", 3], ["chunks", 0], ["chunks", 2], ["batch"], ["text", 0], ["text", 1], ["edit", 0], ["edit", 1], ["del", "first"], ["del", "last"], ["spoil"], ["reopen"]]
_docx = []


def bytes_of(name):
    if name == "c.docx":
        if not _docx:
            _docx.append(doclib.docx_bytes([("p", "Delta paragraph."), ("p", "Second one"), ("t", [["a", "b"]])]))
        return _docx[0]
    if name == "d.pdf":
        return doclib.pdf_bytes(["Epsilon page. More of it", ["second", "page"]], {"Title": "T"})
    return DATA[name]


class World:
    def __init__(self, cfg):
        self.cfg = cfg
        self.d = env.fresh_dir("e")
        self.files = os.path.join(self.d, "files")
        os.makedirs(self.files)
        for f in FILES:
            self.put(f, bytes_of(f))
        self.live = {}            # id: (embedding, metadata, text or None, file or None)
        self.last = None
        self.no = 0
        self.open()

    def put(self, f, b):
        with open(os.path.join(self.files, f), "wb") as h:
            h.write(b)

    def open(self):
        self.pipe = ProcessingPipeline(copy.deepcopy(PIPES[self.cfg[0]]))
        self.pipe.initialize()
        self.db = VectorDBClient(STORES[self.cfg[1]](self.d), INDEXES[self.cfg[2]]())
        self.db.initialize()

    def close(self):
        with contextlib.suppress(Exception):
            self.pipe.close()
        with contextlib.suppress(Exception):
            self.db.close()
        env.drop_dir(self.d)

    def store(self, vecs, metas, texts, files):
        keep = [(np.array(v), doclib.plain(m)) for v, m in zip(vecs, metas)]
        ids = self.db.insert(np.array(vecs), metas)
        if len(ids) != len(vecs) or len(set(map(str, ids))) != len(ids) or any(str(i) in self.live for i in ids):
            return "%d items stored as %s, already there: %s" % (len(vecs), ids, sorted(self.live))
        for i, (v, m), t, f in zip(ids, keep, texts, files):
            self.live[str(i)] = (v, m, t, f, i)
        self.last = metas

    def apply(self, op):
        path = lambda i: os.path.join(self.files, FILES[i])       # noqa: E731
        if op[0] == "doc":
            r = self.pipe.process_document(path(op[1]))
            return self.store([r["embedding"]], [r["metadata"]], [r["text"]], [op[1]])
        if op[0] == "chunks":
            r = self.pipe.process_document(path(op[1]))
            if "chunk_embeddings" not in r or len(r["chunk_embeddings"]) != len(r["chunks"]):
                return "%d embeddings for %d chunks" % (len(r.get("chunk_embeddings", ())), len(r.get("chunks", ())))
            full = [(v, c) for v, c in zip(r["chunk_embeddings"], r["chunks"]) if c["text"].strip()]
            if full:
                return self.store([v for v, c in full], [dict(r["metadata"], chunk=n, words=c["text"]) for n, (v, c) in enumerate(full)], [c["text"] for v, c in full], [None] * len(full))
            return None
        if op[0] == "batch":
            rs = self.pipe.batch_process_documents([path(0), os.path.join(self.files, "gone.txt"), path(3), path(1)])
            if [("embedding" in r) for r in rs] != [True, False, True, True]:
                return "batch of three files and a missing one: %s" % [sorted(r) for r in rs]
            good = [r for r in rs if "embedding" in r]
            return self.store([r["embedding"] for r in good], [r["metadata"] for r in good], [r["text"] for r in good], [0, 3, 1])
        if op[0] == "text":
            t, m = TEXTS[op[1]]
            r = self.pipe.process_text(t, copy.deepcopy(m))
            if doclib.plain(r["metadata"]) != doclib.plain(m or {}):
                return "the metadata %r of a text became %r" % (m, r["metadata"])
            return self.store([r["embedding"]], [r["metadata"]], [t], [None])
        if op[0] == "edit":
            self.no += 1
            f = FILES[op[1]]
            self.put(f, b"Rewritten text %d of %s" % (self.no, f.encode()))
            r = self.pipe.process_document(path(op[1]))
            mine = [i for i, x in self.live.items() if x[3] == op[1]]
            if mine:
                v, m = np.array(r["embedding"]), doclib.plain(r["metadata"])
                if self.db.update(self.live[mine[0]][4], r["embedding"], r["metadata"]) is not True:
                    return "update of %s refused" % mine[0]
                self.live[mine[0]] = (v, m, "Rewritten text %d of %s" % (self.no, f), op[1], self.live[mine[0]][4])
                self.last = [r["metadata"]]
            elif r["text"].lower() != ("Rewritten text %d of %s" % (self.no, f)).lower():
                return "the rewritten %s is processed as %r" % (f, r["text"])
        elif op[0] == "del" and self.live:
            i = list(self.live)[0 if op[1] == "first" else -1]
            if self.db.delete([self.live[i][4]]) is not True:
                return "deletion of %s refused" % i
            del self.live[i]
        elif op[0] == "spoil" and self.last:
            doclib.spoil(self.last)
        elif op[0] == "reopen" and self.cfg[1] != "memory" and self.cfg[2] != "lsh":
            self.pipe.close()
            self.db.close()
            self.open()
        return None

    def check(self):
        metric = "euclidean" if "euclid" in self.cfg[2] else "cosine"

        def dist(a, b):
            a, b = np.asarray(a, float), np.asarray(b, float)
            return float(np.linalg.norm(a - b)) if metric == "euclidean" else 1 - float(a @ b) / float(np.linalg.norm(a)) / float(np.linalg.norm(b))

        def found(q, k, what):
            hits = self.db.search(np.asarray(q), k)
            for h in hits:
                w = self.live.get(str(h["id"]))
                if w is None:
                    return None, "%s: a result %s that is not stored" % (what, h)
                if doclib.plain(h["metadata"]) != w[1]:
                    return None, "%s: result %s with the metadata %r, stored with %r" % (what, h["id"], h["metadata"], w[1])
            if len({str(h["id"]) for h in hits}) != len(hits):
                return None, "%s: repeated results %s" % (what, [h["id"] for h in hits])
            return hits, None
        for i, (v, m, t, f, raw) in self.live.items():
            hits, e = found(v, 1, "search for the embedding of %s" % i)
            if e:
                return e
            if not hits or dist(self.live[str(hits[0]["id"])][0], v) > 1e-5:
                return "item %s (%s) is not found by its own embedding: %s" % (i, m, hits)
            if t is not None:
                q = self.pipe.process_text(t)["embedding"]
                hits, e = found(q, 1, "search for the text %r" % t)
                if e:
                    return e
                if not hits or dist(self.live[str(hits[0]["id"])][0], v) > 1e-5:
                    return "item %s (%s) is not found by its own text %r: %s" % (i, m, t, hits)
        if self.live and self.cfg[2] != "lsh":
            q = self.pipe.process_text("another question")["embedding"]
            k = len(self.live) + 1
            hits, e = found(q, k, "question")
            if e:
                return e
            want = sorted(dist(q, x[0]) for x in self.live.values())
            got = [dist(q, self.live[str(h["id"])][0]) for h in hits]
            if len(got) != len(want) or any(abs(a - b) > 1e-5 for a, b in zip(got, want)):
                return "question: items at distances %s are returned, stored are %s" % (got, want)
        elif not self.live and self.cfg[2] != "ivf":
            q = self.pipe.process_text("another question")["embedding"]
            if self.db.search(np.asarray(q), 3):
                return "results from an empty database"
        return None


def history(cfg, hist, ctx):
    case = {"cfg": cfg, "hist": hist}
    w = None
    with doclib.modules(dict(doclib.NO_DOCLING, sentence_transformers=doclib.fake_sentence_transformers())), contextlib.redirect_stdout(io.StringIO()):
        try:
            w = World(cfg)
            for n, op in enumerate(hist):
                ctx.n("transitions")
                e = w.apply(op) or (w.check() if n == len(hist) - 1 or op[0] == "reopen" else None)
                if e:
                    ctx.violation("flow-" + op[0], "%s, after %s: %s" % ("/".join(cfg), hist[:n + 1], e), case)
                    return
            ctx.outcome((len(w.live), cfg[2]))
        except ValoriError as e:
            ctx.violation("flow-error", "%s, %s: %r" % ("/".join(cfg), hist, e), case)
        finally:
            if w:
                w.close()
    ctx.n("states")
    ctx.n("traces_validated_against_impl")


def useful(hist, cfg):
    """Histories without steps that do nothing."""
    stored = False
    for op in hist:
        if op[0] in ("del", "spoil") and not stored:
            return False
        if op[0] == "reopen" and (cfg[1] == "memory" or cfg[2] == "lsh"):
            return False
        if op[0] == "chunks" and cfg[0] != "chunks" and op[1] == 0:
            return False
        stored = stored or op[0] in ("doc", "chunks", "batch", "text")
    return True


FEWER = [OPS[i] for i in (0, 2, 4, 6, 7, 9, 11, 13, 14)]


def jobs(tier):
    q = tier == "quick"
    out = [{"cfg": list(c), "first": a, "most": 3 if q else 4, "few": 0} for c in CONFIGS for a in OPS]
    return out + [{"cfg": list(CONFIGS[n]), "first": a, "most": 4 if q else 5, "few": 1} for n in DEEP for a in FEWER]


def run_job(job, ctx):
    for n in [job["most"] - 1] if job["few"] else range(0, job["most"]):
        for rest in itertools.product(FEWER if job["few"] else OPS, repeat=n):
            h = [job["first"]] + [list(o) for o in rest]
            if useful(h, job["cfg"]):
                history(job["cfg"], h, ctx)


def replay(case, ctx):
    history(case["cfg"], case["hist"], ctx)
