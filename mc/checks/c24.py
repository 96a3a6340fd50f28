"""C24: documents go to the right parser, through every configured stage once and in order; items are kept apart."""
import copy
import itertools
import os

from .. import doclib, env, explore

env.import_valori()
from valori.exceptions import ParsingError, ProcessingError, ValoriError   # noqa: E402
from valori.parsers.base import DocumentParser                            # noqa: E402
from valori.parsers.docling_parser import DoclingParser                   # noqa: E402
from valori.parsers.office_parser import OfficeParser                     # noqa: E402
from valori.parsers.pdf_parser import PDFParser                           # noqa: E402
from valori.parsers.registry import ParserRegistry                        # noqa: E402
from valori.parsers.text_parser import TextParser                         # noqa: E402
from valori.processors.chunking import ChunkingProcessor                  # noqa: E402
from valori.processors.cleaning import CleaningProcessor                  # noqa: E402
from valori.processors.embedding import EmbeddingProcessor                # noqa: E402
from valori.processors.pipeline import ProcessingPipeline                 # noqa: E402

LEVEL = "model_checking"
ASSUMPTIONS = ["stand-ins for the libraries that are not installed: the embedding model is a fixed function of the text, the docling converter of the bytes of the file",
               "what one parser or stage makes of one document is the business of C22, C23, C25 and C26: here it is what a parser or stage used alone makes of it"]
BOUNDS = {"quick": "every subset of the four parsers in two orders, with docling installed or not, every requested name, 26 file names; registries with parsers added and removed, to depth 4; every subset and order of the stages, 14 texts and 8 documents; all histories of up to 5 of 17 pipeline operations for 5 configurations; batches: all sequences of up to 4 of 6 documents, and of 9-130 documents with one that fails; every configuration out of a list of broken ones, followed by a good one",
          "thorough": "pipeline histories of up to 6 operations, registry histories of up to 5, batches of up to 6"}
CLASSES = {"text": TextParser, "pdf": PDFParser, "office": OfficeParser, "docling": DoclingParser}
PRIORITY = {"text": 1, "pdf": 2, "office": 3, "docling": 4}
PCFG = {"text": {"chunk_size": 9, "chunk_overlap": 2}, "pdf": {"chunk_size": 8, "chunk_overlap": 0}, "office": {"chunk_size": 11, "chunk_overlap": 1}, "docling": {"chunk_size": 12}}
SCFG = {"cleaning": {"lowercase": True}, "chunking": {"strategy": "fixed_size", "chunk_size": 12, "chunk_overlap": 3, "min_chunk_size": 1, "max_chunk_size": 50},
        "embedding": {"batch_size": 2}}
NAMES = ["a.txt", "B.TXT", "c.md", "d.rst", "e.log", "f.csv", "g.pdf", "H.PDF", "i.docx", "J.DocX", "k.xlsx", "l.pptx", "m.xls", "n.html", "o.xml", "p", "q.unknown", "r.txt.pdf", "s.pdf.txt",
         ".txt", "dir.pdf/t", "u.", "v.tx", "w.txt ", "pdf", "x.zzz"]
TEXTS = ["", "   ", "Hello World. This is a Text!", "&amp;lt;b&amp;gt;x &amp;amp; y", "<b>Bold</b> and <i>it</i>. More words here, and more.", "ONE\n\nTWO\n\nTHREE three three", "zero", "ZERO vector. zero words",
         "\uff1cb\uff1e tag", "a" * 30, "caf\u00e9 e\u0301", "x. " * 9, "\n\n\n", "same same same same same same"]


def content(name):
    low = name.lower().rstrip()
    if low.endswith(".pdf"):
        return doclib.pdf_bytes(["Page one text. More of it", ["second", "&lt;page&gt;"]], {"Title": "T"})
    if low.endswith(".docx"):
        return _once("docx", lambda: doclib.docx_bytes([("p", "First paragraph."), ("p", "Second <b>one</b>"), ("t", [["a", "b"]])]))
    if low.endswith(".xlsx"):
        return _once("xlsx", lambda: doclib.xlsx_bytes([("S1", [[1, "two"], [None, 3.5]])]))
    if low.endswith(".pptx"):
        return _once("pptx", lambda: doclib.pptx_bytes([[("s", "Title here")], [("s", "More text")]]))
    return b"Plain text of the file.\nSecond line &amp; more.\n"


_mem = {}


def _once(k, f):
    if k not in _mem:
        _mem[k] = f()
    return _mem[k]


def library(installed=True):
    m = dict(doclib.fake_docling() if installed else doclib.NO_DOCLING)
    m["sentence_transformers"] = doclib.fake_sentence_transformers()
    return doclib.modules(m)


def put(d, name, data=None):
    p = os.path.join(d, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        f.write(content(name) if data is None else data)
    return p


class Custom(DocumentParser):
    fmt = (".zzz", ".txt")

    def initialize(self):
        if self.config.get("broken"):
            raise RuntimeError("cannot start")
        self._initialized = True

    def parse(self, file_path):
        if not self._initialized:
            raise ParsingError("not initialized")
        return {"text": "custom " + os.path.basename(str(file_path)), "metadata": {"v": self.config.get("v")}, "chunks": [], "structure": {}}

    def get_supported_formats(self):
        return list(self.fmt)

    def can_parse(self, p):
        return os.path.splitext(str(p))[1].lower() in self.fmt


def start(cls, cfg):
    p = cls(copy.deepcopy(cfg))
    p.initialize()
    return p


def alone(cls, cfg, path):
    """what that parser, used alone, makes of the file"""
    p = start(cls, cfg)
    try:
        return ("ok", doclib.plain(p.parse(path)))
    except ParsingError as e:
        return ("refused",)


def choose(avail, path, name):
    """avail: {name: (priority, class, config, formats)} in order of registration"""
    if name:
        return name if name in avail else None
    suf = os.path.splitext(os.path.basename(path))[1].lower()
    best = None
    for n, (pr, cls, cfg, fmts) in avail.items():
        if suf in fmts and (best is None or pr > avail[best][0]):
            best = n
    return best


_fmt = {}


def builtin(names, installed):
    out = {}
    for n in names:
        if n == "docling" and not installed:
            continue
        if n not in _fmt:
            _fmt[n] = CLASSES[n](PCFG[n]).get_supported_formats()
        out[n] = (PRIORITY[n], CLASSES[n], PCFG[n], _fmt[n])
    return out


def attempt(f, err):
    try:
        return ("ok", f())
    except err:
        return ("refused",)


def strip(r):
    r = dict(r)
    m = r.pop("pipeline_metadata")
    return doclib.plain(r), m


# ------------------------------------------------------------------ parser choice
def job_select(job, ctx):
    names, installed = job["parsers"], job["docling"]
    with library(installed):
        d = env.fresh_dir()
        files = [put(d, n) for n in NAMES]
        one = {}
        parsers = {n: PCFG[n] for n in names}
        parsers["nosuch"] = {}
        reg = ParserRegistry({"parsers": copy.deepcopy(parsers)})
        pipe = ProcessingPipeline({"parsers": copy.deepcopy(parsers), "processors": {}})
        case = {"job": job}
        if attempt(lambda: reg.get_parser(files[0]), ParsingError)[0] == "ok" or attempt(lambda: pipe.process_document(files[0]), ProcessingError)[0] == "ok":
            return ctx.violation("uninitialised", "a document is parsed before initialization", case)
        reg.initialize()
        pipe.initialize()
        avail = builtin(names, installed)
        fm = sorted({x for v in avail.values() for x in v[3]})
        if reg.get_supported_formats() != fm or pipe.get_supported_formats() != fm:
            ctx.violation("formats", "supported formats %s and %s, the parsers' formats are %s" % (reg.get_supported_formats(), pipe.get_supported_formats(), fm), case)
        info = reg.get_parser_info()["parsers"]
        if {n for n in info if info[n]["available"]} != set(avail):
            ctx.violation("info", "available parsers reported: %s, should be %s" % (info, sorted(avail)), case)
        for path in files + [os.path.join(d, "nothere.txt"), os.path.join(d, "nothere.pdf")]:
            for name in [None, "", "text", "pdf", "office", "docling", "nosuch"]:
                ctx.n("transitions")
                ctx.current = {"job": job}
                w = choose(avail, path, name)
                got = attempt(lambda: reg.get_parser(path, name), ParsingError)
                if w is None:
                    want = ("refused",)
                    if got[0] == "ok":
                        ctx.violation("choice", "%s requested as %r is given to %s, no parser should be found" % (os.path.basename(path), name, type(got[1]).__name__), case)
                else:
                    if got[0] != "ok" or type(got[1]) is not CLASSES[w]:
                        ctx.violation("choice", "%s requested as %r is given to %s, not to %s" % (os.path.basename(path), name, got, w), case)
                    k = (w, path)
                    if k not in one:
                        one[k] = alone(CLASSES[w], PCFG[w], path)
                    want = one[k]
                ctx.outcome((w, want[0], os.path.basename(path)))
                r = attempt(lambda: doclib.plain(reg.parse_document(path, name)), ParsingError)
                if r != want:
                    ctx.violation("parse", "%s requested as %r: the registry gives %s, the parser %s alone %s" % (os.path.basename(path), name, r, w, want), case)
                r = attempt(lambda: strip(pipe.process_document(path, name)), ProcessingError)
                if r[0] != want[0] or (r[0] == "ok" and r[1][0] != want[1]):
                    ctx.violation("pipeline", "%s requested as %r: the pipeline gives %s, the parser %s alone %s" % (os.path.basename(path), name, r, w, want), case)
                elif r[0] == "ok":
                    m = r[1][1]
                    if m["parser_used"] not in (w, CLASSES[w].__name__) or m["file_path"] != path or m["processors_used"] != []:
                        ctx.violation("report", "the pipeline reports %s for %s parsed by %s" % (m, path, w), case)
        env.drop_dir(d)


# ------------------------------------------------------------------ registry histories
class Registry(explore.System):
    def __init__(self, cfg):
        super().__init__(cfg)
        self.mods = library()
        self.mods.__enter__()
        self.d = env.fresh_dir()
        self.files = [put(self.d, n) for n in ("a.txt", "b.pdf", "c.zzz", "d.docx")]
        self.reg = ParserRegistry({"parsers": {n: PCFG[n] for n in cfg["parsers"]}})
        self.open = False
        self.avail = {}
        self.dropped = set()

    def ops(self):
        return [["init"], ["close"], ["add", "custom", 1], ["add", "custom", 2], ["add", "text", 3], ["add", "bad", 0], ["remove", "text"], ["remove", "custom"], ["remove", "pdf"], ["remove", "nosuch"]]

    def apply(self, op):
        r = self.reg
        try:
            if op[0] == "init":
                if self.open or self.dropped:
                    return None, "starting twice, or again after a removal"
                r.initialize()
                self.open = True
                self.avail = builtin(self.cfg["parsers"], True)
            elif op[0] == "close":
                r.close()
                self.open, self.avail = False, {}
            elif op[0] == "add":
                if not self.open:
                    return None, "adding while closed"
                ok = attempt(lambda: r.add_parser(op[1], Custom, {"v": op[2], "broken": op[1] == "bad"}), ParsingError)
                if (ok[0] == "ok") != (op[1] != "bad"):
                    return "add", "adding %s: %s" % (op, ok)
                if ok[0] == "ok":
                    self.avail[op[1]] = (PRIORITY.get(op[1], 0), Custom, {"v": op[2]}, Custom.fmt)
                    self.dropped.add(op[1])
            elif op[0] == "remove":
                r.remove_parser(op[1])
                self.avail.pop(op[1], None)
                self.dropped.add(op[1])
        except ValoriError as e:
            return "refused", "%s: %r" % (op, e)

    def check(self):
        r = self.reg
        for p in self.files:
            for name in (None, "text", "custom", "pdf", "bad"):
                w = choose(self.avail, p, name) if self.open else None
                if w is not None and name is None and sum(v[0] == self.avail[w][0] and os.path.splitext(p)[1] in v[3] for v in self.avail.values()) > 1:
                    continue                                  # two of the same priority: either
                want = ("refused",) if w is None else alone(self.avail[w][1], self.avail[w][2], p)
                got = attempt(lambda: doclib.plain(r.parse_document(p, name)), ParsingError)
                if got != want:
                    return "choice", "%s requested as %r: %s, should be parsed by %s: %s" % (os.path.basename(p), name, got, w, want)
        fm = sorted({x for v in self.avail.values() for x in v[3]}) if self.open else []
        if r.get_supported_formats() != fm:
            return "formats", "supported formats %s, should be %s" % (r.get_supported_formats(), fm)

    def canon(self):
        return explore.deep(self.reg, lambda s: ("s", s)), sorted(self.dropped), self.open

    def close(self):
        self.mods.__exit__()
        env.drop_dir(self.d)


# ------------------------------------------------------------------ stages
def by_hand(data, stages, cfgs):
    """the stages, each used alone, one after the other"""
    for name, cls in (("cleaning", CleaningProcessor), ("chunking", ChunkingProcessor), ("embedding", EmbeddingProcessor)):
        if name in stages:
            data = start(cls, cfgs[name]).process(data)
    return doclib.plain(data)


DOCS = ["a.txt", "g.pdf", "i.docx", "k.xlsx", "l.pptx", "c.md"]


def job_stages(job, ctx):
    stages = job["stages"]
    classes = {"cleaning": "CleaningProcessor", "chunking": "ChunkingProcessor", "embedding": "EmbeddingProcessor"}
    used = [classes[s] for s in classes if s in stages]
    case = {"job": job}
    with library():
        d = env.fresh_dir()
        cfg = {"parsers": {n: PCFG[n] for n in ("office", "text", "pdf")}, "processors": {s: SCFG[s] for s in stages}}
        mine = copy.deepcopy(cfg)
        p = ProcessingPipeline(mine)
        p.initialize()
        for t, m in itertools.product(TEXTS, (None, {}, {"k": ["v"], "title": "T"})):
            meta = copy.deepcopy(m)
            r, pm = strip(p.process_text(t, meta) if m is not None else p.process_text(t))
            w = by_hand({"text": t, "metadata": copy.deepcopy(m) or {}, "structure": {"type": "raw_text"}}, stages, SCFG)
            ctx.n("transitions")
            ctx.outcome((tuple(stages), t))
            if r != w:
                ctx.violation("text", "stages %s on %r: %s, one after the other they give %s" % (stages, t, r, w), case)
            if pm["processors_used"] != used:
                ctx.violation("report", "the pipeline reports %s" % pm, case)
            if meta != m:
                ctx.violation("metadata", "the caller's metadata became %s" % meta, case)
        for n in DOCS:
            path = put(d, n)
            r, pm = strip(p.process_document(path))
            w = by_hand(start({"a": TextParser, "c": TextParser, "g": PDFParser}.get(n[0], OfficeParser), PCFG[{"a": "text", "c": "text", "g": "pdf"}.get(n[0], "office")]).parse(path), stages, SCFG)
            ctx.n("transitions")
            if r != w:
                ctx.violation("document", "stages %s on %s: %s, one after the other they give %s" % (stages, n, r, w), case)
            if pm["processors_used"] != used:
                ctx.violation("report", "the pipeline reports %s" % pm, case)
        info = p.get_pipeline_info()
        if [x["name"] for x in info["processors"]] != used or info["initialized"] is not True:
            ctx.violation("report", "the pipeline says %s" % info["processors"], case)
        if mine != cfg:
            ctx.violation("config", "the caller's configuration became %s" % mine, case)
        env.drop_dir(d)


# ------------------------------------------------------------------ pipeline histories
FILES = ["a.txt", "b.txt", "g.pdf", "bad.pdf", "no.txt", "q.unknown"]
H_TEXT = ["Hello World again", "zero", "<b>Hello</b> World again", ""]


class Pipe(explore.System):
    def __init__(self, cfg):
        super().__init__(cfg)
        self.mods = library()
        self.mods.__enter__()
        self.d = env.fresh_dir()
        for n in FILES:
            if n == "bad.pdf":
                put(self.d, n, b"%PDF-1.4 this is not a document")
            elif n != "no.txt":
                put(self.d, n, b"Hello World again" if n == "b.txt" else None)
        self.p = self.fresh()
        self.open = False
        self.log = None
        self.version = 0

    def fresh(self):
        return ProcessingPipeline({"parsers": {n: PCFG[n] for n in ("text", "pdf")}, "processors": {s: dict(SCFG[s]) for s in self.cfg["stages"]}})

    def ops(self):
        return [["init"], ["close"], ["info"]] + [["text", i, k] for i in range(len(H_TEXT)) for k in ((0, 1) if i == 0 else (0,))] + [["doc", i, None] for i in range(len(FILES))] + [
            ["doc", 0, "pdf"], ["doc", 0, "text"], ["batch", [0, 3, 1, 0]], ["rewrite"]]

    def call(self, p, op):
        if op[0] == "text":
            return attempt(lambda: p.process_text(H_TEXT[op[1]], {"source": "s"} if op[2] else None), ProcessingError)
        if op[0] == "doc":
            return attempt(lambda: p.process_document(os.path.join(self.d, FILES[op[1]]), op[2]), ProcessingError)
        return attempt(lambda: p.batch_process_documents([os.path.join(self.d, FILES[i]) for i in op[1]]), ProcessingError)

    def wanted(self, op):
        """what a pipeline used for nothing else gives"""
        k = (tuple(self.cfg["stages"]), repr(op), self.version)
        if k not in _alone:
            f = self.fresh()
            f.initialize()
            _alone[k] = repr(doclib.plain(self.call(f, op))).replace(self.d, "DIR")
        return _alone[k]

    def apply(self, op):
        if op[0] == "init":
            self.p.initialize()
            self.open = True
            return
        if op[0] == "close":
            self.p.close()
            self.open = False
            return
        if op[0] == "info":
            i = self.p.get_pipeline_info()
            if i["initialized"] is not self.open or (self.open and len(i["processors"]) != len(self.cfg["stages"])):
                return "report", "the pipeline, %s, says %s" % ("open" if self.open else "closed", i)
            if self.open:
                doclib.spoil(i)
            return
        if op[0] == "rewrite":         # same size, same times
            f = os.path.join(self.d, FILES[0])
            st = os.stat(f)
            self.version = 1 - self.version
            put(self.d, FILES[0], [content(FILES[0]), content(FILES[0]).swapcase()][self.version])
            os.utime(f, ns=(st.st_atime_ns, st.st_mtime_ns))
            return
        got = self.call(self.p, op)
        want = self.wanted(op) if self.open else repr(doclib.plain(("refused",)))
        if repr(doclib.plain(got)).replace(self.d, "DIR") != want:
            return "differs:" + op[0], "%s gives %s, a new pipeline %s" % (op, got, want)
        if op[0] == "doc" and self.open and (got[0] == "ok") != (op[1] in (0, 1, 2) and op[2] != "pdf"):
            return "accepts", "%s is %s" % (op, got[0])
        if op[0] == "batch" and self.open:
            for i, r in zip(op[1], got[1]):
                w = repr(doclib.plain(("ok", r))).replace(self.d, "DIR")
                if i == 3:
                    if "error" not in r or r["file_path"] != os.path.join(self.d, FILES[3]):
                        return "batch", "the result for a broken document is %s" % r
                elif w != self.wanted(["doc", i, None]):
                    return "batch", "the result of document %s in a batch differs: %s" % (FILES[i], r)
                doclib.spoil(r)
        if op[0] != "batch":
            doclib.spoil(got[1] if len(got) > 1 else None)         # the results are the caller's: he may change them

    def canon(self):
        return explore.deep(self.p, lambda s: ("s", s.replace(self.d, "DIR"))), self.open, self.version

    def close(self):
        self.mods.__exit__()
        env.drop_dir(self.d)


_alone = {}


# ------------------------------------------------------------------ batches
def job_batch(job, ctx):
    case = {"job": job}
    with library():
        d = env.fresh_dir()
        names = FILES
        for n in names:
            if n == "bad.pdf":
                put(d, n, b"%PDF-1.4 this is not a document")
            elif n != "no.txt":
                put(d, n)
        cfg = {"parsers": {n: PCFG[n] for n in ("text", "pdf")}, "processors": {s: SCFG[s] for s in job["stages"]}}
        one = {}
        for n in names:
            p = ProcessingPipeline(cfg)
            p.initialize()
            r = attempt(lambda: p.process_document(os.path.join(d, n)), ProcessingError)
            one[n] = doclib.plain(r[1]) if r[0] == "ok" else None
        p = ProcessingPipeline(cfg)
        p.initialize()
        for k in range(job["len"] + 1):
            for seq in itertools.product(names, repeat=k):
                ctx.n("transitions")
                got = p.batch_process_documents([os.path.join(d, n) for n in seq])
                ctx.outcome(seq)
                if len(got) != k:
                    ctx.violation("length", "%d results for %s" % (len(got), seq), case)
                for n, r in zip(seq, got):
                    if one[n] is None:
                        if not r.get("error") or r.get("file_path") != os.path.join(d, n) or r["pipeline_metadata"].get("processing_failed") is not True or "embedding" in r or "text" in r:
                            ctx.violation("failed", "batch %s: the result for %s is %s" % (seq, n, r), case)
                    elif doclib.plain(r) != one[n]:
                        ctx.violation("apart", "batch %s: the result for %s is %s" % (seq, n, r), case)
                    doclib.spoil(r)                    # the caller changes each result before looking at the next
        # many documents, and one that fails at every place
        pick = [(i * 7 + i // 5) % len(names) for i in range(150)]
        for n in (9, 10, 11, 32, 33, 100, 101, 130):
            seqs = [[names[pick[i]] for i in range(n)], [names[0]] * n]
            seqs += [[names[0]] * j + [names[3]] + [names[1]] * (n - 1 - j) for j in (range(n) if n < 12 else (0, 9, n // 2, n - 2, n - 1))]
            for seq in seqs:
                ctx.n("transitions")
                got = p.batch_process_documents([os.path.join(d, x) for x in seq])
                if len(got) != n:
                    ctx.violation("length", "%d results for %d documents" % (len(got), n), case)
                for j, (x, r) in enumerate(zip(seq, got)):
                    if one[x] is None and (not r.get("error") or r.get("file_path") != os.path.join(d, x)) or one[x] is not None and doclib.plain(r) != one[x]:
                        ctx.violation("apart", "batch of %d: the result for the document at %d, %s, is %s" % (n, j, x, str(r)[:300]), case)
                        break
                    doclib.spoil(r)
        env.drop_dir(d)


# ------------------------------------------------------------------ broken configurations
BROKEN = [{"chunking": {"chunk_size": 5, "chunk_overlap": 5}}, {"cleaning": {}, "chunking": {"chunk_size": 5, "chunk_overlap": 9}}, {"embedding": {"model_name": "missing-model"}},
          {"cleaning": {}, "chunking": SCFG["chunking"], "embedding": {"model_type": "nosuch"}}, {"cleaning": {}, "embedding": {"model_type": "openai"}}]


def job_broken(job, ctx):
    case = {"job": job}
    with library(), doclib.modules({"openai": None}):
        good = {s: SCFG[s] for s in ("cleaning", "chunking", "embedding")}
        f = ProcessingPipeline({"processors": good})
        f.initialize()
        want = doclib.plain(f.process_text("Some &amp;amp; Text here"))
        for b in BROKEN:
            for before in (False, True):
                cfg = {"processors": dict(good if before else b)}
                p = ProcessingPipeline(cfg)
                if before:                              # a working pipeline whose configuration is broken, and repaired
                    p.initialize()
                    p.process_text("x")
                for k in range(job["times"]):
                    cfg["processors"].clear()
                    cfg["processors"].update(b)
                    ctx.n("transitions")
                    if attempt(p.initialize, ProcessingError)[0] == "ok":
                        ctx.violation("broken", "%s is accepted" % b, case)
                    if attempt(lambda: p.process_text("x"), ProcessingError)[0] == "ok":
                        ctx.violation("broken-works", "text is processed after the initialization with %s failed" % b, case)
                    if p.get_pipeline_info() != {"initialized": False}:
                        ctx.violation("broken-report", "after a failed initialization: %s" % p.get_pipeline_info(), case)
                cfg["processors"].clear()
                cfg["processors"].update(good)
                p.initialize()
                got = doclib.plain(p.process_text("Some &amp;amp; Text here"))
                if got != want:
                    ctx.violation("repaired", "after the configuration %s is repaired: %s instead of %s" % (b, got, want), case)
                ctx.outcome((repr(b), before))


def jobs(tier):
    q = tier == "quick"
    out = []
    for k in range(5):
        for sub in itertools.combinations(("text", "pdf", "office", "docling"), k):
            for order in {sub, sub[::-1]}:
                for inst in ((True, False) if "docling" in sub else (False,)):
                    out.append({"kind": "select", "parsers": list(order), "docling": inst})
    for sub in (["text", "pdf"], ["docling", "text"], []):
        out.append({"kind": "registry", "parsers": sub, "depth": 4 if q else 5})
    al = ("cleaning", "chunking", "embedding")
    for k in range(4):
        for sub in itertools.permutations(al, k):
            out.append({"kind": "stages", "stages": list(sub)})
    for st in ([], ["cleaning"], ["chunking", "embedding"], ["cleaning", "chunking"], ["embedding", "chunking", "cleaning"]):
        out.append({"kind": "pipe", "stages": st, "depth": 5 if q else 6})
        out.append({"kind": "batch", "stages": st, "len": 4 if q else 6})
    out.append({"kind": "broken", "times": 2})
    return sorted(out, key=lambda j: -j.get("depth", 0))


def run_job(job, ctx):
    k = job["kind"]
    if k == "select":
        job_select(job, ctx)
    elif k == "registry":
        explore.bfs(ctx, Registry, {"parsers": job["parsers"]}, job["depth"])
    elif k == "stages":
        job_stages(job, ctx)
    elif k == "pipe":
        explore.bfs(ctx, Pipe, {"stages": job["stages"]}, job["depth"])
    elif k == "batch":
        job_batch(job, ctx)
    else:
        job_broken(job, ctx)
    if k not in ("registry", "pipe"):
        ctx.n("states", len(ctx.distinct))
        ctx.n("traces_validated_against_impl", ctx.counts.get("transitions", 0))
        ctx.sample(job)


def replay(case, ctx):
    if "hist" in case:
        explore.replay_history(ctx, Registry if "parsers" in case["cfg"] else Pipe, case["cfg"], case["hist"])
    else:
        run_job(case["job"], ctx)
