"""C22: chunks cover the text, stay within the limits, tell where they lie and repeat nothing but the overlap."""
import itertools
import os

from .. import env

env.import_valori()
from valori.exceptions import ProcessingError                        # noqa: E402
from valori.parsers.office_parser import OfficeParser                # noqa: E402
from valori.parsers.pdf_parser import PDFParser                      # noqa: E402
from valori.parsers.text_parser import TextParser                    # noqa: E402
from valori.processors.chunking import ChunkingProcessor             # noqa: E402

LEVEL = "model_checking"
ASSUMPTIONS = ["chunk overlap at least 0 and below the chunk size, chunk size at most the maximum chunk size (anything else is refused when initialised)"]
BOUNDS = {"quick": "all sequences of up to 5 tokens of {letter, two letters, space, newline, blank line, '. ', '!'}, for sizes 1-6 and 9 with every overlap (some, for sizes above 4) and minimum sizes 0-3, for the three strategies and the three parsers' chunkers, and of 6 tokens with every fifth setting in turn; all sequences of up to 3 and a third of those of 4 building blocks of 60-2100 characters with the default sizes and four other settings; every setting out of range",
          "thorough": "6 tokens, every fifth setting with 7; 5 building blocks"}
TOKENS = ["a", "bc", " ", "\n", "\n\n", ". ", "!"]
BLOCKS = ["x" * 700, "The quick word. " * 20, "\n\n", "line\n" * 30, " " * 60, "y" * 2100, "Para one is here.\n\nAnd two! "]
STRATEGIES = ["fixed_size", "semantic", "sliding_window"]
SEPS = ["\n\n", "\n", ". ", "! ", "? ", " "]


def blank(s):
    return not s.strip()


def paragraphs(text):
    pos, out = 0, []
    for p in text.split("\n\n"):
        s = p.strip()
        if s:
            a = pos + p.find(s)
            out.append((a, a + len(s)))
        pos += len(p) + 2
    return out


def judge(text, chunks, c):
    """c: strategy, size, overlap, min, max"""
    prev = None
    spans = []
    for n, ch in enumerate(chunks):
        s, e, t = ch["start_pos"], ch["end_pos"], ch["text"]
        if ch["id"] != n:
            return "number", "chunk number %d has id %s" % (n, ch["id"])
        if not (0 <= s < e <= len(text)) or text[s:e].strip() != t:
            return "position", "chunk %r says it lies at %s:%s, where the text is %r" % (t, s, e, text[s:e])
        if not t or not c["min"] <= len(t) <= min(c["max"], c["size"]) or e - s > c["size"]:
            return "size", "chunk %r at %d:%d (sizes %s)" % (t, s, e, c)
        if "length" in ch and ch["length"] != len(t):
            return "size", "chunk %r says it has length %s" % (t, ch["length"])
        if prev:
            if s <= prev[0] or e <= prev[1]:
                return "redundant", "chunk %d:%d after chunk %d:%d of a text of length %d" % (s, e, prev[0], prev[1], len(text))
            if prev[1] - s > c["overlap"]:
                return "overlap", "chunks %d:%d and %d:%d overlap by more than %d" % (prev[0], prev[1], s, e, c["overlap"])
            if prev[1] - s < c["overlap"] and c["min"] <= 1 and not blank(text[prev[1] - c["overlap"]:s + c["overlap"]]) and not (
                    c["strategy"] == "semantic" and (e - s == c["size"] or prev[1] - prev[0] <= c["overlap"] or any(a == s and b - a > c["size"] for a, b in paragraphs(text)))):
                return "overlap", "chunks %d:%d and %d:%d share less than the overlap %d" % (prev[0], prev[1], s, e, c["overlap"])
        prev = (s, e)
        spans.append(prev)
    if c["min"] <= 1:
        pos = 0
        for s, e in spans:
            if s > pos and not blank(text[pos:s]):
                return "lost", "%r at %d:%d is in no chunk" % (text[pos:s], pos, s)
            pos = max(pos, e)
        if not blank(text[pos:]):
            return "lost", "%r at the end is in no chunk" % text[pos:]
        if c["strategy"] == "semantic":
            for a, b in paragraphs(text):
                if b - a <= c["size"] and not any(s <= a and b <= e for s, e in spans):
                    return "paragraph", "paragraph %r is split although it fits a chunk: %s" % (text[a:b], spans)
    if c["strategy"] == "fixed_size":
        for s, e in spans[:-1]:
            late = max(c["min"], c["overlap"])
            if e < len(text) and any(text.rfind(x, s, min(s + c["size"], len(text))) > s + late for x in SEPS) and not any(text[:e].endswith(x) for x in SEPS):
                return "break", "chunk %r does not end at a separator although one is in reach" % text[s:e]
    return None


_procs = {}


def chunks_of(text, c):
    st = c["strategy"]
    key = tuple(sorted(c.items()))
    p = _procs.get(key)
    if st not in STRATEGIES:
        return parsed(text, c, p, key)
    if st in STRATEGIES:
        if p is None:
            p = ChunkingProcessor({"strategy": st, "chunk_size": c["size"], "chunk_overlap": c["overlap"], "min_chunk_size": c["min"], "max_chunk_size": c["max"]})
            p.initialize()
            _procs[key] = p
        data = {"text": text, "metadata": {"m": 1}}
        r = p.process(data)
        if data != {"text": text, "metadata": {"m": 1}} or r["text"] != text or r["metadata"] != {"m": 1}:
            raise AssertionError("processing changed its input or the text")
        return r["chunks"]


class Page:
    def extract_text(self):
        return _src["text"]


class Reader:
    metadata = None

    def __init__(self, file):
        self.pages = [Page()]


class Doc:
    tables = ()

    def __init__(self, path):
        class P:
            text, style = _src["text"], None
        self.paragraphs = [P()]


_src = {"text": ""}
_files = {}


def parsed(text, c, p, key):
    """the parsers' own chunks, through parse(); the PDF and Word libraries are replaced by stand-ins that deliver the text"""
    import docx
    import PyPDF2
    PyPDF2.PdfReader, docx.Document = Reader, Doc
    st = c["strategy"]
    if p is None:
        p = {"text": TextParser, "pdf": PDFParser, "office": OfficeParser}[st]({"chunk_size": c["size"], "chunk_overlap": c["overlap"], "encoding": "utf-8"})
        p.initialize()
        _procs[key] = p
    f = _files.get(st)
    if f is None or not os.path.exists(f):
        f = _files[st] = os.path.join(env.fresh_dir("doc"), "d." + {"text": "txt", "pdf": "pdf", "office": "docx"}[st])
    _src["text"] = text
    if st == "text" or not os.path.exists(f):
        with open(f, "w", newline="") as h:
            h.write(text)
    r = p.parse(f)
    if blank(text):
        text = r["text"]                                            # nothing is extracted from blank pages
    want = text.strip() if st == "office" else text
    if r["text"] != want:
        raise AssertionError("text %r was extracted as %r" % (want, r["text"]))
    if len(want) <= c["size"] and not r["chunks"]:
        return None                                                 # short texts need no chunks
    return r["chunks"]


def one(text, c, ctx):
    ch = chunks_of(text, c)
    if ch is None:
        return []
    if c["strategy"] == "office":
        text = text.strip()
    ctx.n("transitions", max(1, len(ch)))
    e = judge(text, ch, c)
    if e:
        ctx.violation("%s:%s" % (e[0], c["strategy"]), "text %r, %s: %s" % (text[:120], c, e[1]), {"text": text, "c": c})
    return ch


def settings(sizes):
    for st in STRATEGIES + ["text", "pdf", "office"]:
        for size in sizes:
            for o in range(size):
                if size > 4 and o not in (0, 1, size // 2, size - 1):
                    continue
                for mn in ((0, 1, 2, 3) if st in STRATEGIES else (0,)):
                    if mn and mn > size:
                        continue
                    for mx in ((size, size + 5) if st in STRATEGIES and mn == 0 else (100,)):
                        yield {"strategy": st, "size": size, "overlap": o, "min": mn, "max": mx}


def jobs(tier):
    q = tier == "quick"
    out = []
    for first in range(len(TOKENS)):
        for second in range(len(TOKENS)):
            out.append({"t": "tokens", "first": [first, second], "len": 6 if q else 7})
    for b in range(len(BLOCKS)):
        out.append({"t": "blocks", "first": b, "len": 4 if q else 5})
    out.append({"t": "settings"})
    return out


def run_job(job, ctx):
    if job["t"] == "settings":
        return settings_job(ctx)
    if job["t"] == "tokens":
        cs = list(settings([1, 2, 3, 4, 5, 6, 9]))
        proc = [c for c in cs if c["strategy"] in STRATEGIES]
        lo = job["first"]
        seqs = [[]] if lo == [0, 0] else []
        if lo[1] == 0:
            seqs.append(lo[:1])
        for n in range(0, job["len"] - 1):
            for k, rest in enumerate(itertools.product(range(len(TOKENS)), repeat=n)):
                seqs.append(lo + list(rest))
        for k, s in enumerate(seqs):
            text = "".join(TOKENS[i] for i in s)
            ctx.n("states")
            ctx.current = {"text": text, "c": None}
            sub = cs if len(s) < job["len"] else proc[k % 5::5]
            with env.limit(10):
                for c in sub:
                    ctx.current["c"] = c
                    ch = one(text, c, ctx)
                    ctx.n("traces_validated_against_impl")
            ctx.outcome(tuple((x["start_pos"], x["end_pos"]) for x in ch))
            if ctx.late():
                return
        ctx.sample({"text": text, "c": c})
        return
    cs = []
    for st in STRATEGIES + ["text", "pdf", "office"]:
        cs += [{"strategy": st, "size": 1000, "overlap": 100, "min": 50, "max": 2000}, {"strategy": st, "size": 800, "overlap": 80, "min": 0, "max": 2000},
               {"strategy": st, "size": 300, "overlap": 299, "min": 0, "max": 300}, {"strategy": st, "size": 2500, "overlap": 0, "min": 1, "max": 2500},
               {"strategy": st, "size": 100, "overlap": 60, "min": 100, "max": 150}]
    for n in range(0, job["len"]):
        for rest in itertools.product(range(len(BLOCKS)), repeat=n):
            text = "".join(BLOCKS[i] for i in (job["first"],) + rest)
            if n == job["len"] - 1 and sum(rest) % 3:
                continue                                    # a third of the longest texts
            ctx.n("states")
            with env.limit(60):
                for c in cs:
                    if c["strategy"] not in STRATEGIES:
                        c = dict(c, min=0)
                    ctx.current = {"text": text, "c": c}
                    one(text, c, ctx)
                    ctx.n("traces_validated_against_impl")
            if ctx.late():
                return


def settings_job(ctx):
    """sizes that are not allowed are refused; defaults lose nothing"""
    for size, over, mx in itertools.product((-5, 0, 1, 10, 3000), (-3, -1, 0, 1, 10, 11, 5000), (None, 1, 9, 10, 4000)):
        cfg = {"chunk_size": size, "chunk_overlap": over, "min_chunk_size": 0}
        if mx is not None:
            cfg["max_chunk_size"] = mx
        ok = size > 0 and 0 <= over < size and (mx is None or mx >= size)
        case = {"cfg": cfg}
        settings_case(cfg, ok, ctx, case)
    text = "".join("word%d " % i for i in range(900))
    for st in STRATEGIES:
        for size in (100, 1000, 1999, 2000, 2001, 4000):
            settings_text({"chunk_size": size, "strategy": st, "chunk_overlap": 10}, text, ctx)
        # several documents through one processor do not influence each other
        p = ChunkingProcessor({"strategy": st, "chunk_size": 50, "chunk_overlap": 5, "min_chunk_size": 0})
        p.initialize()
        a = p.process({"text": text})["chunks"]
        p.process({"text": "other"})
        ctx.n("states")
        if p.process({"text": text})["chunks"] != a:
            ctx.violation("history", "the same text is chunked differently later", {"job": {"t": "settings"}})
        if p.get_stats()["chunks_created"] != 2 * len(a) + 1 or p.get_stats()["total_characters_processed"] != 2 * len(text) + 5:
            ctx.violation("stats", "statistics %s" % p.get_stats(), {"job": {"t": "settings"}})
    p = ChunkingProcessor({"strategy": "nonsense"})
    p.initialize()
    for data in ({"text": "abc"}, {}):
        try:
            p.process(data)
            ctx.violation("refuse", "unknown strategy or missing text accepted", {"job": {"t": "settings"}})
        except ProcessingError:
            ctx.n("states")


def settings_case(cfg, ok, ctx, case):
    p = ChunkingProcessor(dict(cfg))
    ctx.n("states")
    ctx.n("transitions")
    try:
        p.initialize()
    except ProcessingError:
        if ok:
            ctx.violation("settings", "valid settings %s are refused" % cfg, {"job": {"t": "settings"}})
        try:
            p.process({"text": "abc"})
            ctx.violation("settings", "a processor with refused settings %s works" % cfg, {"job": {"t": "settings"}})
        except ProcessingError:
            pass
        return
    if not ok:
        ctx.violation("settings", "settings %s are accepted" % cfg, {"job": {"t": "settings"}})


def settings_text(cfg, text, ctx):
    p = ChunkingProcessor(dict(cfg))
    p.initialize()
    ch = p.process({"text": text})["chunks"]
    e = judge(text, ch, {"strategy": cfg["strategy"], "size": cfg["chunk_size"], "overlap": 10, "min": 0 if all(len(c["text"]) < 50 for c in ch[:0]) else 1, "max": 10 ** 9})
    ctx.n("states")
    if e:
        ctx.violation("defaults:" + e[0], "%s: %s" % (cfg, e[1]), {"job": {"t": "settings"}})


def replay(case, ctx):
    one(case["text"], case["c"], ctx)
