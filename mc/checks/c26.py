"""C26: parsers extract all the text of a document once and in order, describe it correctly, or refuse the file."""
import datetime
import itertools
import os
import types

from .. import doclib, env

env.import_valori()
from valori.exceptions import ParsingError                     # noqa: E402
from valori.parsers.docling_parser import DoclingParser        # noqa: E402
from valori.parsers.office_parser import OfficeParser          # noqa: E402
from valori.parsers.pdf_parser import PDFParser                # noqa: E402
from valori.parsers.text_parser import TextParser              # noqa: E402

LEVEL = "model_checking"
ASSUMPTIONS = ["text files are compared up to the kind of line ending; white space around a paragraph, cell or shape is not content",
               "tables of word-processing documents are reported in the metadata, and not in the text",
               "PDF documents are written by the check (one font, uncompressed, one string per line); what PyPDF2 makes of the glyphs of one page is taken as that page's text",
               "docling is a stand-in converter"]
BOUNDS = {"quick": "text: all sequences of up to 4 of 14 byte tokens in 9 stated encodings and under detection, and every position of a multi-byte character and a line ending around the reader's buffer boundary; word documents: all sequences of up to 3 of 10 blocks; spreadsheets: all 2x2 grids over 9 values, all sequences of up to 3 of 5 sheets; slides: all sequences of up to 2 of 9 slides; PDF: all sequences of up to 4 of 6 pages for 4 chunk settings; docling: all sequences of up to 5 of 7 elements for 4 chunk sizes; documents of 9-27 blocks, slides, sheets and pages, grids of up to 1001 rows and 256 columns, 300 elements, texts of up to a million characters; every file size around the limit; a truncation of each document at every 37th byte, missing files, folders, other formats",
          "thorough": "5 byte tokens, 4 blocks, 2x3 grids over 6 values, 4 sheets, 3 slides, 5 pages, 6 elements; truncations at every byte of small files and every 5th of the others"}


def start(cls, **cfg):
    p = cls(cfg)
    p.initialize()
    return p


class File:
    """a file, and whether parsing leaves it alone"""

    def __init__(self, name):
        self.d = env.fresh_dir()
        self.path = os.path.join(self.d, name)

    def put(self, data):
        with open(self.path, "wb") as f:
            f.write(data)
        os.utime(self.path, ns=(10 ** 18, 10 ** 18))
        self.data = data
        return self.path

    def same(self):
        with open(self.path, "rb") as f:
            return f.read() == self.data and os.stat(self.path).st_mtime_ns == 10 ** 18 and os.listdir(self.d) == [os.path.basename(self.path)]

    def drop(self):
        env.drop_dir(self.d)


def parse(p, f, ctx, case):
    try:
        r = p.parse(f.path)
    except ParsingError:
        r = None
    ctx.n("transitions")
    if not f.same():
        ctx.violation("modified", "parsing changed the file or its folder", case)
    if r is not None:
        m = r["metadata"]
        if m["file_name"] != os.path.basename(f.path) or m["file_size"] != len(f.data):
            ctx.violation("file", "metadata %s of a file %s of %d bytes" % (m, os.path.basename(f.path), len(f.data)), case)
        if set(r) < {"text", "metadata", "chunks", "structure"} or not isinstance(r["text"], str):
            ctx.violation("fields", "the result is %r" % (r,), case)
    return r


def words(t):
    return t.split()


# ------------------------------------------------------------------ text
BYTES = [b"a", b"Word ", b"\n", b"\r\n", b"\r", b"\n\n", b"\t", b"\xc3\xa9", b"\xe2\x82\xac", b"\xe9", b"\x00", b"\xff", b"\xf0\x9f\x98\x80", b"\x83e"]
ENCODINGS = ["utf-8", "ascii", "latin-1", "cp1252", "utf-16-le", "utf-16-be", "utf-16", "shift_jis", "utf-8-sig"]


def lines(t):
    return t.replace("\r\n", "\n").replace("\r", "\n")


def text_case(p, f, data, enc, ctx):
    case = {"kind": "text", "enc": enc, "data": data.hex()}
    f.put(data)
    r = parse(p, f, ctx, case)
    if r is None and enc == "utf-16" and data[:2] not in (b"\xff\xfe", b"\xfe\xff"):
        return                                     # does not say its byte order: a broken document
    if r is None:
        return ctx.violation("refused", "a text file %r is refused" % data[:60], case)
    used = r["metadata"]["encoding"]
    if enc != "auto" and used != enc or not isinstance(used, str):
        return ctx.violation("encoding", "encoding %s is reported as %r" % (enc, used), case)
    w = lines(data.decode(used, "replace"))
    if lines(r["text"]) != w:
        ctx.violation("decode", "%r in %s gives %r, is %r" % (data[:80], used, r["text"][:80], w[:80]), case)
    if r["structure"]["paragraphs"] != len(r["text"].split("\n\n")):
        ctx.violation("paragraphs", "%r is said to have %s paragraphs" % (w, r["structure"]["paragraphs"]), case)
    if enc == "auto" and all(b < 128 and b >= 9 for b in data) and lines(r["text"]) != lines(data.decode("ascii")):
        ctx.violation("ascii", "the plain text %r is read as %r" % (data, r["text"]), case)
    ctx.outcome(w)


def job_text(job, ctx):
    f = File("f.txt")
    p = start(TextParser, encoding=job["enc"])
    if job["part"] == "tokens":
        for k in range(job["len"] + 1):
            for seq in itertools.product(BYTES, repeat=k):
                text_case(p, f, b"".join(seq), job["enc"], ctx)
                if job["enc"] == "utf-16" and k < job["len"]:
                    text_case(p, f, b"\xff\xfe" + b"".join(seq), job["enc"], ctx)
                    text_case(p, f, b"\xfe\xff" + b"".join(seq), job["enc"], ctx)
    elif job["part"] == "late":
        # what decides the encoding may come anywhere in the file
        special = "caf\u00e9 \u00fcber \u4f60\u597d \u20ac "
        for before in (0, 10, 1000, 4090, 8190, 10000, 32768, 65536, 70000, 131072) + (() if job["len"] < 2 else (400000, 1100000)):
            for after in (0, 9, 5000, 70000):
                for line in ("plain words here\n", "x" * 70):
                    w = (line * (before // len(line) + 1))[:before] + special * 20 + (line * (after // len(line) + 1))[:after]
                    f.put(w.encode("utf-8"))
                    r = parse(p, f, ctx, {"job": job})
                    if r is None or r["text"] != w:
                        return ctx.violation("late", "a UTF-8 file with %d plain characters before and %d after the special ones is read as %s" % (
                            before, after, r and (r["metadata"]["encoding"], r["text"][before:before + 80])), {"job": job})
    else:
        for off in list(range(8170, 8200)) + list(range(16370, 16390)):
            off += off % 2 * (job["enc"] == "utf-16")
            for tok in (b"\r\n", b"\xe2\x82\xac", b"\xf0\x9f\x98\x80", b"\xff", b"\r", "\u20ac".encode("utf-16-le"), "\U0001f600".encode("utf-16-le")):
                text_case(p, f, (b"\xff\xfe" if job["enc"] == "utf-16" else b"") + b"a" * off + tok + b"bc" * 9, job["enc"], ctx)
    f.drop()


# ------------------------------------------------------------------ word documents
BLOCKS = [("p", "One two"), ("p", ""), ("p", "   "), ("p", " edge "), ("p", "line1\nline2"), ("p", "tab\there"), ("p", "Caf\u00e9 \u20ac \U0001f600 & <x>"), ("p", "Head", "Heading 1"), ("t", [["A1", "B1"], ["A2", " "]]), ("t", [["only"]])]


def label(items):
    """every paragraph and cell gets its own words"""
    out = []
    for i, it in enumerate(items):
        if it[0] == "p":
            out.append(("p", it[1] and it[1].replace("e", "e%d" % i)) + it[2:])
        else:
            out.append(("t", [[c + (str(i) if c.strip() else "") for c in row] for row in it[1]]))
    return out


def docx_case(f, items, tables, ctx):
    case = {"kind": "docx", "items": items, "tables": tables}
    f.put(doclib.docx_bytes(items))
    r = parse(start(OfficeParser, extract_tables=tables), f, ctx, case)
    if r is None:
        return ctx.violation("refused", "the document %s is refused" % (items,), case)
    paras = [(i, it) for i, it in enumerate([x for x in items if x[0] == "p"]) if it[1].strip()]
    tabs = [it[1] for it in items if it[0] == "t"] if tables else []
    w = [x for _, it in paras for x in words(it[1])]
    if words(r["text"]) != w:
        ctx.violation("text", "the document %s gives %r" % (items, r["text"]), case)
    if any(it[1].strip() not in r["text"] for _, it in paras):
        ctx.violation("text", "the document %s gives %r" % (items, r["text"]), case)
    m = r["metadata"]
    got = [(x["paragraph_number"], x["text_length"], x["style"]) for x in m["paragraphs_info"]]
    if m["num_paragraphs"] != len(paras) or r["structure"]["paragraphs"] != len(paras) or got != [(i + 1, len(it[1].strip()), it[2] if len(it) > 2 else "Normal") for i, it in paras]:
        ctx.violation("paragraphs", "the document %s is described by %s" % (items, m), case)
    want = [(i + 1, len(t), len(t[0]), [[c.strip() for c in row] for row in t]) for i, t in enumerate(tabs)]
    if m["num_tables"] != len(tabs) or r["structure"]["tables"] != len(tabs) or [(x["table_number"], x["rows"], x["columns"], x["data"]) for x in m["tables_info"]] != want:
        ctx.violation("tables", "the tables of %s are described by %s" % (items, m["tables_info"]), case)
    ctx.outcome(r["text"])


def job_docx(job, ctx):
    f = File("f.DOCX")
    n = 0
    for k in range(job["len"] + 1):
        for seq in itertools.product(BLOCKS, repeat=k):
            n += 1
            if n % job["of"] == job["part"]:
                docx_case(f, label(seq), n % 3 > 0, ctx)
    f.drop()


# ------------------------------------------------------------------ spreadsheets
VALUES = [None, 1, "two words", 0, False, -2.5, " pad ", "\u00e9|x", datetime.datetime(2024, 2, 29, 12, 30)]
SHEETS = [[], [["x1"]], [[None, None], [None, None, "far"]], [["r1c1", None, "r1c3"], ["r2c1"]], [[0], [], [""], [True]]]


def xlsx_case(f, sheets, ctx):
    case = {"kind": "xlsx", "sheets": repr(sheets)}
    f.put(doclib.xlsx_bytes(sheets))
    r = parse(start(OfficeParser), f, ctx, case)
    if r is None:
        return ctx.violation("refused", "the workbook %s is refused" % (sheets,), case)
    w, info = [], []
    for name, rows in sheets:
        cells = [[str(v) for v in row if v is not None and v != ""] for row in rows]
        cells = [row for row in cells if row]
        if cells:
            body = [x for row in cells for x in words(" | ".join(row))]
            w += ["Sheet:"] + words(name) + body
            used = [(i, j) for i, row in enumerate(rows) for j, v in enumerate(row) if v is not None]
            info.append((name, max(i for i, _ in used) + 1, max(j for _, j in used) + 1))
    if words(r["text"]) != w:
        ctx.violation("cells", "the workbook %s gives %r, should have %s" % (sheets, r["text"], w), case)
    m = r["metadata"]
    if m["num_sheets"] != len(sheets) or m["sheet_names"] != [n for n, _ in sheets] or r["structure"]["sheets"] != len(sheets) or [x["sheet_name"] for x in m["sheets_info"]] != [x[0] for x in info]:
        ctx.violation("sheets", "the workbook %s is described by %s" % (sheets, m), case)
    if [(x["max_row"], x["max_column"]) for x in m["sheets_info"]] != [x[1:] for x in info] or r["structure"]["total_cells"] != sum(a * b for _, a, b in info):
        ctx.violation("extent", "the workbook %s is described by %s, %s" % (sheets, m["sheets_info"], r["structure"]), case)
    if any(len(x["sheet_name"]) + 8 + x["text_length"] > len(r["text"]) for x in m["sheets_info"]):
        ctx.violation("extent", "the workbook %s is described by %s" % (sheets, m["sheets_info"]), case)
    ctx.outcome(r["text"])


def job_xlsx(job, ctx):
    f = File("f.xlsx")
    if job["part"] == "sheets":
        for k in range(1, job["len"] + 1):
            for seq in itertools.product(SHEETS, repeat=k):
                xlsx_case(f, [("Tab %d" % (9 - i), rows) for i, rows in enumerate(seq)], ctx)
    else:
        cols, vals = job["cols"], VALUES[:job["values"]]
        for n, seq in enumerate(itertools.product(vals, repeat=2 * cols)):
            if n % job["of"] == job["part"]:
                xlsx_case(f, [("S", [list(seq[:cols]), list(seq[cols:])])], ctx)
    f.drop()


# ------------------------------------------------------------------ slides
SLIDES = [[], [("s", "Title")], [("s", "b"), ("s", "a")], [("e",), ("s", "x\ny")], [("s", "  "), ("s", " p ")], [("t", [["c1", "c2"], ["", "c3"]])], [("g", [("s", "in1"), ("e",), ("s", "in2")]), ("s", "after")],
          [("s", "before"), ("t", [["cell"]]), ("g", [("g", [("s", "deep")])])], [("e",)]]


def flat(items):
    out = []
    for it in items:
        if it[0] == "s":
            out.append(it[1])
        elif it[0] == "t":
            out += [c for row in it[1] for c in row]
        elif it[0] == "g":
            out += flat(it[1])
    return [x for x in out if x.strip()]


def pptx_case(f, slides, ctx):
    case = {"kind": "pptx", "slides": slides}
    f.put(doclib.pptx_bytes(slides))
    r = parse(start(OfficeParser), f, ctx, case)
    if r is None:
        return ctx.violation("refused", "the slides %s are refused" % (slides,), case)
    w, nums = [], []
    for i, s in enumerate(slides):
        t = flat(s)
        if t:
            w += ["Slide", "%d:" % (i + 1)] + [x for y in t for x in words(y)]
            nums.append(i + 1)
    if words(r["text"]) != w:
        ctx.violation("shapes", "the slides %s give %r, should have %s" % (slides, r["text"], w), case)
    m = r["metadata"]
    if m["num_slides"] != len(slides) or r["structure"]["slides"] != len(slides) or [x["slide_number"] for x in m["slides_info"]] != nums:
        ctx.violation("slides", "the slides %s are described by %s" % (slides, m), case)
    ctx.outcome(r["text"])


def job_pptx(job, ctx):
    f = File("f.pptx")
    n = 0
    for k in range(job["len"] + 1):
        for seq in itertools.product(SLIDES, repeat=k):
            n += 1
            if n % job["of"] == job["part"]:
                pptx_case(f, list(seq), ctx)
    f.drop()


# ------------------------------------------------------------------ pdf
PAGES = [[], ["alpha"], ["beta gamma", "delta"], ["   "], ["x" * 40, "yy zz"], ["(par) \\ e\u00e9"]]


def pdf_case(f, pages, cfg, info, ctx):
    import io
    import PyPDF2
    case = {"kind": "pdf", "pages": pages, "cfg": cfg, "info": info}
    pages = [[l + ("%d" % i if l.strip() else "") for l in p] for i, p in enumerate(pages)]
    f.put(doclib.pdf_bytes(pages, info))
    r = parse(start(PDFParser, **cfg), f, ctx, case)
    if r is None:
        return ctx.violation("refused", "the document %s is refused" % (pages,), case)
    want = [(i + 1, x) for i, x in enumerate(" ".join(p) for p in pages) if x.strip()]
    if words(r["text"]) != [x for _, t in want for x in words(t)]:
        return ctx.violation("pages", "the document %s gives %r" % (pages, r["text"]), case)
    m = r["metadata"]
    pm = m["page_metadata"]
    if m["num_pages"] != len(pages) or r["structure"]["pages"] != len(pages) or m["num_pages_with_text"] != len(want) or r["structure"]["pages_with_text"] != len(want) or [x["page_number"] for x in pm] != [n for n, _ in want]:
        ctx.violation("page-count", "the document %s is described by %s" % (pages, m), case)
    for k, v in (info or {}).items():
        if m[k.lower()] != v:
            ctx.violation("info", "the document with %s is described by %s" % (info, m), case)
    # which page each character lies on: the pages' texts follow each other in the text
    raw = [p.extract_text() for p in PyPDF2.PdfReader(io.BytesIO(f.data)).pages]
    page, pos = {}, 0
    for n, t in enumerate(raw):
        if t.strip():
            a = r["text"].find(t, pos)
            if a < 0:
                return ctx.violation("pages", "the document %s gives %r" % (pages, r["text"]), case)
            for q in range(a, a + len(t)):
                page[q] = n + 1
            pos = a + len(t)
    for ch in r["chunks"]:
        s = ch["start_pos"]
        first = next(q for q in range(s, len(r["text"])) if not r["text"][q].isspace())
        ok = {page.get(s), page[first]}
        if ch["page_number"] not in ok or ch["metadata"]["source_page"] != ch["page_number"]:
            ctx.violation("chunk-page", "the chunk %r at %d of %r is said to be on page %s, is on %s" % (ch["text"], s, r["text"], ch["page_number"], ok), case)
    ctx.outcome(r["text"])


INFOS = [None, {"Title": "A title", "Author": "Me"}, {"Subject": "s", "Producer": "p", "Creator": "c"}]
PDF_CFG = [{}, {"chunk_size": 7, "chunk_overlap": 0}, {"chunk_size": 5, "chunk_overlap": 3}, {"chunk_size": 16, "chunk_overlap": 1}]


def job_pdf(job, ctx):
    f = File("f.pdf")
    n = 0
    for k in range(1, job["len"] + 1):
        for seq in itertools.product(PAGES, repeat=k):
            n += 1
            if n % job["of"] == job["part"]:
                for c in PDF_CFG if k < 4 else PDF_CFG[n % 3 + 1:n % 3 + 2]:
                    pdf_case(f, list(seq), c, INFOS[n % 3], ctx)
    f.drop()


# ------------------------------------------------------------------ docling
ELEMENTS = [{"text": "one two"}, {"text": " "}, {"text": " lead three"}, {"label": "Table", "id": "t1", "rows": 2, "columns": 3, "data": [[1]]}, {"text": "cap", "label": "figure", "id": "f", "caption": "c"},
            {"other": 1}, {"text": "x" * 12, "label": "paragraph"}]


def job_docling(job, ctx):
    mods = doclib.fake_docling()
    cur = []

    class Converter:
        def convert(self, path):
            return types.SimpleNamespace(iterate_items=lambda: iter([types.SimpleNamespace(**e) for e in cur]))
    mods["docling.document_converter"].DocumentConverter = Converter
    with doclib.modules(mods):
        f = File("f.html")
        f.put(b"<p>")
        for size, tab, fig in ((1000, True, True), (1, True, False), (8, False, True), (14, True, True)):
            p = start(DoclingParser, chunk_size=size, extract_tables=tab, extract_figures=fig)
            for k in list(range(job["len"] + 1)) + [-1]:
                for seq in itertools.product(ELEMENTS, repeat=k) if k >= 0 else turns(ELEMENTS, (9, 10, 11, 26, 101, 130, 300)):
                    cur[:] = seq
                    case = {"job": job}
                    r = parse(p, f, ctx, case)
                    if r is None:
                        ctx.violation("refused", "the document %s is refused" % (seq,), case)
                        continue
                    t = [e["text"].strip() for e in seq if e.get("text", "").strip()]
                    nt = [e for e in seq if tab and e.get("label") == "Table"]
                    nf = [e for e in seq if fig and e.get("label") == "figure"]
                    m = r["metadata"]
                    if words(r["text"]) != [w for x in t for w in words(x)]:
                        ctx.violation("elements", "the elements %s give %r" % (seq, r["text"]), case)
                    if (m["num_text_elements"], m["num_tables"], m["num_figures"]) != (len(t), len(nt), len(nf)) or len(m["tables"]) != len(nt) or len(m["figures"]) != len(nf) or (
                            r["structure"]["text_elements"], r["structure"]["tables"], r["structure"]["figures"]) != (len(t), len(nt), len(nf)):
                        ctx.violation("counts", "the elements %s are described by %s" % (seq, m), case)
                    nxt = 0
                    for i, c in enumerate(r["chunks"]):
                        a, b = c["start_element"], c["end_element"]
                        if c["id"] != i or a != nxt or not a <= b < len(t) or words(c["text"]) != [w for x in t[a:b + 1] for w in words(x)]:
                            ctx.violation("chunk-elements", "of %s, chunk %s" % (t, c), case)
                        nxt = b + 1
                    if nxt != len(t):
                        ctx.violation("chunk-lost", "of %s, only these chunks: %s" % (t, r["chunks"]), case)
                    ctx.outcome((r["text"], len(r["chunks"])))
        f.drop()


# ------------------------------------------------------------------ long documents
def turns(items, sizes):
    """long sequences: the items in turn, and one of them many times with another at the end or in the middle"""
    for n in sizes:
        for step in range(1, len(items)):
            yield [items[(i * step + i // len(items)) % len(items)] for i in range(n)]
        for i, it in enumerate(items):
            yield [it] * (n - 1) + [items[(i + 1) % len(items)]]
            yield [it] * (n // 2) + [items[(i + 2) % len(items)]] * 2 + [it] * (n - n // 2 - 2)


def job_long(job, ctx):
    if job["part"] == "docx":
        f = File("f.docx")
        for n, seq in enumerate(turns(BLOCKS, job["sizes"])):
            docx_case(f, label(seq), n % 3 > 0, ctx)
        for rows, cols in ((11, 3), (30, 12), (101, 2), (1, 20)):
            docx_case(f, [("p", "before"), ("t", [["r%dc%d" % (i, j) for j in range(cols)] for i in range(rows)]), ("p", "after")], True, ctx)
    elif job["part"] == "xlsx":
        f = File("f.xlsx")
        for n, seq in enumerate(turns(SHEETS, job["sizes"][:4])):
            xlsx_case(f, [("Tab %d" % (99 - i), rows) for i, rows in enumerate(seq)], ctx)
        for rows, cols in ((3, 30), (11, 11), (30, 30), (101, 3), (130, 27), (1001, 2), (2, 256)):
            for gap in (0, 2, 5):
                xlsx_case(f, [("S", [[None if gap and (i + j) % gap == 0 else VALUES[1:][(i * 3 + j) % 8] for j in range(cols)] for i in range(rows)]), ("T", [["end"]])], ctx)
    elif job["part"] == "pptx":
        f = File("f.pptx")
        for seq in turns(SLIDES, job["sizes"]):
            pptx_case(f, seq, ctx)
    elif job["part"] == "pdf":
        f = File("f.pdf")
        for n, seq in enumerate(turns(PAGES, job["sizes"])):
            pdf_case(f, seq, PDF_CFG[n % 4] if n % 2 else {}, INFOS[n % 3], ctx)
    else:
        f = File("f.txt")
        for n in (100, 1000, 9999, 10000, 10001, 65535, 65536, 65537, 100000, 131072, 1048576, 1048577):
            for i, tok in enumerate(("\u00e9", "\n\n", "z", "\u20ac\n", "\U0001f600")):
                for enc in ("utf-8", "auto", "utf-16-le", "latin-1"):
                    if n > 200000 and i % 2:
                        continue
                    t = ("ab cd. " * (n // 7 + 1))[:n - len(tok)] + tok
                    try:
                        data = t.encode("utf-8" if enc == "auto" else enc)
                    except UnicodeEncodeError:
                        continue
                    text_case(start(TextParser, encoding=enc), f, data, enc, ctx)
    f.drop()


# ------------------------------------------------------------------ refusals
def samples():
    return [("a.txt", b"Some text. " * 20, TextParser), ("a.pdf", doclib.pdf_bytes([["alpha"], ["beta"]], {"Title": "T"}), PDFParser), ("a.docx", doclib.docx_bytes([("p", "alpha"), ("t", [["b"]])]), OfficeParser),
            ("a.xlsx", doclib.xlsx_bytes([("S", [[1, "x"]])]), OfficeParser), ("a.pptx", doclib.pptx_bytes([[("s", "alpha")]]), OfficeParser), ("a.html", b"<p>alpha</p>", DoclingParser)]


def job_refuse(job, ctx):
    with doclib.modules(doclib.fake_docling()):
        name, data, cls = samples()[job["i"]]
        case = {"job": job}
        f = File(name)
        f.put(data)
        for size in (0, 1, len(data) // 2, len(data) - 1, len(data), len(data) + 1, 10 ** 9):
            r = parse(start(cls, max_file_size=size), f, ctx, case)
            if (r is None) != (size < len(data)):
                ctx.violation("limit", "a %s of %d bytes with the limit %d is %s" % (name, len(data), size, "refused" if r is None else "parsed"), case)
        p = start(cls)
        whole = parse(p, f, ctx, case)
        if whole is None:
            return ctx.violation("refused", "%s is refused" % name, case)
        again = parse(p, f, ctx, case)
        if doclib.plain(again) != doclib.plain(whole):
            ctx.violation("again", "parsing %s again gives something else" % name, case)
        step = job["step"] if len(data) > 2000 else 1
        if cls in (PDFParser, OfficeParser):
            for n in range(0, len(data) - 1, step):
                f.put(data[:n])
                r = parse(p, f, ctx, case)
                ctx.outcome((n, r is None))
                if r is not None and cls is OfficeParser and r["text"] != whole["text"]:
                    ctx.violation("broken", "the first %d of %d bytes of %s are parsed as %r" % (n, len(data), name, r["text"]), case)
            for bad in (b"", b"not a document", b"PK\x03\x04 nothing", data[::-1]):
                f.put(bad)
                if parse(p, f, ctx, case) is not None:
                    ctx.violation("broken", "%r as %s is parsed" % (bad[:20], name), case)
        if cls is DoclingParser:
            f.put(b"BROKEN")
            if parse(p, f, ctx, case) is not None:
                ctx.violation("broken", "what the converter refuses is parsed", case)
        f.put(data)
        d = f.d
        for other in ("a.exe", "a", "nothere" + os.path.splitext(name)[1], "folder" + os.path.splitext(name)[1], "a" + os.path.splitext(name)[1] + "x"):
            path = os.path.join(d, other)
            if other.startswith("folder"):
                os.mkdir(path)
            elif not other.startswith("nothere"):
                with open(path, "wb") as h:
                    h.write(data)
            ctx.n("transitions")
            if cls is DoclingParser and other.startswith("folder"):
                continue
            try:
                r = p.parse(path)
                ctx.violation("accepts", "%s is parsed by %s: %r" % (other, cls.__name__, r), case)
            except ParsingError:
                pass
        f.drop()


def jobs(tier):
    q = tier == "quick"
    out = []
    for e in ENCODINGS + ["auto"]:
        n = (3 if q else 4) if e == "auto" else (4 if q else 5)
        out.append({"kind": "text", "enc": e, "part": "tokens", "len": n})
        if e != "auto":
            out.append({"kind": "text", "enc": e, "part": "buffer"})
    out += [{"kind": "text", "enc": e, "part": "late", "len": 1 if q else 2} for e in ("auto", "utf-8")]
    W = 8
    for i in range(W):
        out.append({"kind": "docx", "len": 3 if q else 4, "part": i, "of": W})
        out.append({"kind": "xlsx", "cols": 2, "values": 9, "part": i, "of": W})
        if not q:
            out.append({"kind": "xlsx", "cols": 3, "values": 6, "part": i, "of": W})
        out.append({"kind": "pptx", "len": 2 if q else 3, "part": i, "of": W})
        out.append({"kind": "pdf", "len": 4 if q else 5, "part": i, "of": W})
    out.append({"kind": "xlsx", "part": "sheets", "len": 3 if q else 4})
    out.append({"kind": "docling", "len": 5 if q else 6})
    for part in ("docx", "xlsx", "pptx", "pdf", "text"):
        for sizes in ([9, 10, 11, 12], [26, 27]) if q else ([9, 10, 11, 12], [26, 27], [51], [101], [130]):
            if part != "text" or sizes[0] == 9:
                out.append({"kind": "long", "part": part, "sizes": sizes})
    for i in range(6):
        out.append({"kind": "refuse", "i": i, "step": 37 if q else 5})
    return out


JOBS = {"text": job_text, "docx": job_docx, "xlsx": job_xlsx, "pptx": job_pptx, "pdf": job_pdf, "docling": job_docling, "long": job_long, "refuse": job_refuse}


def run_job(job, ctx):
    ctx.current = {"job": job}
    JOBS[job["kind"]](job, ctx)
    ctx.n("states", len(ctx.distinct))
    ctx.n("traces_validated_against_impl", ctx.counts.get("transitions", 0))
    ctx.sample(job)


def replay(case, ctx):
    if "job" in case:
        return run_job(case["job"], ctx)
    f = File("f." + ("txt" if case["kind"] == "text" else case["kind"]))
    k = case["kind"]
    if k == "text":
        text_case(start(TextParser, encoding=case["enc"]), f, bytes.fromhex(case["data"]), case["enc"], ctx)
    elif k == "docx":
        docx_case(f, [tuple(x) for x in case["items"]], case["tables"], ctx)
    elif k == "xlsx":
        xlsx_case(f, eval(case["sheets"], {"datetime": datetime}), ctx)
    elif k == "pptx":
        pptx_case(f, case["slides"], ctx)
    elif k == "pdf":
        pdf_case(f, case["pages"], case["cfg"], case["info"], ctx)
