"""Stand-ins for the optional libraries, and builders for small documents of every supported format."""
import hashlib
import io
import sys
import tempfile
import types
import zlib

import numpy as np

from . import env

DIM = 5


# ------------------------------------------------------------ embedding models
def raw_vector(text, dim=DIM, dtype="float32"):
    """The stand-in model: a fixed function of the text; the zero vector for texts starting with 'zero'."""
    if text.startswith("zero"):
        return np.zeros(dim, dtype)
    h = hashlib.md5(text.encode("utf-8", "surrogatepass")).digest()
    return np.array([h[i % 16] - 127.5 - i // 16 for i in range(dim)], dtype)


def fake_sentence_transformers(dim=DIM, log=None, fail=()):
    m = types.ModuleType("sentence_transformers")

    class SentenceTransformer:
        def __init__(self, name, *a, **k):
            if name == "missing-model":
                raise OSError("model not found")
            self.name = name

        def to(self, device):
            return self

        def get_sentence_embedding_dimension(self):
            return dim

        def encode(self, texts, convert_to_numpy=False, **k):
            one = isinstance(texts, str)
            for t in [texts] if one else texts:
                if not isinstance(t, str):
                    raise TypeError("not a text: %r" % (t,))
                if t in fail:
                    raise RuntimeError("the model fails on %r" % t)
            if log is not None:
                log.append(texts if one else list(texts))
            if one:
                return raw_vector(texts, dim)
            return np.array([raw_vector(t, dim) for t in texts], "float32").reshape(len(texts), dim)

    m.SentenceTransformer = SentenceTransformer
    return m


def fake_openai(dim=DIM, fail=()):
    m = types.ModuleType("openai")

    class Embedding:
        @staticmethod
        def create(input, model, **k):
            if input in fail:
                raise RuntimeError("the service fails on %r" % input)
            return {"data": [{"embedding": [float(x) for x in raw_vector(input, dim)]}]}
    m.Embedding = Embedding
    return m


def fake_torch():
    m = types.ModuleType("torch")

    class no_grad:
        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

    class cuda:
        @staticmethod
        def is_available():
            return False
    m.no_grad, m.cuda = no_grad, cuda
    return m


class _Tensor:
    def __init__(self, a):
        self.a = a

    def to(self, d):
        return self

    def cpu(self):
        return self

    def numpy(self):
        return self.a

    def mean(self, dim):
        return _Tensor(self.a.mean(axis=dim))

    def squeeze(self, *a):
        return _Tensor(self.a.squeeze())


def fake_transformers(dim=DIM, fail=()):
    m = types.ModuleType("transformers")

    class AutoTokenizer:
        @classmethod
        def from_pretrained(cls, name):
            return cls()

        def __call__(self, text, **k):
            return {"input_ids": _Tensor(np.array([text], dtype=object))}

    class AutoModel:
        @classmethod
        def from_pretrained(cls, name):
            return cls()

        def to(self, d):
            return self

        def __call__(self, input_ids):
            t = input_ids.a[0]
            if t in fail:
                raise RuntimeError("the model fails on %r" % t)
            o = types.SimpleNamespace()
            o.last_hidden_state = _Tensor(raw_vector(t, dim)[None, None, :])
            return o
    m.AutoTokenizer, m.AutoModel = AutoTokenizer, AutoModel
    return m


def fake_docling():
    """A converter whose items are the lines of the file, as text."""
    m, dm, bm, dc = (types.ModuleType(n) for n in ("docling", "docling.datamodel", "docling.datamodel.base_models", "docling.document_converter"))
    bm.InputFormat = object

    class DocumentConverter:
        def convert(self, path):
            with open(path, "rb") as f:
                data = f.read()
            if data.startswith(b"BROKEN"):
                raise ValueError("cannot convert")

            class Doc:
                def iterate_items(self):
                    yield types.SimpleNamespace(text="docling %08x" % zlib.crc32(data))
                    yield types.SimpleNamespace(text="of %d bytes" % len(data))
            return Doc()
    dc.DocumentConverter = DocumentConverter
    m.datamodel, dm.base_models, m.document_converter = dm, bm, dc
    return {"docling": m, "docling.datamodel": dm, "docling.datamodel.base_models": bm, "docling.document_converter": dc}


NO_DOCLING = {n: None for n in ("docling", "docling.datamodel", "docling.datamodel.base_models", "docling.document_converter")}


class modules:
    """with modules({...}): those modules are what an import finds (None: not installed)."""

    def __init__(self, mods):
        self.mods = mods

    def __enter__(self):
        self.old = {k: sys.modules.get(k, self) for k in self.mods}
        sys.modules.update(self.mods)

    def __exit__(self, *a):
        for k, v in self.old.items():
            if v is self:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
        return False


# ------------------------------------------------------------ documents
def pdf_bytes(pages, info=None):
    """One-line-per-string pages, without compression."""
    objs = []

    def esc(s):
        return s.replace("\\", "\\\\").replace("(", "\\(").replace(")", "\\)")
    n = len(pages)
    objs.append(b"<< /Type /Catalog /Pages 2 0 R >>")
    objs.append(("<< /Type /Pages /Count %d /Kids [%s] >>" % (n, " ".join("%d 0 R" % (4 + 2 * i) for i in range(n)))).encode())
    objs.append(b"<< /Type /Font /Subtype /Type1 /BaseFont /Helvetica /Encoding /WinAnsiEncoding >>")
    for i, lines in enumerate(pages):
        if isinstance(lines, str):
            lines = [lines] if lines else []
        body = "BT /F1 12 Tf 14 TL 72 720 Td " + " ".join("(%s) Tj T*" % esc(x) for x in lines) + " ET"
        objs.append(("<< /Type /Page /Parent 2 0 R /MediaBox [0 0 612 792] /Contents %d 0 R /Resources << /Font << /F1 3 0 R >> >> >>" % (5 + 2 * i)).encode())
        b = body.encode("cp1252")
        objs.append(b"<< /Length %d >>\nstream\n" % len(b) + b + b"\nendstream")
    if info is not None:
        objs.append(("<< %s >>" % " ".join("/%s (%s)" % (k, esc(v)) for k, v in info.items())).encode("latin-1"))
    out, offs = b"%PDF-1.4\n", []
    for i, o in enumerate(objs):
        offs.append(len(out))
        out += b"%d 0 obj\n" % (i + 1) + o + b"\nendobj\n"
    x = len(out)
    out += b"xref\n0 %d\n0000000000 65535 f \n" % (len(objs) + 1) + b"".join(b"%010d 00000 n \n" % o for o in offs)
    out += b"trailer\n<< /Size %d /Root 1 0 R%s >>\nstartxref\n%d\n%%%%EOF\n" % (len(objs) + 1, b" /Info %d 0 R" % len(objs) if info is not None else b"", x)
    return out


def docx_bytes(items):
    """items: ('p', text[, style]) | ('t', rows)"""
    import docx
    d = docx.Document()
    for it in items:
        if it[0] == "p":
            d.add_paragraph(it[1], style=it[2] if len(it) > 2 else None)
        else:
            rows = it[1]
            t = d.add_table(len(rows), len(rows[0]) if rows else 0)
            for r, row in enumerate(rows):
                for c, x in enumerate(row):
                    t.cell(r, c).text = x
    b = io.BytesIO()
    d.save(b)
    return b.getvalue()


def xlsx_bytes(sheets):
    """sheets: list of (name, rows of values)"""
    import openpyxl
    tempfile.tempdir = env.scratch_root()      # where openpyxl writes its sheets
    w = openpyxl.Workbook()
    w.remove(w.active)
    for name, rows in sheets:
        s = w.create_sheet(name)
        for r, row in enumerate(rows):
            for c, v in enumerate(row):
                if v is not None:
                    s.cell(r + 1, c + 1, v)
    b = io.BytesIO()
    w.save(b)
    return b.getvalue()


def pptx_bytes(slides):
    """slides: lists of ('s', text) text boxes | ('t', rows) tables | ('g', [items]) groups | ('e',) empty box"""
    import pptx
    from pptx.util import Inches
    p = pptx.Presentation()

    def put(shapes, it):
        if it[0] == "s":
            shapes.add_textbox(0, 0, Inches(1), Inches(1)).text_frame.text = it[1]
        elif it[0] == "e":
            shapes.add_textbox(0, 0, Inches(1), Inches(1))
        elif it[0] == "t":
            t = shapes.add_table(len(it[1]), len(it[1][0]), 0, 0, Inches(1), Inches(1)).table
            for r, row in enumerate(it[1]):
                for c, x in enumerate(row):
                    t.cell(r, c).text = x
        elif it[0] == "g":
            g = shapes.add_group_shape()
            for x in it[1]:
                put(g.shapes, x)
    for items in slides:
        s = p.slides.add_slide(p.slide_layouts[6])
        for it in items:
            put(s.shapes, it)
    b = io.BytesIO()
    p.save(b)
    return b.getvalue()


def plain(o):
    """A comparable image of a result (arrays by type, shape and content; no sharing)."""
    if isinstance(o, np.ndarray):
        return ("nd", o.dtype.str, o.shape, o.tobytes())
    if isinstance(o, dict):
        return ("d", tuple((plain(k), plain(v)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return ("l", tuple(plain(x) for x in o))
    return (type(o).__name__, repr(o))


def spoil(o):
    """Change everything changeable in a result, as its owner may."""
    if isinstance(o, np.ndarray):
        if o.flags.writeable and o.dtype != object:
            o[...] = 77
    elif isinstance(o, dict):
        for v in list(o.values()):
            spoil(v)
        o["spoilt"] = True
    elif isinstance(o, list):
        for v in o:
            spoil(v)
        o.append("spoilt")
