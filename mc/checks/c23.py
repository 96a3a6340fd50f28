"""C23: cleaned text satisfies every option that is on, and nothing else is removed."""
import copy
import html
import itertools
import re
import sys
import types
import unicodedata

from .. import env

env.import_valori()
from valori.processors.cleaning import CleaningProcessor            # noqa: E402

LEVEL = "model_checking"
ASSUMPTIONS = ["a tag is anything from '<' to the next '>' with something in between", "the stop word source is a stand-in for the NLTK corpus (present, without data, not installed)",
               "LATIN CAPITAL LETTER I WITH DOT ABOVE, whose lower case is two characters, is not among the tokens (examined once, a listed finding)"]
BOUNDS = {"quick": "all sequences of up to 3 of 36 tokens (words, stop words, white space of 7 kinds, tags and parts of tags, entities, doubly encoded entities, full-width and combining characters, punctuation, symbols) under all 128 option combinations, of 4 tokens under 12 combinations; texts of 9-20000 tokens, documents of 9-1025 chunks, 300 documents through one processor; documents with chunks; sequences of documents through one processor",
          "thorough": "4 tokens under 48 combinations, 5 tokens from 14 of the tokens under 8"}
TOKENS = ["cat", "The", "a", "WORD", " ", "  ", "\n", "\t", "\r\n", "\xa0", "\u2003", "\x1f", "<b>", "</p\n>", "<", ">", "<>", "&lt;", "&gt;", "&amp;", "&nbsp;", "&amp;lt;i&amp;gt;",
          "\uff1c", "\uff1e", "\u226e", "e\u0301", "\u00e9", "\ufb01", "@", "#", "!", "x-y", "_", "z" * 51, "", "of"]
SMALL = [0, 1, 4, 6, 9, 12, 14, 15, 17, 22, 24, 26, 28, 33]
STOP = {"the", "a", "of"}
PERMITTED = "-.,!?;:_"


def fake_nltk(mode):
    if mode == "missing":
        return None
    m = types.ModuleType("nltk")
    c = types.ModuleType("nltk.corpus")

    class S:
        def words(self, lang):
            if mode == "nodata":
                raise LookupError("corpus not found")
            return {"english": ["the", "a", "of"], "french": ["cat"]}[lang]
    c.stopwords = S()
    m.corpus = c
    return m


def make(opt, mode="data"):
    m = fake_nltk(mode)
    old = {k: sys.modules.get(k) for k in ("nltk", "nltk.corpus")}
    try:
        sys.modules["nltk"], sys.modules["nltk.corpus"] = m, (m.corpus if m else None)
        p = CleaningProcessor(dict(opt))
        p.initialize()
    finally:
        for k, v in old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    return p


def strip_tags(t):
    out, i = [], 0
    while i < len(t):
        if t[i] == "<" and i + 1 < len(t) and t[i + 1] != ">":
            j = t.find(">", i + 1)
            if j > 0:
                i = j + 1
                continue
        out.append(t[i])
        i += 1
    return "".join(out)


def expected(t, o, stop):
    if not t:
        return t
    g = lambda k, d: o.get(k, d)
    if g("remove_html", True):
        t = html.unescape(t)
    if g("normalize_unicode", True):
        t = unicodedata.normalize("NFKD", t)
    if g("remove_html", True):
        t = strip_tags(t)
    if g("remove_special_chars", False):
        t = "".join(ch if ch.isalnum() or ch.isspace() or ch in PERMITTED else " " for ch in t)
    if g("normalize_whitespace", True):
        t = " ".join(t.split())
    if g("remove_extra_spaces", True):
        while "  " in t:
            t = t.replace("  ", " ")
    if g("lowercase", False):
        t = t.lower()
    if g("remove_stopwords", False):
        lo, hi = g("min_word_length", 1), g("max_word_length", 50)
        t = " ".join(w for w in t.split() if w.lower() not in stop and lo <= len(w) <= hi)
    return t


def invariant(src, t, o, stop):
    g = lambda k, d: o.get(k, d)
    if g("remove_html", True) and re.search(r"<[^<>]+>", t):
        return "tag", "the result %r still contains a tag" % t
    if g("normalize_whitespace", True) and (t != t.strip() or re.search(r"\s\s|[^\S ]", t)):
        return "space", "the result %r is not normalised white space" % t
    if g("remove_extra_spaces", True) and "  " in t:
        return "space", "the result %r has runs of spaces" % t
    if g("remove_special_chars", False) and any(not (c.isalnum() or c.isspace() or c in PERMITTED) for c in t):
        return "special", "the result %r has special characters" % t
    if g("lowercase", False) and t != t.lower():
        return "case", "the result %r is not lower case" % t
    if g("remove_stopwords", False) and any(w.lower() in stop or not g("min_word_length", 1) <= len(w) <= g("max_word_length", 50) for w in t.split()):
        return "words", "the result %r has words to be filtered" % t
    return None


def one(p, text, o, stop, ctx):
    t = p.process({"text": text})["text"]
    ctx.n("transitions")
    if type(t) is not str:
        return ctx.violation("type", "the result is %r" % (t,), {"text": text, "o": o})
    e = invariant(text, t, o, stop)
    if e is None:
        w = expected(text, o, stop)
        if t != w:
            e = ("unchanged" if w == text else "other"), "expected %r, got %r" % (w, t)
    if e:
        ctx.violation(e[0], "text %r with %s: %s" % (text, o, e[1]), {"text": text, "o": o})
    return t


FLAGS = ["remove_html", "normalize_whitespace", "remove_special_chars", "normalize_unicode", "remove_extra_spaces", "lowercase", "remove_stopwords"]


def all_options():
    for k, bits in enumerate(itertools.product((True, False), repeat=7)):
        o = dict(zip(FLAGS, bits))
        if k % 3 == 1:
            o.update(min_word_length=2)
        if k % 3 == 2:
            o.update(max_word_length=4, min_word_length=2)
        yield o


def few_options(n):
    out = [{}, {"lowercase": True, "remove_special_chars": True, "remove_stopwords": True}, {"remove_stopwords": True, "max_word_length": 3, "normalize_whitespace": False}]
    out += list(all_options())[5::max(1, 128 // n)]
    return out[:n]


def jobs(tier):
    q = tier == "quick"
    out = [{"first": i, "len": 4, "few": 12 if q else 48} for i in range(len(TOKENS))]
    out.append({"t": "doc"})
    out += [{"t": "long", "part": i} for i in range(6)]
    if not q:
        out += [{"first": i, "len": 5, "small": 1} for i in SMALL]
    return out


def run_job(job, ctx):
    if job.get("t") == "doc":
        return doc_job(ctx)
    if job.get("t") == "long":
        return long_job(job["part"], ctx)
    if job.get("small"):
        procs = [(o, make(o)) for o in few_options(8)]
        for rest in itertools.product(SMALL, repeat=4):
            text = TOKENS[job["first"]] + "".join(TOKENS[i] for i in rest)
            ctx.n("states")
            for o, p in procs:
                one(p, text, o, STOP, ctx)
            if ctx.late():
                return
        return
    procs = [(o, make(o)) for o in all_options()]
    few = [(o, make(o)) for o in few_options(job["few"])]
    for n in range(0, job["len"]):
        for rest in itertools.product(range(len(TOKENS)), repeat=n):
            text = TOKENS[job["first"]] + "".join(TOKENS[i] for i in rest)
            ctx.n("states")
            ctx.current = {"text": text, "o": {}}
            for o, p in (procs if n < 3 else few):
                t = one(p, text, o, STOP, ctx)
                ctx.n("traces_validated_against_impl")
            ctx.outcome(t)
        if ctx.late():
            return
    ctx.sample({"text": text})


def long_job(part, ctx):
    """texts of many tokens, documents with many chunks, many documents through one processor"""
    bad = lambda k, m: ctx.violation("long:" + k, m, {"job": {"t": "long", "part": part}})
    procs = [(o, make(o)) for o in few_options(12)]
    plain = [t for t in TOKENS if t not in ("<", ">", "<>", "\uff1c", "\uff1e", "\u226e", "&lt;", "&gt;")]
    for toks in (TOKENS, plain, plain[::2], ["<b>x</b> ", "y "], ["&amp; ", "<i>", "a "], ["The ", "cat ", "\u00e9 "]):
        for n in (9, 33, 100, 101, 256, 1000, 1001, 4097, 20000):
            step = 1 + part * 2
            if n > 5000 and part > 1:
                continue
            text = "".join(toks[(i * step + i // len(toks)) % len(toks)] for i in range(n))
            ctx.n("states")
            for o, p in procs:
                one(p, text, o, STOP, ctx)
                ctx.n("traces_validated_against_impl")
    src = ["The  cat", "", "<b>A</b> &amp; B", "plain", "of the", "\n"]
    for o in few_options(12):
        p = make(o)
        total = 0
        for r, n in enumerate((9, 10, 11, 33, 101, 257, 1025)):
            doc = {"text": src[(r + part) % 4], "chunks": [{"id": i, "text": src[(i + part + i // 6) % 6] + str(i), "n": [i]} for i in range(n)]}
            want = copy.deepcopy(doc)
            want["text"] = expected(doc["text"], o, STOP)
            for c in want["chunks"]:
                c["text"] = expected(c["text"], o, STOP)
            total += len(doc["text"])
            keep = copy.deepcopy(doc)
            got = p.process(doc)
            ctx.n("states")
            ctx.n("transitions")
            if got != want:
                i = next((i for i, (a, b) in enumerate(zip(got["chunks"], want["chunks"])) if a != b), -1)
                bad("chunks", "of %d chunks, chunk %d becomes %s" % (n, i, got["chunks"][i] if got["chunks"] else got))
            if doc != keep:
                bad("input", "cleaning changed its input")
            st = p.get_stats()
            if st["documents_processed"] != r + 1 or st["total_characters_before"] != total:
                bad("stats", "statistics %s after %d documents of %d characters" % (st, r + 1, total))
        for i in range(300):
            t = src[i % 6] + " word%d" % (i * 7)
            if p.process({"text": t})["text"] != expected(t, o, STOP):
                bad("history", "document %r is cleaned differently after %d others" % (t, i))
            ctx.n("transitions")


def doc_job(ctx):
    bad = lambda k, m: ctx.violation("doc:" + k, m, {"job": {"t": "doc"}})
    texts = ["The  cat", "", "<b>A</b> &amp; B", "plain", "of the", "\n"]
    extra = {"metadata": {"m": [1]}, "k": 5}
    for o in list(all_options())[::5] + [{}]:
        for n in range(0, 3):
            for chunk_texts in itertools.product(texts, repeat=n):
                for main in texts[:4] + [None]:
                    p = make(o)
                    doc = dict(copy.deepcopy(extra), chunks=[{"id": i, "text": t, "x": {"y": i}} for i, t in enumerate(chunk_texts)])
                    if n == 0 and main:
                        doc.pop("chunks")
                    if n == 2:
                        doc["chunks"].append({"id": 7})
                    if main is not None:
                        doc["text"] = main
                    keep = copy.deepcopy(doc)
                    r = p.process(doc)
                    ctx.n("states")
                    ctx.n("transitions")
                    if doc != keep:
                        bad("input", "cleaning changed its input %s to %s" % (keep, doc))
                    want = copy.deepcopy(keep)
                    if main is not None:
                        want["text"] = expected(main, o, STOP)
                    for c in want.get("chunks", []):
                        if "text" in c:
                            c["text"] = expected(c["text"], o, STOP)
                    if r != want:
                        bad("chunks", "%s with %s gives %s, expected %s" % (keep, o, r, want))
                    st = p.get_stats()
                    a, b = len(main or ""), len(want.get("text", ""))
                    if (st["documents_processed"], st["total_characters_before"], st["total_characters_after"], st["characters_removed"]) != (1, a, b, a - b):
                        bad("stats", "statistics %s after %s" % (st, keep))
                    ctx.n("traces_validated_against_impl")
    # one processor, several documents: each as if it were alone; a restart loses nothing
    o = {"lowercase": True, "remove_stopwords": True}
    for seq in itertools.product(texts, repeat=3):
        p = make(o)
        for i, t in enumerate(seq):
            if p.process({"text": t})["text"] != expected(t, o, STOP):
                bad("history", "document %r is cleaned differently after %s" % (t, seq[:i]))
            ctx.n("states")
        if p.get_stats()["documents_processed"] != 3 or p.get_stats()["total_characters_before"] != sum(map(len, seq)):
            bad("stats", "statistics %s after %s" % (p.get_stats(), seq))
    # sources of stop words
    for mode, lang, stop in (("data", "english", STOP), ("data", "french", {"cat"}), ("nodata", "english", STOP), ("missing", "english", STOP)):
        for words in itertools.product(["The", "cat", "of", "WORD", "a", "xyz"], repeat=3):
            opt = {"remove_stopwords": True, "stopwords_language": lang}
            ctx.n("states")
            try:
                got = make(opt, mode).process({"text": " ".join(words)})["text"]
            except Exception as e:
                return bad("stopwords", "with stop words %s: %r" % (mode, e))
            if got.split() != [w for w in words if w.lower() not in stop]:
                bad("stopwords", "with stop words %s/%s %s is cleaned to %r" % (mode, lang, words, got))
    # one letter's lower case is two characters, of which the second is not permitted (a listed finding)
    o = {"normalize_unicode": False, "remove_special_chars": True, "lowercase": True}
    got = make(o).process({"text": "A\u0130"})["text"]
    ctx.n("states")
    if invariant("", got, o, STOP):
        ctx.violation("special:U+0130", "text 'A\\u0130' with %s is cleaned to %r" % (o, got), {"text": "A\u0130", "o": o})
    # a custom pattern
    for text in ("a1b2", "x 9 y", "123"):
        got = make({"remove_special_chars": True, "special_chars_pattern": r"\d"}).process({"text": text})["text"]
        if got != " ".join(re.sub("[0-9]", " ", text).split()):
            bad("pattern", "custom pattern: %r gives %r" % (text, got))


def replay(case, ctx):
    if "job" in case:
        return run_job(case["job"], ctx)
    one(make(case["o"]), case["text"], case["o"], STOP, ctx)
