"""C25: an embedding is what the model gives for that text alone, whatever was asked before, cached or batched."""
import copy
import itertools

import numpy as np

from .. import doclib, env, explore

env.import_valori()
from valori.exceptions import ProcessingError                     # noqa: E402
from valori.processors.embedding import EmbeddingProcessor        # noqa: E402

LEVEL = "model_checking"
ASSUMPTIONS = ["stand-ins for the model libraries: the embedding is a fixed function of the text (single precision; the zero vector for some texts), and one text makes the model fail",
               "embeddings agree to 6 digits (the same model in a batch)", "a request is one non-blank text given to the processor: it is either answered from the cache or generated"]
BOUNDS = {"quick": "all histories of up to 5 of 21 operations (texts, documents with chunks, batches, clearing, statistics, closing and starting again) for 3 kinds of model, with and without cache and normalisation, model dimensions 1, 5 and 384; all batches of up to 5 of 7 texts for batch sizes 1-4 and 32; families of 20-50 texts of 3 to 70000 characters that differ in one respect only (one character, white space, case, order, length), in three orders, twice; batches of 8-1300 texts with batch sizes 1-5000 and the default, and 1300 texts three times through one processor",
          "thorough": "histories of up to 6 operations, batches of up to 6"}
FAIL = "the model fails"
TEXTS = ["a", "a ", "b b", "", " \n", "zero", "test", "\ud800", FAIL]
DOCS = [{"text": "a", "chunks": [{"text": "a"}, {"text": ""}, {"text": "b b"}], "metadata": {"m": 1}}, {"chunks": [{"id": 1}, {"text": "zero"}, {"text": "b b"}]}, {"text": "b b", "chunks": []}, {"metadata": {}}]
BATCHES = [["a", "b b", "a"], ["", "zero", "a "], [], ["a", "b b", FAIL]]


def library(kind, dim):
    if kind == "sentence_transformers":
        return doclib.modules({"sentence_transformers": doclib.fake_sentence_transformers(dim, fail=(FAIL,))})
    if kind == "openai":
        return doclib.modules({"openai": doclib.fake_openai(dim, fail=(FAIL,))})
    return doclib.modules({"torch": doclib.fake_torch(), "transformers": doclib.fake_transformers(dim, fail=(FAIL,))})


def make(cfg):
    return EmbeddingProcessor({"model_type": cfg["type"], "cache_embeddings": cfg["cache"], "normalize_embeddings": cfg["norm"], "batch_size": cfg.get("batch", 2)})


def want(text, cfg):
    if not text.strip():
        return np.zeros(cfg["dim"])
    v = doclib.raw_vector(text, cfg["dim"]).astype(float)
    n = np.linalg.norm(v)
    return v / n if cfg["norm"] and n > 0 else v


def judge(text, e, cfg):
    w = want(text, cfg)
    if not isinstance(e, np.ndarray) or e.shape != w.shape or not np.issubdtype(e.dtype, np.floating):
        return "shape", "the embedding of %r is %r, the model's has dimension %d" % (text, e, cfg["dim"])
    if not np.all(np.isfinite(e)):
        return "finite", "the embedding of %r is %r" % (text, e)
    if not np.allclose(e, w, rtol=1e-5, atol=1e-6):
        return ("blank" if not text.strip() else "value"), "the embedding of %r is %s, the model gives %s" % (text, e, w)


class Emb(explore.System):
    def __init__(self, cfg):
        super().__init__(cfg)
        self.mods = library(cfg["type"], cfg["dim"])
        self.mods.__enter__()
        self.p = make(cfg)
        self.open = False
        self.requests = self.hits = 0
        self.exact = True                # is it known which requests the cache answers?
        self.known, self.seen = set(), set()

    def ops(self):
        return [["init"], ["close"], ["stats"], ["clear"], ["dim"]] + [["text", i] for i in range(len(TEXTS))] + [["doc", i] for i in range(len(DOCS))] + [["batch", i] for i in range(len(BATCHES))]

    def ask(self, t):
        """the model's account of one request; False when the model fails"""
        if not t.strip():
            return True
        if self.cfg["cache"] and t in self.known:
            self.hits += 1
        elif t == FAIL:
            return False
        self.requests += 1
        self.known.add(t)
        self.seen.add(t)
        return True

    def apply(self, op):
        p, c = self.p, self.cfg
        if op[0] == "init":
            p.initialize()
            self.open = True
            return
        if op[0] == "close":
            p.close()
            self.open = False
            return
        if op[0] == "stats":
            p.get_stats()
            return
        if op[0] == "clear":
            self.requests -= p.get_stats()["cache_hits"]
            p.clear_cache()
            self.hits = 0
            self.known = set()
            return
        if op[0] == "dim":
            d = p.get_embedding_dimension()
            if d != (c["dim"] if self.open else 0):
                return "dimension", "the dimension is said to be %r, is %d" % (d, c["dim"])
            return
        try:
            if op[0] == "text":
                data = {"text": TEXTS[op[1]]}
            elif op[0] == "doc":
                data = copy.deepcopy(DOCS[op[1]])
            else:
                data = list(BATCHES[op[1]])
            keep = copy.deepcopy(data)
            r = p.batch_process(data) if op[0] == "batch" else p.process(data)
        except Exception as e:
            if not self.open:
                return None if isinstance(e, ProcessingError) else ("closed", "%s while closed: %r" % (op, e))
            if op == ["text", TEXTS.index(FAIL)]:
                return
            if op == ["batch", 3]:
                return None, "the model failed within a batch"       # what was counted before is not specified: not continued
            return "error:" + op[0], "%s raises %r" % (op, e)
        if not self.open:
            return "closed", "%s works before initialization" % op
        if FAIL in (data if op[0] == "batch" else data.values()):
            return "failing", "%s succeeds although the model fails: %r" % (op, r)
        if data != keep:
            return "input", "%s changed its input to %r" % (op, data)
        if op[0] == "batch":
            if len(r) != len(data):
                return "batch", "%d embeddings for %r" % (len(r), data)
            for t, e in zip(data, r):
                self.requests += bool(t.strip())
                if t.strip():
                    self.seen.add(t)
                err = judge(t, e, c)
                if err:
                    return "batch-" + err[0], err[1]
                doclib.spoil(e)                # the caller changes each result before looking at the next
            if data:
                self.exact = False
            doclib.spoil(r)
            return
        if ("embedding" in r) != ("text" in data) or ("chunk_embeddings" in r) != ("chunks" in data) or {k: v for k, v in r.items() if k not in ("embedding", "chunk_embeddings")} != data:
            return "fields", "%r gives %r" % (data, r)
        if "text" in data:
            self.ask(data["text"])
            err = judge(data["text"], r["embedding"], c)
            if err:
                return err
            doclib.spoil(r["embedding"])
        if "chunks" in data:
            if len(r["chunk_embeddings"]) != len(data["chunks"]):
                return "align", "%d embeddings for the chunks %r" % (len(r["chunk_embeddings"]), data["chunks"])
            for ch, e in zip(data["chunks"], r["chunk_embeddings"]):
                self.ask(ch.get("text", ""))
                err = judge(ch.get("text", ""), e, c)
                if err:
                    return "chunk-" + err[0], err[1]
                doclib.spoil(e)                # the caller changes each result before looking at the next
        doclib.spoil([r.get("embedding"), r.get("chunk_embeddings")])

    def check(self):
        if not self.open:
            return
        s = self.p.get_stats()
        t = self.p.get_stats()
        if s != t:
            return "stats-change", "asking for statistics changes them: %s then %s" % (s, t)
        if s["embedding_dimension"] != self.cfg["dim"]:
            return "dimension", "the dimension is said to be %r, is %d" % (s["embedding_dimension"], self.cfg["dim"])
        h, g = s["cache_hits"], s["embeddings_generated"]
        if h + g != self.requests or (not self.cfg["cache"] and h) or (self.exact and h != self.hits) or h < self.hits:
            return "counters", "%d hits and %d generated; %d requests were made, %d of texts in the cache" % (h, g, self.requests, self.hits)
        size = s["cache_size"]
        if not self.cfg["cache"] and size or self.cfg["cache"] and not len(self.known) <= size <= len(self.known if self.exact else self.seen):
            return "size", "cache size %d, texts in the cache: %s" % (size, sorted(map(repr, self.known)))
        r = s["cache_hit_rate"]
        if abs(r - (h / (h + g) if h + g else 0)) > 1e-9:
            return "rate", "hit rate %r with %d hits and %d generated" % (r, h, g)

    def canon(self):
        return explore.deep(self.p, lambda s: ("s", s)), self.open, self.requests, self.hits, self.exact, sorted(map(repr, self.known))

    def close(self):
        self.mods.__exit__()


def job_batches(job, ctx):
    cfg = job["cfg"]
    texts = TEXTS[:7]
    with library(cfg["type"], cfg["dim"]):
        p = make(cfg)
        p.initialize()
        for k in range(job["len"] + 1):
            for seq in itertools.product(range(7), repeat=k):
                if k == job["len"] and len(set(seq)) == k and sum(seq) % job["mod"]:
                    continue
                data = [texts[i] for i in seq]
                ctx.n("transitions")
                ctx.outcome(seq)
                ctx.current = {"job": job, "seq": seq}
                r = p.batch_process(data)
                if len(r) != k:
                    ctx.violation("batch", "%d embeddings for %r" % (len(r), data), {"job": job})
                for t, e in zip(data, r):
                    err = judge(t, e, cfg)
                    if err:
                        ctx.violation("batch-" + err[0], "batch %r: %s" % (data, err[1]), {"job": job})
                    doclib.spoil(e)                # the caller changes each result before looking at the next
                doclib.spoil(r)
    for b in (0, -1):
        with library(cfg["type"], cfg["dim"]):
            q = make(dict(cfg, batch=b))
            try:
                q.initialize()
                r = q.batch_process(["a", "b b"])
                if len(r) != 2:
                    ctx.violation("batch-size", "batch size %d is accepted and gives %r for two texts" % (b, r), {"job": job})
            except ProcessingError:
                pass


def alike(n):
    """texts of about n characters that agree in all but one respect"""
    base = ("word%d " % n) * (n // 6 + 1)
    base = base[:n - 1] + "x"
    out = [base]
    for i in sorted({0, 1, n // 4, n // 2, n - 2, n - 1} | {j for j in (7, 31, 63, 127, 255, 511, 1023, 4095) if j < n}):
        out.append(base[:i] + "\u00e9" + base[i + 1:])
        out.append(base[:i] + "e\u0301" + base[i + 1:])
    out += [base[:-1], base + "y", base.upper(), base.title(), " " + base, base + " ", base + "\n", base.replace(" ", "  ", 1), base.replace(" ", "\t", 1),
            base[::-1], base + "_m", base + "_m_" + TYPES[0], " ".join(sorted(base.split())), base + base, base[n // 2:] + base[:n // 2]]
    out += [base.replace("w", "v", 1), base.replace("o", "0"), base + "\x00", base + "\ud800", base + "\udc00", base + "?"]
    return list(dict.fromkeys(t for t in out if t.strip()))


TYPES = ("sentence_transformers", "openai", "huggingface")


def job_alike(job, ctx):
    """texts that only differ in one respect, asked for in several orders, one by one, as chunks and as a batch"""
    cfg, texts = job["cfg"], alike(job["n"])
    ctx.current = {"job": job}
    with library(cfg["type"], cfg["dim"]):
        for order in (texts, texts[::-1], texts[1::2] + texts[::2]):
            for how in ("text", "chunks", "batch"):
                p = make(cfg)
                p.initialize()
                for rnd in range(2):
                    if how == "text":
                        got = [p.process({"text": t})["embedding"] for t in order]
                    elif how == "chunks":
                        got = p.process({"chunks": [{"text": t} for t in order]})["chunk_embeddings"]
                    else:
                        got = p.batch_process(list(order))
                    for t, e in zip(order, got):
                        ctx.n("transitions")
                        ctx.outcome(t)
                        err = judge(t, e, cfg)
                        if err:
                            return ctx.violation("alike-" + err[0], "among %d texts alike, %s round %d: %s" % (len(order), how, rnd, err[1][-300:]), {"job": job})
                        doclib.spoil(e)                # the caller changes each result before looking at the next
                n = p.get_stats()["cache_size"]
                if cfg["cache"] and how != "batch" and n != len(order):
                    return ctx.violation("alike-size", "%d different texts, cache size %d" % (len(order), n), {"job": job})


def job_many(job, ctx):
    """long batches and many texts through one processor: nothing depends on how many there are"""
    cfg = job["cfg"]
    texts = ["text %d" % i if i % 7 else ("", "zero", " \n", "again")[i // 7 % 4] for i in range(1300)]
    ctx.current = {"job": job}
    with library(cfg["type"], cfg["dim"]):
        for b in (None, 1, 7, 32, 100, 5000):
            c = dict(cfg, batch=b) if b else cfg
            p = make(c) if b else EmbeddingProcessor({"model_type": cfg["type"], "cache_embeddings": cfg["cache"], "normalize_embeddings": cfg["norm"]})
            p.initialize()
            for n in (8, 31, 32, 33, 63, 64, 65, 99, 100, 101, 130, 257, 1300):
                part = texts[n % 5:n]
                got = p.batch_process(list(part))
                ctx.n("transitions", len(part))
                ctx.outcome((b, n))
                if len(got) != len(part):
                    return ctx.violation("many-count", "%d embeddings for %d texts, batch size %s" % (len(got), len(part), b), {"job": job})
                for i, (t, e) in enumerate(zip(part, got)):
                    err = judge(t, e, cfg)
                    if err:
                        return ctx.violation("many-" + err[0], "number %d of %d texts, batch size %s: %s" % (i, len(part), b, err[1][-300:]), {"job": job})
                    doclib.spoil(e)                # the caller changes each result before looking at the next
                doclib.spoil(got)
        p = make(cfg)
        p.initialize()
        for order in (texts, texts[::-1], texts[::3]):
            got = p.process({"text": order[0], "chunks": [{"text": t} for t in order]})["chunk_embeddings"]
            for t, e in zip(order, got):
                ctx.n("transitions")
                err = judge(t, e, cfg)
                if err:
                    return ctx.violation("many-" + err[0], "among %d texts: %s" % (len(order), err[1][-300:]), {"job": job})
                doclib.spoil(e)                # the caller changes each result before looking at the next
            doclib.spoil(got)
        st = p.get_stats()
        asked = sum(bool(t.strip()) for o in (texts, texts[::-1], texts[::3]) for t in [o[0]] + list(o))
        new = len({t for t in texts if t.strip()}) if cfg["cache"] else asked
        if (st["cache_hits"], st["embeddings_generated"], st["cache_size"]) != (asked - new, new, new if cfg["cache"] else 0):
            return ctx.violation("many-stats", "%d requests, %d different: %s" % (asked, new, st), {"job": job})
    ctx.n("states", len(ctx.distinct))


def jobs(tier):
    q = tier == "quick"
    out = []
    for ty in ("sentence_transformers", "openai", "huggingface"):
        for cache, norm in itertools.product((True, False), repeat=2):
            dim = 384 if (ty, cache, norm) == ("openai", True, True) else 2 if (cache, norm) == (True, False) else 5
            out.append({"kind": "history", "cfg": {"type": ty, "cache": cache, "norm": norm, "dim": dim}, "depth": 4 if q else 5})
            for b in ((1, 2, 3, 4, 32) if ty[0] == "s" else (1, 3)):
                out.append({"kind": "batches", "cfg": {"type": ty, "cache": cache, "norm": norm, "dim": 5, "batch": b}, "len": 5 if q else 6, "mod": 3 if q else 1})
            if cache or ty[0] == "s":
                out.append({"kind": "many", "cfg": {"type": ty, "cache": cache, "norm": norm, "dim": 3, "batch": 32}})
            for n in (3, 40, 300, 600, 5000, 70000) if q else (3, 10, 40, 100, 300, 600, 1100, 2100, 5000, 20000, 70000, 300000):
                if cache or n == 300:
                    out.append({"kind": "alike", "cfg": {"type": ty, "cache": cache, "norm": norm, "dim": 5, "batch": 32}, "n": n})
    return out


def run_job(job, ctx):
    if job["kind"] in ("alike", "many"):
        (job_alike if job["kind"] == "alike" else job_many)(job, ctx)
        ctx.n("traces_validated_against_impl", ctx.counts.get("transitions", 0))
    elif job["kind"] == "history":
        explore.bfs(ctx, Emb, job["cfg"], job["depth"] + 1)
    else:
        job_batches(job, ctx)
        ctx.n("states", len(ctx.distinct))
        ctx.n("traces_validated_against_impl", ctx.counts.get("transitions", 0))
        ctx.sample(job)


def replay(case, ctx):
    if "hist" in case:
        explore.replay_history(ctx, Emb, case["cfg"], case["hist"])
    else:
        run_job(case["job"], ctx)
