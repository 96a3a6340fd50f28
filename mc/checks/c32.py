"""C32: every factory choice, template, preset and recommendation gives a working database, configured as asked for."""
import contextlib
import copy
import io
import itertools
import os
import types

import numpy as np

from .. import doclib, env

env.import_valori()
from valori import configs, factory                               # noqa: E402
from valori.client import VectorDBClient                          # noqa: E402
from valori.exceptions import ValoriError                         # noqa: E402
from valori.indices import AnnoyIndex, FlatIndex, HNSWIndex, IVFIndex, LSHIndex   # noqa: E402
from valori.processors import ProcessingPipeline                  # noqa: E402
from valori.processors.embedding import EmbeddingProcessor        # noqa: E402
from valori.storage import DiskStorage, HybridStorage, MemoryStorage              # noqa: E402
from valori.utils.helpers import get_recommended_index_config     # noqa: E402

LEVEL = "model_checking"
ASSUMPTIONS = ["expected index by dataset size: below 1000 vectors (or size unknown) exact search, below 100000 tree or graph by use case, above that hashes for more than 1000 dimensions and clusters otherwise, as the code's comments and presets describe",
               "an option counts as taking effect when a database made with it answers and reports like the components made directly with it, and when the component reads it at all",
               "stand-ins for the embedding, image and docling libraries"]
BOUNDS = {"quick": "8 sizes x 4 dimensions x 5 use cases; 5 indexes x 3 storages x absent, given or given-as-zero configurations of each; 6 templates x 6 index x 4 storage x 4 configuration overrides; all presets, each obtained, changed and obtained again together with all others; all recommendations at the class boundaries; document, semantic, image and hybrid databases for every index and storage; every database compared with one made directly, over a workload of inserts, searches, updates, deletes, reports and closing; 30 unknown names",
          "thorough": "workloads of 40 vectors instead of 7"}
INDEX = {"flat": FlatIndex, "hnsw": HNSWIndex, "ivf": IVFIndex, "lsh": LSHIndex, "annoy": AnnoyIndex}
STORE = {"memory": MemoryStorage, "disk": DiskStorage, "hybrid": HybridStorage}
GIVEN = {"flat": {"metric": "euclidean"}, "hnsw": {"metric": "euclidean", "m": 3, "ef_construction": 11, "ef_search": 9}, "ivf": {"metric": "euclidean", "n_clusters": 3, "n_probes": 2},
         "lsh": {"num_hash_tables": 3, "hash_size": 5, "num_projections": 9, "threshold": 0.25, "random_seed": 5}, "annoy": {"metric": "euclidean", "num_trees": 3, "search_k": 500, "random_seed": 9}}
# given explicitly, though zero, empty or off
ZERO = {"flat": {"metric": "euclidean", "leaf": 0}, "hnsw": {"metric": "euclidean", "m": 0}, "ivf": {"metric": "euclidean", "n_clusters": 3, "n_probes": 1, "extra": None},
        "lsh": {"num_hash_tables": 3, "hash_size": 5, "threshold": 0, "random_seed": 0}, "annoy": {"metric": "euclidean", "search_k": 0, "random_seed": 0, "build_on_disk": False}}
DESCRIBE = {"description"}
OWN = {"lsh", "annoy"}              # these keep their vectors themselves, whatever the storage


class Recorder(dict):
    """A configuration that knows which of its entries have been looked at."""

    def __init__(self, d, log, path=()):
        super().__init__({k: Recorder(v, log, path + (k,)) if isinstance(v, dict) else v for k, v in d.items()})
        self.log, self.path = log, path

    def _see(self, *ks):
        for k in ks:
            self.log.add(self.path + (k,))

    def get(self, k, default=None):
        self._see(k)
        return super().get(k, default)

    def __getitem__(self, k):
        self._see(k)
        return super().__getitem__(k)

    def __contains__(self, k):
        self._see(k)
        return super().__contains__(k)

    def items(self):
        self._see(*self)
        return super().items()

    def copy(self):
        return self

    def __deepcopy__(self, memo):
        return self


def unread(d, log, path=()):
    out = []
    for k, v in d.items():
        if k in DESCRIBE:
            continue
        if path + (k,) not in log:
            out.append(".".join(map(str, path + (k,))))
        elif isinstance(v, dict):
            out += unread(v, log, path + (k,))
    return out


@contextlib.contextmanager
def place():
    """A directory of its own as working directory, for presets that name relative ones."""
    d = env.fresh_dir("w")
    old = os.getcwd()
    os.chdir(d)
    import tempfile
    t, tempfile.tempdir = tempfile.tempdir, d
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield d
    finally:
        tempfile.tempdir = t
        os.chdir(old)
        env.drop_dir(d)


def vectors(n, dim=3):
    r = np.random.RandomState(dim)
    return r.randint(-9, 10, (n, dim)).astype("float32") + np.arange(1, n + 1, dtype="float32")[:, None] / 8


def norm(x):
    """An answer without its random parts."""
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    if isinstance(x, float) or isinstance(x, np.floating):
        return round(float(x), 5)
    if isinstance(x, np.integer):
        return int(x)
    return x


def workload(db, n=7, dim=3, close=True):
    """Use the database in every way; its answers, and what is plainly wrong with them."""
    out = []
    v = vectors(n, dim)
    meta = [{"n": i, "t": "row %d" % i} for i in range(n)]
    bad = None
    name = {}                       # the ids are random: call the vectors by their row

    def look(q, k):
        r = db.search(q, k)
        out.append([(name.get(str(h["id"]), "?"), round(float(h["distance"]), 4), h["metadata"]) for h in r])
        return r

    env.seed_all(5)
    np.random.seed(5)
    out.append(norm(db.get_stats()))
    ids = db.insert(v[:n - 1], meta[:n - 1]) + db.insert(v[n - 1:], meta[n - 1:])
    name.update({str(i): r for r, i in enumerate(ids)})
    if len(ids) != n or len(set(ids)) != n:
        return out, "%d ids for %d vectors: %s" % (len(set(ids)), n, ids)
    w = v[0] + np.float32(.25)
    out.append(bool(db.update(ids[0], w, {"n": 100})))
    out.append(bool(db.delete([ids[1]])))
    live = {ids[0]: (w, {"n": 100}), **{ids[i]: (v[i], meta[i]) for i in range(2, n)}}
    if hasattr(db.index, "build"):
        db.index.build()
    for rnd in range(2):
        for i, (x, m) in live.items():
            r = look(x, 3)
            if not r or str(r[0]["id"]) != str(i) and not any(str(h["id"]) == str(i) for h in r):
                bad = bad or "vector %d is not found by itself: %s" % (name[i], r)
            for h in r:
                if str(h["id"]) not in live or norm(h["metadata"]) != norm(live[str(h["id"])][1]):
                    bad = bad or "result %s is not a stored record" % h
        look(v[1], 50)
        out.append(norm(db.get_stats()))
        if rnd == 0:
            out.append(bool(db.delete([ids[n - 1]])))
            live.pop(ids[n - 1])
    count = out[-1]["index"].get("vector_count", out[-1]["index"].get("num_vectors"))
    if count != len(live):
        bad = bad or "%d vectors are reported, %d are live" % (count, len(live))
    if close:
        db.close()
    return out, bad


def direct(kind, iconf, store, sconf):
    db = VectorDBClient(STORE[store](copy.deepcopy(sconf)), INDEX[kind](copy.deepcopy(iconf)))
    db.initialize()
    return db


def store_conf(store, d, how, zero=False):
    """A configuration that keeps to the scratch directory."""
    disk = {"data_dir": os.path.join(d, how)}
    return {"memory": {"max": 0} if zero else {}, "disk": disk, "hybrid": {"memory_limit": 0 if zero else 3, "memory": {}, "disk": disk}}[store]


def strip(o, d):
    return repr(o).replace(d, "DIR")


def compare(ctx, key, what, case, make, kind, iconf, store, sconf=None, n=7, dim=3):
    """make(directory, storage configuration) against the components put together by hand."""
    with place() as d:
        cwd = os.path.join(d, "a")
        os.makedirs(cwd)
        os.chdir(cwd)
        try:
            a = make(None if sconf is None else store_conf(store, d, "x", sconf == 2))
        except Exception as e:
            return ctx.violation(key + "-error", "%s: %r" % (what, e), case)
        ctx.n("transitions")
        if type(a) is not VectorDBClient or type(a.index) is not INDEX[kind] or type(a.storage_backend) is not STORE[store]:
            a.close()
            return ctx.violation(key + "-kind", "%s: %s over %s instead of %s over %s" % (what, type(a.index).__name__, type(a.storage_backend).__name__, kind, store), case)
        try:
            ra, bad = workload(a, n, dim)
        except Exception as e:
            return ctx.violation(key + "-use", "%s: using the database: %r" % (what, e), case)
        left = sorted(os.path.relpath(os.path.join(p, f), d) for p, _, fs in os.walk(d) for f in fs)
        if bad:
            return ctx.violation(key + "-wrong", "%s: %s" % (what, bad), case)
        os.chdir(d)
        os.rename(cwd, os.path.join(d, "old"))
        os.makedirs(cwd)
        os.chdir(cwd)
        rb, _ = workload(direct(kind, iconf, store, store_conf(store, d, "y", sconf == 2) if sconf is not None else {}), n, dim)
        if strip(ra, d).replace("DIR/x", "DIR/y") != strip(rb, d):
            x = next((p for p in zip(ra, rb) if strip(p[0], d).replace("DIR/x", "DIR/y") != strip(p[1], d)), (ra, rb))
            return ctx.violation(key + "-config", "%s: not like a database made with %s: %s" % (what, iconf, x), case)
        where = os.path.join("x" if sconf is not None else "a", "")
        if store == "memory" and left or store != "memory" and (not left and kind not in OWN or any(not f.startswith(where) for f in left)):
            return ctx.violation(key + "-files", "%s: files %s" % (what, left[:3]), case)
        ctx.n("states")
        ctx.outcome((kind, store, strip(ra, d)))


SIZES = [None, 0, 1, 999, 1000, 99999, 100000, 10 ** 6]
DIMS = [None, 3, 1000, 1001]
USES = [None, "speed", "accuracy", "memory", "balanced"]


def klass(n, dim, use):
    n, dim = n or 0, dim or 0
    if n < 1000:
        return "flat"
    if n < 100000:
        return "hnsw" if use == "accuracy" else "annoy"
    return "lsh" if dim > 1000 else "ivf"


def job_choices(job, ctx):
    n = 7 if ctx.quick else 40
    if job["part"] == "sizes":
        for num, dim, use in itertools.product(SIZES, DIMS, USES):
            kw = {k: x for k, x in (("num_vectors", num), ("dimension", dim), ("use_case", use)) if x is not None}
            kind = klass(num, dim, use)
            r = get_recommended_index_config(num or 0, dim or 0, use or "balanced")
            case = {"job": job}
            if r["type"] != kind:
                ctx.violation("recommended-type", "%s vectors of dimension %s, %s: %s instead of %s" % (num, dim, use, r["type"], kind), case)
            compare(ctx, "sizes", "create_vector_db(%s)" % kw, case, lambda s: factory.create_vector_db(**kw), kind, r["config"], "memory", n=n)
            for part in ({"metric": "euclidean"} if kind != "lsh" else {"threshold": 0.2},):
                compare(ctx, "partial", "create_vector_db(%s, index_config=%s)" % (kw, part), case, lambda s: factory.create_vector_db(index_config=dict(part), **kw), kind, {**r["config"], **part}, "memory", n=n)
    else:
        for kind, store, given, placed, num in itertools.product(INDEX, STORE, (0, 1, 2), (0, 1, 2), (None, 10 ** 6)):
            kw = {"index_type": kind, "storage_type": store}
            if num:
                kw.update(num_vectors=num, dimension=2000, use_case="accuracy")
            if store == "memory":
                kw.pop("storage_type")
            iconf = [{}, GIVEN[kind], ZERO[kind]][given]
            mine = copy.deepcopy(iconf)
            if given:
                kw["index_config"] = mine
            compare(ctx, "choices", "create_vector_db(%s)%s" % (kw, " with storage configuration" if placed else ""), {"job": job},
                    lambda s: factory.create_vector_db(**kw, **({"storage_config": s} if placed else {})), kind, iconf, store, placed or None, n=n)
            if mine != iconf:
                ctx.violation("choices-mutated", "the configuration given is changed to %s" % mine, {"job": job})


def job_templates(job, ctx):
    first = copy.deepcopy(factory.TEMPLATES)
    n = 7 if ctx.quick else 40
    name = job["name"]
    t = first[name]
    for kind, store, given in itertools.product([None] + list(INDEX), [None] + list(STORE), (0, 1, 2, 3)):
        kw = {}
        if kind:
            kw["index_type"] = kind
        if store:
            kw["storage_type"] = store
        k, s = kind or t["index_type"], store or t["storage_type"]
        if given in (1, 3):
            kw["index_config"] = copy.deepcopy((GIVEN if given == 1 else ZERO)[k])
        iconf = GIVEN[k] if given == 1 else ZERO[k] if given == 3 else t.get("index_config", {}) if k == t["index_type"] else {}
        placed = max(given - 1, 0)
        case = {"job": job}
        compare(ctx, "template", "template %s with %s" % (name, kw), case, lambda c: factory.create_from_template(name, **kw, **({"storage_config": c} if placed else {})), k, iconf, s, placed or None, n=n)
        with place():
            db = factory.create_from_template(name, **kw)
            spoil(db.index.config)
            spoil(db.storage_backend.config)
            db.close()
        if factory.TEMPLATES != first:
            ctx.violation("template-shared", "changing the configuration of a database made from %s changes the template: %s" % (name, factory.TEMPLATES[name]), case)
            factory.TEMPLATES.clear()
            factory.TEMPLATES.update(copy.deepcopy(first))


def spoil(o):
    if isinstance(o, dict):
        for v in list(o.values()):
            spoil(v)
        o["metric"] = "spoiled"
        o["new"] = 1
        for k in list(o)[:1]:
            if not isinstance(o[k], dict):
                o[k] = "spoiled"
    elif isinstance(o, list):
        for v in o:
            spoil(v)
        o.append("spoiled")


def presets():
    names = configs.list_configs()
    for cat, ns in names.items():
        if isinstance(ns, dict):
            for sub, many in ns.items():
                yield cat, sub
                for x in many:
                    yield cat, x
        else:
            for x in ns:
                yield cat, x


def job_presets(job, ctx):
    case = {"job": job}
    P = list(presets())
    first = {p: copy.deepcopy(configs.get_config(*p)) for p in P}
    rec = {a: copy.deepcopy(configs.get_recommended_config(*a)) for a in ((10, 3), (1000, 3), (5000, 3, "accuracy"), (10 ** 6, 3, "speed", "disk"), (10 ** 6, 2000, "memory", "hybrid"))}
    if job["part"] == "alias":
        for p in P:
            ctx.n("states")
            spoil(configs.get_config(*p))
            for q in P:
                ctx.n("transitions")
                if configs.get_config(*q) != first[q]:
                    ctx.violation("shared", "changing the configuration %s got changes %s for the next caller" % (p, q), case)
            for a, r in rec.items():
                if configs.get_recommended_config(*a) != r:
                    ctx.violation("shared-recommended", "changing the configuration %s got changes what is recommended for %s" % (p, a), case)
        for a, r in rec.items():
            spoil(configs.get_recommended_config(*a))
            spoil(get_recommended_index_config(*a[:2]))
            for q in P:
                ctx.n("transitions")
                if configs.get_config(*q) != first[q]:
                    ctx.violation("shared-by-recommended", "changing what is recommended for %s changes %s" % (a, q), case)
            for b, s in rec.items():
                if configs.get_recommended_config(*b) != s:
                    ctx.violation("recommended-shared", "changing what is recommended for %s changes what is recommended for %s" % (a, b), case)
        names = copy.deepcopy(configs.list_configs())
        for cat in names:
            one = configs.list_configs(cat)
            if (one if isinstance(names[cat], dict) else one[cat]) != names[cat]:
                ctx.violation("list", "list_configs(%r) = %s, in the whole list it is %s" % (cat, one, names[cat]), case)
            spoil(one)
            spoil(configs.list_configs())
            if configs.list_configs() != names:
                ctx.violation("list-shared", "changing the list changes later ones", case)
    elif job["part"] == "index":
        for p, c in first.items():
            if p[0] != "index" or all(isinstance(v, dict) for v in c.values()):
                continue
            kind = p[1].split("_")[0]
            with place() as d:
                log = set()
                r = Recorder(c, log)
                db = VectorDBClient(MemoryStorage({}), INDEX[kind](r))
                db.initialize()
                try:
                    _, bad = workload(db, 40)
                except Exception as e:
                    bad = repr(e)
                ctx.n("states")
                if bad:
                    ctx.violation("preset-index", "index preset %s: %s" % (p[1], bad), case)
                if unread(c, log):
                    ctx.violation("preset-unread", "index preset %s: %s has no effect" % (p[1], unread(c, log)), case)
            compare(ctx, "preset", "preset %s" % p[1], case, lambda s: factory.create_vector_db(index_type=kind, index_config=configs.get_config(*p)), kind, c, "memory", n=40)
        for name, t in factory.TEMPLATES.items():
            log = set()
            with place():
                c = t.get("index_config", {})
                db = VectorDBClient(MemoryStorage({}), INDEX[t["index_type"]](Recorder(c, log)))
                db.initialize()
                workload(db)
                ctx.n("states")
                if unread(c, log):
                    ctx.violation("template-unread", "template %s: %s has no effect" % (name, unread(c, log)), case)
        for num, dim, use in itertools.product(SIZES[1:], DIMS[1:], USES[1:]):
            r = get_recommended_index_config(num, dim, use)
            log = set()
            with place():
                db = VectorDBClient(MemoryStorage({}), INDEX[r["type"]](Recorder(r["config"], log)))
                db.initialize()
                workload(db)
                ctx.n("states")
                if unread(r["config"], log):
                    ctx.violation("helper-unread", "recommended for %s: %s has no effect" % ((num, dim, use), unread(r["config"], log)), case)
    elif job["part"] == "storage":
        for p, c in first.items():
            if p[0] != "storage":
                continue
            with place() as d:
                log = set()
                db = VectorDBClient(STORE[c["type"]](Recorder(c["config"], log)), FlatIndex({}))
                db.initialize()
                _, bad = workload(db)
                ctx.n("states")
                if bad:
                    ctx.violation("preset-storage", "storage preset %s: %s" % (p[1], bad), case)
                if unread(c["config"], log):
                    ctx.violation("preset-storage-unread", "storage preset %s: %s has no effect" % (p[1], unread(c["config"], log)), case)
            compare(ctx, "preset-store", "preset %s" % p[1], case, lambda s: factory.create_vector_db(storage_type=c["type"], storage_config=configs.get_config(*p)["config"]), "flat", {"metric": "cosine"}, c["type"])
    else:
        lib = dict(doclib.fake_docling())
        lib["sentence_transformers"] = doclib.fake_sentence_transformers()
        docs = {"a.txt": b"Some <b>text</b> of the   document. It has the words of a text, and many more of them to make it a long one.\n\nSecond paragraph, with another sentence.", "b.pdf": doclib.pdf_bytes(["Page one text, which is long enough to be a chunk of its own.", "Page two text, which is long enough to be a chunk of its own."]),
                "c.docx": doclib.docx_bytes([("p", "First paragraph, which is long enough to be a chunk of its own, more than a hundred characters of it."), ("t", [["a", "b"]])])}
        with doclib.modules(lib):
            for p, c in first.items():
                pc = c if p[0] == "document" else c.get("processing") if p[0] == "application" else None
                if pc is not None:
                    with place() as d:
                        log = set()
                        pipe = ProcessingPipeline(Recorder(pc, log))
                        pipe.initialize()
                        ctx.n("states")
                        for f, b in docs.items():
                            if {"a.txt": "text", "b.pdf": "pdf", "c.docx": "office"}[f] not in pc["parsers"]:
                                continue
                            ctx.n("transitions")
                            open(os.path.join(d, f), "wb").write(b)
                            r = pipe.process_document(os.path.join(d, f))
                            if not r.get("text", "").strip() or "embedding" not in r or len(r["text"]) >= 100 and not r.get("chunks") or len(r["chunk_embeddings"]) != len(r["chunks"]):
                                ctx.violation("preset-document", "%s %s: %s becomes %s" % (p[0], p[1], f, r), case)
                        miss = [x for x in unread(pc, log)]
                        if miss:
                            ctx.violation("preset-document-unread", "%s %s: %s has no effect" % (p[0], p[1], miss), case)
                        pipe.close()
                ecs = [c] if p[0] == "embedding" and "model_name" in c else [x for x in c.values()] if p[0] == "embedding" else [c["embedding"]] if p[0] == "application" and "embedding" in c else []
                for ec in ecs:
                    x = EmbeddingProcessor(copy.deepcopy(ec))
                    x.initialize()
                    r = x.process({"text": "a text"})
                    ctx.n("states")
                    if len(r["embedding"]) != doclib.DIM:
                        ctx.violation("preset-embedding", "%s: %s" % (p, r), case)
                    x.close()
                if p[0] == "application":
                    kinds = [q[1].split("_")[0] for q in P if q[0] == "index" and first[q] == c["index"]]
                    ctx.n("states")
                    if not kinds or c["storage"] not in [first[q] for q in P if q[0] == "storage"]:
                        ctx.violation("preset-application", "application %s is not made of presets: %s" % (p[1], c), case)
                    else:
                        compare(ctx, "application", "application %s" % p[1], case, lambda s: factory.create_vector_db(index_type=kinds[0], index_config=c["index"], storage_type=c["storage"]["type"], storage_config=c["storage"]["config"]),
                                kinds[0], c["index"], c["storage"]["type"])
    ctx.outcome(job["part"])


def job_recommended(job, ctx):
    lib = {"sentence_transformers": doclib.fake_sentence_transformers()}
    for num, dim, use, store in itertools.product(SIZES[1:], (1, 3, 384, 385, 768, 769, 1000, 1001), (None, "speed", "accuracy", "memory", "balanced"), (None, "memory", "disk", "hybrid")):
        a = [num, dim] + ([use] if use else []) + ([store] if use and store else [])
        case = {"job": job}
        what = "recommended for %s" % (a,)
        ctx.n("transitions")
        try:
            r = configs.get_recommended_config(*a) if not (store and not use) else configs.get_recommended_config(*a, storage_type=store)
        except Exception as e:
            ctx.violation("recommended-error", "%s: %r" % (what, e), case)
            continue
        kind = klass(num, dim, use)
        if r["index"]["type"] != kind or r["storage"]["type"] != (store or "memory"):
            ctx.violation("recommended-kind", "%s: %s over %s" % (what, r["index"], r["storage"]), case)
            continue
        if r["metadata"] != {"num_vectors": num, "dimension": dim, "use_case": use or "balanced", "storage_type": store or "memory"}:
            ctx.violation("recommended-metadata", "%s: %s" % (what, r["metadata"]), case)
        if dim in (3, 1001):
            compare(ctx, "recommended", what, case, lambda s: factory.create_vector_db(index_type=r["index"]["type"], index_config=r["index"]["config"], storage_type=r["storage"]["type"], storage_config=r["storage"]["config"]), kind,
                    configs.get_recommended_config(num, dim, use or "balanced")["index"]["config"], store or "memory")
        with doclib.modules(lib), place():
            log = set()
            c = {k: v for k, v in r["embedding"].items()}
            x = EmbeddingProcessor(Recorder(c, log))
            x.initialize()
            if len(x.process({"text": "t"})["embedding"]) != doclib.DIM or ("model_name",) not in log:
                ctx.violation("recommended-embedding", "%s: %s" % (what, c), case)
            x.close()
    ctx.outcome("recommended")


# ------------------------------------------------------------- databases made from content
class Tensor:
    def __init__(self, a):
        self.a = np.asarray(a, "float32")

    def unsqueeze(self, i):
        return Tensor(np.expand_dims(self.a, i))

    def to(self, d):
        return self

    cpu = lambda s: s                                             # noqa: E731

    def numpy(self):
        return self.a

    def norm(self, dim, keepdim):
        return Tensor(np.linalg.norm(self.a, axis=dim, keepdims=keepdim))

    def __truediv__(self, o):
        return Tensor(self.a / o.a)


def image_libs():
    clip, pil, img = types.ModuleType("clip"), types.ModuleType("PIL"), types.ModuleType("PIL.Image")

    class Model:
        def encode_image(self, x):
            return x

    def op(p):
        b = open(p, "rb").read()
        if not b.startswith(b"IMG"):
            raise OSError("cannot identify image file")
        return b.decode()
    clip.load = lambda name, device: (Model(), lambda im: Tensor(doclib.raw_vector(im)))
    img.open = op
    pil.Image = img
    return {"clip": clip, "torch": doclib.fake_torch(), "PIL": pil, "PIL.Image": img}


def unit(v):
    v = np.asarray(v, "float32")
    return v / np.linalg.norm(v)


def hits(db, q, k=3):
    return [(round(float(h["distance"]), 4), norm(h["metadata"])) for h in db.search(np.asarray(q, "float32"), k)]


def judge_content(ctx, key, what, case, make, kind, store, items, iconf, n_more=1):
    """items: (vector, metadata) that must be in; searchable at once, like a database made by hand."""
    with place() as d:
        env.seed_all(5)
        np.random.seed(5)
        try:
            db = make(d)
        except Exception as e:
            return ctx.violation(key + "-error", "%s: %r" % (what, e), case)
        ctx.n("transitions", len(items))
        ctx.n("states")
        if type(db.index) is not INDEX[kind] or type(db.storage_backend) is not STORE[store]:
            ctx.violation(key + "-kind", "%s: %s over %s" % (what, type(db.index).__name__, type(db.storage_backend).__name__), case)
        else:
            ref = direct(kind, iconf, store, store_conf(store, d, "ref"))
            env.seed_all(5)
            np.random.seed(5)
            ref.insert(np.array([v for v, _ in items]), [m for _, m in items])
            if hasattr(ref.index, "build"):
                ref.index.build()
            try:
                for v, m in items:
                    r, w = hits(db, v), hits(ref, v)
                    if sorted(map(repr, r)) != sorted(map(repr, w)):
                        ctx.violation(key + "-answers", "%s: searching for %s gives %s, expected %s" % (what, m, r, w), case)
                        break
                    if m not in [x[1] for x in r if abs(x[0] - r[0][0]) < 1e-3] and norm(m) not in [x[1] for x in r if abs(x[0] - r[0][0]) < 1e-3]:
                        ctx.violation(key + "-found", "%s: searching for %s gives %s" % (what, m, r), case)
                        break
                a, b = [{x: y for x, y in norm(c.get_stats()["index"]).items() if x not in ("max_level", "levels")} for c in (db, ref)]     # those two are random
                if a != b:
                    ctx.violation(key + "-config", "%s: index reports %s, one made by hand %s" % (what, a, b), case)
            except Exception as e:
                ctx.violation(key + "-use", "%s: %r" % (what, e), case)
            ref.close()
        db.close()


def job_content(job, ctx):
    kind_of, kind, store = job["f"], job["index"], job["store"]
    case = {"job": job}
    texts = ["python is a language", "learning uses algorithms", "data", "one more text", "data again", "zz top", "an eighth text"]
    for given in (0, 1):
        kw = {} if kind is None else {"index_type": kind}
        if store:
            kw["storage_type"] = store
        if store in ("disk", "hybrid"):
            kw["storage_config"] = None
        if given:
            if kind is None:
                continue
            kw["index_config"] = copy.deepcopy(GIVEN[kind])

        def args(d):
            k = dict(kw)
            if "storage_config" in k:
                k["storage_config"] = store_conf(store, d, "mine")
            return k
        s = store or "memory"
        if kind_of == "semantic":
            k = kind or "annoy"
            lib = {"sentence_transformers": doclib.fake_sentence_transformers()}
            for n in (1, 2, 7):
                items = [(doclib.raw_vector(t), {"text": t, "text_length": len(t), "model_used": "m", "embedding_dimension": doclib.DIM}) for t in texts[:n]]
                with doclib.modules(lib):
                    judge_content(ctx, "semantic", "semantic search over %d texts with %s" % (n, kw), case, lambda d: factory.create_semantic_search_db(list(texts[:n]), "m", **args(d)), k, s, items, GIVEN[k] if given else {})
        elif kind_of == "hybrid":
            k = kind or "hnsw"
            lib = {"sentence_transformers": doclib.fake_sentence_transformers()}
            docs = [{"text": t, "author": "a%d" % (i % 2), "tags": ["x", i]} for i, t in enumerate(texts)]
            keep = copy.deepcopy(docs)
            iconf = GIVEN[k] if given else {"metric": "cosine", "ef_construction": 200, "ef_search": 50, "m": 16} if k == "hnsw" else {}
            items = [(doclib.raw_vector(x["text"]), {"text": x["text"], "text_length": len(x["text"]), "model_used": "m", "embedding_dimension": doclib.DIM, "author": x["author"], "tags": x["tags"], "doc_id": i}) for i, x in enumerate(docs)]
            with doclib.modules(lib):
                judge_content(ctx, "hybrid", "hybrid search with %s" % kw, case, lambda d: factory.create_hybrid_search_db(docs, "m", **args(d)), k, s, items, iconf)
            if docs != keep:
                ctx.violation("hybrid-mutated", "the documents given are changed", case)
        elif kind_of == "image":
            k = kind or "hnsw"
            for good in range(1, 16):
                with place() as d0:
                    paths, items = [], []
                    for i in range(4):
                        p = os.path.join(d0, "i%d.png" % i)
                        open(p, "wb").write((b"IMG" if good >> i & 1 else b"not") + b"%d" % i)
                        paths.append(p)
                        if good >> i & 1:
                            items.append((unit(doclib.raw_vector("IMG%d" % i)), {"image_path": p, "image_id": i, "extractor": "clip"}))
                    with doclib.modules(image_libs()):
                        judge_content(ctx, "image", "image search, images %s of 4 readable, with %s" % ([i for i in range(4) if good >> i & 1], kw), case, lambda d: factory.create_image_search_db(paths, **args(d)), k, s, items, GIVEN[k] if given else {})
        else:
            k = kind or "annoy"
            lib = dict(doclib.NO_DOCLING)
            lib["sentence_transformers"] = doclib.fake_sentence_transformers()
            iconf = GIVEN[k] if given else {"hnsw": {"metric": "cosine", "m": 16, "ef_construction": 200, "ef_search": 50}, "annoy": {"metric": "angular", "num_trees": 20, "search_k": -1}}.get(k, {})
            for size, over in ((None, None), (60, 0), (60, 12), (200, 20)):
                more = {} if size is None else {"chunk_size": size, "chunk_overlap": over}
                what = "document database with %s %s" % (kw, more)
                with doclib.modules(lib):
                    got = []

                    def make(sc):
                        a = dict(kw)
                        if "storage_config" in a:
                            a["storage_config"] = sc
                        db, pipe = factory.create_document_db(**a, **more)
                        got.append(pipe)
                        return db
                    compare(ctx, "document", what, case, make, k, iconf, s, 1 if "storage_config" in kw else None, dim=doclib.DIM)
                    if not got:
                        continue
                    with place() as d:
                        p = os.path.join(d, "x.txt")
                        open(p, "w").write("Alpha   beta <b>gamma</b> delta. " * 12)
                        r = got[0].process_document(p)
                        ctx.n("transitions")
                        ref = ProcessingPipeline({"parsers": {"text": {"chunk_size": size or 1000, "chunk_overlap": 100 if over is None else over}}, "processors": {"cleaning": {"normalize_whitespace": True, "remove_html": True, "lowercase": False}, "chunking": {
                            "strategy": "semantic", "chunk_size": size or 1000, "chunk_overlap": 100 if over is None else over}, "embedding": {"normalize_embeddings": True, "cache_embeddings": True}}})
                        ref.initialize()
                        w = ref.process_document(p)
                        if doclib.plain([c["text"] for c in r["chunks"]]) != doclib.plain([c["text"] for c in w["chunks"]]) or r["text"] != w["text"] or not np.allclose(r["embedding"], w["embedding"]):
                            ctx.violation("document-pipeline", "%s: pipeline gives %s, one made by hand %s" % (what, r, w), case)
                        # and its chunks can be put in and found
                        with place() as d2:
                            db, pipe = factory.create_document_db(**{**kw, **({"storage_config": store_conf(s, d2, "z")} if "storage_config" in kw else {})}, **more)
                            ch = r["chunks"]
                            V_ = np.array(r["chunk_embeddings"], "float32")
                            ids = db.insert(V_, [{"c": i} for i in range(len(ch))])
                            if hasattr(db.index, "build"):
                                db.index.build()
                            for i in range(len(ch)):
                                top = db.search(V_[i], len(ch))
                                if not any(h["metadata"] == {"c": i} and abs(h["distance"] - top[0]["distance"]) < 1e-3 for h in top):
                                    ctx.violation("document-found", "%s: chunk %d of %d is not found: %s" % (what, i, len(ch), top), case)
                            db.close()
                            pipe.close()
                        ref.close()
                    got[0].close()
    ctx.outcome((kind_of, kind, store))


def job_unknown(job, ctx):
    case = {"job": job}

    def use(db):
        db.insert(np.ones((2, 2), "float32"))
        return db.search(np.ones(2, "float32"), 1)
    calls = [("create_vector_db(index_type=%r)" % x, lambda x=x: factory.create_vector_db(index_type=x)) for x in ("Flat", "flat ", "hsnw", "kd", 3)]
    calls += [("create_vector_db(storage_type=%r)" % x, lambda x=x: factory.create_vector_db(storage_type=x)) for x in ("Memory", "", "ram", None)]
    calls += [("create_vector_db(index_type='kd', storage_type='disk')", lambda: factory.create_vector_db(index_type="kd", storage_type="disk")), ("create_vector_db(index_type='flat', storage_type='s3')", lambda: factory.create_vector_db(index_type="flat", storage_type="s3"))]
    calls += [("create_from_template(%r)" % x, lambda x=x: factory.create_from_template(x)) for x in ("", "small", "SMALL_DATASET", None)]
    calls += [("template override %s" % x, lambda x=x: factory.create_from_template("small_dataset", **x)) for x in ({"index_type": "kd"}, {"storage_type": "s3"})]
    calls += [("get_config%r" % (x,), lambda x=x: configs.get_config(*x)) for x in (("", "flat"), ("indexes", "flat"), ("index", "nope"), ("index", ""), ("storage", "flat"), ("storage", "nope"), ("document", "x"), ("embedding", ""), ("application", "flat"), ("performance", "fast"), (None, None))]
    calls += [("list_configs('nope')", lambda: configs.list_configs("nope")), ("recommended for storage 'tape'", lambda: configs.get_recommended_config(10, 3, "balanced", "tape"))]
    calls += [("index metric %s of %s" % (m, k), lambda m=m, k=k: use(factory.create_vector_db(index_type=k, index_config={"metric": m}))) for k, m in (("lsh", "nope"), ("annoy", "nope"))]
    with doclib.modules(image_libs()):
        calls.append(("image extractor", lambda: factory.create_image_search_db(["x.png"], "resnet99")))
        for what, f in calls:
            with place() as d:
                ctx.n("transitions")
                ctx.n("states")
                try:
                    r = f()
                except (ValueError, ValoriError):
                    left = [f for _, _, fs in os.walk(d) for f in fs]
                    if left:
                        ctx.violation("unknown-left", "%s leaves %s" % (what, left), case)
                    continue
                except Exception as e:
                    ctx.violation("unknown-error", "%s: %r" % (what, e), case)
                    continue
                ctx.violation("unknown", "%s is accepted: %r" % (what, r), case)
    ctx.outcome("unknown")


def jobs(tier):
    out = [{"j": "choices", "part": p} for p in ("sizes", "types")]
    out += [{"j": "templates", "name": n} for n in sorted(factory.TEMPLATES)]
    out += [{"j": "presets", "part": p} for p in ("alias", "index", "storage", "pipeline")]
    out += [{"j": "recommended"}, {"j": "unknown"}]
    for f in ("semantic", "hybrid", "image", "document"):
        out += [{"j": "content", "f": f, "index": k, "store": s} for k in [None] + list(INDEX) for s in [None] + list(STORE)]
    return out


def run_job(job, ctx):
    globals()["job_" + job["j"]](job, ctx)
    ctx.n("traces_validated_against_impl", ctx.counts.get("transitions", 0))


def replay(case, ctx):
    run_job(case["job"], ctx)
