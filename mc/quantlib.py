"""Quantizer histories: the real quantizer against one freshly trained with the last accepted training."""
import numpy as np

from . import env, explore

env.import_valori()
from valori.exceptions import QuantizationError                       # noqa: E402
from valori.quantization import ProductQuantizer, SAQQuantizer, ScalarQuantizer   # noqa: E402

CLS = {"scalar": ScalarQuantizer, "product": ProductQuantizer, "saq": SAQQuantizer}


def make(cfg):
    return CLS[cfg["q"]](dict(cfg["config"]))


def arr(x, dtype="float32"):
    return np.array(x, dtype=dtype)


def same(a, b):
    return type(a) is type(b) and a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()


TRAIN = {
    "A": arr([[0, 1, 2, 3], [1, 0, 3, 2], [4, 4, 0, 0], [2, 2, 1, 5]]),
    "B": arr([[-1, 7, 0.5, 2], [3, 3, 3, 3], [0, -5, 1, 0.25]], "float64"),
    "C": arr([[5, 1], [5, 2], [1, 8], [0, 0], [9, 9]]),
}
PROBE = {4: arr([[0.4, 1.1, 2.6, 2.9], [9, -9, 0, 1], [2, 2, 1, 5], [0, 1, 2, 3]]), 2: arr([[5, 1], [2, 7.5], [-3, 20]])}
BADTRAIN = {"empty": np.zeros((0, 4), np.float32), "one-dim": np.zeros(4, np.float32), "three-dim": np.zeros((2, 2, 2), np.float32),
            "none": None, "text": np.array([["a", "b", "c", "d"]] * 3), "nan": np.full((3, 4), np.nan, np.float32), "odd": np.ones((3, 3), np.float32)}


def badtrain(cfg):
    """trainings that this quantizer rejects"""
    if cfg["q"] == "scalar":
        return ["empty", "one-dim", "three-dim", "none", "text"]
    if cfg["q"] == "product":
        return ["empty", "one-dim", "three-dim", "none", "text", "nan"] + (["odd"] if cfg["config"]["m"] == 2 else [])
    return ["empty", "one-dim", "three-dim", "none", "text"]


BADVEC = ["one-dim", "three-dim", "narrow", "wide", "none", "text"]


def badvec(b, d):
    return {"one-dim": np.zeros(d, np.float32), "three-dim": np.zeros((1, 1, d), np.float32), "narrow": np.zeros((2, d - 1), np.float32),
            "wide": np.zeros((2, d + 1), np.float32), "none": None, "text": np.array([["x"] * d])}[b]


class QuantSystem(explore.System):
    """ops: init, close, train X, bad training, quantize/dequantize/distance with good and bad inputs"""
    case_limit = 60.0
    _ref = {}

    def __init__(self, cfg):
        super().__init__(cfg)
        self.q = make(cfg)
        self.open = False
        self.t = None

    def ops(self):
        out = [["init"], ["close"]]
        for t in self.cfg.get("trains", sorted(TRAIN)):
            out.append(["train", t])
        for b in badtrain(self.cfg):
            out.append(["badtrain", b])
        out.append(["use"])
        for b in BADVEC:
            out.append(["badvec", b])
        return out

    def ref(self):
        k = (repr(self.cfg), self.t)
        if k not in self._ref:
            q = make(self.cfg)
            q.initialize()
            q.train(TRAIN[self.t].copy())
            p = PROBE[TRAIN[self.t].shape[1]]
            c = q.quantize(p.copy())
            dq = q.dequantize(c.copy())
            dist = [q.compute_distance(p[0].copy(), x.copy()) for x in c]
            QuantSystem._ref[k] = (c, dq, dist, self.found(q, k[1]))
        return self._ref[k]

    def found(self, q, t):
        if self.cfg["q"] != "saq":
            return None
        x = TRAIN[t]
        codes = q.quantize(x.copy())
        return [(r[0].tolist(), np.round(r[1], 5).tolist()) for r in (q.search_with_rescoring(p.copy(), codes.copy(), top_k=2) for p in PROBE[x.shape[1]])]

    def refused(self, what, fn):
        try:
            r = fn()
        except QuantizationError:
            return None
        except Exception as e:
            return "refuse", "%s raised %r instead of a quantization error" % (what, e)
        return "refuse", "%s was not refused but gave %r" % (what, r)

    def apply(self, op):
        q, k = self.q, op[0]
        if k == "init":
            q.initialize()
            self.open, self.t = True, None
        elif k == "close":
            q.close()
            self.open, self.t = False, None
        elif k == "train":
            x = TRAIN[op[1]].copy()
            if not self.open:
                return self.refused("training before initialisation", lambda: q.train(x))
            q.train(x)
            if not same(x, TRAIN[op[1]]):
                return "input", "training changed its input"
            x[...] = 77                                  # what was handed over is the caller's again
            self.t = op[1]
        elif k == "badtrain":
            x = BADTRAIN[op[1]]
            if x is None and self.open:
                try:
                    q.train(x)
                except Exception:
                    return None
                return "refuse", "training with None was accepted"
            return self.refused("training with %s" % op[1], lambda: q.train(x))
        elif k == "use":
            return self.use()
        elif k == "badvec":
            d = TRAIN[self.t].shape[1] if self.t else 4
            x = badvec(op[1], d)
            return self.refused("quantizing %s" % op[1], lambda: q.quantize(x))
        return None

    def use(self):
        q = self.q
        if not (self.open and self.t):
            p = PROBE[4]
            for what, fn in (("quantize", lambda: q.quantize(p)), ("dequantize", lambda: q.dequantize(np.zeros((1, 4), np.int32))),
                             ("compute_distance", lambda: q.compute_distance(p[0], np.zeros(4, np.int32)))):
                e = self.refused(what + " without training", fn)
                if e:
                    return e
            return None
        c, dq, dist, found = self.ref()
        p = PROBE[TRAIN[self.t].shape[1]]
        x = p.copy()
        got = q.quantize(x)
        if not same(x, p):
            return "input", "quantizing changed its input"
        if not same(got, c):
            return "history", "after this history quantizing gives %s, a fresh quantizer with the same training %s" % (got.tolist(), c.tolist())
        y = got.copy()
        back = q.dequantize(y)
        if not same(y, got):
            return "input", "dequantizing changed its input"
        if not same(back, dq):
            return "history", "after this history dequantizing gives %s, a fresh quantizer with the same training %s" % (back.tolist(), dq.tolist())
        back[...] = -3                                   # results are the caller's own
        got2 = q.dequantize(c.copy())
        if not same(got2, dq):
            return "alias", "a decoded vector changed by its caller shows up in later answers"
        d2 = [q.compute_distance(p[0].copy(), z.copy()) for z in c]
        if not np.allclose(d2, dist, rtol=1e-6, atol=1e-7):
            return "history", "after this history distances are %s, a fresh quantizer gives %s" % (d2, dist)
        if self.found(q, self.t) != found:
            return "history", "after this history search gives %s, a fresh quantizer %s" % (self.found(q, self.t), found)
        return None

    def check(self):
        st = self.q.get_stats()
        if not self.open:
            if st.get("initialized") or st.get("trained"):
                return "stats", "statistics of a closed quantizer: %s" % st
        elif bool(st["trained"]) != bool(self.t) or not st["initialized"]:
            return "stats", "statistics %s, trained with %s" % (st, self.t)
        elif self.t and st["dimensions"] != TRAIN[self.t].shape[1]:
            return "stats", "statistics report dimension %s" % st["dimensions"]
        return self.use()

    def canon(self):
        v = dict(vars(self.q))
        st = v.pop("stats", None)
        img = explore.deep({k: x for k, x in v.items() if k not in ("pca", "scaler", "segment_quantizers")}, lambda s: s)
        seg = [(s.centroids.tobytes(), s.k) for s in (v.get("segment_quantizers") or [])]
        sc = v.get("scaler")
        sc = None if sc is None else [(k, np.asarray(x).tobytes() if not isinstance(x, (bool, str)) else x) for k, x in sorted(vars(sc).items())]
        return (img, seg, sc, self.open, self.t, len(st["adjustment_improvements"]) > 0 if st else None)
