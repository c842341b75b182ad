"""Random samples and plans for the built-in augmentation operations."""
from __future__ import annotations

import copy
import random

import numpy as np

from vf import enc

DENS = [2, 3, 4, 10]


def frac(r: random.Random, bad=0.05, off=0.15, full=0.15):
    x = r.random()
    den = r.choice(DENS)
    if x < bad:
        return r.choice([(-1, den), (den + 1, den), (-3, 1), (2, 1)])
    if x < bad + off:
        return (0, den)
    if x < bad + off + full:
        return (den, den)
    return (r.randint(1, den - 1) if den > 1 else 1, den)


def to_torch(a):
    import torch

    return torch.as_tensor(np.ascontiguousarray(a))


def npa(x):
    return x.detach().cpu().numpy() if hasattr(x, "detach") else np.asarray(x)


class Codes:
    """integer codes of values; equal codes exactly for equal values"""

    def __init__(self):
        self.m = {}

    def __call__(self, v) -> int:
        if isinstance(v, tuple):
            k = tuple(self._k(x) for x in v)
        else:
            k = self._k(v)
        return self.m.setdefault(k, len(self.m) + 1)

    @staticmethod
    def _k(v):
        if isinstance(v, (float, np.floating)):
            return "nan" if v != v else float(v)
        return v.item() if isinstance(v, np.generic) else v


def tabular(r, g):
    shape = r.choice([(6,), (1,), (0,), (3, 4), (12,), (5, 2), (2, 2, 2)])
    x = g.standard_normal(shape) * 3 + 7
    x = x.astype(r.choice([np.float32, np.float64]))
    return x


def special(r, x):
    if x.size and r.random() < 0.25:
        x = x.copy()
        x.reshape(-1)[r.randrange(x.size)] = r.choice([np.nan, np.inf, -np.inf, -0.0, 0.0])
    return x


TEXTS = ["", "  ", "Hello", "a b", "The Quick brown FOX", "x  y\tz", " one two three four Five ", "no No NO no", "AbC dEf\nGhI"]
OPS = ["core.identity", "core.ensure_float32", "tabular.feature_dropout", "tabular.gaussian_noise", "tabular.swap_noise",
       "text.lowercase", "text.random_swap", "text.token_mask", "text.token_swap", "text.word_dropout", "vision.cutout",
       "vision.gaussian_noise", "vision.random_crop_pad", "vision.random_horizontal_flip", "audio.add_noise", "audio.time_shift",
       "graph.edge_dropout", "graph.feature_mask"]
FAMILY = {"tab": ["tabular.feature_dropout", "tabular.gaussian_noise", "tabular.swap_noise", "core.identity", "core.ensure_float32"],
          "text": ["text.lowercase", "text.random_swap", "text.word_dropout", "core.identity"],
          "token": ["text.token_mask", "text.token_swap", "core.identity"],
          "vision": ["vision.cutout", "vision.gaussian_noise", "vision.random_crop_pad", "vision.random_horizontal_flip", "core.identity",
                     "core.ensure_float32"],
          "audio": ["audio.add_noise", "audio.time_shift", "core.identity", "core.ensure_float32"],
          "graph": ["graph.edge_dropout", "graph.feature_mask", "core.identity"]}


class Obj:
    def __init__(self, **k):
        self.__dict__.update(k)


def sample(fam, r, g):
    t = r.random() < 0.4
    if fam == "tab":
        x = special(r, tabular(r, g))
        return to_torch(x) if t else x
    if fam == "text":
        return r.choice(TEXTS) if r.random() < 0.5 else r.choice([list, tuple])(r.choice(TEXTS) for _ in range(r.randint(0, 3)))
    if fam == "token":
        shape = r.choice([(0,), (1,), (5,), (7,), (2, 4), (3, 5), (1, 1)])
        x = g.integers(0, r.choice([2, 4, 30]), shape)
        return to_torch(x) if t else x.astype(r.choice([np.int64, np.int32]))
    if fam == "vision":
        h, w, c = r.randint(5, 8), r.randint(5, 8), r.choice([1, 3, 4])
        lay = r.choice(["hw", "hwc", "chw"])
        x = g.random((h, w) if lay == "hw" else (h, w, c) if lay == "hwc" else (c, h, w)) + 1
        x = x.astype(r.choice([np.float32, np.float64]))
        return to_torch(x) if t else x
    if fam == "audio":
        shape = r.choice([(0,), (1,), (7,), (12,), (1, 9), (2, 6)])
        x = (g.standard_normal(shape) + 9).astype(r.choice([np.float32, np.float64]))
        return to_torch(x) if t else x
    n, e = r.randint(1, 5), r.choice([0, 1, 2, 5, 8])
    x = special(r, (g.standard_normal((n, r.randint(1, 3))) * 3 + 5).astype(np.float32))
    ei = g.integers(0, n, (2, e))
    if r.random() < 0.3 and e != 2:
        ei = np.ascontiguousarray(ei.T)
    ew = None if r.random() < 0.4 else (g.random(e) + 0.5).astype(np.float32)
    if t:
        x, ei, ew = to_torch(x), to_torch(ei), None if ew is None else to_torch(ew)
    kind = r.choice(["dict", "sample", "attr"])
    if kind == "dict":
        return dict(x=x, edge_index=ei, y=3, **({} if ew is None else {"edge_weight": ew}))
    if kind == "sample":
        from modssc.data_augmentation.types import GraphSample

        return GraphSample(x=x, edge_index=ei, edge_weight=ew, meta={"k": [1]})
    return Obj(x=x, edge_index=ei, tag="t", **({} if ew is None else {"edge_weight": ew}))


def step(op, r, bad=0.05):
    """(params, coded parameters)"""
    q = dict(num=1, den=1, n=0, len=0, pad=0, padtok=0, bad=False, fillv=0.0)
    if op in ("tabular.feature_dropout", "tabular.swap_noise", "text.word_dropout", "graph.edge_dropout", "graph.feature_mask",
              "vision.random_horizontal_flip", "text.token_mask"):
        a, b = frac(r, bad)
        q.update(num=a, den=b, bad=a < 0 or a > b)
        p = dict(p=a / b)
        if op == "text.token_mask":
            q.update(fillv=r.choice([1, 1, 77, 0]), padtok=r.choice([0, 0, 3]))
            p.update(mask_token_id=q["fillv"], pad_token_id=q["padtok"])
        return p, q
    if op in ("tabular.gaussian_noise", "vision.gaussian_noise", "audio.add_noise"):
        a = r.choice([0, 1, 1, 2]) if r.random() > bad else -1
        q.update(num=a, den=4, bad=a < 0)
        return dict(std=a / 4), q
    if op == "audio.time_shift":
        a, b = frac(r, bad)
        q.update(num=a, den=b, bad=a < 0 or a > b)
        return dict(max_frac=a / b), q
    if op == "text.random_swap":
        q["n"] = r.choice([0, 1, 1, 2, 3])
        return dict(n_swaps=q["n"]), q
    if op == "text.token_swap":
        q.update(n=r.choice([0, 1, 1, 2]), padtok=r.choice([0, 0, 3]))
        return dict(n_swaps=q["n"], pad_token_id=q["padtok"]), q
    if op == "vision.cutout":
        q["fillv"] = r.choice([0.0, 0.5, -1.0])
        if r.random() < 0.5:
            a, b = frac(r, bad)
            q.update(num=a, den=b, len=-1, n=1, bad=a < 0 or a > b)
            return dict(frac=a / b, fill=q["fillv"]), q
        q.update(n=r.choice([0, 1, 1, 2]), len=r.choice([1, 2, 3, 5, 9, 16]))
        return dict(n_holes=q["n"], length=q["len"], fill=q["fillv"]), q
    if op == "vision.random_crop_pad":
        q["pad"] = r.choice([0, 1, 2, 3, 4]) if r.random() > bad else -1
        q["bad"] = q["pad"] < 0
        return ({"pad": q["pad"]} if r.random() < 0.5 else {"padding": q["pad"]}), q
    return {}, q


def parts(x):
    """(kind, main value, rest)"""
    if isinstance(x, dict):
        return "dict", x
    if hasattr(x, "edge_index"):
        d = dict(x.__dict__) if isinstance(x, Obj) else {k: getattr(x, k) for k in ("x", "edge_index", "edge_weight", "meta")}
        return "obj", {k: v for k, v in d.items() if v is not None}
    return "arr", x


def whole(x) -> str:
    k, d = parts(x)
    if k == "arr":
        return enc.digest(type(x).__name__, enc.tok(x) if isinstance(x, (str, list, tuple)) else [str(x.dtype), enc.arr(npa(x), 10**6)])
    return enc.digest(type(x).__name__, {a: enc.arr(npa(b), 10**6) if hasattr(b, "shape") else enc.tok(b) for a, b in d.items()})


def shape_of(x, op):
    """what the operation promises to keep of shape and type"""
    k, d = parts(x)
    if k == "arr":
        if isinstance(x, (str, list, tuple)):
            return ("str" if isinstance(x, str) else "list%d" % len(x)), "text"
        dt = str(x.dtype)
        return type(x).__name__ + str(tuple(x.shape)), "any" if op == "core.ensure_float32" else dt
    if op == "graph.edge_dropout":
        return type(x).__name__, "edges"
    return type(x).__name__ + str(tuple(d["x"].shape)), str(d["x"].dtype)


def code(op, x, q, C):
    """(coded sample as the operation's relation reads it, digest of all that is out of its reach)"""
    k, d = parts(x)
    if op.startswith("graph."):
        ei = npa(d["edge_index"])
        if op == "graph.edge_dropout":
            e2 = ei if ei.shape[0] == 2 else ei.T
            w = npa(d["edge_weight"]).reshape(-1) if "edge_weight" in d else None
            out = [[int(a), int(b), 0 if w is None else C(float(w[i]))] for i, (a, b) in enumerate(e2.T)]
            return out, enc.digest({a: enc.arr(npa(b), 10**6) if hasattr(b, "shape") else enc.tok(b) for a, b in d.items() if a not in ("edge_index", "edge_weight")},
                                   "edge_weight" in d)
        return [C(v) for v in npa(d["x"]).reshape(-1).tolist()], enc.digest(
            {a: enc.arr(npa(b), 10**6) if hasattr(b, "shape") else enc.tok(b) for a, b in d.items() if a != "x"})
    if op in ("text.lowercase", "text.word_dropout", "text.random_swap"):
        items = [x] if isinstance(x, str) else list(x)
        off = (op == "text.word_dropout" and q["num"] == 0) or (op == "text.random_swap" and q["n"] == 0)
        if op == "text.lowercase":
            return [[ord(c) for c in s] for s in items], ""
        return [[s] if off else s.split() for s in items], ""
    if k != "arr":
        return [C(whole(x))], ""
    if isinstance(x, (str, list, tuple)):
        return [C(whole(x))], ""
    a = npa(x)
    if op == "text.token_swap":
        return [[int(v) for v in row] for row in np.atleast_2d(a)], ""
    if op == "text.token_mask":
        return [int(v) for v in a.reshape(-1)], ""
    if op == "audio.time_shift":
        return [[C(v) for v in row] for row in (a.reshape(-1, a.shape[-1]) if a.shape[-1] else a.reshape(0, 0)).tolist()], ""
    if op.startswith("vision.") and op != "vision.gaussian_noise":
        if a.ndim == 3:
            a = a if a.shape[2] <= 4 else np.moveaxis(a, 0, 2)
            return [[C(tuple(p)) for p in row] for row in a.tolist()], ""
        return [[C(p) for p in row] for row in a.tolist()], ""
    if op == "core.ensure_float32":
        a = a.astype(np.float32)
    return [C(v) for v in a.reshape(-1).tolist()], ""


def fill_code(op, x, q, C):
    if op == "vision.cutout":
        a = npa(x)
        v = float(np.asarray(q["fillv"], dtype=a.dtype))
        return C(v) if a.ndim == 2 else C((v,) * min(a.shape[0], a.shape[2]))
    if op == "text.token_mask":
        return int(q["fillv"])
    if op in ("tabular.feature_dropout", "graph.feature_mask"):
        return C(0.0)
    return 0


def clone(x):
    return copy.deepcopy(x)
