"""Preprocessing steps over uninterpreted terms (see spec/Preproc.tla), and a catalogue of them."""
from __future__ import annotations

import hashlib

import numpy as np

TERMS: dict[str, str] = {}   # content -> token
LOG: list[list] = []         # [id, role, draw]


def name(*parts: str) -> str:
    c = "|".join(parts)
    h = TERMS.get(c)
    if h is None:
        h = TERMS[c] = "t" + hashlib.sha256(c.encode()).hexdigest()[:10]
    return h


class Opaque:
    """A value no cache can store."""

    def __init__(self, v):
        self.v = v

    def __reduce__(self):
        raise TypeError("not storable")


def wrap(v: str, how: str):
    if how == "s":
        return v
    if how == "l":
        return [v, 1.5, None]
    if how == "t":
        return (v, True)
    if how == "d":
        return {"v": v, "n": [1, 2.0]}
    if how == "di":
        return {1: v}
    if how == "n":
        return np.asarray([[v]])
    if how == "o":
        return np.asarray([[v], [None]], dtype=object)
    if how == "ol":
        a = np.empty(2, dtype=object)
        a[0], a[1] = [v, "x"], [1, 2]
        return a
    if how == "oi":
        return np.asarray([v, np.int64(3)], dtype=object)
    if how == "np":
        return np.str_(v)
    if how == "b":
        return np.frombuffer(v.encode(), dtype=np.uint8).reshape(-1, 1)
    if how == "tt":
        import torch

        return torch.tensor(list(v.encode()), dtype=torch.int16).reshape(1, -1)
    if how == "sp":
        from scipy import sparse

        return sparse.csr_matrix(np.frombuffer(v.encode(), dtype=np.uint8).reshape(1, -1).astype(np.float32))
    if how == "q":
        return Opaque(v)
    raise ValueError(how)


WRAPS = ["s", "l", "t", "d", "di", "n", "o", "ol", "oi", "np", "b", "tt", "sp", "q"]


def token(x) -> str:
    """The term a value holds; a value that lost its type or shape has no term."""
    try:
        v = None
        if type(x) is str:
            return x
        if type(x) is np.str_:
            v, w = str(x), "np"
        elif isinstance(x, Opaque):
            v, w = x.v, "q"
        elif type(x) is list:
            v, w = x[0], "l"
        elif type(x) is tuple:
            v, w = x[0], "t"
        elif type(x) is dict:
            v, w = (x["v"], "d") if "v" in x else (x[1], "di")
        elif isinstance(x, np.ndarray) and x.dtype.kind == "U":
            v, w = str(x[0, 0]), "n"
        elif isinstance(x, np.ndarray) and x.dtype == object:
            v, w = (x[0, 0], "o") if x.ndim == 2 else (x[0][0], "ol") if isinstance(x[0], list) else (x[0], "oi")
        elif isinstance(x, np.ndarray):
            v, w = bytes(x.reshape(-1)).decode(), "b"
        elif hasattr(x, "detach"):
            v, w = bytes(x.to(dtype=x.dtype).numpy().astype(np.uint8).reshape(-1)).decode(), "tt"
        elif hasattr(x, "tocsr"):
            v, w = bytes(x.toarray().astype(np.uint8).reshape(-1)).decode(), "sp"
        if v is None:
            return f"?{type(x).__name__}"
        ref = wrap(v, w)
        return v if same(x, ref) else f"?changed:{type(x).__name__}:{v}"
    except Exception as e:  # noqa: BLE001
        return f"?{type(x).__name__}:{type(e).__name__}"


def same(a, b) -> bool:
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return isinstance(a, Opaque) and isinstance(b, Opaque) and a.v == b.v
    if hasattr(a, "tocsr") or hasattr(b, "tocsr"):
        return type(a) is type(b) and a.dtype == b.dtype and a.shape == b.shape and (a != b).nnz == 0
    if hasattr(a, "detach") or hasattr(b, "detach"):
        return type(a) is type(b) and a.dtype == b.dtype and a.shape == b.shape and bool((a == b).all())
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape:
            return False
        if a.dtype != b.dtype and not (a.dtype.kind == b.dtype.kind == "U"):
            return False
        return all(same(u, v) for u, v in zip(a.reshape(-1).tolist() if a.dtype != object else list(a.flat),
                                              b.reshape(-1).tolist() if b.dtype != object else list(b.flat)))
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(u, v) for u, v in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b


# id: kind, modalities, reads [(alternatives, needed)], products [(key, iff)], random
CAT = {
    "s.raw": ("transform", (), [(("raw.X",), True)], [("features.X", "")], False),
    "s.fx": ("transform", (), [(("features.X", "raw.X"), True)], [("features.X", "")], False),
    "s.fit": ("fittable", (), [(("features.X", "raw.X"), True)], [("features.X", "")], False),
    "s.fitr": ("fittable", (), [(("features.X",), True)], [("features.X", "")], True),
    "s.rand": ("transform", (), [(("features.X", "raw.X"), True)], [("features.X", "")], True),
    "s.inraw": ("transform", (), [(("raw.X",), True)], [("raw.X", "")], False),
    "s.fitraw": ("fittable", (), [(("raw.X",), True)], [("raw.X", "")], True),
    "s.lab": ("transform", (), [(("raw.y",), True)], [("labels.y", ""), ("labels.classes", "")], False),
    "s.lab2": ("transform", (), [(("labels.y", "raw.y"), True)], [("labels.y", "")], False),
    "s.ew": ("transform", ("graph",), [(("graph.edge_weight",), False), (("graph.edge_index",), True)],
             [("graph.edge_weight", "")], False),
    "s.spars": ("transform", ("graph",), [(("graph.edge_index",), True), (("graph.edge_weight",), False)],
                [("graph.edge_index", ""), ("graph.edge_weight", "graph.edge_weight")], True),
    "s.emb": ("featurizer", ("graph",), [(("graph.edge_index",), True), (("graph.edge_weight",), False),
                                         (("features.X", "raw.X"), True)], [("features.X", "")], True),
    "s.txt": ("transform", ("text",), [(("raw.X",), True)], [("tokens.ids", ""), ("tokens.mask", "")], False),
    "s.tok": ("fittable", ("text", "tabular"), [(("raw.X",), True)], [("features.X", ""), ("tokens.ids", "")], False),
    "s.from": ("transform", (), [], [("features.X", "")], False),
    "s.sup": ("fittable", (), [(("features.X", "raw.X"), True), (("labels.y", "raw.y"), True)],
              [("features.X", "")], False),
    "s.const": ("transform", (), [], [("aux.c", "")], True),
    "s.aux": ("transform", (), [(("aux.c",), False), (("tokens.ids",), False)], [("features.X", "")], False),
}


def _reads(sid, ink):
    return CAT[sid][2] + ([((ink,), True)] if ink else [])


class Step:
    SID = ""

    def __init__(self, w="0", wrap="s", input_key=""):
        self.w, self.wrap, self.ink, self.learnt, self.n = w, wrap, input_key, "-", 0

    def _ins(self, store):
        out = []
        for ks, need in _reads(self.SID, self.ink):
            k = next((k for k in ks if store.has(k)), None)
            if k is None:
                if need:
                    raise KeyError(ks[0])
                out.append("-")
            else:
                out.append(token(store.get(k)))
        return out

    def _draw(self, role, rng):
        d = repr(float(rng.random())) if CAT[self.SID][4] else "-"
        LOG.append([self.SID, role, d])
        return d

    def transform(self, store, *, rng):
        role = ("train", "test", "again")[min(self.n, 2)]
        self.n += 1
        ins = self._ins(store)
        d = self._draw(role, rng)
        out = {}
        for k, iff in CAT[self.SID][3]:
            if not iff or store.has(iff):
                out[k] = wrap(name("out", self.SID, k, self.wrap, self.w, d, self.learnt, *ins), self.wrap)
        return out


class FitStep(Step):
    def fit(self, store, *, fit_indices, rng):
        ins = self._ins(store)
        d = self._draw("fit", rng)
        fit = ",".join(str(int(i)) for i in fit_indices)
        self.learnt = name("fit", self.SID, self.w, d, fit, *ins)


for _sid, _c in CAT.items():
    _n = "C_" + _sid.replace(".", "_")
    globals()[_n] = type(_n, (FitStep if _c[0] == "fittable" else Step,), {"SID": _sid})


def registry():
    from modssc.preprocess.registry import StepRegistry
    from modssc.preprocess.types import StepSpec

    return StepRegistry(specs={
        sid: StepSpec(step_id=sid, import_path=f"vf.symsteps:C_{sid.replace('.', '_')}", kind=c[0], modalities=c[1],
                      consumes=tuple(dict.fromkeys(k for ks, _ in c[2] for k in ks)),
                      produces=tuple(k for k, _ in c[3])) for sid, c in CAT.items()})


def catalogue() -> dict:
    return {sid: dict(kind=c[0], mods=list(c[1]), reads=[dict(ks=list(ks), need=n) for ks, n in c[2]],
                      prods=[dict(k=k, iff=i) for k, i in c[3]], rand=c[4]) for sid, c in CAT.items()}
