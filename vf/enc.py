"""Canonical encodings of values, so that a specification can compare them."""
from __future__ import annotations

import hashlib
import json

import numpy as np


def tok(x) -> str:
    """A token that determines the value and its type."""
    if isinstance(x, np.ndarray):
        return "nd" + json.dumps(arr(x), sort_keys=True)
    if isinstance(x, np.generic):
        return f"{x.dtype.str}:{x.tobytes().hex()}" if x.dtype.kind not in "OU" else f"str:{x!s}"
    if isinstance(x, float):
        return "float:" + x.hex() if x == x else "float:nan"
    if isinstance(x, str):
        return "str:" + json.dumps(str(x))
    if isinstance(x, (list, tuple)):
        return type(x).__name__ + "[" + ",".join(tok(v) for v in x) + "]"
    if isinstance(x, dict):
        return "{" + ",".join(f"{tok(k)}:{tok(v)}" for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))) + "}"
    return f"{type(x).__name__}:{x!r}"


def plain(x):
    if x is None:
        return None
    if hasattr(x, "detach"):
        x = x.detach().cpu().numpy()
    return x


def arr(x, limit: int = 64):
    """dtype, shape and every element (long arrays: a digest of all of them)."""
    x = plain(x)
    if x is None:
        return {"dtype": "none", "shape": [-1], "v": ["none"]}
    if hasattr(x, "tocoo"):
        c = x.tocsr().copy()
        c.sum_duplicates(), c.sort_indices()
        return {"dtype": "sparse:" + str(c.dtype), "shape": [int(s) for s in c.shape],
                "v": [digest(c.indptr.tolist(), c.indices.tolist(), c.data.tolist())]}
    if not isinstance(x, np.ndarray):
        return {"dtype": type(x).__name__, "shape": [-2], "v": [tok(x)]}
    if x.dtype.kind == "U":  # width is a property of the content
        dt = "U"
    else:
        dt = x.dtype.str
    vals = [tok(v) for v in x.reshape(-1)] if x.dtype != object else [tok(v) for v in x.flat]
    if len(vals) > limit:
        vals = vals[:4] + ["#" + hashlib.sha256("|".join(vals).encode()).hexdigest()]
    return {"dtype": dt, "shape": [int(s) for s in x.shape] or [-3], "v": vals or ["empty"]}


def digest(*xs) -> str:
    h = hashlib.sha256()
    for x in xs:
        h.update(json.dumps(x, sort_keys=True, default=tok).encode())
        h.update(b"\x00")
    return h.hexdigest()[:24]


def split(s) -> dict:
    out = {"X": arr(s.X), "y": arr(s.y), "edges": arr(s.edges)}
    out["masks"] = {"_": ["-"], **{str(k): arr(v)["v"] + [arr(v)["dtype"]] for k, v in (s.masks or {}).items()}}
    out["hasmasks"] = s.masks is not None
    return out


def dataset(ds, drop_meta=("dataset_fingerprint",)) -> dict:
    out = {"train": split(ds.train), "meta": {"_": "-", **{
        str(k): json.dumps(v, sort_keys=True, default=tok) for k, v in ds.meta.items() if k not in drop_meta}}}
    if ds.test is not None:
        out["test"] = split(ds.test)
    return out


def fast(x) -> str:
    """dtype, shape and content of a plain array, by its bytes."""
    x = np.asarray(plain(x))
    if x.dtype == object or x.dtype.kind == "U":
        return digest(arr(x, 10**9))
    return f"{x.dtype.str}{x.shape}{hashlib.sha256(np.ascontiguousarray(x).tobytes()).hexdigest()[:24]}"
