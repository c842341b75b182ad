"""Random datasets and plans for the built-in preprocessing steps."""
from __future__ import annotations

import random

import numpy as np

WORDS = ["red", "green", "blue", "cat", "dog", "sun", "moon", "tea", "ice", "fox", "owl", "sky"]


def cells(kind: str, g: np.random.Generator, n: int):
    if kind == "tab":
        X = g.integers(-8, 9, size=(n, 4)).astype(np.float32) / 2
        X[g.random(X.shape) < 0.08] = np.nan
        return X
    if kind == "num":
        return g.integers(-8, 9, size=(n, 5)).astype(np.float64) / 2
    if kind == "cat":
        cols = [np.asarray(["a", "b", "c", "d", "?"], dtype=object)[g.integers(0, 5, n)],
                np.asarray([1.5, 2.0, -3.0, None], dtype=object)[g.integers(0, 4, n)],
                np.asarray(["u", "v", 7], dtype=object)[g.integers(0, 3, n)]]
        return np.stack(cols, axis=1)
    if kind in ("text", "texta"):
        t = [" ".join(g.choice(WORDS, size=int(g.integers(1, 6)))) for _ in range(n)]
        return t if kind == "text" else np.asarray(t, dtype=object)
    if kind == "vis":
        return g.integers(0, 256, size=(n, 4, 4, 3)).astype(np.uint8)
    if kind == "vis1":
        return (g.integers(0, 9, size=(n, 1, 4, 4)) / 4).astype(np.float32)
    if kind == "graph":
        return g.integers(-4, 5, size=(n, 4)).astype(np.float32)
    raise ValueError(kind)


MOD = {"tab": "tabular", "num": "tabular", "cat": "tabular", "text": "text", "texta": "text", "vis": "vision",
       "vis1": "vision", "graph": "graph"}
KINDS = list(MOD)


def labels(kind: str, g, n):
    if kind == "int":
        return g.integers(0, 3, n).astype(np.int64)
    if kind == "gap":
        return np.asarray([2, 5, 9])[g.integers(0, 3, n)]
    return np.asarray(["x", "yy", "z"])[g.integers(0, 3, n)]


def dataset(r: random.Random, kind: str | None = None):
    """-> (name, LoadedDataset without identity, kind, ykind)"""
    from modssc.data_loader.types import LoadedDataset, Split

    kind = kind or r.choice(KINDS)
    yk = r.choice(["int", "int", "gap", "str"])
    g = np.random.default_rng(r.randrange(1 << 31))
    n, m = r.randint(8, 14), r.randint(3, 6)
    hastest = r.random() < 0.75

    def part(k):
        edges = masks = None
        if kind == "graph":
            edges = np.unique(g.integers(0, k, size=(2, 3 * k)), axis=1).astype(np.int64)
            masks = {"train": g.random(k) < 0.5}
        return Split(X=cells(kind, g, k), y=labels(yk, g, k), edges=edges, masks=masks)
    ds = LoadedDataset(train=part(n), test=part(m) if hastest else None, meta={"modality": MOD[kind]})
    return ds, kind, yk


def _emb(r):
    return [("core.pca", dict(n_components=r.choice([1, 2, 3]), center=r.random() < 0.7)),
            ("core.random_projection", dict(n_components=r.choice([2, 3]), normalize=r.random() < 0.5)),
            ("core.cast_dtype", dict(dtype=r.choice(["float64", "float32"]))), ("core.cast_fp16", {}),
            ("core.ensure_2d", {}), ("core.to_numpy", {})]


def _lab(r):
    return [("labels.encode", {}), ("labels.ensure_onehot", {}), ("labels.to_numpy", {}), ("labels.to_torch", {})]


def _tail(r):
    return [("core.to_torch", dict(input_key=r.choice(["features.X", "raw.X"]))), ("core.to_torch", {})]


POOL = {
    "tab": lambda r: [("tabular.standard_scaler", dict(with_mean=r.random() < 0.7, with_std=r.random() < 0.7)),
                      ("tabular.impute", dict(strategy=r.choice(["mean", "median", "most_frequent"]))),
                      ("tabular.impute", dict(strategy="constant", fill_value=r.choice([0, 1]))),
                      ("core.copy_raw", {}), ("embeddings.auto", {}), *_emb(r)],
    "cat": lambda r: [("tabular.one_hot", {}), ("tabular.one_hot", {}), ("core.copy_raw", {}), *_emb(r),
                      ("tabular.impute", dict(strategy=r.choice(["mean", "median"])))],
    "text": lambda r: [("text.ensure_strings", {}), ("text.tfidf", dict(max_features=r.choice([None, 4]), min_df=r.choice([1, 2]))),
                       ("text.hash_tokenizer", dict(max_length=5, vocab_size=r.choice([20, 50]))), ("embeddings.auto", {}),
                       ("text.vocab_tokenizer", dict(max_length=5, vocab_size=r.choice([6, 20]), min_freq=r.choice([1, 2]))),
                       *_emb(r)],
    "vis": lambda r: [("vision.channels_order", dict(order=r.choice(["NHWC", "NCHW"]))), ("vision.resize", dict(height=3, width=r.choice([2, 3]))),
                      ("vision.normalize", {}), ("vision.zca_whitening", {}), ("vision.ensure_num_channels", dict(num_channels=r.choice([1, 3]))),
                      ("vision.squeeze", {}), ("core.ensure_2d", {}), ("core.copy_raw", {}), ("embeddings.auto", {}), *_emb(r)],
    "graph": lambda r: [("graph.attach_edge_weight", dict(weight=r.choice([1.0, 0.5]))),
                        ("graph.edge_sparsify", dict(keep_fraction=r.choice([0.5, 0.8]))), ("graph.sparse_adjacency", {}),
                        ("core.copy_raw", {}), ("graph.node2vec", dict(embedding_dim=3)),
                        ("graph.dgi", dict(embedding_dim=3, hidden_dim=4, unsup_epochs=2)), *_emb(r)],
}
POOL["num"] = POOL["tab"]
POOL["texta"] = POOL["text"]
POOL["vis1"] = POOL["vis"]
OUTS = ["features.X"] * 8 + ["raw.X", "tokens.input_ids", "labels.y_onehot", "labels.classes"]


FIRST = {"tab": ["tabular.standard_scaler", "tabular.impute", "core.copy_raw", "embeddings.auto"], "cat": ["tabular.one_hot"],
         "text": ["text.tfidf", "embeddings.auto", "embeddings.auto", "text.vocab_tokenizer"],
         "vis": ["core.ensure_2d", "embeddings.auto", "vision.zca_whitening", "vision.channels_order", "vision.resize"],
         "graph": ["core.copy_raw", "graph.node2vec", "graph.dgi", "graph.sparse_adjacency", "graph.edge_sparsify", "graph.attach_edge_weight"]}
FIRST["num"] = FIRST["tab"]
FIRST["texta"] = FIRST["text"]
FIRST["vis1"] = FIRST["vis"]


def steps(r: random.Random, kind: str) -> list[dict]:
    out = []
    if r.random() < 0.9:
        sid, params = r.choice([x for x in POOL[kind](r) if x[0] in FIRST[kind]])
        out.append(dict(id=sid, params=params))
    for _ in range(r.randint(0, 4)):
        pool = POOL[kind](r)
        if r.random() < 0.25:
            pool = _lab(r)
        sid, params = r.choice(pool)
        out.append(dict(id=sid, params=params))
    if r.random() < 0.2:
        sid, params = r.choice(_tail(r))
        out.append(dict(id=sid, params=params))
    return out or steps(r, kind)


def plan(r: random.Random, kind: str) -> dict:
    return dict(steps=steps(r, kind), out=r.choice(OUTS))


def nudge(r: random.Random, kind: str, p: dict) -> dict:
    q = dict(out=p["out"], steps=[dict(s) for s in p["steps"]])
    k = r.randrange(5)
    if k == 0 or not q["steps"]:
        q["out"] = r.choice(OUTS)
    elif k == 1:
        q["steps"].insert(r.randrange(len(q["steps"]) + 1), steps(r, kind)[0])
    elif k == 2:
        q["steps"].pop(r.randrange(len(q["steps"])))
    elif k == 3:
        i = r.randrange(len(q["steps"]))
        sid = q["steps"][i]["id"]
        for _ in range(4):
            for cand, params in POOL[kind](r):
                if cand == sid:
                    q["steps"][i] = dict(id=sid, params=params)
    else:
        q["steps"][r.randrange(len(q["steps"]))] = steps(r, kind)[0]
    return q


def to_plan(p: dict):
    from modssc.preprocess.plan import PreprocessPlan, StepConfig

    return PreprocessPlan(steps=tuple(StepConfig(step_id=s["id"], params=s["params"]) for s in p["steps"]), output_key=p["out"])
