"""Stand-ins for the dataset libraries the providers read from, with known contents."""
from __future__ import annotations

import pathlib
import sys
import types

import numpy as np

SRC: dict = {}   # what the libraries hold at the moment: set by use()


def use(src: dict) -> None:
    SRC.clear()
    SRC.update(src)


def feature(i: int, kind: str):
    """The features of sample i."""
    if kind == "img":
        return np.full((2, 2), i % 251, dtype=np.uint8) + np.eye(2, dtype=np.uint8) * (i // 251)
    if kind == "wav":
        return np.arange(i % 4 + 1, dtype=np.float32) + i
    if kind == "row":
        return np.array([i, -i, 0.5], dtype=np.float64)
    return f"text é {i}"


def ident(x, kind: str) -> int:
    """Which sample has these features (-1: none)."""
    try:
        if kind == "txt":
            i = int(str(x).split()[-1])
        elif kind == "path":
            return int(pathlib.PurePath(x).stem)
        elif kind == "img":
            a = np.asarray(x)
            i = int(a[0, 1]) + 251 * (int(a[0, 0]) - int(a[0, 1]))
        else:
            i = int(np.asarray(x).reshape(-1)[0])
        y = feature(i, kind)
        ok = x == y if kind == "txt" else np.array_equal(np.asarray(x), y)
        return i if ok else -1
    except Exception:  # noqa: BLE001
        return -1


def _rows(table):
    return SRC["tables"][table]


class _Sub:
    """A dataset of the torchvision/torchaudio kind."""

    def __init__(self, table, kind, root):
        rows = _rows(table)
        self.rows, self.kind = rows, kind
        if SRC["style"] == "attrs":
            self.data = np.stack([feature(r["id"], kind) for r in rows]) if rows else np.zeros((0, 2, 2), np.uint8)
            self.targets = [r["y"] for r in rows] if rows else []
        if SRC["style"] == "walker":
            self._path = str(root)
            self._walker = [str(pathlib.Path(*SRC.get("under", []), str(r["y"]), f"{r['id']}.wav")) for r in rows]
            if SRC.get("absolute"):
                self._walker = [str(pathlib.Path(root) / w) for w in self._walker]

    def __iter__(self):
        for r in self.rows:
            f = feature(r["id"], self.kind)
            yield (f, 16000, r["y"]) if self.kind == "wav" else (f, r["y"])


def _vision(name):
    def train(self, root, train=True, download=False):
        _Sub.__init__(self, "train" if train else "test", "img", root)

    def split(self, root, split="train", download=False):
        _Sub.__init__(self, {"train": "train", "test": "test"}[split], "img", root)
    return type(name, (_Sub,), {"__init__": split if SRC.get("bysplit") else train})


def _audio(name):
    def official(self, root, subset=None, download=False):
        _Sub.__init__(self, {"training": "train", "testing": "test"}[subset], "wav", root)

    def single(self, root, download=False):
        _Sub.__init__(self, "train", "wav", root)
    return type(name, (_Sub,), {"__init__": official if "test" in SRC["tables"] else single})


class _Data:
    pass


def _graph(name):
    import torch

    class G:
        def __init__(self, root=None, name=None):
            self.root = root

        def __len__(self):
            return 1

        def __getitem__(self, i):
            d = _Data()
            nodes = SRC["nodes"]
            d.x = torch.tensor([[float(r["id"]), 1.0] for r in nodes]).reshape(len(nodes), 2)
            d.y = torch.tensor([r["y"] for r in nodes[: SRC["nlab"]]], dtype=torch.int64)
            e = torch.tensor(SRC["edges"], dtype=torch.int64).reshape(-1, 2).t()
            d.edge_index = e.t() if SRC["rows2"] and len(SRC["edges"]) != 2 else e
            for m in SRC["masks"]:
                setattr(d, m + "_mask", torch.tensor([m in r["m"].split(",") for r in nodes], dtype=torch.bool))
            return d
    G.__name__ = name
    return G


class _Lazy(types.ModuleType):
    def __init__(self, name, make):
        super().__init__(name)
        self._make = make

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return self._make(n)


def install() -> None:
    def put(name, mod):
        parts = name.split(".")
        for i in range(1, len(parts)):
            p = ".".join(parts[:i])
            if p not in sys.modules or i == len(parts) - 1 and p != "sklearn":
                sys.modules[p] = types.ModuleType(p)
        sys.modules[name] = mod
        if len(parts) > 1:
            setattr(sys.modules[".".join(parts[:-1])], parts[-1], mod)

    put("torchvision.datasets", _Lazy("torchvision.datasets", _vision))
    put("torchaudio.datasets", _Lazy("torchaudio.datasets", _audio))
    put("torch_geometric.datasets", _Lazy("torch_geometric.datasets", _graph))

    hf = types.ModuleType("datasets")

    def load_dataset(name, config=None, cache_dir=None):
        c = SRC["columns"]
        out = {t: {c[0]: [feature(r["id"], "txt") for r in rows], c[1]: [r["y"] for r in rows], "noise": [0] * len(rows)}
               for t, rows in SRC["tables"].items()}
        return out
    hf.load_dataset = load_dataset
    put("datasets", hf)

    tfds = types.ModuleType("tensorflow_datasets")

    def load(name, split, as_supervised, data_dir):
        if split not in SRC["tables"]:
            raise ValueError("no such split")
        return [(feature(r["id"], "img"), r["y"]) for r in _rows(split)]
    tfds.load = load
    put("tensorflow_datasets", tfds)

    skd = types.ModuleType("sklearn.datasets")

    def fetch_openml(*, return_X_y, as_frame, data_home, name=None, data_id=None, version=None):
        rows = _rows("train")
        X = np.stack([feature(r["id"], "row") for r in rows]) if rows else np.zeros((0, 3))
        y = np.asarray([r["y"] for r in rows])
        if as_frame:
            import pandas as pd

            return pd.DataFrame(X), pd.Series(y)
        return X, y
    skd.fetch_openml = fetch_openml
    sys.modules["sklearn.datasets"] = skd
