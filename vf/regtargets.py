"""Things for R01 to register."""
from __future__ import annotations


class _Backend:
    def __init__(self, **kw):
        self.kw = kw


class B1(_Backend):
    pass


class B2(_Backend):
    pass


class B3(_Backend):
    pass


def _info(pkg):
    from importlib import import_module

    return import_module(pkg).MethodInfo(method_id="vf", name="vf")


class Alpha:
    def __init__(self, **kw):
        pass


class Beta(Alpha):
    pass


def ops():
    """Operation classes that belong nowhere yet."""
    from dataclasses import dataclass

    from modssc.data_augmentation.types import AugmentationOp

    out = []
    for k, mod in enumerate(["any", "text", "vision"]):
        @dataclass
        class Op(AugmentationOp):
            op_id: str = "vf.op"
            modality: str = mod
            p: float = 0.5

            def apply(self, x, *, rng, ctx):
                return x

        Op.modality = mod
        Op.__name__ = Op.__qualname__ = f"Op{k}"
        out.append(Op)

    class Plain:
        pass

    out.append(Plain)
    return out
