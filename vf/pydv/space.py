"""The models handed to the interpreter: builtins and containers (models), arrays (np_models), libraries (lib_models)."""
import types
from . import models as _m, np_models as _n, lib_models as _l, io_models as _io, h5_models as _h5, vtk_models as _vtk, cli_models as _cli, bin_models as _bin  # noqa: F401 (they register their models)


def build():
    ns = types.SimpleNamespace()
    for src in (_m, _n):
        for k, v in vars(src).items():
            if not k.startswith('__'):
                setattr(ns, k, v)
    return ns


SPACE = build()
