"""Tabulates the public names and signatures of the installed libraries (run with the interpreter the package uses).

    /opt/venv/bin/python tools/gen_libapi.py > pgsa/data/libapi.json
"""

import importlib
import inspect
import json
import types
import warnings

warnings.simplefilter("ignore")
MODULES = """numpy numpy.linalg numpy.random numpy.fft numpy.ma numpy.testing scipy scipy.sparse scipy.sparse.linalg scipy.sparse.csgraph
scipy.linalg scipy.spatial scipy.spatial.distance scipy.special scipy.stats scipy.optimize scipy.interpolate scipy.io scipy.signal scipy.ndimage
scipy.cluster scipy.integrate logging functools itertools collections os os.path sys io copy math random pkgutil traceback warnings re
inspect types operator time json pathlib string tempfile contextlib builtins importlib
networkx matplotlib matplotlib.pyplot matplotlib.colors matplotlib.collections mpl_toolkits.mplot3d mpl_toolkits.mplot3d.art3d
pyqtgraph pyqtgraph.opengl pyqtgraph.Qt pyunlocbox pyunlocbox.functions pyunlocbox.solvers skimage skimage.data skimage.util
sklearn sklearn.neighbors pyflann graph_tool graph_tool.all""".split()


def sig(o):
    if not callable(o):
        return None
    try:
        s = inspect.signature(o)
    except (ValueError, TypeError):
        return None
    pos, kwonly, var, kw, req = [], [], False, False, 0
    for p in s.parameters.values():
        if p.kind is p.POSITIONAL_ONLY:
            pos.append("/" + p.name)
        elif p.kind is p.POSITIONAL_OR_KEYWORD:
            pos.append(p.name)
        elif p.kind is p.VAR_POSITIONAL:
            var = True
        elif p.kind is p.VAR_KEYWORD:
            kw = True
        else:
            kwonly.append(p.name)
        if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD) and p.default is p.empty:
            req += 1
    return [pos, kwonly, int(var), int(kw), req]


def main():
    out = {"modules": {}, "sigs": {}, "types": {}, "versions": {}}
    for m in MODULES:
        try:
            mod = importlib.import_module(m)
        except Exception:  # noqa: BLE001 - not installed
            continue
        if "." not in m and hasattr(mod, "__version__"):
            out["versions"][m] = str(mod.__version__)
        names = [n for n in dir(mod) if not (n.startswith("_") and not n.startswith("__"))]
        for n in getattr(mod, "__all__", []):
            if n not in names:
                names.append(n)
        out["modules"][m] = sorted(names)
        if m.split(".")[0] in ("numpy", "scipy"):
            for n in names:
                try:
                    o = getattr(mod, n)
                except Exception:  # noqa: BLE001
                    continue
                if isinstance(o, types.ModuleType) or n.startswith("_"):
                    continue
                s = sig(o)
                if s is not None:
                    out["sigs"][f"{m}.{n}"] = s
    import numpy as np
    from scipy import sparse
    types_ = {
        "ndarray": np.ndarray, "matrix": np.matrix, "float64": np.float64, "list": list, "dict": dict, "set": set, "str": str,
        "tuple": tuple, "int": int, "float": float, "Generator": np.random.Generator, "RandomState": np.random.RandomState,
        **{f"{k}_{f}": getattr(sparse, f"{k}_{f}") for k in ("csr", "csc", "coo", "dia", "bsr", "lil", "dok") for f in ("matrix", "array")},
    }
    for n, t in types_.items():
        out["types"][n] = sorted(dir(t))
    # modules that resolve names dynamically
    out["dynamic"] = sorted(m for m in out["modules"] if hasattr(importlib.import_module(m), "__getattr__"))
    print(json.dumps(out, indent=None, separators=(",", ":")))


main()
