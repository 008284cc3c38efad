#!/usr/bin/env python3
"""Packs the stand-ins into one file that demonstrations can carry beside them (stubs.zip, importable as it is)."""
import os
import zipfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SETUP = '''"""Puts the stand-ins in place: stubs.use() before importing causalnex."""
import importlib
import os
import sys
import types


def use(torch=False):
    os.environ["OMP_NUM_THREADS"] = "1"
    import logging
    import warnings
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    sys.path.insert(0, os.getcwd())
    if not torch:
        t = types.ModuleType("causalnex.structure.pytorch")
        t.__path__ = []
        t.DAGClassifier = type("DAGClassifier", (), {})
        t.DAGRegressor = type("DAGRegressor", (), {})
        s = types.ModuleType("causalnex.structure.pytorch.sklearn")
        s.DAGClassifier, s.DAGRegressor = t.DAGClassifier, t.DAGRegressor
        t.sklearn = s
        sys.modules[t.__name__], sys.modules[s.__name__] = t, s


def engine():
    """causalnex.inference with the code objects of Python 3.8"""
    use()
    from codecompat import patch
    return patch(importlib.import_module("causalnex.inference.inference")).InferenceEngine


def optimiser(answer):
    """scipy's optimiser replaced: answer(call, x0) -> x, clipped to the bounds"""
    import numpy as np
    import scipy.optimize as so
    calls = []

    def minimize(fun, x0, *args, **kw):
        x = np.array(answer(len(calls), np.array(x0, dtype=float)), dtype=float)
        calls.append(x)
        b = kw.get("bounds")
        if b is not None:
            if hasattr(b, "lb"):
                lo, hi = np.broadcast_to(b.lb, x.shape), np.broadcast_to(b.ub, x.shape)
            else:
                lo = np.array([-np.inf if p[0] is None else p[0] for p in b])
                hi = np.array([np.inf if p[1] is None else p[1] for p in b])
            x = np.minimum(np.maximum(x, lo), hi)
        return types.SimpleNamespace(x=x, success=True, status=0, message="", nit=1, nfev=1, fun=0.0, jac=None)

    so.minimize = minimize
    return calls
'''


def pack(target):
    src = os.path.join(HERE, "mc", "standins")
    items = {"stubs.py": SETUP, "mc/__init__.py": "", "mc/core.py": "class StandInGap(AttributeError):\n    pass\n"}
    for base, dirs, files in os.walk(src):
        dirs[:] = sorted(d for d in dirs if d != "__pycache__")
        for f in sorted(files):
            rel = os.path.relpath(os.path.join(base, f), src)
            if f.endswith(".py") and rel != "__init__.py":
                items[rel] = open(os.path.join(base, f)).read()
    with zipfile.ZipFile(target, "w", zipfile.ZIP_DEFLATED) as z:
        for name in sorted(items):
            z.writestr(zipfile.ZipInfo(name), items[name], zipfile.ZIP_DEFLATED)


if __name__ == "__main__":
    import sys
    pack(sys.argv[1])
