"""The scikit-learn style estimators (DAGRegressor, DAGClassifier) on the torch stand-in: loading, containers of data, and one fit under a scripted optimiser."""
import copy
import itertools

from . import neural
from .optim import Script

FORMS = ("array", "frame", "named", "shuffled", "words", "other", "int")
FEATURES = [["a", "b", "c"], ["t", "a", "t1"], [2, 0, 1]]


def load():
    mod = neural.load_estimators()
    import numpy as np
    import pandas as pd
    from sklearn.base import clone
    from sklearn.exceptions import NotFittedError
    return {"np": np, "pd": pd, "Regressor": mod.DAGRegressor, "Classifier": mod.DAGClassifier, "clone": clone, "NotFitted": NotFittedError}


def wrap(H, cols, y, form, names, yname="y"):
    """(X, y, names of the columns, name of the target or None) in one of the containers a user may have"""
    np, pd = H["np"], H["pd"]
    n = len(y)
    X = np.array(cols, dtype=float).T
    Y = np.array(y)
    if form == "array":
        return X, Y, list(range(len(cols))), None
    if form == "int":
        return np.array(cols).T, Y, list(range(len(cols))), None
    index = {"frame": None, "named": None, "shuffled": [(i * 7 + 3) % n if n % 7 else (i * 5 + 3) % n for i in range(n)], "words": ["r%d" % (n - i) for i in range(n)],
             "other": [i + 100 for i in range(n)]}[form]
    frame = pd.DataFrame({m: list(c) for m, c in zip(names, cols)}, index=index)
    if form == "frame":
        return frame, Y, names, None
    # the labels of the rows of X and y may differ: rows pair by position
    return frame, pd.Series(list(y), name=yname, index=index if form == "words" else None if form != "named" else index), names, yname


def snapshot(H, x):
    pd, np = H["pd"], H["np"]
    if isinstance(x, pd.DataFrame):
        return ("frame", list(x.columns), list(x.index), [x[c].tolist() for c in x.columns])
    if isinstance(x, pd.Series):
        return ("series", x.name, list(x.index), x.tolist())
    return ("array", str(x.dtype), x.tolist())


def row(x, rows):
    return x.iloc[rows] if hasattr(x, "iloc") else x[rows]


def options(est):
    return {k: copy.deepcopy(v) for k, v in est.get_params().items()}


def fit(ctx, H, est, X, y, desc, script=None, cpu=120):
    """fits, watching that nothing but the estimator changes; True if it went well"""
    before, given = (snapshot(H, X), snapshot(H, y)), options(est)
    ctx.state()
    ctx.trans()
    ctx.trace()
    if script is None:
        ok, r = ctx.guard(lambda: est.fit(X, y), desc, cpu=cpu)
    else:
        with script:
            ok, r = ctx.guard(lambda: est.fit(X, y), desc, cpu=cpu)
    if not ok:
        return False
    if script is not None and not script.calls:
        ctx.gaps["the optimiser model was not asked"] = ctx.gaps.get("the optimiser model was not asked", 0) + 1
        return False
    ctx.check(r is est, "%s: fit returned %r" % (desc, r))
    ctx.check((snapshot(H, X), snapshot(H, y)) == before, "%s: changed the data" % desc)
    ctx.check(options(est) == given, "%s: changed its parameters from %r to %r" % (desc, given, options(est)))
    return True


def standardised(np, col):
    a = np.array(col, dtype=float)
    s = a.std()
    return ((a - a.mean()) / (s if s else 1.0)).tolist(), float(a.mean()), float(s if s else 1.0)


def allowed(n, target, e, p, c, dependent):
    """may column i have an effect on column j?"""
    def ok(i, j):
        return i != j and not (e and (i, j) in e) and not (p and i in p) and not (c and j in c) and not (dependent and i == target)
    return ok


def subsets(xs, most=None):
    return [list(c) for k in range(len(xs) + 1 if most is None else most + 1) for c in itertools.combinations(xs, k)]


__all__ = ["Script", "neural"]
