import numpy as np

from mc.core import StandInGap


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise StandInGap("sklearn.utils.multiclass.%s" % name)


def unique_labels(*ys):
    return np.unique(np.concatenate([np.asarray(y) for y in ys]))


def type_of_target(y):
    a = np.asarray(y)
    if a.ndim > 2 or (a.dtype == object and len(a) and not isinstance(a.flat[0], str)):
        return "unknown"
    if a.ndim == 2 and a.shape[1] > 1:
        raise StandInGap("targets of several columns")
    if a.dtype.kind == "f" and np.any(a != a.astype(int)):
        if not np.isfinite(a).all():
            raise ValueError("Input contains NaN, infinity or a value too large for %r." % a.dtype)
        return "continuous"
    return "multiclass" if len(np.unique(a)) > 2 else "binary"


def check_classification_targets(y):
    t = type_of_target(y)
    if t not in ("binary", "multiclass", "multiclass-multioutput", "multilabel-indicator", "multilabel-sequences"):
        raise ValueError("Unknown label type: %r" % t)
