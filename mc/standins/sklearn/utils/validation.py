import numpy as np

from mc.core import StandInGap

from ..exceptions import NotFittedError


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise StandInGap("sklearn.utils.validation.%s" % name)


def _finite(a, allow_nan=False):
    if a.dtype.kind == "f" and not (~np.isinf(a) if allow_nan else np.isfinite(a)).all():
        raise ValueError("Input contains NaN, infinity or a value too large for %r." % a.dtype)


def check_array(array, accept_sparse=False, accept_large_sparse=True, dtype="numeric", order=None, copy=False, force_all_finite=True,
                ensure_2d=True, allow_nd=False, ensure_min_samples=1, ensure_min_features=1, warn_on_dtype=None, estimator=None):
    a = np.array(array) if copy else np.asarray(array)
    if dtype == "numeric" and a.dtype.kind in "OUS":
        a = a.astype(np.float64)
    elif dtype not in ("numeric", None):
        a = a.astype(dtype)
    if ensure_2d and a.ndim != 2:
        raise ValueError("Expected 2D array, got %dD array instead" % a.ndim)
    if not allow_nd and a.ndim >= 3:
        raise ValueError("Found array with dim %d. expected <= 2." % a.ndim)
    if force_all_finite == "allow-nan":
        _finite(a, allow_nan=True)
    elif force_all_finite:
        _finite(a)
    if a.ndim and a.shape[0] < ensure_min_samples:
        raise ValueError("Found array with %d sample(s) (shape=%s) while a minimum of %d is required." % (a.shape[0], a.shape, ensure_min_samples))
    if a.ndim == 2 and a.shape[1] < ensure_min_features:
        raise ValueError("Found array with %d feature(s) (shape=%s) while a minimum of %d is required." % (a.shape[1], a.shape, ensure_min_features))
    return a


def column_or_1d(y, warn=False):
    a = np.asarray(y)
    if a.ndim == 1:
        return a
    if a.ndim == 2 and a.shape[1] == 1:
        return a.ravel()
    raise ValueError("bad input shape %s" % (a.shape,))


def check_consistent_length(*arrays):
    if len({len(a) for a in arrays if a is not None}) > 1:
        raise ValueError("Found input variables with inconsistent numbers of samples: %r" % [len(a) for a in arrays])


def check_X_y(X, y, accept_sparse=False, accept_large_sparse=True, dtype="numeric", order=None, copy=False, force_all_finite=True,
              ensure_2d=True, allow_nd=False, multi_output=False, ensure_min_samples=1, ensure_min_features=1, y_numeric=False,
              warn_on_dtype=None, estimator=None):
    if y is None:
        raise ValueError("y cannot be None")
    X = check_array(X, dtype=dtype, copy=copy, force_all_finite=force_all_finite, ensure_2d=ensure_2d, allow_nd=allow_nd,
                    ensure_min_samples=ensure_min_samples, ensure_min_features=ensure_min_features)
    if multi_output:
        raise StandInGap("check_X_y multi_output")
    y = column_or_1d(y)
    _finite(y)
    if y_numeric and y.dtype.kind == "O":
        y = y.astype(np.float64)
    check_consistent_length(X, y)
    return X, y


def check_is_fitted(estimator, attributes=None, msg=None, all_or_any=all):
    if isinstance(estimator, type):
        raise TypeError("{} is a class, not an instance.".format(estimator))
    if not hasattr(estimator, "fit"):
        raise TypeError("%s is not an estimator instance." % (estimator,))
    if attributes is not None:
        attributes = [attributes] if isinstance(attributes, str) else attributes
        ok = all_or_any([hasattr(estimator, a) for a in attributes])
    else:
        ok = [v for v in vars(estimator) if v.endswith("_") and not v.startswith("__")]
    if not ok:
        raise NotFittedError((msg or "This %(name)s instance is not fitted yet. Call 'fit' with appropriate arguments before using "
                              "this estimator.") % {"name": type(estimator).__name__})


def check_random_state(seed):
    if seed is None or seed is np.random:
        return np.random.mtrand._rand
    if isinstance(seed, (int, np.integer)):
        return np.random.RandomState(seed)
    return seed
