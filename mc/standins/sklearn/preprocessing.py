import numpy as np

from mc.core import StandInGap

from .base import BaseEstimator, TransformerMixin
from .utils.validation import check_array, check_is_fitted, column_or_1d


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise StandInGap("sklearn.preprocessing.%s" % name)


class StandardScaler(TransformerMixin, BaseEstimator):
    def __init__(self, copy=True, with_mean=True, with_std=True):
        self.copy, self.with_mean, self.with_std = copy, with_mean, with_std

    def fit(self, X, y=None):
        X = check_array(X, dtype=np.float64)
        self.mean_ = X.mean(axis=0) if self.with_mean else None
        self.var_ = X.var(axis=0)
        self.n_samples_seen_ = len(X)
        s = np.sqrt(self.var_)
        s[s == 0] = 1.0
        self.scale_ = s if self.with_std else None
        return self

    def transform(self, X, copy=None):
        check_is_fitted(self)
        X = check_array(X, dtype=np.float64, copy=True)
        if X.shape[1] != len(self.var_):
            raise ValueError("operands could not be broadcast together with shapes %s (%d,)" % (X.shape, len(self.var_)))
        if self.with_mean:
            X = X - self.mean_
        return X / self.scale_ if self.with_std else X

    def inverse_transform(self, X, copy=None):
        check_is_fitted(self)
        X = np.array(X, dtype=np.float64)
        if self.with_std:
            X = X * self.scale_
        return X + self.mean_ if self.with_mean else X


class _Encoder(TransformerMixin, BaseEstimator):
    def _fit(self, X):
        X = check_array(X, dtype=None)
        if not (isinstance(self.categories, str) and self.categories == "auto"):
            raise StandInGap("encoders with given categories")
        self.categories_ = [np.unique(X[:, j]) for j in range(X.shape[1])]

    def _codes(self, X, ignore=False):
        check_is_fitted(self)
        X = check_array(X, dtype=None)
        if X.shape[1] != len(self.categories_):
            raise ValueError("Shape mismatch: if categories is an array, it has to be of shape (n_features,).")
        out = np.zeros(X.shape, dtype=int)
        for j, c in enumerate(self.categories_):
            for i, x in enumerate(X[:, j]):
                w = np.nonzero(c == x)[0]
                if not len(w):
                    if not ignore:
                        raise ValueError("Found unknown categories %r in column %d during transform" % ([x], j))
                    out[i, j] = -1
                else:
                    out[i, j] = w[0]
        return out


class OneHotEncoder(_Encoder):
    def __init__(self, categories="auto", drop=None, sparse=True, dtype=np.float64, handle_unknown="error", sparse_output=None):
        self.categories, self.drop, self.sparse, self.dtype, self.handle_unknown = categories, drop, sparse, dtype, handle_unknown
        self.sparse_output = sparse_output

    def fit(self, X, y=None):
        self._fit(X)
        if self.drop not in (None, "first"):
            raise StandInGap("OneHotEncoder drop")
        return self

    def transform(self, X):
        if self.sparse_output if self.sparse_output is not None else self.sparse:
            raise StandInGap("sparse OneHotEncoder")
        codes = self._codes(X, self.handle_unknown == "ignore")
        first = 1 if self.drop == "first" else 0
        cols = []
        for j, c in enumerate(self.categories_):
            for k in range(first, len(c)):
                cols.append((codes[:, j] == k).astype(self.dtype))
        return np.array(cols, dtype=self.dtype).T.reshape(len(codes), len(cols)).copy()


class OrdinalEncoder(_Encoder):
    def __init__(self, categories="auto", dtype=np.float64):
        self.categories, self.dtype = categories, dtype

    def fit(self, X, y=None):
        self._fit(X)
        return self

    def transform(self, X):
        return self._codes(X).astype(self.dtype)

    def inverse_transform(self, X):
        return np.array([[self.categories_[j][int(x)] for j, x in enumerate(r)] for r in X])


class LabelEncoder(TransformerMixin, BaseEstimator):
    def fit(self, y):
        self.classes_ = np.unique(column_or_1d(y))
        return self

    def fit_transform(self, y):
        y = column_or_1d(y)
        self.classes_, codes = np.unique(y, return_inverse=True)
        return codes

    def transform(self, y):
        check_is_fitted(self)
        y = column_or_1d(y)
        new = [x for x in np.unique(y) if x not in self.classes_]
        if new:
            raise ValueError("y contains previously unseen labels: %s" % new)
        return np.searchsorted(self.classes_, y)

    def inverse_transform(self, y):
        check_is_fitted(self)
        return self.classes_[np.asarray(y)]
