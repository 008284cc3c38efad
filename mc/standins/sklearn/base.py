import copy
import inspect

import numpy as np


class BaseEstimator:
    @classmethod
    def _get_param_names(cls):
        init = cls.__init__
        if init is object.__init__:
            return []
        ps = [p for p in inspect.signature(init).parameters.values() if p.name != "self" and p.kind != p.VAR_KEYWORD]
        if any(p.kind == p.VAR_POSITIONAL for p in ps):
            raise RuntimeError("scikit-learn estimators should always specify their parameters in the signature of their __init__")
        return sorted(p.name for p in ps)

    def get_params(self, deep=True):
        # version 0.22: an attribute that does not exist is reported as None
        return {k: getattr(self, k, None) for k in self._get_param_names()}

    def set_params(self, **params):
        for k, v in params.items():
            if k not in self._get_param_names():
                raise ValueError("Invalid parameter %s for estimator %s" % (k, self))
            setattr(self, k, v)
        return self


class TransformerMixin:
    def fit_transform(self, X, y=None, **fit_params):
        if y is None:
            return self.fit(X, **fit_params).transform(X)
        return self.fit(X, y, **fit_params).transform(X)


class RegressorMixin:
    _estimator_type = "regressor"

    def score(self, X, y, sample_weight=None):
        y, p = np.asarray(y, dtype=float), np.asarray(self.predict(X), dtype=float)
        return 1 - ((y - p) ** 2).sum() / ((y - y.mean()) ** 2).sum()


class ClassifierMixin:
    _estimator_type = "classifier"

    def score(self, X, y, sample_weight=None):
        return float(np.mean(np.asarray(y) == np.asarray(self.predict(X))))


def clone(estimator, safe=True):
    params = {k: copy.deepcopy(v) for k, v in estimator.get_params(deep=False).items()}
    new = type(estimator)(**params)
    got = new.get_params(deep=False)
    for k, v in params.items():
        if got[k] is not v:
            raise RuntimeError("Cannot clone object %r, as the constructor either does not set or modifies parameter %s" % (estimator, k))
    return new


def is_classifier(e):
    return getattr(e, "_estimator_type", None) == "classifier"


def is_regressor(e):
    return getattr(e, "_estimator_type", None) == "regressor"
