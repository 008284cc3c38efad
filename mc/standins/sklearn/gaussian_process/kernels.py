import numpy as np


class Kernel:
    def __call__(self, X, Y=None, eval_gradient=False):
        raise NotImplementedError


class RBF(Kernel):
    def __init__(self, length_scale=1.0, length_scale_bounds=(1e-5, 1e5)):
        self.length_scale = length_scale
        self.length_scale_bounds = length_scale_bounds

    def __call__(self, X, Y=None, eval_gradient=False):
        X = np.atleast_2d(X)
        Y = X if Y is None else np.atleast_2d(Y)
        d = ((X[:, None, :] - Y[None, :, :]) / self.length_scale) ** 2
        return np.exp(-0.5 * d.sum(axis=-1))


class ConstantKernel(Kernel):
    def __init__(self, constant_value=1.0):
        self.constant_value = constant_value

    def __call__(self, X, Y=None, eval_gradient=False):
        Y = X if Y is None else Y
        return np.full((len(X), len(Y)), self.constant_value)
