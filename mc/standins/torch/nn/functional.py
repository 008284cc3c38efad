from mc.core import StandInGap

import torch


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise StandInGap("torch.nn.functional.%s" % name)


def _reduce(x, reduction):
    if reduction == "mean":
        return x.mean()
    if reduction == "sum":
        return x.sum()
    if reduction == "none":
        return x
    raise ValueError("%s is not a valid value for reduction" % reduction)


def _same(a, b):
    if a.shape != b.shape:
        raise ValueError("Target size (%s) must be the same as input size (%s)" % (tuple(b.shape), tuple(a.shape)))


sigmoid, tanh, relu, softmax, log_softmax, softplus = (torch.sigmoid, torch.tanh, torch.relu, torch.softmax, torch.log_softmax, torch._softplus)


def logsigmoid(x):
    return -torch._softplus(-x)


def binary_cross_entropy_with_logits(input, target, weight=None, size_average=None, reduce=None, reduction="mean", pos_weight=None):
    if weight is not None or pos_weight is not None:
        raise StandInGap("weighted binary_cross_entropy_with_logits")
    _same(input, target)
    return _reduce(torch._softplus(input) - input * target, reduction)


def binary_cross_entropy(input, target, weight=None, size_average=None, reduce=None, reduction="mean"):
    _same(input, target)
    d = input._d
    if ((d < 0) | (d > 1)).any():
        raise RuntimeError("all elements of input should be between 0 and 1")
    lo = torch.clamp(torch.log(input), min=-100.0)
    hi = torch.clamp(torch.log(1 - input), min=-100.0)
    return _reduce(-(target * lo + (1 - target) * hi), reduction)


def nll_loss(input, target, weight=None, size_average=None, ignore_index=-100, reduce=None, reduction="mean"):
    if target.dtype.kind != "i":
        raise RuntimeError("expected scalar type Long")
    return _reduce(-input.gather(1, target.unsqueeze(1)).squeeze(1), reduction)


def cross_entropy(input, target, weight=None, size_average=None, ignore_index=-100, reduce=None, reduction="mean"):
    if weight is not None:
        raise StandInGap("weighted cross_entropy")
    if input.ndim != 2:
        raise StandInGap("cross_entropy of %d dimensions" % input.ndim)
    return nll_loss(torch.log_softmax(input, dim=1), target, reduction=reduction)


def poisson_nll_loss(input, target, log_input=True, full=False, size_average=None, eps=1e-8, reduce=None, reduction="mean"):
    if log_input:
        r = torch.exp(input) - target * input
    else:
        r = input - target * torch.log(input + eps)
    if full:
        raise StandInGap("poisson_nll_loss full")
    return _reduce(r, reduction)


def mse_loss(input, target, size_average=None, reduce=None, reduction="mean"):
    return _reduce((input - target) * (input - target), reduction)


def l1_loss(input, target, size_average=None, reduce=None, reduction="mean"):
    return _reduce(torch.abs(input - target), reduction)


def linear(input, weight, bias=None):
    r = torch.matmul(input, weight.t())
    return r if bias is None else r + bias


def layer_norm(input, normalized_shape, weight=None, bias=None, eps=1e-5):
    shape = tuple(normalized_shape)
    if tuple(input.shape[-len(shape):]) != shape:
        raise RuntimeError("Given normalized_shape=%s, expected input with shape [*, %s], but got input of size %s" % (
            list(shape), list(shape), list(input.shape)))
    dims = tuple(range(input.ndim - len(shape), input.ndim))
    c = input - input.mean(dim=dims, keepdim=True)
    r = c / torch.sqrt((c * c).mean(dim=dims, keepdim=True) + eps)
    if weight is not None:
        r = r * weight
    return r if bias is None else r + bias


def one_hot(t, num_classes=-1):
    import numpy as np
    n = int(t._d.max()) + 1 if num_classes == -1 else num_classes
    return torch._raw(np.eye(n, dtype="int64")[t._d])
