import math

import torch


def zeros_(t):
    with torch.no_grad():
        return t.zero_()


def ones_(t):
    with torch.no_grad():
        return t.fill_(1)


def constant_(t, v):
    with torch.no_grad():
        return t.fill_(v)


def uniform_(t, a=0.0, b=1.0):
    with torch.no_grad():
        return t.uniform_(a, b)


def normal_(t, mean=0.0, std=1.0):
    with torch.no_grad():
        return t.normal_(mean, std)


def kaiming_uniform_(t, a=0, mode="fan_in", nonlinearity="leaky_relu"):
    bound = math.sqrt(6.0 / ((1 + a * a) * t.shape[-1])) if t.shape[-1] else 0.0
    return uniform_(t, -bound, bound)


def xavier_uniform_(t, gain=1.0):
    bound = gain * math.sqrt(6.0 / (t.shape[0] + t.shape[1]))
    return uniform_(t, -bound, bound)
