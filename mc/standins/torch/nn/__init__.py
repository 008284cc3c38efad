import collections
import math
import numbers

from mc.core import StandInGap

import torch

from . import functional, init  # noqa: F401


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise StandInGap("torch.nn.%s" % name)


class Parameter(torch.Tensor):
    def __new__(cls, data=None, requires_grad=True):
        t = object.__new__(cls)
        torch.Tensor._init(t, data._d if data is not None else torch.zeros(0)._d, req=bool(requires_grad))
        return t

    def __init__(self, data=None, requires_grad=True):
        pass


class Module:
    def __init__(self):
        object.__setattr__(self, "_parameters", collections.OrderedDict())
        object.__setattr__(self, "_buffers", collections.OrderedDict())
        object.__setattr__(self, "_modules", collections.OrderedDict())
        object.__setattr__(self, "training", True)

    def __setattr__(self, k, v):
        d = self.__dict__
        if isinstance(v, (Parameter, Module)) and "_parameters" not in d:
            raise AttributeError("cannot assign parameters before Module.__init__() call")
        if isinstance(v, Parameter):
            d.pop(k, None)
            self._modules.pop(k, None)
            self._parameters[k] = v
        elif isinstance(v, Module):
            d.pop(k, None)
            self._parameters.pop(k, None)
            self._modules[k] = v
        elif "_parameters" in d and k in self._parameters:
            if v is not None:
                raise TypeError("cannot assign '%s' as parameter '%s' (torch.nn.Parameter or None expected)" % (type(v).__name__, k))
            self._parameters[k] = None
        elif "_modules" in d and k in self._modules and v is None:
            self._modules[k] = None
        else:
            object.__setattr__(self, k, v)

    def __getattr__(self, k):
        for m in ("_parameters", "_buffers", "_modules"):
            d = self.__dict__.get(m)
            if d is not None and k in d:
                return d[k]
        raise AttributeError("'%s' object has no attribute '%s'" % (type(self).__name__, k))

    def __delattr__(self, k):
        for m in ("_parameters", "_buffers", "_modules"):
            if k in self.__dict__.get(m, ()):
                del self.__dict__[m][k]
                return
        object.__delattr__(self, k)

    def register_parameter(self, name, p):
        self._parameters[name] = p

    def register_buffer(self, name, t, persistent=True):
        self._buffers[name] = t

    def add_module(self, name, m):
        self._modules[name] = m

    def children(self):
        return [m for m in self._modules.values() if m is not None]

    def modules(self):
        yield self
        for m in self.children():
            yield from m.modules()

    def named_parameters(self, prefix="", recurse=True):
        seen = set()

        def walk(m, pre):
            for k, p in m._parameters.items():
                if p is not None and id(p) not in seen:
                    seen.add(id(p))
                    yield pre + k, p
            if recurse:
                for k, c in m._modules.items():
                    if c is not None:
                        yield from walk(c, pre + k + ".")
        yield from walk(self, prefix + "." if prefix else "")

    def parameters(self, recurse=True):
        for _, p in self.named_parameters(recurse=recurse):
            yield p

    def state_dict(self):
        return collections.OrderedDict((k, p.detach()) for k, p in self.named_parameters())

    def forward(self, *a, **k):
        raise NotImplementedError

    def __call__(self, *a, **k):
        return self.forward(*a, **k)

    def float(self):
        return self

    double = float

    def to(self, *a, **k):
        return self

    def cpu(self):
        return self

    def train(self, mode=True):
        for m in self.modules():
            object.__setattr__(m, "training", mode)
        return self

    def eval(self):
        return self.train(False)

    def zero_grad(self, set_to_none=False):
        for p in self.parameters():
            if p.grad is not None:
                p.grad = None if set_to_none else torch.zeros_like(p.grad)

    def requires_grad_(self, v=True):
        for p in self.parameters():
            p.requires_grad_(v)
        return self

    def apply(self, f):
        for m in self.children():
            m.apply(f)
        f(self)
        return self


class Linear(Module):
    def __init__(self, in_features, out_features, bias=True):
        super().__init__()
        self.in_features, self.out_features = in_features, out_features
        self.weight = Parameter(torch.zeros(out_features, in_features))
        if bias:
            self.bias = Parameter(torch.zeros(out_features))
        else:
            self.register_parameter("bias", None)
        self.reset_parameters()

    def reset_parameters(self):
        init.kaiming_uniform_(self.weight, a=math.sqrt(5))
        if self.bias is not None:
            bound = 1 / math.sqrt(self.in_features) if self.in_features else 0
            init.uniform_(self.bias, -bound, bound)

    def forward(self, x):
        return functional.linear(x, self.weight, self.bias)


class LayerNorm(Module):
    def __init__(self, normalized_shape, eps=1e-5, elementwise_affine=True):
        super().__init__()
        if isinstance(normalized_shape, numbers.Integral):
            normalized_shape = (normalized_shape,)
        self.normalized_shape, self.eps, self.elementwise_affine = tuple(normalized_shape), eps, elementwise_affine
        if elementwise_affine:
            self.weight = Parameter(torch.ones(*self.normalized_shape))
            self.bias = Parameter(torch.zeros(*self.normalized_shape))
        else:
            self.register_parameter("weight", None)
            self.register_parameter("bias", None)

    def forward(self, x):
        return functional.layer_norm(x, self.normalized_shape, self.weight, self.bias, self.eps)


class ModuleList(Module):
    def __init__(self, modules=None):
        super().__init__()
        for m in modules or []:
            self.append(m)

    def append(self, m):
        self._modules[str(len(self._modules))] = m
        return self

    def __len__(self):
        return len(self._modules)

    def __iter__(self):
        return iter(self._modules.values())

    def __getitem__(self, i):
        v = list(self._modules.values())[i]
        return ModuleList(v) if isinstance(i, slice) else v


class Sequential(ModuleList):
    def __init__(self, *modules):
        super().__init__(modules)

    def forward(self, x):
        for m in self:
            x = m(x)
        return x


class ParameterList(Module):
    def __init__(self, params=None):
        super().__init__()
        for i, p in enumerate(params or []):
            self._parameters[str(i)] = p

    def __len__(self):
        return len(self._parameters)

    def __iter__(self):
        return iter(self._parameters.values())

    def __getitem__(self, i):
        return list(self._parameters.values())[i]


class _Fn(Module):
    fn = None

    def __init__(self, *a, **k):
        super().__init__()

    def forward(self, x):
        return type(self).fn(x)


class Sigmoid(_Fn):
    fn = staticmethod(torch.sigmoid)


class Tanh(_Fn):
    fn = staticmethod(torch.tanh)


class ReLU(_Fn):
    fn = staticmethod(torch.relu)


class Identity(Module):
    def __init__(self, *a, **k):
        super().__init__()

    def forward(self, x):
        return x


class _Loss(Module):
    f = None

    def __init__(self, **k):
        super().__init__()
        self.k = k

    def forward(self, a, b):
        return type(self).f(a, b, **self.k)


class BCEWithLogitsLoss(_Loss):
    f = staticmethod(functional.binary_cross_entropy_with_logits)


class CrossEntropyLoss(_Loss):
    f = staticmethod(functional.cross_entropy)


class NLLLoss(_Loss):
    f = staticmethod(functional.nll_loss)


class PoissonNLLLoss(_Loss):
    f = staticmethod(functional.poisson_nll_loss)


class MSELoss(_Loss):
    f = staticmethod(functional.mse_loss)
