import numpy as np

from mc.core import StandInGap

import torch


def _broken(g):
    raise StandInGap("torch: second derivatives")


def grad(outputs, inputs, grad_outputs=None, retain_graph=None, create_graph=False, only_inputs=True, allow_unused=False):
    outs = [outputs] if isinstance(outputs, torch.Tensor) else list(outputs)
    ins = [inputs] if isinstance(inputs, torch.Tensor) else list(inputs)
    if grad_outputs is None:
        gs = [None] * len(outs)
    else:
        gs = [grad_outputs] if isinstance(grad_outputs, torch.Tensor) else list(grad_outputs)
    pairs = []
    for o, g in zip(outs, gs):
        if not o.requires_grad:
            raise RuntimeError("element 0 of tensors does not require grad and does not have a grad_fn")
        if g is None and o.numel() != 1:
            raise RuntimeError("grad can be implicitly created only for scalar outputs")
        pairs.append((o, np.ones(o.shape) if g is None else g._d))
    if any(i._node is not None for i in ins):
        raise StandInGap("torch.autograd.grad with respect to inner tensors")
    got = {id(l): v for l, v in torch._propagate(pairs)}
    res = []
    for i in ins:
        if not i.requires_grad:
            raise RuntimeError("One of the differentiated Tensors does not require grad")
        v = got.get(id(i))
        if v is None:
            if not allow_unused:
                raise RuntimeError("One of the differentiated Tensors appears to not have been used in the graph.")
            res.append(None)
            continue
        t = torch._raw(np.array(v))
        if create_graph:
            t._node = torch._Node([i], _broken)
        res.append(t)
    return tuple(res)


def backward(tensors, grad_tensors=None):
    for t in [tensors] if isinstance(tensors, torch.Tensor) else tensors:
        t.backward()


class Variable:
    def __new__(cls, t, requires_grad=False):
        return t.requires_grad_(requires_grad)
