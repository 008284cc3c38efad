from mc.core import StandInGap

import torch


class Optimizer:
    def __init__(self, params, defaults):
        params = list(params)
        if not params:
            raise ValueError("optimizer got an empty parameter list")
        self.defaults = defaults
        self.state = {}
        groups = params if isinstance(params[0], dict) else [{"params": params}]
        self.param_groups = []
        for g in groups:
            g = dict(g)
            ps = g["params"]
            g["params"] = [ps] if isinstance(ps, torch.Tensor) else list(ps)
            for p in g["params"]:
                if not isinstance(p, torch.Tensor):
                    raise TypeError("optimizer can only optimize Tensors, but one of the params is %s" % type(p).__name__)
            for k, v in defaults.items():
                g.setdefault(k, v)
            self.param_groups.append(g)

    def zero_grad(self, set_to_none=False):
        for g in self.param_groups:
            for p in g["params"]:
                p.grad = None if set_to_none or p.grad is None else torch.zeros_like(p.grad)

    def step(self, closure=None):
        raise NotImplementedError


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise StandInGap("torch.optim.%s" % name)
