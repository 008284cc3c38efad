"""Own the iteration order of the sets the engine keeps of its own node/graph objects.

Those objects hash by address, so the order in which sets of them are iterated is arbitrary.  Here every
such object gets a small chosen hash on first use; `orders` lets an explorer enumerate the choices.
Equality stays identity, so this only selects one of the orders the real run could have had.
"""
import contextlib

CLASSES = [("causalnex.ebaybbn.graph", "Node"), ("causalnex.ebaybbn.graph", "UndirectedNode"),
           ("causalnex.ebaybbn.graph", "UndirectedGraph"), ("causalnex.ebaybbn.bbn", "SepSet"),
           ("causalnex.ebaybbn.bbn", "Clique"), ("causalnex.ebaybbn.bbn", "BBN")]


class Order:
    def __init__(self, perm=(0,), stride=1):
        self.perm, self.stride = tuple(perm), stride
        self.reset()

    def reset(self):
        self.seen = 0

    def next(self):
        k = self.seen
        self.seen += 1
        p = self.perm
        return (k // len(p)) * len(p) + p[k % len(p)]


@contextlib.contextmanager
def controlled(order):
    """All engine objects hash by `order` (an Order) for the duration."""
    import importlib
    patched = []

    def h(self):
        d = self.__dict__
        v = d.get("_mc_h")
        if v is None or v[0] is not order:
            v = (order, order.next())
            d["_mc_h"] = v
        return v[1]

    for modname, clsname in CLASSES:
        try:
            cls = getattr(importlib.import_module(modname), clsname)
        except (ImportError, AttributeError):
            continue
        if "__hash__" in cls.__dict__ or "__eq__" in cls.__dict__ or "__slots__" in cls.__dict__:
            continue  # the class defines its own: leave it
        try:
            cls.__hash__ = h
        except (AttributeError, TypeError):
            continue
        patched.append(cls)
    try:
        yield len(patched)
    finally:
        for cls in patched:
            del cls.__hash__
