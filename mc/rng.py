"""Own the randomness of the `random` module: every draw is a choice point an explorer enumerates.

`install()` replaces the module-level functions of `random` by those of a controlled generator; it must run before the code
under test does `from random import ...`.  Outside an exploration the generator behaves like an ordinary seeded one.
"""
import random as _random
from fractions import Fraction


class Uncontrolled(Exception):
    pass


class Controlled(_random.Random):
    script = None          # active exploration
    grid = None            # list of (value, weight) offered by random()
    pick = None            # policy for picks among n instead of exploring them: n -> index

    def begin(self, prefix, grid):
        self.prefix, self.grid = prefix, grid
        self.script = []   # [(arity, chosen, weight)]

    def end(self):
        s, self.script = self.script, None
        return s

    def _choose(self, arity, weight):
        k = len(self.script)
        c = self.prefix[k] if k < len(self.prefix) else 0
        if c >= arity:
            raise Uncontrolled("divergence while replaying: choice %d of %d" % (c, arity))
        self.script.append((arity, c, weight(c)))
        if len(self.script) > 4000:
            raise Uncontrolled("endless drawing")
        return c

    def random(self):
        if self.script is None:
            return super().random()
        g = self.grid
        return g[self._choose(len(g), lambda c: g[c][1])][0]

    def _randbelow(self, n):
        if self.script is None:
            return super()._randbelow_with_getrandbits(n)
        if self.pick is not None:
            return self.pick(n)
        return self._choose(n, lambda c: Fraction(1, n))

    def getrandbits(self, k):
        if self.script is None:
            return super().getrandbits(k)
        if k > 12:
            raise Uncontrolled("getrandbits(%d)" % k)
        return self._choose(1 << k, lambda c: Fraction(1, 1 << k))


INST = None


def install():
    global INST
    if INST is None:
        INST = Controlled(12345)
        for name in ("seed", "random", "uniform", "triangular", "randint", "choice", "randrange", "sample", "shuffle", "choices",
                     "normalvariate", "lognormvariate", "expovariate", "vonmisesvariate", "gammavariate", "gauss", "betavariate",
                     "paretovariate", "weibullvariate", "getstate", "setstate", "getrandbits", "randbytes"):
            if hasattr(INST, name):
                setattr(_random, name, getattr(INST, name))
        _random._inst = INST
    return INST


def explore(fn, grid, pick=None):
    """Run fn() under every sequence of choices.  Yields (result, weight, choices)."""
    inst = install()
    inst.pick = pick
    prefix = []
    while True:
        inst.begin(prefix, grid)
        try:
            res = fn()
        finally:
            script = inst.end()
        w = Fraction(1)
        for _, _, x in script:
            w *= x
        yield res, w, [c for _, c, _ in script]
        k = len(script) - 1
        while k >= 0 and script[k][1] + 1 >= script[k][0]:
            k -= 1
        if k < 0:
            return
        prefix = [c for _, c, _ in script[:k]] + [script[k][1] + 1]


def midpoints(k):
    return [((i + 0.5) / k, Fraction(1, k)) for i in range(k)]


EXTREMES = [(0.0, 0), (2.0 ** -53, 0), (0.5, 0), (1 - 2.0 ** -53, 0)]
EXTREMES = [(v, Fraction(0)) for v, _ in EXTREMES]
