"""Own the randomness of numpy.random: an environment answers every draw.

While an environment is active, the module-level functions of numpy.random ask it; otherwise they are the real ones.
"""
import numpy as np

ENV = []
_real = {}
NAMES = ("rand", "random", "random_sample", "uniform", "normal", "standard_normal", "randn", "standard_t", "gumbel", "exponential", "logistic", "permutation", "choice",
         "shuffle", "randint", "multivariate_normal", "seed", "binomial", "poisson")


def install():
    if _real:
        return
    for name in NAMES:
        _real[name] = getattr(np.random, name)

        def f(*a, _n=name, **k):
            if not ENV:
                return _real[_n](*a, **k)
            return getattr(ENV[-1], "do_" + _n)(*a, **k)

        f.__name__ = name
        setattr(np.random, name, f)


class Choices:
    """Replays a prefix of choices and takes the first option afterwards."""

    def __init__(self, prefix):
        self.prefix, self.script = prefix, []

    def pick(self, n):
        k = len(self.script)
        c = self.prefix[k] if k < len(self.prefix) else 0
        if c >= n:
            raise RuntimeError("divergence while replaying: choice %d of %d" % (c, n))
        self.script.append((n, c))
        if len(self.script) > 2000:
            raise RuntimeError("endless drawing")
        return c


class Environment:
    """Draws are patterns picked by an explorer; `patterns(k, size)` lists arrays in [0, 1) offered to the k-th array draw."""

    def __init__(self, choices, patterns):
        self.c, self.patterns, self.k = choices, patterns, 0

    def __enter__(self):
        install()
        ENV.append(self)
        return self

    def __exit__(self, *exc):
        ENV.pop()
        return False

    def unit(self, size):
        shape = () if size is None else (size,) if np.isscalar(size) else tuple(int(s) for s in size)
        ps = self.patterns(self.k, shape)
        self.k += 1
        if self.k > 100000:
            raise RuntimeError("endless drawing")
        arr = np.asarray(ps[self.c.pick(len(ps)) if len(ps) > 1 else 0], dtype=float)
        arr = np.broadcast_to(arr, shape).copy()
        return float(arr) if shape == () else arr

    def do_rand(self, *size):
        return self.unit(size if size else None)

    def do_random(self, size=None):
        return self.unit(size)

    do_random_sample = do_random

    def do_uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.unit(size)

    def centred(self, size):
        return 4 * (self.unit(size) - 0.5)

    def do_normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.centred(size)

    def do_standard_normal(self, size=None):
        return self.centred(size)

    def do_randn(self, *size):
        return self.centred(size if size else None)

    def do_standard_t(self, df, size=None):
        return self.centred(size)

    def do_gumbel(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.centred(size)

    def do_logistic(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.centred(size)

    def do_exponential(self, scale=1.0, size=None):
        return scale * 3 * self.unit(size)

    def do_permutation(self, x):
        arr = np.arange(x) if np.isscalar(x) else np.array(x)
        n = len(arr)
        left, out = list(range(n)), []
        while left:
            out.append(left.pop(self.c.pick(len(left))))
        return arr[out]

    def do_shuffle(self, x):
        x[:] = self.do_permutation(np.array(x))

    def do_choice(self, a, size=None, replace=True, p=None):
        arr = np.arange(a) if np.isscalar(a) else np.array(a)
        n = 1 if size is None else int(np.prod(size))
        out = np.array([arr[self.c.pick(len(arr))] for _ in range(n)], dtype=arr.dtype)
        return out[0] if size is None else out.reshape(size)

    def do_randint(self, low, high=None, size=None, dtype=int):
        lo, hi = (0, low) if high is None else (low, high)
        n = 1 if size is None else int(np.prod(size))
        out = np.array([lo + self.c.pick(hi - lo) for _ in range(n)], dtype=dtype)
        return out[0] if size is None else out.reshape(size)

    def do_multivariate_normal(self, mean, cov, size=None, **k):
        return np.asarray(mean) + np.linalg.cholesky(np.asarray(cov) + 1e-9 * np.eye(len(mean))).dot(self.centred((len(mean),)))

    def do_binomial(self, n, p, size=None):
        shape = np.broadcast(n, p).shape if size is None else size
        return np.floor((np.asarray(n) + 1) * self.unit(shape)).astype(int)[()]

    def do_poisson(self, lam=1.0, size=None):
        return np.floor(2 * np.asarray(lam) * self.unit(np.shape(lam) if size is None else size)).astype(int)[()]

    def do_seed(self, seed=None):
        self.seeded = seed


class Tagged(Environment):
    """Every draw is a different, recognisable sequence; `log` holds what each call gave before and after location and scale.

    The sequence of the k-th call is the fractional part of multiples of an irrational number, so no two calls agree and no value repeats.
    """

    KINDS = {"normal": "normal", "standard_normal": "normal", "randn": "normal", "standard_t": "t", "gumbel": "gumbel", "logistic": "logistic", "exponential": "exponential", "uniform": "uniform"}

    def __init__(self, start=0):
        Environment.__init__(self, Choices([]), None)
        self.calls, self.log = start, []

    def unit(self, size):
        self.calls += 1
        n = 1 if size is None else int(np.prod(size))
        step = (np.sqrt(5) - 1) / 2 * (1 + 0.017 * self.calls)
        arr = ((np.arange(1, n + 1) * step + 0.37 * self.calls) % 1) * 0.998 + 0.001
        return float(arr[0]) if size is None else arr.reshape(size)

    def note(self, kind, z, value):
        self.log.append((kind, np.array(z, dtype=float), np.array(value, dtype=float)))
        return value

    def draw(self, kind, size, loc=0.0, scale=1.0):
        u = self.unit(size)
        z = u if kind == "uniform" else -np.log(1 - u) if kind == "exponential" else 4 * (u - 0.5)
        return self.note(kind, z, loc + scale * z)

    def do_uniform(self, low=0.0, high=1.0, size=None):
        return self.draw("uniform", size, low, high - low)

    def do_rand(self, *size):
        return self.draw("uniform", size if size else None)

    def do_random(self, size=None):
        return self.draw("uniform", size)

    do_random_sample = do_random

    def do_normal(self, loc=0.0, scale=1.0, size=None):
        return self.draw("normal", size, loc, scale)

    def do_standard_normal(self, size=None):
        return self.draw("normal", size)

    def do_randn(self, *size):
        return self.draw("normal", size if size else None)

    def do_standard_t(self, df, size=None):
        return self.draw("t", size)

    def do_gumbel(self, loc=0.0, scale=1.0, size=None):
        return self.draw("gumbel", size, loc, scale)

    def do_logistic(self, loc=0.0, scale=1.0, size=None):
        return self.draw("logistic", size, loc, scale)

    def do_exponential(self, scale=1.0, size=None):
        return self.draw("exponential", size, 0.0, scale)

    def do_poisson(self, lam=1.0, size=None):
        x = Environment.do_poisson(self, lam, size)
        return self.note("poisson", np.broadcast_to(lam, np.shape(x)), x)

    def do_binomial(self, n, p, size=None):
        shape = np.broadcast(n, p).shape if size is None else size
        x = (self.unit(shape) < p).astype(int) if np.ndim(n) == 0 and n == 1 else Environment.do_binomial(self, n, p, shape)
        return self.note("binomial", np.broadcast_to(p, np.shape(x)), x)


def explore(fn, patterns, limit=None):
    """fn() under every sequence of picks; yields (result, picks)."""
    prefix, n = [], 0
    while True:
        ch = Choices(prefix)
        with Environment(ch, patterns):
            res = fn()
        yield res, [c for _, c in ch.script]
        n += 1
        if limit and n >= limit:
            return
        script = ch.script
        k = len(script) - 1
        while k >= 0 and script[k][1] + 1 >= script[k][0]:
            k -= 1
        if k < 0:
            return
        prefix = [c for _, c in script[:k]] + [script[k][1] + 1]
