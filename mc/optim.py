"""The environment of the structure learners: scipy's optimiser, real or a model of it.

The model is any procedure that returns a vector within the bounds: it answers each call with the next vector of a script,
clipped to the bounds it was given.  At each answer it also looks at the objective it was handed.
"""
import importlib
import types

ENV = []
_real = []


def install():
    import scipy.optimize as so
    if _real:
        return
    _real.append(so.minimize)

    def minimize(fun, x0, *args, **kwds):
        if ENV:
            return ENV[-1](fun, x0, *args, **kwds)
        res = _real[0](fun, x0, *args, **kwds)
        if not res.x.flags.writeable:      # scipy >= 1.11 with every variable fixed; the supported scipy (< 1.6) never does that
            res.x = res.x.copy()
        return res

    so.minimize = minimize


def load(name):
    from .standins import install as st
    st()
    install()
    importlib.import_module("causalnex.structure")
    return importlib.import_module("causalnex.structure." + name)


def reports(H):
    """what the optimiser says of its own success: yes, no, first yes then no - one after the other"""
    H["turn"] = H.get("turn", -1) + 1
    return ([True], [False], [True, False])[H["turn"] % 3]


class Undecided(Exception):
    """The objective is not the documented score at some single-edge answer."""


class Script:
    """Answers the k-th call with the k-th answer (the last one for ever after), clipped to the bounds.

    An answer says what each edge should weigh: {meaning: weight}.  Which variable of the optimisation means what is found out by
    asking the objective itself: at a single-edge answer the acyclicity penalty is zero, so the objective there must be `score(meaning,
    weight)`, whatever the layout of the variables is.  `score` is None: answers are raw vectors instead.
    """

    def __init__(self, answers, score=None, meanings=(), watch=None, limit=400, default=0.0, joint=None, frozen=None, same=None, success=None):
        # success: what the calls report about success (always, if None)
        self.success = success
        # joint: the objective of a whole answer, and frozen: meaning -> must it stay zero?, where single edges do not tell (symmetric data)
        # same: meaning -> key; meanings with the same key have the same answer, which of them a variable has makes no difference
        self.joint, self.frozen, self.same = joint, frozen, same
        self.answers, self.score, self.meanings, self.watch, self.limit = answers, score, list(meanings), watch, limit
        self.calls = 0
        self.layout = None
        self.default = default

    def __enter__(self):
        ENV.append(self)
        return self

    def __exit__(self, *exc):
        ENV.pop()
        return False

    def decode(self, f, n, fixed):
        import numpy as np
        table = []
        for m in self.meanings:
            for sign in (1, -1):
                table.append((self.score(m, sign * 0.75), m, sign))
        out, open_ = [], []
        for k in range(n):
            x = np.zeros(n)
            x[k] = 0.75
            got = float(f(x))
            hits = [(m, s) for v, m, s in table if abs(v - got) <= 1e-9 * max(1.0, abs(v))]
            out.append(hits[0] if len(hits) == 1 else None)
            if len(hits) > 1:
                open_.append((k, hits))
        if open_ and self.joint is not None:
            self.resolve(f, n, out, open_, fixed)
        found = [x[0] for x in out if x]
        missing = [m for m in self.meanings if m not in found]
        if missing:
            raise Undecided("no variable of the optimisation stands for %r in the documented score" % (missing[:3],))
        return out

    def resolve(self, f, n, out, open_, fixed):
        """which of the meanings with the same score a variable has: by the score of whole answers, then by what is frozen"""
        import numpy as np
        good = []

        def search(i, chosen):
            if len(good) > 64:
                return
            if i == len(open_):
                full = list(out)
                for (k, _), h in zip(open_, chosen):
                    full[k] = h
                for c in (0, 1):
                    ans = {l[0]: l[1] * x for l, x in zip(full, probe(c)) if l is not None}
                    x = np.array([v if l is not None else 0.0 for l, v in zip(full, probe(c))])
                    want = self.joint(ans)
                    if abs(float(f(x)) - want) > 1e-8 * max(1.0, abs(want)):
                        return
                good.append(full)
                return
            tried = set()
            for h in open_[i][1]:
                if self.same is not None:
                    key = self.same(h[0])
                    if key in tried and h[0] != key:
                        continue
                if all(h[0] != c[0] for c in chosen) and all(l is None or l[0] != h[0] for l in out):
                    if self.same is not None:
                        tried.add(self.same(h[0]))
                    search(i + 1, chosen + [h])

        def probe(c):
            return [(-1) ** (k + c) * (0.2 + 0.13 * ((k * 5 + 3 * c) % 11) + 0.001 * k) for k in range(n)]

        search(0, [])
        if self.frozen is not None and len(good) > 1:
            good = [g for g in good if all(l is None or bool(fixed[k]) == bool(self.frozen(l[0])) for k, l in enumerate(g))] or good
        if good:
            out[:] = good[0]

    def __call__(self, fun, x0, args=(), method=None, jac=None, bounds=None, **kwds):
        import numpy as np
        n = len(x0)
        if jac is True:
            f, g = (lambda v: fun(v.copy(), *args)[0]), (lambda v: fun(v.copy(), *args)[1])
        else:
            f, g = (lambda v: fun(v.copy(), *args)), ((lambda v: jac(v.copy(), *args)) if callable(jac) else None)
        ans = self.answers[min(self.calls, len(self.answers) - 1)]
        self.calls += 1
        if self.calls > self.limit:
            raise RuntimeError("the optimiser was called %d times" % self.calls)
        if self.score is None:
            x = np.array([float(ans[k % len(ans)]) for k in range(n)])
        else:
            if self.layout is None:
                fixed = [False] * n
                if bounds is not None and not hasattr(bounds, "lb"):
                    fixed = [b[0] == 0 and b[1] == 0 for b in bounds]
                self.layout = self.decode(f, n, fixed)
            # variables without a decided meaning (self-loops) are pushed off zero: the bounds must hold them
            x = np.array([self.default * (1 + 0.13 * k) if l is None else l[1] * ans.get(l[0], 0.0) for k, l in enumerate(self.layout)])
        if bounds is not None:
            if hasattr(bounds, "lb"):
                lo, hi = np.broadcast_to(bounds.lb, n), np.broadcast_to(bounds.ub, n)
            else:
                bs = list(bounds)
                assert len(bs) == n, "bounds for %d of %d variables" % (len(bs), n)
                lo = np.array([-np.inf if b[0] is None else b[0] for b in bs])
                hi = np.array([np.inf if b[1] is None else b[1] for b in bs])
            x = np.minimum(np.maximum(x, lo), hi)
        if self.watch:
            self.watch(x.copy(), f, g, self.calls)
        value = float(f(x))
        # the point an optimiser evaluates last need not be the one it returns
        f(0.5 * x)
        # whether it reports success makes no difference to the documented use of its answer
        good = True if self.success is None else bool(self.success[min(self.calls, len(self.success)) - 1])
        return types.SimpleNamespace(x=x, success=good, status=0 if good else 2, message="model", nit=1, nfev=1, njev=1, fun=value, jac=None if g is None else g(x))


def slope_mismatch(f, g, x, rel=2e-4):
    """The gradient handed to the optimiser against central differences of the objective."""
    import numpy as np
    got = np.asarray(g(x.copy()), dtype=float).ravel()
    if got.shape != x.shape:
        return "gradient of %d entries for %d variables" % (got.size, x.size)
    h = 1e-5
    for k in range(x.size):
        up, dn = x.copy(), x.copy()
        up[k] += h
        dn[k] -= h
        est = (f(up) - f(dn)) / (2 * h)
        if abs(est - got[k]) > rel * max(1.0, abs(est), abs(got[k])):
            return "gradient entry %d is %r, the slope of the objective is %r" % (k, float(got[k]), float(est))
    return None
