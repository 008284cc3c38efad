"""Generated data follow the structural equations and the schema."""
import copy
import itertools

from ..graphs import acyclic, all_digraphs, graph_of

PROPERTY = "C24"
MEANING = ("state = (graph, types of the variables, options, answers of the random source); transition = one generated data set; trace = every column checked for its domain, "
           "and every child against the structural equation of its parents where the noise is zero")
BOUNDS = {
    "quick": "all 3 + 25 DAGs on 2 and 3 labelled nodes x every assignment of {binary, continuous, count, categorical:3} x {weighted, unweighted} x {intercept or not} x 2 seeds (zero noise), "
             "7 random environments (constant low / middle / high, alternating, ramps) x noise, every distribution name; the wrappers; the nonlinear generator on the same graphs; "
             "r -> c with every type of root and child, every noise distribution and alias, 4 noise levels, 4 weights (also zero and none) under a recognisable random source; counts with means up to 300; seven shapes of 7, 9 and 13 nodes (also with 12 categories), the noise of every node; "
             "a rank-one kernel with up to 401 rows (batches); every kind of invalid argument",
    "thorough": "as quick with all 543 DAGs on 4 nodes x {binary, continuous, categorical:2} and 6 seeds on 3 nodes",
}
ASSUMPTIONS = ["pandas / scikit-learn stand-ins carry frames and kernels"]
CHUNK = 1
UNIT_CPU = 900
TYPES = ["binary", "continuous", "count", "categorical:3"]
NAMES = {"abc": ["a", "b", "c", "d"], "int": [2, 0, 1, 3], "rev": ["z", "y", "x", "w"]}
N = 24


def dags(n):
    return [e for e in all_digraphs(n) if acyclic(range(n), e)]


def units(tier):
    t = tier == "thorough"
    us = [{"k": "linear", "n": 1, "mod": 1, "rem": 0, "seeds": 2}, {"k": "linear", "n": 2, "mod": 1, "rem": 0, "seeds": 2}]
    us += [{"k": "linear", "n": 3, "mod": 24, "rem": r, "seeds": 6 if t else 2} for r in range(24)]
    us += [{"k": "env", "mod": 8, "rem": r} for r in range(8)]
    us += [{"k": "nonlinear", "mod": 8, "rem": r} for r in range(8)]
    us += [{"k": "wrappers", "mod": 4, "rem": r} for r in range(4)]
    us += [{"k": "noise", "rem": r, "mod": 4} for r in range(4)] + [{"k": "kernel"}]
    us += [{"k": "large", "at": i} for i in range(4)]
    us += [{"k": "bad"}]
    if t:
        us += [{"k": "four", "mod": 32, "rem": r} for r in range(32)]
    return us


def build(n, edges, names, weighted, order=None):
    from causalnex.structure import StructureModel
    g = StructureModel()
    for i in (order or range(n)):
        g.add_node(names[i])
    for k, (i, j) in enumerate(edges):
        if weighted:
            g.add_edge(names[i], names[j], weight=(1.37, -0.81, 2.13, -1.19)[k % 4])
        else:
            g.add_edge(names[i], names[j])
    return g


def feature_names(name, t):
    return ["%s_%d" % (name, i) for i in range(int(t.split(":")[1]))] if t.startswith("cat") else [name]


def run_unit(u, ctx):
    from ..graphs import load
    from ..nprng import install
    install()      # before the package is imported: it may keep numpy's functions
    load()
    import numpy as np
    from causalnex.structure import data_generators as dg
    np.seterr(all="ignore")
    k = u["k"]
    if k in ("linear", "four"):
        n = u.get("n", 4)
        for i, (e, ts) in enumerate(itertools.product(dags(n), itertools.product(TYPES if n < 4 else ["binary", "continuous", "categorical:2"], repeat=n))):
            if i % u["mod"] != u["rem"]:
                continue
            names = NAMES[("abc", "int", "rev")[i % 3]]
            for weighted in (True, False):
                for intercept in ((True, False) if n < 4 else (bool(i % 2),)):
                    for seed in range(u.get("seeds", 1)):
                        linear(ctx, np, dg.sem_generator, n, e, ts, names, weighted, intercept, seed)
        ctx.sample(u)
    elif k == "env":
        envs(ctx, np, dg, u)
    elif k == "nonlinear":
        nonlinear(ctx, np, dg, u)
    elif k == "noise":
        noise(ctx, np, dg, u)
    elif k == "kernel":
        linear_kernel(ctx, np, dg)
    elif k == "large":
        large(ctx, np, dg, u["at"])
    elif k == "wrappers":
        wrappers(ctx, np, dg, u)
    else:
        bad(ctx, np, dg)


def table(ctx, np, df, names, ts, n_rows, desc, case):
    """Columns and domains; returns the columns by feature name."""
    want = [f for nm, t in zip(names, ts) for f in feature_names(nm, t)]
    cols = list(df.columns)
    if sorted(map(repr, cols)) != sorted(map(repr, want)):
        ctx.fail("%s: columns %r, should be %r" % (desc, cols, want), case)
    vals = np.asarray(df.values, dtype=float)
    if vals.shape != (n_rows, len(want)):
        ctx.fail("%s: shape %r, should be %r" % (desc, vals.shape, (n_rows, len(want))), case)
    if list(df.index) != list(range(n_rows)):
        ctx.fail("%s: index %r" % (desc, list(df.index)[:5]), case)
    col = {c: vals[:, i] for i, c in enumerate(cols)}
    for nm, t in zip(names, ts):
        fs = [col[f] for f in feature_names(nm, t)]
        if not all(np.isfinite(f).all() for f in fs):
            ctx.fail("%s: %r holds values that are not finite" % (desc, nm), case)
        if t == "binary" and not np.isin(fs[0], (0, 1)).all():
            ctx.fail("%s: binary %r holds %r" % (desc, nm, sorted(set(fs[0]))[:5]), case)
        if t == "count" and not ((fs[0] >= 0) & (fs[0] == np.floor(fs[0]))).all():
            ctx.fail("%s: count %r holds %r" % (desc, nm, sorted(set(fs[0]))[:5]), case)
        if t.startswith("cat"):
            m = np.array(fs)
            if not np.isin(m, (0, 1)).all() or not (m.sum(axis=0) == 1).all():
                ctx.fail("%s: categorical %r is not one-hot: %r" % (desc, nm, m.tolist()), case)
    ctx.outcome((tuple(ts), tuple(sorted(set(map(len, map(set, vals.T)))))))
    return col


def linear(ctx, np, gen, n, e, ts, names, weighted, intercept, seed):
    g = build(n, e, names, weighted, order=list(range(n))[::-1] if seed % 2 else None)
    schema = {names[i]: t for i, t in enumerate(ts)}
    before, gb = dict(schema), graph_of(g)
    case = {"edges": [(repr(a), repr(b), repr(d.get("weight"))) for a, b, d in g.edges(data=True)], "types": {repr(a): b for a, b in schema.items()}, "intercept": intercept, "seed": seed}
    ctx.state()
    ctx.trans()
    ctx.trace()
    call = lambda: gen(g, schema=schema, noise_std=0.0, n_samples=N, intercept=intercept, seed=seed)
    np.random.seed(99)
    ok, df = ctx.guard(call, "sem_generator", case)
    if not ok:
        return
    col = table(ctx, np, df, names[:n], ts, N, "sem_generator", case)
    if schema != before or graph_of(g) != gb:
        ctx.fail("sem_generator changed its arguments", case)
    np.random.seed(7)
    np.random.rand(3)
    ok, df2 = ctx.guard(call, "sem_generator again", case)
    if ok and (list(df2.columns) != list(df.columns) or not np.array_equal(np.asarray(df.values, dtype=float), np.asarray(df2.values, dtype=float))):
        ctx.fail("sem_generator with the same seed gives other data", case)
    for j in range(n):
        ps = [i for i, b in e if b == j]
        if not ps:
            continue
        equation(ctx, np, col, names, ts, g, ps, j, weighted, intercept, case)


def equation(ctx, np, col, names, ts, g, ps, j, weighted, intercept, case):
    t = ts[j]
    what = "sem_generator without noise: %r of type %s with parents %r" % (names[j], t, [names[i] for i in ps])
    X = np.array([col[f] for i in ps for f in feature_names(names[i], ts[i])]).T
    if intercept:
        X = np.hstack([X, np.ones((N, 1))])
    same = {}
    for r in range(N):
        same.setdefault(tuple(np.round(X[r], 12)), []).append(r)
    ys = np.array([col[f] for f in feature_names(names[j], t)])
    if t != "count":
        # a function of the parents
        for rows in same.values():
            if np.abs(ys[:, rows] - ys[:, rows[:1]]).max() > 1e-9:
                ctx.fail("%s: equal parents give different values" % what, case)
    if t == "continuous":
        coef, _, _, _ = np.linalg.lstsq(X, ys[0], rcond=None)
        if np.abs(X.dot(coef) - ys[0]).max() > 1e-7 * (1 + np.abs(ys[0]).max()):
            ctx.fail("%s: not a linear function of the parents" % what, case)
    if not weighted or (intercept and t != "continuous"):
        return
    ws = [g.edges[names[i], names[j]]["weight"] for i in ps]
    if t in ("continuous", "binary"):
        # one category of each categorical parent carries the weight
        choices = [range(int(ts[i].split(":")[1])) if ts[i].startswith("cat") else [None] for i in ps]
        for pick in itertools.product(*choices):
            lat = sum(w * (col[names[i]] if c is None else col["%s_%d" % (names[i], c)]) for w, i, c in zip(ws, ps, pick))
            if agrees(np, t, ys[0], lat, intercept):
                return
        ctx.fail("%s: not what the weights %r give" % (what, ws), case)
    elif t.startswith("cat") and len(ps) == 1:
        i, w = ps[0], ws[0]
        fs = feature_names(names[i], ts[i])
        k = len(ys)
        for f in fs:
            for c in range(k):
                lat = np.zeros((k, N))
                lat[c] = w * col[f]
                if np.array_equal(ys, (np.arange(k)[:, None] == lat.argmax(axis=0)[None, :]).astype(float)):
                    return
        ctx.fail("%s: not what the weight %r gives" % (what, w), case)


def agrees(np, t, y, lat, intercept):
    if t == "continuous":
        d = y - lat
        return np.abs(d - d.mean()).max() < 1e-9 * (1 + np.abs(lat).max()) if intercept else np.abs(d).max() < 1e-9 * (1 + np.abs(lat).max())
    share = (lat > 0).mean()
    if 0.05 <= share <= 0.95:
        return np.array_equal(y, (lat > 0).astype(float))
    lo, hi = lat[y == 0], lat[y == 1]        # rebalanced at a quantile: still cut at some height
    return not len(lo) or not len(hi) or lo.max() < hi.min()


def patterns_of(np):
    ramp = lambda shape: np.arange(int(np.prod(shape))).reshape(shape) / max(1, int(np.prod(shape)))
    alt = lambda shape: (np.arange(int(np.prod(shape))).reshape(shape) % 2) * 0.98 + 0.01
    return [lambda s: np.zeros(s), lambda s: np.full(s, 0.5), lambda s: np.full(s, 1 - 2.0 ** -53), ramp, lambda s: 0.999 - ramp(s), alt, lambda s: (ramp(s) * 7.3) % 1]


def envs(ctx, np, dg, u):
    """Domains hold whatever the random source returns."""
    from ..nprng import Choices, Environment
    pats = patterns_of(np)
    todo = list(itertools.product([e for e in dags(3) if len(e) in (0, 2, 3)][::2], itertools.product(TYPES, repeat=3)))
    dists = {"continuous": ["gaussian", "normal", "student-t", "exponential", "gumbel"], "binary": ["logit", "probit", "normal", "gumbel"], "categorical": ["logit", "gumbel", "probit", "normal"],
             "weight": ["uniform", "gaussian", "normal"], "intercept": ["uniform", "gaussian", "normal"], "count": [0.0, 0.05, 0.5, 1.0, 0, 1]}
    for i, (e, ts) in enumerate(todo):
        if i % u["mod"] != u["rem"]:
            continue
        for a in range(len(pats)):
            b = (a * 3 + i) % len(pats)
            d = {key: v[(i + a) % len(v)] for key, v in dists.items()}
            given = dict(d)
            g = build(3, e, NAMES["abc"], bool(a % 2))
            schema = dict(zip(NAMES["abc"], ts))
            case = {"edges": list(g.edges), "types": schema, "distributions": given, "environment": [a, b]}
            ctx.state()
            ctx.trans()
            ctx.trace()
            with Environment(Choices([]), lambda k, shape: [pats[a if k % 2 else b](shape)]):
                ok, df = ctx.guard(lambda: dg.sem_generator(g, schema=schema, noise_std=0.7, n_samples=9, distributions=d, intercept=bool(i % 2), seed=None), "sem_generator", case)
            if not ok:
                return
            col = table(ctx, np, df, NAMES["abc"][:3], ts, 9, "sem_generator", case)
            if d != given:
                ctx.fail("sem_generator changed the distributions to %r" % d, case)
            if d["count"] == 1:
                for nm, t in zip(NAMES["abc"], ts):
                    if t == "count" and col[nm].any():
                        ctx.fail("count %r is not all zero though fully zero-inflated" % nm, case)
    ctx.sample(u)


NOISE = {"continuous": {"gaussian": "normal", "normal": "normal", "student-t": "t", "exponential": "exponential", "gumbel": "gumbel", None: "normal"},
         "binary": {"probit": "normal", "normal": "normal", "logit": "logistic", None: "logistic"},
         "categorical": {"probit": "normal", "normal": "normal", "logit": "logistic gumbel", "gumbel": "gumbel", None: "logistic gumbel"}}
ROWS = 40


def noise(ctx, np, dg, u):
    """r -> c with a recognisable random source: the noise has the distribution that was asked for, scaled as documented (roots: by one)."""
    from causalnex.structure import StructureModel
    from scipy.stats import poisson
    from ..nprng import Tagged
    idx = 0
    for kind in ("continuous", "binary", "categorical"):
        for dist, want in NOISE[kind].items():
            for std in (1.0, 0.35, 2.5, 0.0):
                for rtype in ("continuous", "binary", "categorical:3"):
                    for w in (1.7, -0.6, 0, None):
                        for start, intercept in itertools.product((0, 5), (False, True)):
                            idx += 1
                            if idx % u["mod"] != u["rem"] or intercept and (w is None or rtype != "continuous" and kind != "binary"):
                                continue
                            t = "categorical:3" if kind == "categorical" else kind
                            g = StructureModel()
                            g.add_node("c")
                            g.add_edge("r", "c")
                            if w is not None:
                                g["r"]["c"]["weight"] = w
                            dists = {} if dist is None else {kind: dist}
                            given = dict(dists)
                            case = {"types": {"r": rtype, "c": t}, "distributions": given, "noise_std": std, "weight": w, "intercept": intercept, "draws from": start}
                            ctx.state()
                            ctx.trans()
                            ctx.trace()
                            with Tagged(start) as env:
                                ok, df = ctx.guard(lambda: dg.sem_generator(g, schema={"r": rtype, "c": t}, noise_std=std, n_samples=ROWS, distributions=dists or None, intercept=intercept, seed=None), "sem_generator", case)
                            if not ok:
                                return
                            if dists != given:
                                ctx.fail("sem_generator changed the distributions to %r" % (dists,), case)
                            col = table(ctx, np, df, ["c", "r"], [t, rtype], ROWS, "sem_generator", case)
                            rk = rtype.split(":")[0]
                            size = {"categorical": 3}.get(rk, 1) + {"categorical": 3}.get(kind, 1)
                            root = constants(np, env, {"categorical": 3}.get(rk, 1), size, intercept)
                            if not shocks(np, env, rk, NOISE[rk][dist if rk == kind else None], root, [col[f] for f in feature_names("r", rtype)], 1.0):
                                ctx.fail("the root of type %s has not the noise asked for, with standard deviation one" % rtype, case)
                            X = np.array([col[f] for f in feature_names("r", rtype)]).T
                            k = 3 if kind == "categorical" else 1
                            mean = (m + c for m in means(np, X, env, w, k) for c in constants(np, env, k, size, intercept))
                            if not shocks(np, env, kind, want, mean, [col[f] for f in feature_names("c", t)], std):
                                ctx.fail("%r is not its parents' effect plus noise %r of standard deviation %r" % (t, want, std), case)
    # counts are Poisson quantiles of a uniform draw, up to large means
    for w in (3.0, -2.0, 60.0, 300.0):
        for z in (0.0, 0.05, 0.4, 1.0, None):
            for root in ("binary", "continuous"):
                idx += 1
                if idx % u["mod"] != u["rem"]:
                    continue
                g = StructureModel()
                g.add_edge("r", "c", weight=w)
                g.add_node("q")
                case = {"types": {"r": root, "c": "count", "q": "count"}, "zero inflation": z, "weight": w}
                ctx.state()
                ctx.trans()
                ctx.trace()
                with Tagged(idx % 7) as env:
                    ok, df = ctx.guard(lambda: dg.sem_generator(g, schema={"r": root, "c": "count", "q": "count"}, n_samples=ROWS, distributions=None if z is None else {"count": z}, intercept=False, seed=None), "sem_generator", case, cpu=60)
                if not ok:
                    return
                col = table(ctx, np, df, ["c", "q", "r"], ["count", "count", root], ROWS, "sem_generator", case)
                us = [v for k, _, v in env.log if k == "uniform" and v.shape == (ROWS,)]
                drawn = [(lam, v) for k, lam, v in env.log if k == "poisson" and v.shape == (ROWS,)]
                coins = [v for k, pr, v in env.log if k == "binomial" and v.shape == (ROWS,) and np.all(pr == (0.05 if z is None else z))]
                if len(us) + len(drawn) + len(coins) < 3 or not us + coins:
                    ctx.gaps["counts do not use uniform draws"] = 1
                    continue
                pct = 0.05 if z is None else z
                masks = [(id(v), v < pct) for v in us] + [(id(v), v == 1) for v in coins]

                def fits(y, lam):
                    lam = np.where(lam < 0, np.exp(lam), lam)
                    raw = [(id(q), poisson.ppf(q, lam)) for q in us] + [(id(v), v) for l, v in drawn if np.allclose(l, lam, rtol=1e-9, atol=1e-12)]
                    return any(np.array_equal(y, np.where(m, 0, np.maximum(np.minimum(v, cap), 0))) for i, v in raw for cap in (np.inf, 5000) for j, m in masks if i != j)

                if not fits(col["c"], w * col["r"]):
                    ctx.fail("the counts are not the quantiles of a zero-inflated Poisson distribution with the mean of the parents", case)
                if not any(fits(col["q"], lam) for lam in us):
                    ctx.fail("the counts of the root are not quantiles of a zero-inflated Poisson distribution with means in [0, 1)", case)


def constants(np, env, k, size, intercept):
    """every intercept the columns of one variable may have: a stretch of the draws for all columns"""
    if not intercept:
        return [np.zeros((ROWS, k))]
    return [np.tile(v.ravel()[i:i + k], (ROWS, 1)) for _, _, v in env.log if v.size == size for i in range(size - k + 1)]


def means(np, X, env, w, k):
    """every latent mean the edge may give: (rows, k) each"""
    m = X.shape[1]
    if w is not None and m * k == 1:
        return [w * X]
    if w is not None:
        res = []
        for i in range(m):
            for j in range(k):
                W = np.zeros((m, k))
                W[i, j] = w
                res.append(X.dot(W))
        return res
    ws = [v.reshape(m, k) for kind, _, v in env.log if v.size == m * k]
    return [X.dot(v) for v in ws]


def shocks(np, env, kind, want, mean, ys, std):
    """is y = mean + std * z for one of the draws z of the wanted distribution?"""
    zs = [z for k, z, _ in env.log if k in want.split()] if std else [np.zeros(1)]
    y = np.array(ys).T
    for m in mean:
        for z in zs:
            if std and z.size != m.size:
                continue
            lat = m + std * (z.reshape(m.shape) if std else 0)
            if kind == "continuous" and np.abs(y - lat).max() < 1e-9:
                return True
            if kind == "binary":
                share = (lat > 0).mean()
                cut = 0 if 0.05 <= share <= 0.95 else np.quantile(lat, 0.95) if share > 0.95 else None
                if cut is None:
                    if not (y == 1).any() or not (y == 0).any() or lat[y == 0].max() < lat[y == 1].min():
                        return True
                elif np.array_equal(y, (lat > cut).astype(float)):
                    return True
            if kind == "categorical" and np.array_equal(y.argmax(axis=1), lat.argmax(axis=1)):
                return True
    return False


def linear_kernel(ctx, np, dg):
    from ..nprng import Tagged

    class Ray(Tagged):
        """one standard deviation along the principal axis of the covariance (which has rank one, up to regularisation)"""

        def __init__(self, start, sign):
            Tagged.__init__(self, start)
            self.sign = sign

        def do_multivariate_normal(self, mean, cov, size=None, **k):
            self.sign = -self.sign
            return np.asarray(mean) + self.sign * np.sqrt(np.maximum(np.diag(cov), 0))

    """A Gaussian process whose kernel is phi(x) phi(y) is a multiple of phi(x), also across batches: every row has the value of its own parents."""
    for ts in itertools.product(("continuous", "binary"), repeat=2):
        for n_rows in (20, 100, 101, 130, 199, 200, 201, 250, 401):
            for parents in (1, 2):
                for seed in range(3):
                    e = [(0, 2), (1, 2)][:parents]
                    g = build(3, e, NAMES["abc"], False)
                    schema = dict(zip("ab", ts))
                    case = {"types": schema, "rows": n_rows, "parents": parents, "seed": seed}
                    if parents == 1 and ts[1] == "binary":
                        continue
                    ctx.state()
                    ctx.trans()
                    ctx.trace()
                    with Ray(seed, (1, -1)[seed % 2]):
                        ok, df = ctx.guard(lambda: dg.nonlinear_sem_generator(g, kernel=of_phi, schema=schema, noise_std=0.0, n_samples=n_rows, seed=None), "nonlinear_sem_generator", case, cpu=60)
                    if not ok:
                        return
                    col = table(ctx, np, df, ["a", "b", "c"], list(ts) + ["continuous"], n_rows, "nonlinear_sem_generator", case)
                    X, y = np.array([col[x] for x in "ab"[:parents]]).T, col["c"]
                    f = phi(X)
                    off = np.abs(f * (f.dot(y) / f.dot(f)) - y).max()
                    if off > 0.05:
                        ctx.fail("nonlinear_sem_generator with the kernel phi(x) phi(y): the child is not a multiple of phi of its parents (off by %r)" % off, case)


def phi(x):
    import numpy as np
    return 3 + np.tanh(x).sum(axis=1)


def of_phi(x, y=None):
    return phi(x)[:, None] * phi(x if y is None else y)[None, :]


def nonlinear(ctx, np, dg, u):
    from sklearn.gaussian_process.kernels import RBF
    for i, (e, ts) in enumerate(itertools.product(dags(3), itertools.product(TYPES, repeat=3))):
        if i % u["mod"] != u["rem"] or i % 3 == 1:
            continue
        names = NAMES[("abc", "int", "rev")[i % 3]]
        g = build(3, e, names, False)
        schema = dict(zip(names, ts))
        n_rows = 130 if i % 24 == 0 else 20
        case = {"edges": [repr(x) for x in g.edges], "types": {repr(a): b for a, b in schema.items()}, "rows": n_rows}
        ctx.state()
        ctx.trans()
        ctx.trace()
        call = lambda: dg.nonlinear_sem_generator(g, kernel=RBF(1.3), schema=schema, noise_std=0.3, n_samples=n_rows, seed=i)
        ok, df = ctx.guard(call, "nonlinear_sem_generator", case, cpu=60)
        if not ok:
            return
        table(ctx, np, df, names[:3], ts, n_rows, "nonlinear_sem_generator", case)
        np.random.seed(3)
        ok, df2 = ctx.guard(call, "nonlinear_sem_generator", case, cpu=60)
        if ok and not np.array_equal(np.asarray(df.values, dtype=float), np.asarray(df2.values, dtype=float)):
            ctx.fail("nonlinear_sem_generator with the same seed gives other data", case)
    ctx.sample(u)


SHAPES = {
    "chain": lambda n: [(i, i + 1) for i in range(n - 1)],
    "star": lambda n: [(0, i) for i in range(1, n)],
    "fan-in": lambda n: [(i, n - 1) for i in range(n - 1)],
    "complete": lambda n: [(i, j) for i in range(n) for j in range(i + 1, n)],
    "pairs": lambda n: [(i, i + 1) for i in range(0, n - 1, 2)],
    "skip": lambda n: [(i, i + k) for i in range(n) for k in (1, 3) if i + k < n],
    "backwards": lambda n: [(j, i) for i in range(n) for j in range(i + 1, n) if (i + j) % 3 == 0],
}


def large(ctx, np, dg, at):
    """graphs of up to 13 nodes: equations, scale of the noise at roots and elsewhere, and many categories"""
    from sklearn.gaussian_process.kernels import RBF
    from ..nprng import Tagged
    for k, (shape, edges) in enumerate(SHAPES.items()):
        for n in (7, 9, 13):
            e = edges(n)
            names = [["v%d" % i for i in range(n)], list(range(n))[::-1], ["n%02d" % (n - i) for i in range(n)]][(k + n) % 3]
            if (k + n) % 4 != at:
                continue
            for ts in (["continuous"] * n, [("binary", "continuous")[i % 2] for i in range(n)], [("continuous", "count", "binary")[i % 3] for i in range(n)], [("categorical:12", "continuous")[i == n - 1] for i in range(n)]):
                if ts[0].startswith("cat") and shape not in ("chain", "pairs"):
                    continue
                if "count" in ts and shape not in ("pairs", "star", "fan-in"):
                    continue          # (means grow beyond the counts)
                for intercept in (False, True):
                    linear(ctx, np, dg.sem_generator, n, e, ts, names, True, intercept, k)
            # the noise of every node
            for std in (0.35, 4.0):
                g = build(n, e, names, True)
                case = {"shape": shape, "nodes": n, "noise_std": std}
                ctx.state()
                ctx.trans()
                ctx.trace()
                with Tagged(k) as env:
                    ok, df = ctx.guard(lambda: dg.sem_generator(g, schema={x: "continuous" for x in names}, noise_std=std, n_samples=ROWS, distributions={"continuous": "gumbel"}, intercept=False, seed=None), "sem_generator", case)
                if not ok:
                    return
                col = table(ctx, np, df, names, ["continuous"] * n, ROWS, "sem_generator", case)
                draws = [z.ravel() for kind, z, _ in env.log if kind == "gumbel" and z.size == ROWS]
                if not draws:
                    ctx.gaps["the noise does not come from numpy.random's functions"] = 1
                    continue
                used = []
                for j in range(n):
                    ps = [i for i, b in e if b == j]
                    rest = col[names[j]] - sum(g.edges[names[i], names[j]]["weight"] * col[names[i]] for i in ps)
                    size = max([1.0] + [np.abs(col[names[i]]).max() for i in ps])
                    hit = [i for i, z in enumerate(draws) if np.abs(rest - (std if ps else 1.0) * z).max() < 1e-9 * size]
                    if not hit:
                        ctx.fail("%r with %d parents is not its parents' effect plus noise of standard deviation %r" % (names[j], len(ps), std if ps else 1.0), case)
                    used += hit[:1]
                if len(set(used)) != len(used):
                    ctx.fail("two nodes have the same noise", case)
            # nonlinear, without noise: equal parents give equal values
            if n < 13 and shape != "complete":
                ts = ["binary"] * n if k % 2 else [("binary", "continuous")[any(b == j for _, b in e) and not any(a == j for a, _ in e)] for j in range(n)]
                g = build(n, e, names, False)
                case = {"shape": shape, "nodes": n, "types": ts}
                ctx.state()
                ctx.trans()
                ctx.trace()
                ok, df = ctx.guard(lambda: dg.nonlinear_sem_generator(g, kernel=RBF(1.3), schema=dict(zip(names, ts)), noise_std=0.0, n_samples=60, seed=k), "nonlinear_sem_generator", case, cpu=60)
                if not ok:
                    return
                col = table(ctx, np, df, names, ts, 60, "nonlinear_sem_generator", case)
                for j in range(n):
                    ps = [i for i, b in e if b == j]
                    if not ps or ts[j] != "continuous":
                        continue
                    same = {}
                    for r in range(60):
                        same.setdefault(tuple(col[names[i]][r] for i in ps), []).append(col[names[j]][r])
                    if max(max(v) - min(v) for v in same.values()) > 1e-3:
                        ctx.fail("without noise, equal parents of %r give different values" % (names[j],), case)


def wrappers(ctx, np, dg, u):
    """The typed wrappers are the generators with one type for all."""
    from sklearn.gaussian_process.kernels import RBF
    for i, e in enumerate(dags(3)):
        if i % u["mod"] != u["rem"]:
            continue
        for nm in NAMES:
            names = NAMES[nm]
            for kernel in (None, RBF(0.8)):
                for intercept in (True, False):
                    g = build(3, e, names, kernel is None, order=[2, 0, 1] if intercept else None)
                    for kind, dist, frame, arr in (("continuous", "gumbel", dg.generate_continuous_dataframe, dg.generate_continuous_data), ("continuous", "student-t", dg.generate_continuous_dataframe, dg.generate_continuous_data),
                                                   ("binary", "probit", dg.generate_binary_dataframe, dg.generate_binary_data), ("categorical", "gumbel", dg.generate_categorical_dataframe, None),
                                                   ("count", 0.2, dg.generate_count_dataframe, None)):
                        case = {"edges": [repr(x) for x in g.edges], "kind": kind, "kernel": repr(kernel), "intercept": intercept}
                        kw = {"intercept": intercept, "seed": i, "kernel": kernel}
                        gk = {"distributions": {kind: dist}, "seed": i, "n_samples": 15, "noise_std": 0.4}
                        t = kind
                        if kind == "count":
                            kw["zero_inflation_factor"] = dist
                            gk["noise_std"] = 1
                        else:
                            kw["distribution"] = dist
                            kw["noise_scale"] = 0.4
                        if kind == "categorical":
                            kw["n_categories"] = 4
                            t = "categorical:4"
                        ctx.state()
                        ctx.trans()
                        ctx.trace()
                        ok, df = ctx.guard(lambda: frame(g, 15, **kw), "generate_%s_dataframe" % kind, case, cpu=60)
                        if not ok:
                            return
                        col = table(ctx, np, df, names[:3], [t] * 3, 15, "generate_%s_dataframe" % kind, case)
                        if kernel is None:
                            ref = dg.sem_generator(g, default_type=t, intercept=intercept, **gk)
                        else:
                            ref = dg.nonlinear_sem_generator(g, kernel=kernel, default_type=t, **gk)
                        if list(ref.columns) != list(df.columns) or not np.array_equal(np.asarray(ref.values, dtype=float), np.asarray(df.values, dtype=float)):
                            ctx.fail("generate_%s_dataframe differs from the generator with the same options" % kind, case)
                        if arr:
                            ok, a = ctx.guard(lambda: arr(g, 15, **kw), "generate_%s_data" % kind, case, cpu=60)
                            if ok and not np.array_equal(np.asarray(a, dtype=float), np.array([col[x] for x in g.nodes]).T):
                                ctx.fail("generate_%s_data is not the data in the order of the nodes" % kind, case)


def bad(ctx, np, dg):
    from causalnex.structure import StructureModel
    for gen in (dg.sem_generator, dg.nonlinear_sem_generator):
        for e in all_digraphs(3, 4):
            if not acyclic(range(3), e):
                ctx.state()
                ctx.trace()
                ctx.trans()
                ctx.raises(lambda: gen(build(3, e, NAMES["abc"], True), n_samples=5), ValueError, "%s on the cyclic graph %r" % (gen.__name__, e))
        g = build(3, ((0, 1), (1, 2)), NAMES["abc"], False)
        for kind, wrong in (("continuous", "nope"), ("binary", "nope"), ("categorical", "nope")):
            ctx.trace()
            ctx.raises(lambda: gen(g, default_type=kind + (":3" if kind == "categorical" else ""), n_samples=5, distributions={kind: wrong}), ValueError, "%s with distribution %r" % (gen.__name__, wrong))
        for z in (-0.1, 1.1, "x", None, 2):
            ctx.trace()
            ctx.raises(lambda: gen(g, default_type="count", n_samples=5, distributions={"count": z}), ValueError, "%s with zero inflation %r" % (gen.__name__, z))
        for t in ("", "nope", "categorical", "categorical:0"):
            for schema, default in (({"b": t}, "continuous"), ({}, t), ({"a": "binary"}, t)):
                ctx.trace()
                ctx.raises(lambda: gen(g, schema=schema, default_type=default, n_samples=5), ValueError, "%s with schema %r and default %r" % (gen.__name__, schema, default))
    g = build(3, ((0, 1), (1, 2)), NAMES["abc"], False)
    for key in ("weight", "intercept"):
        ctx.trace()
        ctx.raises(lambda: dg.sem_generator(g, n_samples=5, distributions={key: "nope"}), ValueError, "sem_generator with %s distribution nope" % key)
