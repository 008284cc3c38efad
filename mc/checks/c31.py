"""What the torch based learner optimises: the score of every type of variable, the penalties and their schedule."""
import itertools
import logging
import math
import warnings

from .. import neural
from ..optim import Script, reports, slope_mismatch

PROPERTY = "C31"
MEANING = ("state = (types of the columns, regularisation, answer(s) of the optimiser, rho, alpha); transition = one call of the optimiser; trace = one fit whose every objective value and gradient at an answer, number of calls, "
           "final parameters and warning are compared with the specification")
BOUNDS = {
    "quick": "score: every assignment of the 5 types to 1, 2 and 3 columns x (lasso, ridge) in {0, 0.1}x{0, 0.3} x bias x 2 dense answers, and with 4, 5 and 11 classes and with classes of a single row in 400 for 1 and 2 columns; schedule: every script of <= 3 answers out of 6 (different distances from acyclic) x max_iter {1,2,3}, the optimiser reporting success or not; "
             "hidden layers (1),(2),(2,2),(3,1): objective of continuous data on acyclic answers, penalties and gradients for every type; network: five layouts of hidden layers on 4 assignments of types, every parameter (every third of large networks) perturbed; four to seven hidden layers, and five normalisation constants",
    "thorough": "as quick with 4 columns of 3 types, scripts of 4 answers and all pairs of types under hidden layers",
}
ASSUMPTIONS = ["torch is a stand-in (numpy, double precision, reverse-mode gradients); optimiser modelled as any procedure returning a vector within the given bounds"]
CHUNK = 2
UNIT_CPU = 900
TYPES = ("cont", "bin", "cat", "ord", "poiss")
DIST = [0.9, 0.3, 0.02, 1e-3, 1e-5, 0.0]      # size of the second arc of a two-cycle


def units(tier):
    t = tier == "thorough"
    us = [{"k": "score", "n": n, "mod": m, "rem": i} for n, m in ((1, 1), (2, 2), (3, 10)) for i in range(m)]
    us += [{"k": "schedule", "n": n, "mod": m, "rem": i} for n, m in ((1, 1), (2, 2), (3, 8)) + (((4, 16),) if t else ()) for i in range(m)]
    us += [{"k": "hidden", "layers": list(h), "all": t} for h in ((1,), (2,), (2, 2), (3, 1))]
    us += [{"k": "deep", "at": i} for i in range(4)]
    us += [{"k": "wide"}, {"k": "start"}] + [{"k": "forward", "layers": list(h), "all": t} for h in ((2,), (3,), (2, 2), (3, 2), (2, 3, 2))]
    if t:
        us += [{"k": "score", "n": 4, "mod": 16, "rem": i} for i in range(16)]
    return us


def run_unit(u, ctx):
    nt = neural.load()
    import numpy as np
    import pandas as pd
    warnings.simplefilter("ignore")
    logging.disable(logging.NOTSET if u["k"] == "schedule" else logging.CRITICAL)
    np.seterr(all="ignore")
    H = {"np": np, "pd": pd, "nt": nt}
    if u["k"] == "score":
        kinds = TYPES if u["n"] < 4 else ("cont", "cat", "bin")
        for idx, types in enumerate(itertools.product(kinds, repeat=u["n"])):
            if idx % u["mod"] != u["rem"] or any(types.count(x) > len(neural.POOL[x]) for x in types):
                continue
            combos = list(itertools.product((0.0, 0.1), (0.0, 0.3), (False, True)))
            if u["n"] > 2:
                combos = [combos[idx % 8], combos[(idx * 5 + 3) % 8]]
            for n, (lasso, ridge, bias) in enumerate(combos):
                score(ctx, H, types, lasso, ridge, bias, idx + n)
        ctx.sample(u)
    elif u["k"] == "wide":
        for n, types in enumerate([t for r in (1, 2) for t in itertools.product(TYPES, repeat=r) if t.count("cat") + t.count("ord") and t.count("cat") < 2]):
            score(ctx, H, types, 0.1 * (n % 2), 0.3 * (n % 3 == 0), n % 4 < 2, n, True)
            if types != ("ord", "ord"):
                score(ctx, H, types, 0.1 * (n % 2), 0.3 * (n % 3 == 0), n % 4 < 2, n, "many")
                score(ctx, H, types, 0.1 * (n % 2), 0.3 * (n % 3 == 0), n % 4 < 2, n, "rare")
    elif u["k"] == "start":
        start(ctx, H)
    elif u["k"] == "forward":
        for n, types in enumerate([("cont",) * 3, ("cont", "cat"), ("bin", "ord", "poiss"), ("cat", "cont", "cat")]):
            for bias in (False, True):
                forward(ctx, H, u["layers"], types, bias, n, u["all"])
    elif u["k"] == "deep":
        # many hidden layers, and other constants in the normalisation
        layers = [(2, 2, 2, 2), (2, 3, 2, 2, 2), (2, 2, 3, 2, 2, 2, 2), (3,)][u["at"]]
        for n, types in enumerate([("cont", "cont"), ("cont", "cat")]):
            forward(ctx, H, layers, types, n == 1, n, False)
            for clamp in (1e-4, 0.001, 0.02, 0.3, 2.0):
                forward(ctx, H, layers, types, n == 1, n, None, clamp)
        if len(layers) > 1:
            for k in range(3):
                for bias, (lasso, ridge) in ((True, (0, 0)), (False, (0.2, 0)), (k % 2 == 0, (0, 0.3)), (k % 2 == 1, (0.2, 0.3))):
                    hidden(ctx, H, layers, k, bias, lasso, ridge)
    elif u["k"] == "schedule":
        for idx, ws in enumerate(itertools.product(DIST, repeat=u["n"])):
            if idx % u["mod"] == u["rem"]:
                for max_iter in (1, 2, 3):
                    schedule(ctx, H, ws, max_iter)
        ctx.sample(u)
    else:
        for k in range(6):
            for bias in (False, True):
                for lasso, ridge in ((0, 0), (0.2, 0), (0, 0.3), (0.2, 0.3)):
                    hidden(ctx, H, u["layers"], k, bias, lasso, ridge)
        for types in itertools.product(TYPES, repeat=2):
            if u["all"] or types[0] == "cont" or types[0] == types[1]:
                slopes(ctx, H, u["layers"], types)


def fit(ctx, H, types, desc, env, cpu=120, wide=False, order=None, **kw):
    np, nt = H["np"], H["nt"]
    cols = neural.table(types, wide)
    X = np.array(cols, dtype=float).T
    ctx.trans()
    ctx.trace()
    with env:
        ok, sm = ctx.guard(lambda: nt.from_numpy(X, dist_type_schema={i: types[i] for i in order or range(len(types))}, **kw), desc, cpu=cpu)
    if ok and not env.calls:
        ctx.gaps["the optimiser model was not asked"] = ctx.gaps.get("the optimiser model was not asked", 0) + 1
        return None
    return sm if ok else None


def score(ctx, H, types, lasso, ridge, bias, k, wide=False):
    np = H["np"]
    spec = neural.Mixed(np, types, neural.table(types, wide), bias, lasso, ridge)
    desc = ("data of many classes, " if wide else "") + "from_numpy(types %r, lasso_beta=%r, ridge_beta=%r, use_bias=%r)" % (types, lasso, ridge, bias)
    one = neural.values(spec.meanings, k)
    order = list(itertools.permutations(range(len(types))))[k % math.factorial(len(types))]
    desc += ", schema in the order %r" % (order,)
    # an acyclic answer too: only effects from earlier to later columns
    two = {m: (w if m[0] == "b" or m[1][0] < m[2][0] else 0.0) for m, w in one.items()}
    for ans, cyclic in ((two, False), (one, True)):
        seen = []

        def look(x, f, g, call):
            if call == 1:
                seen.append(float(f(x)))
                if g is None:
                    return
                # away from the corners of the absolute values
                y = np.where(np.abs(x) < 1e-9, 0.01 + 0.001 * np.arange(len(x)), x) if lasso else x
                m = slope_mismatch(f, g, y)
                if m:
                    ctx.fail("%s, answer %r: %s" % (desc, ans, m))

        ctx.state()
        sm = fit(ctx, H, types, desc, Script([ans], spec.score, spec.meanings, look), wide=wide, order=order, max_iter=2, lasso_beta=lasso, ridge_beta=ridge, use_bias=bias)
        if sm is None:
            continue
        want = spec.objective(ans)
        if not neural.close(seen[0], want, 1e-8):
            ctx.fail("%s: the objective at %r is %r, the stated score is %r (acyclicity %r)" % (desc, ans, seen[0], want, spec.h(spec.params(ans)[0])))
        ctx.outcome((types, cyclic))


def schedule(ctx, H, ws, max_iter):
    """rho grows tenfold until the distance from acyclic is a quarter of the last one; then alpha grows by rho times the distance"""
    np = H["np"]
    types = ("cont", "cont")
    spec = neural.Mixed(np, types, neural.table(types))
    answers = [{("w", (0, 0), (1, 0)): 0.8, ("w", (1, 0), (0, 0)): w} for w in ws]
    hs = [spec.h(spec.params(a)[0]) for a in answers]
    # the specification
    calls = []
    rho, alpha, h, it, conv = 1.0, 0.0, np.inf, 0, False
    while True:
        new = None
        while rho < 1e16 and (new is None or new > 0.25 * h):
            i = min(len(calls), len(answers) - 1)
            calls.append((i, rho, alpha))
            new = hs[i]
            if new > 0.25 * h:
                rho *= 10
        alpha, h, it = alpha + rho * new, new, it + 1
        if h <= 1e-8:
            conv = True
            break
        if rho >= 1e16 or it >= max_iter:
            break
    desc = "from_numpy with the optimiser answering 0.8 and %r, max_iter=%d" % (ws, max_iter)
    seen = []
    msgs = []

    class Listen(logging.Handler):
        def emit(self, record):
            msgs.append((record.levelno, record.getMessage()))

    env = Script(answers, spec.score, spec.meanings, lambda x, f, g, call: seen.append(float(f(x))), success=reports(H))
    root, lis, level = logging.getLogger(), Listen(), logging.getLogger().level
    root.addHandler(lis)
    ctx.state(len(calls))
    ctx.trans(len(calls))
    try:
        with warnings.catch_warnings(record=True) as warned:
            warnings.simplefilter("always")
            sm = fit(ctx, H, types, desc, env, max_iter=max_iter)
    finally:
        root.removeHandler(lis)
        root.setLevel(level)
    if sm is None:
        return
    if len(seen) != len(calls):
        ctx.fail("%s: the optimiser was asked %d times, the schedule has %d" % (desc, len(seen), len(calls)))
        return
    for n, ((i, r, a), f) in enumerate(zip(calls, seen)):
        want = spec.objective(answers[i], r, a)
        if not neural.close(f, want, 1e-8):
            ctx.fail("%s: in call %d the objective at answer %d is %r; with rho=%g and alpha=%r it is %r" % (desc, n + 1, i, f, r, a, want))
    last = answers[calls[-1][0]]
    want = {(m[1][0], m[2][0]): w for m, w in last.items() if w}
    got = {(a, b): w for a, b, w in sm.edges(data="mean_effect")}
    if set(want) != set(got) or any(not neural.close(got[e], want[e]) for e in want):
        ctx.fail("%s: edges %r, the last answer is %r" % (desc, got, want))
    text = [m for lv, m in msgs if lv >= logging.WARNING and "converge" in m.lower()] + [str(w.message) for w in warned if "converge" in str(w.message).lower()]
    if conv and text:
        ctx.fail("%s: warns %r about an acyclic answer" % (desc, text))
    if not conv and rho < 1e16 and not text:
        ctx.fail("%s: no warning, though the last answer is cyclic" % desc)
    ctx.outcome((len(calls), conv, max_iter))


def hidden(ctx, H, layers, k, bias, lasso, ridge):
    """continuous data, answers that allow effects from earlier to later columns only: the objective is loss + penalties of the weights"""
    np = H["np"]
    d = 3
    types = ("cont",) * d
    X = np.array(neural.table(types), dtype=float).T
    perm = list(itertools.permutations(range(d)))[k]
    tabu = [(perm[j], perm[i]) for i in range(d) for j in range(i, d)]
    c = 0.4
    raw = [c if (i * 7 + i // 3 + k) % 3 else -c for i in range(97)]
    seen = []

    def look(x, f, g, call):
        if call == 1:
            seen.append(float(f(x)))
            m = g is not None and slope_mismatch(f, g, np.where(np.abs(x) < 1e-9, 0.02, x))
            if m:
                ctx.fail("%s: %s" % (desc, m))

    desc = "from_numpy(hidden_layer_units=%r, use_bias=%r, lasso_beta=%r, ridge_beta=%r, effects along %r only)" % (layers, bias, lasso, ridge, perm)
    ctx.state()
    sm = fit(ctx, H, types, desc, Script([raw], None, (), look), hidden_layer_units=list(layers), use_bias=bias, lasso_beta=lasso, ridge_beta=ridge, tabu_edges=tabu, max_iter=1)
    if sm is None:
        return
    ok, Y = ctx.guard(lambda: sm.graph["structure_learner"].reconstruct_data(X.copy()), desc + ": reconstruct_data")
    if not ok:
        return
    loss = 0.5 / len(X) * float(((np.asarray(Y) - X) ** 2).sum())
    first, arcs = d * d * layers[0], d * (d - 1) // 2 * layers[0]
    rest = sum(d * a * b for a, b in zip(layers, list(layers[1:]) + [1]))
    want = loss + lasso * c * arcs / first * d + 0.5 * ridge * c * c * (arcs + rest) / (first + rest) * d
    if not neural.close(seen[0], want, 1e-7):
        ctx.fail("%s: the objective is %r, loss and penalties are %r" % (desc, seen[0], want))
    ctx.outcome((tuple(layers), perm))


def slopes(ctx, H, layers, types):
    np = H["np"]

    def look(x, f, g, call):
        if call == 1 and g is not None:
            m = slope_mismatch(f, g, np.where(np.abs(x) < 1e-9, 0.02, x))
            if m:
                ctx.fail("%s: %s" % (desc, m))

    desc = "from_numpy(types %r, hidden_layer_units=%r)" % (types, layers)
    penalties(ctx, H, layers, types)
    ctx.state()
    fit(ctx, H, types, desc, Script([[(1 if i % 3 else -1) * (0.2 + 0.05 * (i % 7)) for i in range(97)]], None, (), look), hidden_layer_units=list(layers), use_bias=True, max_iter=1, lasso_beta=0.1)


def penalties(ctx, H, layers, types):
    """what lasso and ridge add to the objective, at one answer whose free weights are all of one size"""
    spec = neural.Mixed(H["np"], types, neural.table(types))
    D, c = len(spec.vars), 0.4
    raw = [c if i % 3 else -c for i in range(97)]
    first, arcs = D * D * layers[0], sum(m[0] == "w" for m in spec.meanings) * layers[0]
    rest = sum(D * a * b for a, b in zip(layers, list(layers[1:]) + [1]))
    seen = []
    for bias in (False, True):
        for lasso, ridge in ((0, 0), (0.2, 0), (0, 0.3)):
            desc = "from_numpy(types %r, hidden_layer_units=%r, use_bias=%r, lasso_beta=%r, ridge_beta=%r)" % (types, layers, bias, lasso, ridge)
            ctx.state()
            del seen[1 if lasso or ridge else 0:]
            sm = fit(ctx, H, types, desc, Script([raw], None, (), lambda x, f, g, call: seen.append(float(f(x))) if call == 1 else None),
                     hidden_layer_units=list(layers), use_bias=bias, lasso_beta=lasso, ridge_beta=ridge, max_iter=1)
            if sm is None or not (lasso or ridge) or len(seen) != 2:
                continue
            want = lasso * c * arcs / first * D + 0.5 * ridge * c * c * (arcs + rest) / (first + rest) * D
            if not neural.close(seen[1] - seen[0], want, 1e-7):
                ctx.fail("%s: the penalties add %r to the objective, should add %r" % (desc, seen[1] - seen[0], want))


def start(ctx, H):
    """without hidden layers, where the search starts does not depend on any random state"""
    import torch
    np = H["np"]
    for n in (1, 2, 3):
        for types in itertools.product(TYPES, repeat=n):
            if n > 2 and len(set(types)) < 3:
                continue
            for bias in (False, True):
                starts = []
                for seed in (0, 1):
                    torch.manual_seed(seed)
                    np.random.seed(seed)

                    class Env:
                        calls = 0

                        def __enter__(self):
                            from ..optim import ENV
                            ENV.append(self)

                        def __exit__(self, *exc):
                            from ..optim import ENV
                            ENV.pop()

                        def __call__(self, fun, x0, *args, **kwds):
                            self.calls += 1
                            starts.append(np.array(x0, dtype=float))
                            return script(fun, x0, *args, **kwds)

                    script = Script([[0.0]])
                    ctx.state()
                    fit(ctx, H, types, "from_numpy(types %r, use_bias=%r)" % (types, bias), Env(), use_bias=bias, max_iter=1)
                if len(starts) == 2 and not np.array_equal(*starts):
                    ctx.fail("from_numpy(types %r, use_bias=%r): the search starts at %r or, with another random state, at %r" % (types, bias, starts[0].tolist(), starts[1].tolist()))


def forward(ctx, H, layers, types, bias, k, every, clamp=None):
    """the latent predictions with hidden layers are those of the documented network, and every parameter belongs to the equation of one variable"""
    np = H["np"]
    spec = neural.Mixed(np, types, neural.table(types), bias)
    D, widths = len(spec.vars), list(layers) + [1]
    X = np.array(neural.table(types), dtype=float).T
    size = D * D * layers[0] + sum(D * a * b for a, b in zip(widths, widths[1:])) + (D * sum(widths) if bias else 0)
    base = [(1 if (i * 7 + k) % 3 else -1) * (0.15 + 0.09 * ((i * 5 + i // 7 + k) % 11)) for i in range(size)]
    desc = "from_numpy(types %r, hidden_layer_units=%r, use_bias=%r%s)" % (types, layers, bias, "" if clamp is None else ", nonlinear_clamp=%r" % clamp)
    more = {} if clamp is None else {"nonlinear_clamp": clamp}

    def learned(raw):
        free = []

        def note(x, f, g, call):
            free.append(x)
        ctx.state()
        sm = fit(ctx, H, types, desc, Script([raw], None, (), note), hidden_layer_units=list(layers), use_bias=bias, max_iter=1, **more)
        return (None, None) if sm is None else (sm, free[0])

    def groups(sm):
        """predictions by column"""
        learner = sm.graph["structure_learner"]
        ok, Y = ctx.guard(lambda: np.asarray(learner.reconstruct_data(X.copy())), desc + ": reconstruct_data")
        if not ok:
            return None
        ds = {d.idx: d for _, d in sm.nodes(data="dist_type")}
        return [np.asarray(ds[i].get_columns(Y), dtype=float).reshape(len(X), -1) for i in range(len(types))]

    sm, x = learned(base)
    if sm is None:
        return
    want = groups(sm)
    if want is None:
        return
    if len(x) != size:
        ctx.gaps["another number of parameters than the documented network has"] = 1
        return
    # every parameter belongs to one equation
    step = 1 if every or size < 80 else 3 if len(layers) < 4 else 9
    for i in range(0, 0 if every is None else size, step):
        raw = list(base)
        raw[i] = raw[i] * 1.5 + 0.1
        other, y = learned(raw)
        if other is None:
            return
        got = groups(other)
        if got is None:
            return
        moved = [j for j in range(len(types)) if np.abs(got[j] - want[j]).max() > 1e-9]
        if len(moved) > 1:
            ctx.fail("%s: parameter %d has an effect on the predictions of the columns %r" % (desc, i, moved))
    # the documented network, where its weights can be had
    learner = sm.graph["structure_learner"]
    try:
        W = np.asarray(learner.dag_layer_weight.detach().numpy(), dtype=float)
        b = None if learner.dag_layer_bias is None else np.asarray(learner.dag_layer_bias.detach().numpy(), dtype=float)
        rest = [(np.asarray(l.weight.detach().numpy(), dtype=float), None if l.bias is None else np.asarray(l.bias.detach().numpy(), dtype=float)) for l in learner.loc_lin_layer_weights]
        eps = float(learner.nonlinear_clamp if clamp is None else clamp)
    except (AttributeError, TypeError):
        ctx.gaps["the layers of the network are not to be had"] = 1
        return
    # variables in the order of the encoded columns: the first category in place, the others at the end
    at = [spec.at[(i, 0)] for i in range(len(types))] + [spec.at[v] for v in spec.vars if v[1]]
    z = spec.E[:, at].dot(W.T)
    z = z + (0 if b is None else b)
    z = z.reshape(len(X), D, layers[0])
    for w, c in rest:
        z = 1 / (1 + np.exp(-z))
        z = (z - z.mean(axis=2, keepdims=True)) / np.sqrt(z.var(axis=2, keepdims=True) + eps)
        z = np.einsum("nda,dab->ndb", z, w)
        if c is not None:
            z = z + c
    Z = np.zeros((len(X), D))
    Z[:, at] = z[:, :, 0]
    for i, w in spec.link(Z).items():
        if np.abs(w.reshape(len(X), -1) - want[i]).max() > 1e-7:
            ctx.fail("%s: predictions of column %d are %r, the documented network gives %r" % (desc, i, want[i].tolist()[:4], w.tolist()[:4]))
    ctx.outcome((types, tuple(layers), bias))
