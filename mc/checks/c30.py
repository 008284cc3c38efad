"""The torch based structure learner on continuous data: constraints, weights, thresholds and hidden layers."""
import copy
import itertools
import logging
import warnings

from .. import neural
from ..graphs import graph_of
from ..optim import Script

PROPERTY = "C30"
MEANING = ("state = (data, forbidden edges / parents / children, threshold, bias, hidden layers, optimiser answer); transition = one call of a learner; trace = one learned structure compared "
           "with what the constraints allow, with the answer, and with the slopes of the learner's own reconstruction of the data")
BOUNDS = {
    "quick": "d <= 3 columns. Optimiser as environment: every answer with entries from {0, 0.4, -1.2} x 3 thresholds x bias, both learners; every set of forbidden edges x parents x children on 3 columns with a dense answer; "
             "hidden layers (1), (2), (2,2), (3,1) x constraint sets (edges <= 2, parents, children) x bias x 2 raw answers; real optimiser on all single constraints; 5 tables of names; 1 to 1100 rows; every kind of invalid data",
    "thorough": "as quick with two nonzero answers on every DAG of 4 columns, every constraint set on 3 columns for one and two hidden layers, and the real optimiser on pairs of constraints",
}
ASSUMPTIONS = ["torch is a stand-in (numpy, double precision, reverse-mode gradients); optimiser modelled as any procedure returning a vector within the given bounds"]
CHUNK = 2
UNIT_CPU = 900
NAMES = [["a", "b", "c"], ["c", "b", "a"], ["x1", "x10", "x"], [2, 0, 1], [("t", 1), "t", 0]]
BIAS = (0.3, 0.0, -0.1, 0.25)
THRESHOLDS = (None, 0.4, 1.0)


def units(tier):
    t = tier == "thorough"
    us = [{"k": "answers", "d": 1, "mod": 1, "rem": 0, "values": [0, 0.4, -1.2, 0.1]}, {"k": "answers", "d": 2, "mod": 1, "rem": 0, "values": [0, 0.4, -1.2, 0.1, -0.4]}]
    us += [{"k": "answers", "d": 3, "mod": 8, "rem": i, "values": [0, 0.4, -1.2]} for i in range(8)]
    us += [{"k": "tabu", "d": 3, "mod": 8, "rem": i} for i in range(8)]
    us.append({"k": "tabu", "d": 2, "mod": 1, "rem": 0})
    us += [{"k": "hidden", "layers": list(h), "mod": 3, "rem": i, "all": t} for h in ((1,), (2,), (2, 2), (3, 1)) for i in range(3)]
    us += [{"k": "real", "mod": 8, "rem": i, "all": t} for i in range(8)]
    us += [{"k": "names"}, {"k": "invalid"}, {"k": "hiddenforms"}, {"k": "rows"}]
    if t:
        us += [{"k": "answers4", "mod": 16, "rem": i} for i in range(16)]
    return us


def subsets(xs, most=None):
    return [list(c) for k in range(len(xs) + 1 if most is None else most + 1) for c in itertools.combinations(xs, k)]


def run_unit(u, ctx):
    nt = neural.load()
    import numpy as np
    import pandas as pd
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    np.seterr(all="ignore")
    H = {"np": np, "pd": pd, "nt": nt}
    dense = [0.9, -0.4, 0.6, 0.8, 0.3, -0.7, -0.5, 1.1, 0.2]
    if u["k"] == "answers":
        d = u["d"]
        off = [(i, j) for i in range(d) for j in range(d) if i != j]
        for idx, vals in enumerate(itertools.product(u["values"], repeat=len(off))):
            if idx % u["mod"] != u["rem"]:
                continue
            for n, (thr, bias) in enumerate(itertools.product(THRESHOLDS, (False, True))):
                attempt(ctx, H, (idx + n) % 2 == 0, d, dict(zip(off, vals)), thr, bias=bias)
        ctx.sample(u)
    elif u["k"] == "answers4":
        for idx, vals in enumerate(itertools.product((0, 0.4, -1.2), repeat=6)):
            if idx % u["mod"] != u["rem"]:
                continue
            for n, perm in enumerate(itertools.permutations(range(4))):
                attempt(ctx, H, (idx + n) % 2 == 0, 4, {(perm[a], perm[b]): w for (a, b), w in zip(itertools.combinations(range(4), 2), vals)}, 0.4, bias=n % 3 == 0)
    elif u["k"] == "tabu":
        d = u["d"]
        off = [(i, j) for i in range(d) for j in range(d) if i != j]
        for idx, (e, p, c) in enumerate(itertools.product(subsets(off), subsets(range(d)), subsets(range(d)))):
            if idx % u["mod"] != u["rem"]:
                continue
            ans = {(i, j): dense[i * 3 + j] for i, j in off}
            # empty containers mean the same as none
            if idx % 3:
                e, p, c = e or None, p or None, c or None
            attempt(ctx, H, idx % 2 == 0, d, ans, None, e, p, c, bias=idx % 4 == 1, lasso=0.1 * (idx % 3 == 0), ridge=0.2 * (idx % 5 == 0))
        ctx.sample(u)
    elif u["k"] == "hidden":
        off = [(i, j) for i in range(3) for j in range(3) if i != j]
        cases = itertools.product(subsets(off, None if u["all"] and len(u["layers"]) == 1 else 2), subsets(range(3), 1), subsets(range(3), 1))
        for idx, (e, p, c) in enumerate(cases):
            if idx % u["mod"] != u["rem"]:
                continue
            hidden(ctx, H, idx % 2 == 0, 3, u["layers"], e, p, c, bias=idx % 4 < 2, k=idx % 5, thr=(None, 0.05, 0.2)[idx % 3])
        ctx.sample(u)
    elif u["k"] == "real":
        off = [(i, j) for i in range(3) for j in range(3) if i != j]
        m = 2 if u["all"] else 1
        cases = [(e, [], []) for e in subsets(off, m)] + [([], p, c) for p in subsets(range(3), m) for c in subsets(range(3), m)]
        for idx, (e, p, c) in enumerate(cases):
            if idx % u["mod"] != u["rem"]:
                continue
            attempt(ctx, H, idx % 2 == 0, 3, None, 0.05, e, p, c, bias=idx % 3 == 0, lasso=0.01)
            if u["all"] or idx % 4 == 0:
                hidden(ctx, H, idx % 2 == 1, 3, [2], e, p, c, bias=idx % 3 == 0, k=None, thr=0.02)
    elif u["k"] == "names":
        ans = {(i, j): dense[i * 3 + j] for i in range(3) for j in range(3) if i != j}
        for names in NAMES:
            for e in ([(0, 1)], [(2, 0), (1, 2)], [(0, 0)], None):
                for p in ([0], [2, 1], None):
                    for c in ([1], None):
                        attempt(ctx, H, True, 3, ans, None, e, p, c, names=names)
                        hidden(ctx, H, True, 3, [2], e, p, c, bias=True, k=1, thr=None, names=names)
    elif u["k"] == "hiddenforms":
        # no hidden layers, in every form
        ans = {(0, 1): 0.7, (2, 0): -0.3}
        for h in (None, [], [0]):
            for panda in (False, True):
                attempt(ctx, H, panda, 3, ans, None, extra={"hidden_layer_units": h})
        for h in ([2], (2,), [1, 2], (2, 1, 2)):
            for panda in (False, True):
                hidden(ctx, H, panda, 3, h, [(0, 1)], [2], [], bias=True, k=2, thr=None)
    elif u["k"] == "rows":
        # weights are averages over all rows, few or many
        ans = {(0, 1): 0.7, (2, 0): -0.3}
        for rows in (1, 2, 70, 300, 1100):
            for panda in (False, True):
                hidden(ctx, H, panda, 3, [2], [(0, 1)], None, None, bias=True, k=2, thr=None, rows=rows)
                attempt(ctx, H, panda, 3, ans, 0.2, bias=True, rows=rows) if rows > 2 else None
    else:
        invalid(ctx, H)


def data_of(np, d, rows=None):
    X = np.array(neural.table(["cont"] * d)).T
    if rows is not None and rows > len(X):
        # the rows repeat with a drift, so that they all differ
        X = np.vstack([X * (1 + 0.05 * k) - 0.1 * k for k in range(rows // len(X) + 1)])
    return X[:rows]


def call(ctx, H, panda, d, e, p, c, thr, bias, lasso, ridge, names, extra, script, cpu=90, rows=None):
    """(description, ok, structure, names)"""
    np, pd, nt = H["np"], H["pd"], H["nt"]
    X = data_of(np, d, rows)
    names = (names or NAMES[0] + ["d"])[:d] if panda else list(range(d))
    kw = {"w_threshold": thr, "use_bias": bias, "lasso_beta": lasso, "ridge_beta": ridge}
    if e is not None:
        kw["tabu_edges"] = [(names[i], names[j]) for i, j in e]
    if p is not None:
        kw["tabu_parent_nodes"] = [names[i] for i in p]
    if c is not None:
        kw["tabu_child_nodes"] = [names[i] for i in c]
    kw.update(extra or {})
    desc = "from_%s(%s)" % ("pandas" if panda else "numpy", ", ".join("%s=%r" % i for i in sorted(kw.items())))
    if script is not None:
        desc += " with the optimiser answering %r" % (script.answers,)
    given = copy.deepcopy(kw)
    data = pd.DataFrame(X.copy(), columns=names) if panda else X.copy()
    ctx.state()
    ctx.trans()
    ctx.trace()
    fn = nt.from_pandas if panda else nt.from_numpy
    if script is None:
        kw["max_iter"] = given["max_iter"] = 4
        ok, sm = ctx.guard(lambda: fn(data, **kw), desc, cpu=cpu)
    else:
        with script:
            ok, sm = ctx.guard(lambda: fn(data, **kw), desc, cpu=cpu)
    if not ok:
        return desc, False, None, names, X
    if script is not None and not script.calls:
        ctx.gaps["the optimiser model was not asked"] = ctx.gaps.get("the optimiser model was not asked", 0) + 1
        return desc, False, None, names, X
    same = (list(data.columns) == list(names) and np.array_equal(data.values, X)) if panda else np.array_equal(data, X)
    ctx.check(same, "%s: changed the data" % desc)
    ctx.check(kw == given, "%s: changed its arguments to %r" % (desc, kw))
    nodes, edges = graph_of(sm)
    ctx.check(type(sm).__name__ == "StructureModel", "%s: gives a %s" % (desc, type(sm)))
    ctx.check(set(nodes) == set(names), "%s: nodes %r, should be the columns %r" % (desc, list(nodes), names))
    pos = {n: i for i, n in enumerate(names)}
    for (a, b), dat in edges.items():
        i, j = pos[a], pos[b]
        w = dat.get("weight")
        if w is None or not np.isfinite(w) or w <= 0 or w < (thr or 0):
            ctx.fail("%s: edge %r has weight %r" % (desc, (a, b), w))
        if i == j:
            ctx.fail("%s: self-loop on %r" % (desc, a))
        if e and (i, j) in e:
            ctx.fail("%s: forbidden edge %r" % (desc, (a, b)))
        if p and i in p:
            ctx.fail("%s: %r is a parent of %r" % (desc, a, b))
        if c and j in c:
            ctx.fail("%s: %r is a child of %r" % (desc, b, a))
        if dat.get("origin") != "learned":
            ctx.fail("%s: edge %r has origin %r" % (desc, (a, b), dat.get("origin")))
        if abs(dat.get("mean_effect", 1e9)) > w + 1e-9:
            ctx.fail("%s: edge %r has weight %r and mean effect %r" % (desc, (a, b), w, dat.get("mean_effect")))
    for n, dat in nodes.items():
        if "bias" not in dat or (not bias and dat["bias"] is not None):
            ctx.fail("%s: node %r has bias %r" % (desc, n, dat.get("bias")))
        if type(dat.get("dist_type")).__name__ != "DistTypeContinuous":
            ctx.fail("%s: node %r has dist_type %r" % (desc, n, dat.get("dist_type")))
    ctx.outcome((panda, tuple(sorted((pos[a], pos[b]) for a, b in edges))))
    return desc, True, sm, names, X


def attempt(ctx, H, panda, d, answer, thr, e=None, p=None, c=None, bias=False, lasso=0.0, ridge=0.0, names=None, extra=None, rows=None):
    """the linear model"""
    np = H["np"]
    script = None
    if answer is not None:
        spec = neural.Mixed(np, ["cont"] * d, data_of(np, d, rows).T.tolist(), bias, lasso, ridge)
        full = {("w", (i, 0), (j, 0)): float(w) for (i, j), w in answer.items()}
        if bias:
            full.update({("b", (i, 0)): BIAS[i] for i in range(d)})
        script = Script([full], spec.score, spec.meanings, default=0.7)
    desc, ok, sm, names, X = call(ctx, H, panda, d, e, p, c, thr, bias, lasso, ridge, names, extra, script, rows=rows)
    if not ok:
        return
    if answer is None:
        consistent(ctx, H, desc, sm, names, X, thr, e, p, c)
        return
    forbidden = lambda i, j: i == j or (e and (i, j) in e) or (p and i in p) or (c and j in c)
    final = {(i, j): w for (i, j), w in answer.items() if w and not forbidden(i, j)}
    exp = {k: w for k, w in final.items() if abs(w) >= (thr or 0)}
    pos = {n: i for i, n in enumerate(names)}
    got = {(pos[a], pos[b]): dat for a, b, dat in sm.edges(data=True)}
    if set(got) != set(exp):
        ctx.fail("%s: edges %r, the optimum has %r" % (desc, sorted(got), exp))
    for k, w in exp.items():
        if k in got and not (neural.close(got[k]["weight"], abs(w)) and neural.close(got[k]["mean_effect"], w)):
            ctx.fail("%s: edge %r has weight %r and mean effect %r, the optimum is %r" % (desc, k, got[k]["weight"], got[k]["mean_effect"], w))
    if bias:
        for n in names:
            v = BIAS[pos[n]]
            if sm.nodes[n]["bias"] is None or not neural.close(float(sm.nodes[n]["bias"]), v):
                ctx.fail("%s: bias of %r is %r, the optimum is %r" % (desc, n, sm.nodes[n]["bias"], v))
    rebuilt(ctx, H, desc, sm, X, final, [BIAS[i] if bias else 0.0 for i in range(d)])
    collapsed(ctx, desc, sm, names, final, thr)


def rebuilt(ctx, H, desc, sm, X, final, b):
    np = H["np"]
    learner = sm.graph.get("structure_learner")
    ok, got = ctx.guard(lambda: learner.reconstruct_data(X.copy()), desc + ": reconstruct_data")
    if ok:
        want = np.tile(np.array(b), (len(X), 1))
        for (i, j), w in final.items():
            want[:, j] = want[:, j] + X[:, i] * w
        if np.shape(got) != want.shape or np.abs(got - want).max() > 1e-7:
            ctx.fail("%s: reconstruct_data gives %r, the learned equations give %r" % (desc, np.asarray(got).tolist(), want.tolist()))


def collapsed(ctx, desc, sm, names, final, thr):
    g = sm.graph.get("graph_collapsed")
    if g is None:
        ctx.fail("%s: no collapsed graph" % desc)
        return
    got = {(a, b): w for a, b, w in g.edges(data="weight")}
    want = {(names[i], names[j]): abs(w) for (i, j), w in final.items()}
    if set(g.nodes) != set(names):
        ctx.fail("%s: nodes %r of the collapsed graph" % (desc, list(g.nodes)))
    for k in set(got) | set(want):
        w = want.get(k, 0.0)
        if not neural.close(got.get(k, 0.0), w) and not (k not in got and w < (thr or 0)):
            ctx.fail("%s: collapsed graph has %r for %r, should be %r" % (desc, got.get(k), k, w))


def consistent(ctx, H, desc, sm, names, X, thr, e, p, c):
    """weights against the slopes of the learner's own reconstruction"""
    np = H["np"]
    learner = sm.graph.get("structure_learner")
    d = X.shape[1]
    step = 1e-5
    slopes = np.zeros((d, d, len(X)))
    for i in range(d):
        up, dn = X.copy(), X.copy()
        up[:, i] += step
        dn[:, i] -= step
        ok, ys = ctx.guard(lambda: (learner.reconstruct_data(up), learner.reconstruct_data(dn)), desc + ": reconstruct_data")
        if not ok:
            return
        slopes[i] = ((np.asarray(ys[0]) - np.asarray(ys[1])) / (2 * step)).T
    pos = {n: i for i, n in enumerate(names)}
    got = {(pos[a], pos[b]): dat for a, b, dat in sm.edges(data=True)}
    for i, j in itertools.product(range(d), repeat=2):
        w, m = float(np.abs(slopes[i, j]).mean()), float(slopes[i, j].mean())
        tol = 1e-6 + 1e-5 * w
        if (i, j) in got:
            if abs(got[i, j]["weight"] - w) > tol or abs(got[i, j]["mean_effect"] - m) > tol:
                ctx.fail("%s: edge %r has weight %r and mean effect %r, the reconstruction has mean slope %r (absolute) and %r" % (desc, (i, j), got[i, j]["weight"], got[i, j]["mean_effect"], w, m))
        elif w > max(thr or 0, 0) + tol:
            ctx.fail("%s: no edge %r, but the reconstruction has the mean slope %r" % (desc, (i, j), w))
        if (i == j or (e and (i, j) in e) or (p and i in p) or (c and j in c)) and np.abs(slopes[i, j]).max() > 1e-7:
            ctx.fail("%s: the reconstruction of %r depends on %r: slopes %r" % (desc, names[j], names[i], slopes[i, j].tolist()))


def hidden(ctx, H, panda, d, layers, e, p, c, bias, k, thr, names=None, rows=None):
    script = None
    if k is not None:
        script = Script([[(1 if (i * 7 + k) % 3 else -1) * (0.2 + 0.13 * ((i * 5 + 2 * k) % 9)) for i in range(61)]], None)
    desc, ok, sm, names, X = call(ctx, H, panda, d, e or None, p or None, c or None, thr, bias, 0.01, 0.02, names, {"hidden_layer_units": layers}, script, rows=rows)
    if ok:
        consistent(ctx, H, desc, sm, names, X, thr, e, p, c)


def invalid(ctx, H):
    np, pd, nt = H["np"], H["pd"], H["nt"]
    base = np.array(neural.table(["cont"] * 3)).T
    for panda in (False, True):
        fn = nt.from_pandas if panda else nt.from_numpy
        cols = ["c0", "c1", "c2"] if panda else [0, 1, 2]
        wrap = (lambda a: pd.DataFrame(a, columns=["c%d" % i for i in range(a.shape[1])])) if panda else (lambda a: a)
        silent = lambda: Script([[0.0]])
        for bad in (np.nan, np.inf, -np.inf):
            for r in range(base.shape[0]):
                for col in range(3):
                    X = base.copy()
                    X[r, col] = bad
                    for kw in ({}, {"dist_type_schema": {x: "cont" for x in cols}}):
                        ctx.state()
                        ctx.trans()
                        ctx.trace()
                        with silent():
                            ctx.raises(lambda: fn(wrap(X), **kw), ValueError, "%s with %r at row %d column %d" % (fn.__name__, bad, r, col))
        for shape in ((0, 3), (0, 1)):
            ctx.trace()
            with silent():
                ctx.raises(lambda: fn(wrap(np.zeros(shape))), ValueError, "%s on data of shape %r" % (fn.__name__, shape))
        # a schema must name every column, and nothing else
        for keys in itertools.chain(*[itertools.combinations(cols + (["zz"] if panda else [3]), n) for n in range(5)]):
            if list(keys) == cols:
                continue
            ctx.trace()
            with silent():
                ctx.raises(lambda: fn(wrap(base), dist_type_schema={x: "cont" for x in keys}), (ValueError, KeyError), "%s with a schema for %r of the columns %r" % (fn.__name__, keys, cols))
        for alias in ("normal", "", None, 3):
            ctx.trace()
            with silent():
                ctx.raises(lambda: fn(wrap(base), dist_type_schema=dict(zip(cols, ["cont", alias, "cont"]))), (ValueError, KeyError), "%s with the type %r" % (fn.__name__, alias))
        neg = np.abs(base)
        neg[2, 1] = -1
        ctx.trace()
        with silent():
            ctx.raises(lambda: fn(wrap(neg), dist_type_schema=dict(zip(cols, ["poiss", "poiss", "poiss"]))), ValueError, "%s with a negative count" % fn.__name__)
        if panda:
            for bad in (["a", "b", "c"], [None, "x", "y"], [True, False, True]):
                for at in range(3):
                    tab = [[1.0, 2.0, 0.5], [0.5, 1.5, 2.5], [1, 2, 4]]
                    tab[at] = bad
                    ctx.trace()
                    with silent():
                        ctx.raises(lambda: fn(pd.DataFrame({"c%d" % i: col for i, col in enumerate(tab)})), ValueError, "from_pandas with a column %r" % (bad,))
            for tab in ({"tabu_edges": [("c0", "zz")]}, {"tabu_parent_nodes": ["zz"]}, {"tabu_child_nodes": ["zz"]}):
                ctx.trace()
                with silent():
                    ctx.raises(lambda: fn(wrap(base), **tab), Exception, "from_pandas with %r" % (tab,))
