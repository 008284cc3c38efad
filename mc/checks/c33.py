"""DAGRegressor: what is learned, predicted and reported, for every container, option and history."""
import copy
import itertools
import logging
import warnings

from .. import dag, neural
from ..graphs import acyclic
from ..optim import Script

PROPERTY = "C33"
MEANING = ("state = (types and container of X and y, options, answer of the optimiser, fits so far); transition = one call of fit, predict or a report; trace = one fitted estimator compared with the specification of the learned equations")
BOUNDS = {
    "quick": "1-2 features of every assignment of the 5 types (3 features: continuous) x {continuous, count} target x 7 containers x standardize; every constraint set of <= 2 edges, 1 parent, 1 child x dependent_target on 2 features + target; "
             "threshold, enforce_dag on every cyclic pattern of 2 features + target; 2 hidden-layer shapes; 3 x 3 penalties; 6 thresholds x 5 sizes of effects; every sequence of 2 fits out of 6; 11 to 13 features in four mixes of types; every option through clone; unfitted calls; invalid options",
    "thorough": "as quick with 3 features of {cont, cat, ord, bin}, every constraint set on 2 features + target, and sequences of 3 fits",
}
ASSUMPTIONS = ["torch, scikit-learn and pandas are stand-ins; optimiser modelled as any procedure returning a vector within the given bounds"]
CHUNK = 1
UNIT_CPU = 900
TYPES = ("cont", "bin", "cat", "ord", "poiss")


def units(tier):
    t = tier == "thorough"
    us = [{"k": "types", "n": n, "mod": m, "rem": i} for n, m in ((1, 2), (2, 8)) + (((3, 16),) if t else ()) for i in range(m)]
    us += [{"k": "tabu", "mod": 4, "rem": i, "all": t} for i in range(4)]
    us += [{"k": "dag", "mod": 4, "rem": i} for i in range(4)]
    us += [{"k": "names", "i": i} for i in range(3)]
    us += [{"k": "clone"}, {"k": "unfitted"}, {"k": "invalid"}]
    us += [{"k": "hidden", "layers": list(h)} for h in ((2,), (2, 2))]
    us += [{"k": "histories", "first": i, "deep": 3 if t else 2} for i in range(6)]
    us += [{"k": "real", "i": i} for i in range(4)]
    us += [{"k": "penalties"}, {"k": "small"}, {"k": "switch"}, {"k": "passed"}, {"k": "plot"}] + [{"k": "broad", "i": i} for i in range(4)]
    return us


def run_unit(u, ctx):
    H = dag.load()
    np = H["np"]
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    np.seterr(all="ignore")
    if u["k"] == "types":
        kinds = TYPES if u["n"] < 3 else TYPES[:4]
        idx = 0
        for types in list(itertools.product(kinds, repeat=u["n"])) + ([("cont",) * 3] if u["n"] == 1 else []):
            if any((types + ("x",)).count(x) > len(neural.POOL[x]) - (x in ("cont", "poiss")) for x in types):
                continue
            for target in ("cont", "poiss"):
                for form in dag.FORMS:
                    idx += 1
                    if idx % u["mod"] == u["rem"]:
                        attempt(ctx, H, types, target, form, idx, standardize=idx % 4 < 2)
                        if u["n"] < 3:
                            attempt(ctx, H, types, target, form, idx + 1, standardize=idx % 4 >= 2, intercept=idx % 3 > 0)
        ctx.sample(u)
    elif u["k"] == "tabu":
        off = [(i, j) for i in range(3) for j in range(3) if i != j]
        most = None if u["all"] else 1
        idx = 0
        for e in dag.subsets(off, None if u["all"] else 2):
            for p in dag.subsets(range(3), most):
                for c in dag.subsets(range(3), most):
                    for dependent in (True, False):
                        idx += 1
                        if idx % u["mod"] != u["rem"]:
                            continue
                        attempt(ctx, H, (("cont", "cont"), ("cat", "cont"), ("bin", "cat"))[idx % 3], ("cont", "poiss")[idx % 2], ("frame", "named", "array", "words")[idx // 4 % 4], idx,
                                e=e or None, p=p or None, c=c or None, dependent=dependent)
        ctx.sample(u)
    elif u["k"] == "dag":
        off = [(i, j) for i in range(3) for j in range(3) if i != j]
        for idx, vals in enumerate(itertools.product((0.0, 0.3, -0.8), repeat=6)):
            if idx % u["mod"] == u["rem"]:
                attempt(ctx, H, ("cont", "cont"), "cont", ("frame", "array")[idx % 2], idx, dependent=idx % 3 > 0, edges={a: v * (1 + 0.1 * n) for n, (a, v) in enumerate(zip(off, vals))},
                        enforce=idx % 2 == 0, threshold=(0.0, 0.5)[idx // 2 % 2])
    elif u["k"] == "names":
        for names in dag.FEATURES[u["i"]:][:1]:
            for yname in ("y", None, "", 0, 3, "a", "t", 1, ("t", 2)):
                for form in ("named", "array", "frame", "words"):
                    for dependent in (True, False):
                        attempt(ctx, H, ("cont", "cont", "cont"), "cont", form, 1, names=names, yname=yname, dependent=dependent)
                        attempt(ctx, H, ("cat", "cont"), "cont", form, 2, names=names[:2], yname=yname, dependent=dependent)
    elif u["k"] == "histories":
        histories(ctx, H, u)
    elif u["k"] == "penalties":
        for k, (alpha, beta) in enumerate(itertools.product((0.0, 0.05, 0.3), repeat=2)):
            for j, types in enumerate((("cont",), ("cont", "cont"), ("bin", "cont"), ("cat",), ("ord", "cont"))):
                for intercept in (True, False):
                    attempt(ctx, H, types, ("cont", "poiss")[(k + j) % 2], ("frame", "array", "named")[(k + j) % 3], k + j, alpha=alpha, beta=beta, intercept=intercept)
        ctx.sample(u)
    elif u["k"] == "small":
        off = [(i, j) for i in range(3) for j in range(3) if i != j]
        for k, threshold in enumerate((0.0, 0.01, 0.05, 0.1, 0.2, 1.0)):
            for j, scale in enumerate((0.004, 0.03, 0.07, 0.15, 0.9)):
                for intercept in (True, False):
                    attempt(ctx, H, ("cont", "cont"), ("cont", "poiss")[j % 2], ("frame", "array")[(k + j) % 2], k + j, threshold=threshold, intercept=intercept, dependent=False,
                            edges={a: scale * (1 if n % 2 else -1) * (1 + 0.11 * n) for n, a in enumerate(off)})
        ctx.sample(u)
    elif u["k"] == "switch":
        switches(ctx, H)
    elif u["k"] == "broad":
        broad(ctx, H, u["i"])
    elif u["k"] == "passed":
        passed(ctx, H)
    elif u["k"] == "plot":
        plots(ctx, H)
    elif u["k"] == "clone":
        clones(ctx, H, H["Regressor"], ("cont", "poiss"))
    elif u["k"] == "unfitted":
        X = np.array([[1.0, 2.0], [0.5, 1.5]])
        for kw in ({}, {"standardize": True}, {"target_dist_type": "cont", "standardize": True}, {"target_dist_type": "poiss"}):
            for what in ("predict", "get_edges_to_node", "coef_", "feature_importances_"):
                ctx.trace()
                est = H["Regressor"](**kw)
                ctx.raises(lambda: est.predict(X) if what == "predict" else est.get_edges_to_node("a") if what == "get_edges_to_node" else getattr(est, what), H["NotFitted"] if not what.endswith("_") else AttributeError, "DAGRegressor(%r), not fitted: %s" % (kw, what))
    elif u["k"] == "invalid":
        invalid(ctx, H)
    elif u["k"] == "hidden":
        hidden(ctx, H, u["layers"])
    else:
        real(ctx, H, u["i"])


def attempt(ctx, H, types, target, form, k, names=None, yname="y", e=None, p=None, c=None, dependent=True, standardize=False, intercept=True, threshold=0.0, enforce=False, edges=None, est=None, alpha=0.0, beta=0.0):
    np, pd = H["np"], H["pd"]
    n = len(types)
    cols = neural.table(tuple(types) + (target,))
    if form == "int" and "cont" in types:
        # whole numbers are continuous data, too
        cols = [[int(round(10 * v)) for v in col] if t == "cont" else col for t, col in zip(types, cols)] + cols[n:]
    X, y, names, yname = dag.wrap(H, cols[:n], cols[n], form, list(names or dag.FEATURES[0])[:n], yname)
    scaled, scale = list(cols), None
    if standardize:
        for i, t in enumerate(types):
            if t == "cont":
                scaled[i] = dag.standardised(np, cols[i])[0]
        if "cont" not in types:
            return
        if target == "cont":
            scaled[n], mean, std = dag.standardised(np, cols[n])
            scale = (mean, std)
    spec = neural.Mixed(np, tuple(types) + (target,), scaled, intercept, alpha, beta)
    if edges is None:
        ans = neural.values(spec.meanings, k)
    else:
        ans = {m: (edges.get((m[1][0], m[2][0]), 0.0) if m[0] == "w" else 0.1) for m in spec.meanings}
    # the intercepts of standardised columns all have the same effect on the objective
    centred = [i for i, t in enumerate(spec.types) if t == "cont" and standardize]
    for i in centred:
        if ("b", (i, 0)) in ans:
            ans[("b", (i, 0))] = 0.37
    same = (lambda m: "b" if m[0] == "b" and m[1][0] in centred else m) if centred else None
    kw = {"dependent_target": dependent, "fit_intercept": intercept, "threshold": threshold, "enforce_dag": enforce, "standardize": standardize, "alpha": alpha, "beta": beta, "max_iter": 2}
    if target != "cont" or k % 3 == 0:
        kw["target_dist_type"] = target
    if any(t != "cont" for t in types) or k % 2:
        order = list(range(n))[::-1] if k % 4 < 2 else list(range(n))
        kw["dist_type_schema"] = {names[i]: types[i] for i in order}
    label = lambda i: names[i] if i < n else (yname if yname is not None else "__target")
    if yname in names or (yname is not None and not yname):
        # a name that is taken (or no name at all) cannot be used for the target
        if e or p or c:
            return
    if e is not None:
        kw["tabu_edges"] = [(label(i), label(j)) for i, j in e]
    if p is not None:
        kw["tabu_parent_nodes"] = [label(i) for i in p]
    if c is not None:
        kw["tabu_child_nodes"] = [label(i) for i in c]
    given = copy.deepcopy(kw)
    desc = "DAGRegressor(%s) on %s of %r named %r and the target %r" % (", ".join("%s=%r" % x for x in sorted(kw.items())), form, types, names, yname)
    if est is None:
        est = H["Regressor"](**kw)
    ok_edge = dag.allowed(n + 1, n, e, p, c, dependent)
    if not dag.fit(ctx, H, est, X, y, desc, Script([ans], spec.score, spec.meanings, default=0.6, joint=spec.objective, frozen=lambda m: m[0] == "w" and not ok_edge(m[1][0], m[2][0]), same=same)):
        return
    ctx.check(kw == given, "%s: changed its options to %r" % (desc, kw))
    final = {m: (0.0 if m[0] == "w" and not ok_edge(m[1][0], m[2][0]) else w) for m, w in ans.items()}
    report(ctx, H, est, desc, spec, types, names, final, threshold, enforce, intercept)
    predict(ctx, H, est, desc, spec, types, X, cols, final, scale, form)
    ctx.outcome((types, target, form, standardize))
    return est


def report(ctx, H, est, desc, spec, types, names, final, threshold, enforce, intercept):
    np = H["np"]
    n = len(types)
    tv = (n, 0)
    ok, res = ctx.guard(lambda: (np.asarray(est.coef_), np.asarray(est.feature_importances_), est.intercept_, est.graph_), desc + ": reports")
    if not ok:
        return
    coef, imp, icpt, graph = res
    want = [final[("w", (i, 0), tv)] if abs(final[("w", (i, 0), tv)]) >= threshold else 0.0 for i in range(n)]
    if enforce:
        es = [(a, b) for a, b in graph.edges]
        if not acyclic(list(graph.nodes), es):
            ctx.fail("%s: the graph has a cycle: %r" % (desc, es))
        full = {}
        for m, w in final.items():
            if m[0] == "w" and w and abs(w) >= threshold:
                full[(m[1], m[2])] = w
        # the edges above the smallest weight at which the rest is acyclic
        order = sorted(full, key=lambda x: abs(full[x]))
        while order and not acyclic(spec.vars, order):
            order = order[1:]
        want = [full[((i, 0), tv)] if ((i, 0), tv) in order else 0.0 for i in range(n)]
        if len(es) != len(order):
            ctx.fail("%s: the graph has the edges %r, should keep %r" % (desc, es, order))
    if coef.ndim != 1 or len(coef) < n or any(not neural.close(float(coef[i]), want[i]) for i in range(n)):
        ctx.fail("%s: coef_ is %r, the effects on the target are %r" % (desc, coef.tolist(), want))
    if imp.ndim != 1 or len(imp) < n or any(not neural.close(float(imp[i]), abs(want[i])) for i in range(n)):
        ctx.fail("%s: feature_importances_ is %r, should be %r" % (desc, imp.tolist(), [abs(w) for w in want]))
    if not isinstance(icpt, float) or not neural.close(icpt, final[("b", tv)] if intercept else 0.0):
        ctx.fail("%s: intercept_ is %r, should be %r" % (desc, icpt, final.get(("b", tv), 0.0)))
    if len(graph.nodes) != len(spec.vars) or not set(names) <= set(graph.nodes):
        ctx.fail("%s: the graph has the nodes %r" % (desc, list(graph.nodes)))
        return
    if enforce:
        return
    # the effects on every feature, and all of them by the number of edges
    keep = [m for m, w in final.items() if m[0] == "w" and w and abs(w) >= threshold]
    ctx.check(len(graph.edges) == len(keep), "%s: the graph has %d edges, %d effects reach the threshold" % (desc, len(graph.edges), len(keep)))
    for j in range(n):
        for data in ("weight", "mean_effect"):
            ctx.trans()
            ok, got = ctx.guard(lambda: est.get_edges_to_node(names[j], data=data), "%s: get_edges_to_node(%r, %r)" % (desc, names[j], data))
            if not ok:
                return
            exp = []
            for i in range(n):
                w = final[("w", (i, 0), (j, 0))] if i != j else 0.0
                exp.append(0.0 if abs(w) < threshold else w if data == "mean_effect" else abs(w))
            vals = [float(v) for v in got.values]
            if list(got.index)[:n] != list(names) or any(not neural.close(a, b) for a, b in zip(vals, exp)):
                ctx.fail("%s: the effects on %r (%s) are %r, should be %r" % (desc, names[j], data, dict(zip(got.index, vals)), exp))


def predict(ctx, H, est, desc, spec, types, X, cols, final, scale, form):
    np = H["np"]
    n = len(types)
    W, b = spec.params(final)
    m = len(cols[0])
    for rows in (list(range(m)), [4, 0, 4], [2]):
        E = spec.E[rows].copy()
        # the value of the target is not known
        for j, v in enumerate(spec.vars):
            if v[0] == n:
                E[:, j] = 0.0
        z = spec.link(spec.latent(E, W, b))[n]
        if scale:
            z = z * scale[1] + scale[0]
        Xr = dag.row(X, rows)
        before = dag.snapshot(H, Xr)
        ctx.trans()
        ok, got = ctx.guard(lambda: est.predict(Xr), "%s: predict rows %r" % (desc, rows))
        if not ok:
            return
        got = np.asarray(got)
        if got.shape != z.shape or np.abs(got - z).max() > 1e-7 * max(1.0, np.abs(z).max()):
            ctx.fail("%s: predictions for rows %r are %r, should be %r" % (desc, rows, got.tolist(), z.tolist()))
        ctx.check(dag.snapshot(H, Xr) == before, "%s: predict changed its input" % desc)


def broad(ctx, H, at):
    """nine and more features: the reports are those of the graph, and the predictions follow them"""
    np = H["np"]
    types = [("cont",) * 12, ("cont", "bin", "ord", "poiss") * 3, ("bin",) * 4 + ("cont",) * 9, ("ord", "cont", "cont") * 3 + ("poiss",) * 2][at]
    n, rows = len(types), 23
    draw = lambda i, r: ((r * 37 + i * 101) * (r + 2 * i + 5) % 997) / 100.0 - 4.6
    cols = []
    for i, t in enumerate(types):
        c = [draw(i, r) for r in range(rows)]
        cols.append({"cont": c, "bin": [int(v > 0) for v in c], "poiss": [int(abs(v)) for v in c], "ord": [2 * (int(v + 5) // 3) for v in c]}[t])
    y = [draw(40, r) for r in range(rows)]
    levels = [sorted(set(c)) for c in cols]
    for names in (["f%d" % i for i in range(n)], ["%d" % (n - i) for i in range(n)], list(range(n))[::-1], [("1" if i == 3 else i) for i in range(n)]):
        for standardize in (False, True):
            for k, form in enumerate(("frame", "named", "array", "words")):
                X, Y, nm, yname = dag.wrap(H, cols, y, form, list(names), ("y", "target")[k % 2])
                kw = {"standardize": standardize, "max_iter": 2, "fit_intercept": k != 1}
                if set(types) != {"cont"} or k % 2:
                    kw["dist_type_schema"] = {nm[i]: types[i] for i in sorted(range(n), key=lambda i: (i * 5 % n, i))}
                raw = [(1 if (i * 5 + at) % 3 else -1) * (0.002 + 0.00117 * ((i * 3 + i // 9 + k) % 13) + 1.3e-7 * (i % 31)) for i in range(2003)]
                desc = "DAGRegressor(%s) on %s of %r named %r" % (", ".join("%s=%r" % x for x in sorted(kw.items())), form, types, nm)
                est = H["Regressor"](**kw)
                if not dag.fit(ctx, H, est, X, Y, desc, Script([raw], None)):
                    return
                ok, res = ctx.guard(lambda: (np.asarray(est.coef_, dtype=float), np.asarray(est.feature_importances_, dtype=float), float(est.intercept_), est.graph_), desc + ": reports")
                if not ok:
                    return
                coef, imp, icpt, graph = res
                other = [x for x in graph.nodes if x not in nm]
                if len(other) != 1 or len(graph.nodes) != n + 1:
                    ctx.fail("%s: the graph has the nodes %r" % (desc, list(graph.nodes)))
                    return
                t = other[0]
                for j in list(nm) + [t]:
                    for data in ("weight", "mean_effect"):
                        exp = [graph.edges[i, j][data] if graph.has_edge(i, j) else 0.0 for i in nm]
                        ok, got = ctx.guard(lambda: est.get_edges_to_node(j, data=data), "%s: get_edges_to_node(%r)" % (desc, j))
                        if not ok:
                            return
                        vals = [float(v) for v in got.values]
                        if list(got.index) != list(nm) or any(abs(a - b) > 1e-12 for a, b in zip(vals, exp)):
                            ctx.fail("%s: the effects on %r (%s) are %r, the graph has %r" % (desc, j, data, dict(zip(got.index, vals)), exp))
                w = np.array([graph.edges[i, t]["mean_effect"] if graph.has_edge(i, t) else 0.0 for i in nm])
                if len(coef) != n or np.abs(coef - w).max() > 1e-12 or np.abs(imp - np.abs(w)).max() > 1e-12:
                    ctx.fail("%s: coef_ is %r and feature_importances_ %r, the graph has %r" % (desc, coef.tolist(), imp.tolist(), w.tolist()))
                if (w == 0).any():
                    ctx.fail("%s: no effect of %r on the target, the optimum has one" % (desc, [x for x, v in zip(nm, w) if v == 0]))
                E = np.array([[float(levels[i].index(v)) for v in c] if types[i] == "ord" else c for i, c in enumerate(cols)], dtype=float).T
                mean, std = 0.0, 1.0
                if standardize:
                    for i in range(n):
                        if types[i] == "cont":
                            E[:, i] = dag.standardised(np, cols[i])[0]
                    _, mean, std = dag.standardised(np, y)
                want = (E.dot(w) + icpt) * std + mean
                for pick in (list(range(rows)), [3], [8, 1, 8]):
                    ctx.trans()
                    Xr = dag.row(X, pick)
                    ok, got = ctx.guard(lambda: np.asarray(est.predict(Xr), dtype=float), desc + ": predict")
                    if ok and (got.shape != (len(pick),) or np.abs(got - want[pick]).max() > 1e-7):
                        ctx.fail("%s: the predictions of rows %r are %r, coefficients and intercept give %r" % (desc, pick, got.tolist(), want[pick].tolist()))
                ctx.outcome((at, form, standardize))


OPS = [("cont", ("cont", "cont"), "frame", False), ("cont", ("cat", "cont"), "named", False), ("poiss", ("cont",), "array", False), ("cont", ("cont", "cont"), "words", True), ("cont", ("ord", "bin"), "array", False), ("cont", ("cont",), "named", True)]


def histories(ctx, H, u):
    """the last fit counts, whatever was fitted before"""
    for rest in itertools.product(range(len(OPS)), repeat=u["deep"] - 1):
        seq = (u["first"],) + rest
        std = {OPS[i][3] for i in seq}
        # options are those of the estimator: only fits under the same ones share one
        keys = {(OPS[i][0], OPS[i][3]) for i in seq}
        if len(std) > 1 or len(keys) > 1:
            continue
        est = None
        for step, i in enumerate(seq):
            target, types, form, s = OPS[i]
            if est is not None:
                # a new schema goes with new columns
                order = {("abc"[j] if form in ("frame", "named", "words") else j): t for j, t in enumerate(types)}
                est.set_params(dist_type_schema=order)
            est = attempt(ctx, H, types, target, form, step * 2 + 1, standardize=s, est=est)
            if est is None:
                break


def switches(ctx, H):
    """the options of the last fit count, also those of scaling and of the target"""
    for seq in itertools.product(itertools.product(("cont", "poiss"), (False, True)), repeat=2):
        for types in (("cont", "cont"), ("bin", "cont")):
            est = None
            for step, (target, s) in enumerate(seq):
                if est is not None:
                    est.set_params(standardize=s, target_dist_type=target)
                est = attempt(ctx, H, types, target, ("frame", "array")[step], 2 * step + (3 if "bin" in types else 2), standardize=s, est=est)
                if est is None:
                    break
                # the columns of the second fit are numbered
                est.set_params(dist_type_schema={i: t for i, t in enumerate(types)})


def passed(ctx, H):
    """further options reach the search: as many steps as it takes by itself"""
    np = H["np"]
    import causalnex.structure.pytorch as pt
    cols = neural.table(("cont",) * 3)
    D = np.array(cols).T
    for opts in ({}, {"max_iter": 1}, {"max_iter": 3}, {"max_iter": 12}):
        for ans in ([0.0], [0.4], [0.9 * 0.7 ** k for k in range(40)]):
            spec = neural.Mixed(np, ("cont",) * 3, cols, True)
            answers = [{m: (w if m[0] == "w" else 0.1) for m in spec.meanings} for w in ans]
            free = lambda m: not (m[0] == "w" and m[1][0] == 2)
            counts = []
            for how in ("search", "estimator"):
                ctx.state()
                ctx.trans()
                ctx.trace()
                script = Script(answers, spec.score, spec.meanings, default=0.6, joint=spec.objective, frozen=lambda m: not free(m), limit=4000)
                with script:
                    if how == "search":
                        frame = H["pd"].DataFrame({"a": cols[0], "b": cols[1], "y": cols[2]})
                        ok, _ = ctx.guard(lambda: pt.notears.from_pandas(frame, tabu_parent_nodes=["y"], use_bias=True, w_threshold=0.0, lasso_beta=0.0, ridge_beta=0.0, **opts), "from_pandas(%r)" % opts)
                    else:
                        ok, _ = ctx.guard(lambda: H["Regressor"](**opts).fit(D[:, :2], D[:, 2]), "DAGRegressor(%r)" % opts)
                counts.append(script.calls if ok else None)
            if None not in counts and counts[0] and counts[1]:
                ctx.check(counts[0] == counts[1], "DAGRegressor(%r): the optimiser is asked %r times, %r times by from_pandas" % (opts, counts[1], counts[0]))


def plots(ctx, H):
    """a picture of the graph leaves the estimator as it is"""
    np = H["np"]
    for k in range(4):
        cols = neural.table(("cont",) * 3)
        spec = neural.Mixed(np, ("cont",) * 3, cols, True)
        ans = neural.values(spec.meanings, k)
        est = H["Regressor"](dependent_target=False, max_iter=1)
        X, y = np.array(cols[:2]).T, np.array(cols[2])
        if not dag.fit(ctx, H, est, X, y, "DAGRegressor(dependent_target=False)", Script([ans], spec.score, spec.meanings, joint=spec.objective)):
            continue
        snap = lambda: (sorted((repr(a), repr(b), d["weight"], d["mean_effect"]) for a, b, d in est.graph_.edges(data=True)), sorted(repr(x) for x in est.graph_.nodes), est.predict(X).tolist(), est.coef_.tolist())
        before = snap()
        for enforce in (True, False):
            ctx.trans()
            try:
                est.plot_dag(enforce_dag=enforce, use_mpl=k % 2 == 0)
            except Exception:  # noqa - drawing programs are missing here: what has been done to the estimator until then counts
                pass
            ctx.check(snap() == before, "plot_dag(enforce_dag=%r) changed the fitted estimator" % enforce)


def clones(ctx, H, cls, targets):
    base = {"dist_type_schema": {"a": "cat", "b": "cont"}, "alpha": 0.1, "beta": 0.2, "fit_intercept": False, "hidden_layer_units": [2], "threshold": 0.3, "tabu_edges": [("a", "b")],
            "tabu_parent_nodes": ["a"], "tabu_child_nodes": ["b"], "dependent_target": False, "enforce_dag": True, "standardize": True}
    for k, v in list(base.items()) + [("target_dist_type", t) for t in targets]:
        ctx.state()
        ctx.trans()
        ctx.trace()
        est = cls(**{k: copy.deepcopy(v)})
        ok, res = ctx.guard(lambda: (est.get_params(), H["clone"](est).get_params()), "%s(%s=%r): clone" % (cls.__name__, k, v))
        if ok:
            for got, what in zip(res, ("get_params", "the clone's get_params")):
                if got.get(k) != v:
                    ctx.fail("%s(%s=%r): %s has %r" % (cls.__name__, k, v, what, got.get(k)))
        new = cls()
        ok, _ = ctx.guard(lambda: new.set_params(**{k: v}), "%s: set_params(%s=%r)" % (cls.__name__, k, v))
        if ok and new.get_params().get(k) != v:
            ctx.fail("%s: set_params(%s=%r) leaves %r" % (cls.__name__, k, v, new.get_params().get(k)))
    np = H["np"]
    # the clone of a fitted estimator is not fitted, but fits alike
    for t in targets:
        cols = neural.table(("cont", "cont", t))
        spec = neural.Mixed(np, ("cont", "cont", t), cols, True)
        ans = neural.values(spec.meanings, 3)
        X, y = np.array(cols[:2], dtype=float).T, np.array(cols[2])
        est = cls(target_dist_type=t, max_iter=2)
        if dag.fit(ctx, H, est, X, y, "%s(target_dist_type=%r)" % (cls.__name__, t), Script([ans], spec.score, spec.meanings)):
            new = H["clone"](est)
            ctx.raises(lambda: new.predict(X), H["NotFitted"], "clone of a fitted %s: predict" % cls.__name__)
            if dag.fit(ctx, H, new, X, y, "clone of %s(target_dist_type=%r)" % (cls.__name__, t), Script([ans], spec.score, spec.meanings)):
                ok, res = ctx.guard(lambda: (np.asarray(est.predict(X)), np.asarray(new.predict(X))), "predictions of the clone")
                if ok and not (res[0].shape == res[1].shape and np.array_equal(res[0], res[1])):
                    ctx.fail("the clone of %s(target_dist_type=%r) predicts %r instead of %r" % (cls.__name__, t, res[1].tolist(), res[0].tolist()))


def invalid(ctx, H):
    np = H["np"]
    cls = H["Regressor"]
    for k, bads in (("alpha", ("0.1", None, [0.1])), ("beta", ("0.1", None, [0.1])), ("fit_intercept", (0, 1, "yes", None)), ("threshold", ("0", None, [1]))):
        for bad in bads:
            ctx.trace()
            ctx.raises(lambda: cls(**{k: bad}), TypeError, "DAGRegressor(%s=%r)" % (k, bad))
    for bad in ("cat", "bin", "ord", "normal", ""):
        ctx.trace()
        ctx.raises(lambda: cls(target_dist_type=bad), NotImplementedError, "DAGRegressor(target_dist_type=%r)" % bad)
    X, y = np.array([[1.0, 2.0], [0.5, 1.5], [2.0, 0.0]]), np.array([1.0, 2.0, 0.5])
    for bad in (np.nan, np.inf):
        for r in range(3):
            for c in range(3):
                A, b = X.copy(), y.copy()
                if c < 2:
                    A[r, c] = bad
                else:
                    b[r] = bad
                ctx.state()
                ctx.trans()
                ctx.trace()
                with Script([[0.0]]):
                    ctx.raises(lambda: cls().fit(A, b), ValueError, "DAGRegressor.fit with %r at row %d column %d" % (bad, r, c))
    for A, b in ((X, y[:2]), (X[:2], y), (X[:0], y[:0])):
        ctx.trace()
        with Script([[0.0]]):
            ctx.raises(lambda: cls().fit(A, b), ValueError, "DAGRegressor.fit with %d rows and %d targets" % (len(A), len(b)))
    ctx.trace()
    with Script([[0.0]]):
        ctx.raises(lambda: cls(target_dist_type="poiss").fit(X, np.array([1, -1, 2])), ValueError, "DAGRegressor.fit with a negative count")


def hidden(ctx, H, layers):
    """hidden layers: reports against the slopes of the predictions themselves"""
    np = H["np"]
    for k in range(6):
        for form in ("array", "frame", "words"):
            for dependent in (True, False):
                cols = neural.table(("cont",) * 3)
                X, y, names, _ = dag.wrap(H, cols[:2], cols[2], form, ["a", "b"])
                est = H["Regressor"](hidden_layer_units=list(layers), dependent_target=dependent, max_iter=1, beta=0.1, standardize=False)
                raw = [(1 if (i * 7 + k) % 3 else -1) * (0.2 + 0.13 * ((i * 5 + 2 * k) % 9)) for i in range(61)]
                desc = "DAGRegressor(hidden_layer_units=%r, dependent_target=%r) on %s, answer %d" % (layers, dependent, form, k)
                if not dag.fit(ctx, H, est, X, y, desc, Script([raw], None)):
                    continue
                A = np.array(cols[:2]).T
                ok, res = ctx.guard(lambda: (np.asarray(est.predict(X)), np.asarray(est.coef_), np.asarray(est.feature_importances_)), desc + ": reports")
                if not ok:
                    continue
                base, coef, imp = res
                for r in range(len(A)):
                    ok, one = ctx.guard(lambda: np.asarray(est.predict(A[[r]])), desc + ": predict one row")
                    if ok and (one.shape != (1,) or abs(one[0] - base[r]) > 1e-9):
                        ctx.fail("%s: row %d is predicted %r alone and %r among others" % (desc, r, one.tolist(), base[r]))
                for i in range(2):
                    # features only: the target itself is not an input of its prediction
                    sl = []
                    for s in (1e-5, -1e-5):
                        B = A.copy()
                        B[:, i] += s
                        sl.append(np.asarray(est.predict(B)))
                    d = (sl[0] - sl[1]) / 2e-5
                    if abs(d.mean() - coef[i]) > 1e-5 or abs(np.abs(d).mean() - imp[i]) > 1e-5:
                        ctx.fail("%s: feature %d has coefficient %r and importance %r, the slopes of the predictions have %r and %r" % (desc, i, coef[i], imp[i], d.mean(), np.abs(d).mean()))
                ctx.outcome((tuple(layers), k))


def real(ctx, H, i):
    """the real optimiser on an exact linear law: found, whatever the container"""
    np = H["np"]
    cols = neural.table(("cont", "cont"))
    y = [1.5 * a - 0.7 * b + 0.25 for a, b in zip(*cols)]
    for form in dag.FORMS[:-1]:
        X, Y, names, _ = dag.wrap(H, cols, y, form, ["a", "b"])
        est = H["Regressor"](standardize=i % 2 == 1, tabu_child_nodes=["a", "b"] if i // 2 and form not in ("array",) else None)
        desc = "DAGRegressor(standardize=%r) on %s of an exact linear law" % (i % 2 == 1, form)
        if not dag.fit(ctx, H, est, X, Y, desc):
            continue
        ok, got = ctx.guard(lambda: np.asarray(est.predict(X)), desc)
        if ok and np.abs(got - np.array(y)).max() > 0.05:
            ctx.fail("%s: predictions are off by %r" % (desc, float(np.abs(got - np.array(y)).max())))
        ctx.outcome((form, i))
