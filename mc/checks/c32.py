"""The torch based learner on columns of mixed types: one variable per category, constraints on whole columns, predictions on the scale of the data."""
import copy
import itertools
import logging
import warnings

from .. import neural
from ..graphs import graph_of
from ..optim import Script

PROPERTY = "C32"
MEANING = ("state = (types and names of the columns, order of the schema, constraints, threshold, answer of the optimiser); transition = one call of a learner or of its reconstruction; trace = one learned structure compared with "
           "the specification of the expanded model (nodes, types, edges, collapsed graph, bias, predicted means and probabilities)")
BOUNDS = {
    "quick": "every assignment of the 5 types to 1-3 columns x every order of the schema x 2 dense answers x 2 thresholds, both learners; forbidden edges (every set of <= 2), parents and children (every set) for 6 assignments with categorical columns; "
             "4, 5 and 11 classes, and classes of one row in 400; five mixes of 10 to 15 columns; names that extend one another; schemas of other columns and types; every row with a negative count; one or two hidden layers for every pair of types",
    "thorough": "as quick with 4 columns of {cont, cat, ord}, forbidden sets for every assignment to 3 columns that has a categorical one, and every set of forbidden edges",
}
ASSUMPTIONS = ["torch is a stand-in (numpy, double precision, reverse-mode gradients); optimiser modelled as any procedure returning a vector within the given bounds"]
CHUNK = 2
UNIT_CPU = 900
TYPES = ("cont", "bin", "cat", "ord", "poiss")
CLASSES = {"cont": "DistTypeContinuous", "bin": "DistTypeBinary", "cat": "DistTypeCategorical", "ord": "DistTypeOrdinal", "poiss": "DistTypePoisson"}
TABU = [("cat", "cont"), ("cont", "cat", "bin"), ("cat", "cat", "cont"), ("cat", "bin", "cat"), ("ord", "cat", "poiss"), ("cat", "cont", "cat")]
NAMES = [["a", "b", "c", "d"], ["c", "c1", "c2", "c11"], ["c1", "c", "c11", "c2"], ["x10", "x1", "x", "x2"], ["a1_", "a1", "a", "a2"], ["a", "a1__", "a1_", "a1"], [10, 1, 0, 2], ["a", ("a", 1), "a1", 1]]


def units(tier):
    t = tier == "thorough"
    us = [{"k": "types", "n": n, "mod": m, "rem": i} for n, m in ((1, 1), (2, 4), (3, 16)) + (((4, 16),) if t else ()) for i in range(m)]
    fam = [x for n in (2, 3) for x in itertools.product(TYPES, repeat=n) if "cat" in x and x.count("cat") < 3] if t else TABU
    us += [{"k": "tabu", "types": list(x), "all": t and len(x) < 3} for x in fam]
    us += [{"k": "names", "at": i} for i in range(len(NAMES))]
    us += [{"k": "hidden", "first": a} for a in TYPES]
    us += [{"k": "many", "at": i} for i in range(5)]
    us += [{"k": "wide"}, {"k": "invalid"}]
    return us


def subsets(xs, most=None):
    return [list(c) for k in range(len(xs) + 1 if most is None else most + 1) for c in itertools.combinations(xs, k)]


def fits(types):
    return all(types.count(x) <= len(neural.POOL[x]) for x in types)


def run_unit(u, ctx):
    nt = neural.load()
    import numpy as np
    import pandas as pd
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    np.seterr(all="ignore")
    H = {"np": np, "pd": pd, "nt": nt}
    if u["k"] == "types":
        kinds = TYPES if u["n"] < 4 else ("cont", "cat", "ord")
        for idx, types in enumerate(itertools.product(kinds, repeat=u["n"])):
            if idx % u["mod"] != u["rem"] or not fits(types):
                continue
            orders = list(itertools.permutations(range(u["n"])))
            for k, order in enumerate(orders):
                if u["n"] > 3 and (k + idx) % 5:
                    continue
                attempt(ctx, H, (idx + k) % 2 == 0, types, order, k + idx, (None, 0.4)[(k // 2 + idx) % 2], bias=(idx + k) % 3 == 0)
                attempt(ctx, H, (idx + k) % 2 == 1, types, order, k + idx + 1, (None, 0.4)[(k // 2 + idx) % 2], bias=(idx + k) % 3 == 0)
        ctx.sample(u)
    elif u["k"] == "tabu":
        types = tuple(u["types"])
        n = len(types)
        off = [(i, j) for i in range(n) for j in range(n) if i != j]
        orders = list(itertools.permutations(range(n)))
        cases = [(e, [], []) for e in subsets(off, None if u["all"] else 2)] + [([], p, c) for p in subsets(range(n)) for c in subsets(range(n))]
        cases += [([e], [p], [c]) for e in off for p in range(n) for c in range(n)] + [([(i, i)], [], []) for i in range(n)]
        for k, (e, p, c) in enumerate(cases):
            attempt(ctx, H, k % 2 == 0, types, orders[k % len(orders)], k, None, e if k % 3 == 0 else e or None, p if k % 3 == 0 else p or None, c if k % 3 == 0 else c or None)
        ctx.sample(u)
    elif u["k"] == "names":
        for types in (("cat", "cont", "cat"), ("cat", "cat", "ord"), ("cont", "cat", "bin"), ("cat", "bin", "cont")):
            for k, order in enumerate(itertools.permutations(range(3))):
                attempt(ctx, H, True, types, order, k, None, names=NAMES[u["at"]])
                for tabu in (([(0, 1)], None, None), (None, [0], None), (None, None, [1]), ([(2, 0), (1, 2)], None, [0])):
                    attempt(ctx, H, True, types, order, k, None, *tabu, names=NAMES[u["at"]])
    elif u["k"] == "wide":
        for n, types in enumerate([x for r in (1, 2) for x in itertools.product(TYPES, repeat=r) if x.count("cat") + x.count("ord") and x.count("cat") < 2]):
            for order in itertools.permutations(range(len(types))):
                for panda in (False, True):
                    attempt(ctx, H, panda, types, order, n, None, bias=True, wide=True)
                    if types != ("ord", "ord") and panda == bool(n % 2):
                        attempt(ctx, H, panda, types, order, n, None, bias=True, wide="many")
                        attempt(ctx, H, panda, types, order, n, None, bias=True, wide="rare")
    elif u["k"] == "many":
        many(ctx, H, u["at"])
    elif u["k"] == "invalid":
        invalid(ctx, H)
    else:
        for n, b in enumerate(TYPES):
            for k, layers in enumerate(([1], [2], [2, 2]), n):
                hidden(ctx, H, (u["first"], b), layers, k)


def call(ctx, H, panda, types, order, thr, e, p, c, bias, names, script, extra=None, wide=False):
    np, pd, nt = H["np"], H["pd"], H["nt"]
    cols = neural.table(types, wide)
    n = len(types)
    names = (names or NAMES[0])[:n] if panda else list(range(n))
    whole = panda and not any(t == "cont" for t in types)
    X = np.array(cols, dtype=int if whole else float).T
    kw = {"dist_type_schema": {names[i]: types[i] for i in order}, "w_threshold": thr, "use_bias": bias, "max_iter": 2}
    if e is not None:
        kw["tabu_edges"] = [(names[i], names[j]) for i, j in e]
    if p is not None:
        kw["tabu_parent_nodes"] = [names[i] for i in p]
    if c is not None:
        kw["tabu_child_nodes"] = [names[i] for i in c]
    kw.update(extra or {})
    given = copy.deepcopy(kw)
    data = pd.DataFrame({names[i]: cols[i] for i in range(n)}) if panda else X.copy()
    desc = "from_%s(%s)" % ("pandas" if panda else "numpy", ", ".join("%s=%r" % i for i in sorted(kw.items())))
    ctx.state()
    ctx.trans()
    ctx.trace()
    with script:
        ok, sm = ctx.guard(lambda: (nt.from_pandas if panda else nt.from_numpy)(data, **kw), desc, cpu=90)
    if not ok:
        return None
    if not script.calls:
        ctx.gaps["the optimiser model was not asked"] = ctx.gaps.get("the optimiser model was not asked", 0) + 1
        return None
    ctx.check(kw == given, "%s: changed its arguments to %r" % (desc, kw))
    same = (list(data.columns) == names and [data[x].tolist() for x in names] == cols) if panda else np.array_equal(data, X)
    ctx.check(same, "%s: changed the data" % desc)
    return desc, sm, names, cols, X


def nodes_of(ctx, desc, sm, spec, types, names, order, panda):
    """{variable of the model: node}"""
    nodes, _ = graph_of(sm)
    groups = {}
    for n, dat in nodes.items():
        t = dat.get("dist_type")
        i = getattr(t, "idx", None)
        if i is None or i not in range(len(types)) or type(t).__name__ != CLASSES[types[i]]:
            ctx.fail("%s: node %r has dist_type %r" % (desc, n, t))
            return None
        groups.setdefault(i, []).append(n)
    if panda:
        plain = {v: neural.name_of(names, v) for v in spec.vars}
        if len(set(plain.values())) == len(plain):
            want = plain
        else:
            # a name is taken: only the first of each group has to keep its own
            want = {(i, l): (groups.get(i, []) + [None] * len(spec.vars))[l] for i, l in spec.vars}
            for i, x in enumerate(names):
                if want[(i, 0)] != x:
                    ctx.fail("%s: column %r has the nodes %r" % (desc, x, groups.get(i)))
                    return None
    else:
        want, nxt = {}, len(types)
        for i in order:
            for l in range(sum(v[0] == i for v in spec.vars)):
                want[(i, l)] = i if l == 0 else nxt
                nxt += l > 0
    for i in range(len(types)):
        mine = [want[v] for v in spec.vars if v[0] == i]
        if sorted(map(repr, groups.get(i, []))) != sorted(map(repr, mine)):
            ctx.fail("%s: column %r has the nodes %r, should have %r" % (desc, names[i], groups.get(i), mine))
            return None
    return want


def attempt(ctx, H, panda, types, order, k, thr, e=None, p=None, c=None, bias=False, names=None, wide=False):
    np = H["np"]
    spec = neural.Mixed(np, types, neural.table(types, wide), bias)
    ans = neural.values(spec.meanings, k)
    if k % 4 == 3:
        ans = {m: (w if i % 3 else 0.0) for i, (m, w) in enumerate(ans.items())}
    res = call(ctx, H, panda, types, order, thr, e, p, c, bias, names, Script([ans], spec.score, spec.meanings, default=0.6), wide=wide)
    if res is None:
        return
    desc, sm, names, cols, X = res
    node = nodes_of(ctx, desc, sm, spec, types, names, order, panda)
    if node is None:
        return
    forbidden = lambda i, j: i == j or (e and (i, j) in e) or (p and i in p) or (c and j in c)
    final = {m: (0.0 if m[0] == "w" and forbidden(m[1][0], m[2][0]) else w) for m, w in ans.items()}
    want = {(node[m[1]], node[m[2]]): w for m, w in final.items() if m[0] == "w" and w and abs(w) >= (thr or 0)}
    _, got = graph_of(sm)
    if set(want) != set(got):
        ctx.fail("%s: edges %r, the optimum has %r" % (desc, sorted(got, key=repr), want))
        return
    for x, w in want.items():
        if not (neural.close(got[x]["weight"], abs(w)) and neural.close(got[x]["mean_effect"], w)) or got[x].get("origin") != "learned":
            ctx.fail("%s: edge %r has %r, the optimum is %r" % (desc, x, got[x], w))
    for v in spec.vars:
        b = sm.nodes[node[v]].get("bias")
        if (b is not None) if not bias else not neural.close(float(b), final[("b", v)]):
            ctx.fail("%s: bias of %r is %r, should be %r" % (desc, node[v], b, final.get(("b", v))))
    W, b = spec.params(final)
    if not panda:
        # the learner kept with the graph still has the matrix the graph was made from
        adj = getattr(sm.graph.get("structure_learner"), "adj", None)
        if adj is not None:
            for u, v in itertools.permutations(list(sm.nodes), 2):
                w = abs(final.get(("w",) + tuple(x for n in (u, v) for x, y in node.items() if y == n), 0.0))
                if not neural.close(float(adj[u][v]), w):
                    ctx.fail("%s: the learner has the weight %r from %r to %r, the optimum is %r" % (desc, float(adj[u][v]), u, v, w))
    g = sm.graph.get("graph_collapsed")
    S = spec.collapsed(abs(W))
    if g is None or set(g.nodes) != set(names):
        ctx.fail("%s: collapsed graph with the nodes %r" % (desc, g if g is None else list(g.nodes)))
    else:
        cw = {(x, y): w for x, y, w in g.edges(data="weight")}
        for i, j in itertools.product(range(len(types)), repeat=2):
            w = cw.get((names[i], names[j]), 0.0)
            if not neural.close(w, S[i, j]) and not ((names[i], names[j]) not in cw and S[i, j] < (thr or 0)):
                ctx.fail("%s: collapsed graph has %r from %r to %r, the weights add up to %r" % (desc, w, names[i], names[j], S[i, j]))
        if any(x == y for x, y in cw):
            ctx.fail("%s: self-loop in the collapsed graph" % desc)
    predictions(ctx, H, desc, sm, spec, node, cols, W, b)
    ctx.outcome((types, order, len(got)))


def many(ctx, H, at):
    """ten and more columns: what the graph says (effects and biases) is what the predictions follow"""
    np = H["np"]
    types = [("cont", "poiss", "bin", "ord", "cat") * 2 + ("cont", "poiss", "bin", "ord", "cont"), ("cat", "cat") + ("ord", "bin", "poiss") * 3, ("cont",) * 4 + ("bin",) * 3 + ("poiss",) * 3 + ("ord",) * 3,
             ("ord", "cont") * 3 + ("cat", "bin") * 2, ("poiss",) * 3 + ("cont",) * 4 + ("cat",) * 2 + ("bin",) * 3][at]
    n = len(types)
    names = ["v%d" % i for i in range(n)][::-1] if at % 2 else ["col %d." % i for i in range(n)]
    for order in (tuple(range(n)), tuple(range(n))[::-1], tuple(sorted(range(n), key=lambda i: (i * 7 % n, i)))):
        for panda in (False, True):
            for bias in (False, True):
                spec = neural.Mixed(np, types, neural.table(types), bias)
                for e, p, c in (([], [], []), ([(0, n - 1), (n - 1, 4), (n - 2, 9)], [], [8]), ([(8, 9), (9, 8)], [n - 1], [])):
                    raw = [(1 if (i * 5 + at) % 3 else -1) * (0.002 + 0.0011 * ((i * 3 + i // 9) % 13)) for i in range(2003)]
                    res = call(ctx, H, panda, types, order, None, e, p, c, bias, names, Script([raw], None))
                    if res is None:
                        return
                    desc, sm, nm, cols, X = res
                    node = nodes_of(ctx, desc, sm, spec, types, nm, order, panda)
                    if node is None:
                        return
                    _, got = graph_of(sm)
                    var = {x: v for v, x in node.items()}
                    W, b = np.zeros((len(spec.vars),) * 2), np.zeros(len(spec.vars))
                    free = 0
                    for (x, y), dat in got.items():
                        W[spec.at[var[x]], spec.at[var[y]]] = dat["mean_effect"]
                        i, j = var[x][0], var[y][0]
                        if i == j or (i, j) in e or i in p or j in c:
                            ctx.fail("%s: edge from %r to %r" % (desc, x, y))
                        if not neural.close(dat["weight"], abs(dat["mean_effect"])):
                            ctx.fail("%s: edge %r has %r" % (desc, (x, y), dat))
                    for v, x in node.items():
                        if bias:
                            b[spec.at[v]] = float(sm.nodes[x]["bias"])
                    allowed = sum(not (v[0] == w[0] or (v[0], w[0]) in e or v[0] in p or w[0] in c) for v in spec.vars for w in spec.vars)
                    if len(got) != allowed:
                        ctx.fail("%s: %d edges where %d are allowed and none is zero" % (desc, len(got), allowed))
                    predictions(ctx, H, desc, sm, spec, node, cols, W, b)
                    ctx.outcome((at, len(got)))


def predictions(ctx, H, desc, sm, spec, node, cols, W, b):
    np = H["np"]
    learner = sm.graph.get("structure_learner")
    n = len(cols[0])
    for rows in (list(range(n)), [4, 0], [2], [1], [3, 3, 3, 5], list(range(n)) * 3, [4, 2, 2, 3] * 20):
        X = np.array([[c[r] for c in cols] for r in rows], dtype=float)
        keep = X.copy()
        ctx.trans()
        ok, got = ctx.guard(lambda: learner.reconstruct_data(X), desc + ": reconstruct_data of %d rows" % len(rows))
        if not ok:
            return
        ctx.check(np.array_equal(X, keep), "%s: reconstruct_data changed its input" % desc)
        want = spec.link(spec.latent(spec.E[rows], W, b))
        for i, w in want.items():
            ok, mine = ctx.guard(lambda: np.asarray(sm.nodes[node[(i, 0)]]["dist_type"].get_columns(np.asarray(got))), desc + ": get_columns")
            if not ok:
                return
            if mine.shape != w.shape or np.abs(mine - w).max() > 1e-7:
                ctx.fail("%s: predictions of column %d (%s) for rows %r are %r, should be %r" % (desc, i, spec.types[i], rows, mine.tolist(), w.tolist()))


def hidden(ctx, H, types, layers, k):
    """hidden layers: constraints on whole columns, and weights against the slopes of the latent reconstruction of the columns without a link"""
    np = H["np"]
    spec = neural.Mixed(np, types, neural.table(types), True)
    for order in ((0, 1), (1, 0)):
        for e, p, c in (([], [], []), ([(0, 1)], [], []), ([(1, 0)], [], []), ([], [0], []), ([], [1], []), ([], [], [0]), ([], [], [1]), ([(0, 1), (1, 0)], [], [])):
            raw = [(1 if (i * 5 + k) % 3 else -1) * (0.3 + 0.11 * ((i * 3 + k) % 8)) for i in range(89)]
            res = call(ctx, H, k % 2 == 0, types, order, None, e, p, c, True, None, Script([raw], None), {"hidden_layer_units": layers})
            if res is None:
                return
            desc, sm, names, cols, X = res
            node = nodes_of(ctx, desc, sm, spec, types, names, order, k % 2 == 0)
            if node is None:
                return
            _, got = graph_of(sm)
            back = {n: v for v, n in node.items()}
            for (x, y), dat in got.items():
                i, j = back[x][0], back[y][0]
                if i == j or (i, j) in e or i in p or j in c:
                    ctx.fail("%s: edge from %r to %r" % (desc, x, y))
                if not dat["weight"] > 0 or abs(dat["mean_effect"]) > dat["weight"] + 1e-9:
                    ctx.fail("%s: edge %r has %r" % (desc, (x, y), dat))
            learner = sm.graph["structure_learner"]
            X = X.astype(float)
            ok, base = ctx.guard(lambda: learner.reconstruct_data(X.copy()), desc)
            if not ok:
                return
            # weights against the slopes of the latent prediction, between columns that are taken as they are
            latent = {"cont": lambda y: y, "bin": lambda y: np.log(y / (1 - y)), "poiss": np.log}
            for i, j in ((0, 1), (1, 0)):
                if types[i] not in latent or types[j] not in latent:
                    continue
                t = sm.nodes[node[(j, 0)]]["dist_type"]
                ys = []
                for step in (1e-5, 2e-5):
                    Y = X.copy()
                    Y[:, i] += step
                    ok, y = ctx.guard(lambda: learner.reconstruct_data(Y), desc)
                    if not ok:
                        return
                    ys.append(latent[types[j]](np.asarray(t.get_columns(np.asarray(y)), dtype=float).ravel()))
                slope = (ys[1] - ys[0]) / 1e-5
                w, m = float(np.abs(slope).mean()), float(slope.mean())
                dat = got.get((node[(i, 0)], node[(j, 0)]), {"weight": 0.0, "mean_effect": 0.0})
                if abs(dat["weight"] - w) > 1e-4 * (1 + w) or abs(dat["mean_effect"] - m) > 1e-4 * (1 + w):
                    ctx.fail("%s: edge from %r to %r has weight %r and mean effect %r, the prediction has mean slope %r (absolute) and %r" % (
                        desc, names[i], names[j], dat["weight"], dat["mean_effect"], w, m))
            for i, j in ((0, 1), (1, 0), (0, 0), (1, 1)):
                cut = i == j or (i, j) in e or i in p or j in c
                # swap the values of column i between rows: column j moves if and only if it may depend on it
                Y = X.copy()
                Y[:, i] = np.roll(Y[:, i], 3)
                ok, moved = ctx.guard(lambda: learner.reconstruct_data(Y), desc)
                if not ok:
                    return
                t = sm.nodes[node[(j, 0)]]["dist_type"]
                diff = float(np.abs(np.asarray(t.get_columns(np.asarray(moved))) - np.asarray(t.get_columns(np.asarray(base)))).max())
                if cut and diff > 1e-9:
                    ctx.fail("%s: the prediction of column %d depends on column %d" % (desc, j, i))
                # (a layer of a single unit is constant after its normalisation)
                if not cut and diff <= 1e-9 and min(layers) > 1:
                    ctx.fail("%s: the prediction of column %d does not depend on column %d" % (desc, j, i))
            ctx.outcome((types, tuple(layers), len(got)))


def invalid(ctx, H):
    np, pd, nt = H["np"], H["pd"], H["nt"]
    for k, types in enumerate([("cont", "cat", "bin"), ("poiss", "cont", "ord"), ("cat", "poiss", "poiss"), ("bin", "ord", "cat")]):
        cols = neural.table(types)
        X = np.array(cols, dtype=float).T
        for panda in (False, True):
            names = ["a", "b", "c"] if panda else [0, 1, 2]
            more = ["d"] if panda else [3, -1]
            fn = nt.from_pandas if panda else nt.from_numpy
            wrap = (lambda Z: pd.DataFrame(Z, columns=names)) if panda else (lambda Z: Z.copy())

            def refused(schema, Z, what):
                ctx.state()
                ctx.trans()
                ctx.trace()
                with Script([[0.0]]):
                    ctx.raises(lambda: fn(wrap(Z), dist_type_schema=schema), (ValueError, KeyError), "%s(dist_type_schema=%r) %s" % (fn.__name__, schema, what))

            kinds = dict(zip(names + more, types + ("cont", "cont")))
            for n in range(len(kinds) + 1):
                for keys in itertools.permutations(kinds, n) if n < 4 else itertools.combinations(kinds, n):
                    if set(keys) != set(names):
                        refused({x: kinds[x] for x in keys}, X, "of the columns %r" % (names,))
            for at in names:
                for alias in ("normal", "CONT", "continuous", "", None):
                    refused({x: (alias if x == at else kinds[x]) for x in names}, X, "with an unknown type")
            for i, t in enumerate(types):
                if t == "poiss":
                    for r in range(len(X)):
                        for v in (-1.0, -0.5):
                            Z = X.copy()
                            Z[r, i] = v
                            refused(dict(zip(names, types)), Z, "with the count %r in row %d of column %r" % (v, r, names[i]))
    ctx.outcome("invalid")
