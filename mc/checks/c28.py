"""Bayesian networks: construction, fitting and prediction."""
import itertools

from ..fitted import NAMES, STATES, Spec, cells, check_cpds, check_predictions, possible
from ..graphs import acyclic, all_digraphs, weak_components
from ..nets import all_dags, connected, iso_dags

PROPERTY = "C28"
MEANING = ("state = (structure, states, training data, method); transition = one fit, table or predicted row; trace = one fitted network whose tables equal the counts and whose predictions equal the posterior, "
           "for every target and every set of known columns")
BOUNDS = {
    "quick": "construction: all directed graphs with loops on <= 3 nodes, loop-free on 4 (every 5th); fitting: a -> b with 2x2, 2x3 and 3x2 states, every data set (multiset) of <= 4 rows x 4 methods; every connected DAG on <= 3 nodes "
             "x 4 tables of names x 8 kinds of states x 3 data sets and methods; connected isomorphism classes on 4; prediction: every target x every subset of known columns (with and without the target) x every possible row; "
             "every sequence of <= 3 operations of 9; invalid methods, priors, states and columns",
    "thorough": "as quick with data sets of <= 6 rows, all connected DAGs on 4 nodes, sequences of 4 operations",
}
ASSUMPTIONS = ["pandas and pgmpy stand-ins (pgmpy: counts of the estimators of 0.1.12 and exact joint enumeration)"]
CHUNK = 1
UNIT_CPU = 900
METHODS = [("MLE", None), ("K2", None), ("BDeu", 1), ("BDeu", 10)]


def units(tier):
    t = tier == "thorough"
    us = [{"k": "init", "n": n, "step": 1, "off": 0} for n in (1, 2, 3)] + [{"k": "init", "n": 4, "step": 5, "off": o} for o in (range(5) if t else (0,))]
    for ka, kb in ((2, 2), (2, 3), (3, 2), (1, 2), (2, 1)):
        for m in range(len(METHODS)):
            us.append({"k": "counts", "sizes": [ka, kb], "method": m, "rows": 6 if t and ka * kb <= 4 else 5 if t else 4})
    for n in (1, 2, 3):
        for p in all_dags(n):
            if connected(p):
                us.append({"k": "nets", "parents": p})
    for p in (all_dags(4) if t else iso_dags(4)):
        if connected(p):
            us.append({"k": "nets4", "parents": p})
    for a in range(9):
        us.append({"k": "history", "first": a, "len": 4 if t else 3})
    us += [{"k": "bad"}, {"k": "states"}]
    return us


def run_unit(u, ctx):
    from ..graphs import load
    load()
    import pandas as pd
    from causalnex.network import BayesianNetwork as BN
    k = u["k"]
    {"init": init, "counts": counts, "nets": nets, "nets4": nets, "history": history, "bad": bad, "states": states}[k](ctx, pd, BN, u)


def init(ctx, pd, BN, u):
    from causalnex.structure import StructureModel
    n = u["n"]
    for i, e in enumerate(all_digraphs(n, None, n < 4)):
        if i % u["step"] != u["off"]:
            continue
        names = list(NAMES.values())[i % 4][:n]
        g = StructureModel()
        g.add_nodes_from(names)
        g.add_edges_from([(names[a], names[b]) for a, b in e])
        case = {"nodes": names, "edges": [list(x) for x in g.edges]}
        ctx.state()
        ctx.trace()
        ctx.trans()
        if acyclic(range(n), e) and len(weak_components(range(n), e)) == 1:
            ok, bn = ctx.guard(lambda: BN(g), "BayesianNetwork", case)
            if not ok:
                return
            if set(bn.nodes) != set(names) or len(bn.nodes) != n or sorted(bn.edges) != sorted(g.edges):
                ctx.fail("the network has nodes %r and edges %r" % (bn.nodes, bn.edges), case)
            s = bn.structure
            if set(s.nodes) != set(names) or set(s.edges) != set(g.edges):
                ctx.fail("the structure is %r" % s.edges, case)
        else:
            ctx.raises(lambda: BN(g), ValueError, "BayesianNetwork", case)
    ctx.outcome(n)


def build(ctx, pd, BN, sp, case, wide=None):
    """fit and check one network; None if something failed"""
    df = sp.frame(pd)
    before = cells(df)
    ok, bn = ctx.guard(lambda: BN(sp.structure()), "BayesianNetwork", case)
    if not ok:
        return None
    g = {n: set(s) for n, s in zip(sp.names, sp.states)}

    def set_states():
        bn.node_states = g

    ok, _ = ctx.guard(set_states, "node_states", case)
    if not ok:
        return None
    if bn.node_states != g:
        ctx.fail("node_states is %r, should be %r" % (bn.node_states, g), case)
        return None
    ok, r = ctx.guard(lambda: sp.fit(bn, df), "fit_cpds", case)
    if not ok:
        return None
    if r is not bn:
        ctx.fail("fit_cpds does not return the network", case)
    if cells(df) != before:
        ctx.fail("fit_cpds changed the data", case)
    if bn.node_states != g:
        ctx.fail("after fit_cpds node_states is %r" % (bn.node_states,), case)
    return bn if check_cpds(ctx, bn, sp, case, "fitted") else None


def counts(ctx, pd, BN, u):
    ka, kb = u["sizes"]
    m, ess = METHODS[u["method"]]
    kinds = [k for k in STATES if len(STATES[k]) >= max(ka, kb)]
    combos = list(itertools.product(range(ka), range(kb)))
    i = 0
    for n in range(1, u["rows"] + 1):
        for rows in itertools.combinations_with_replacement(combos, n):
            i += 1
            kind = kinds[i % len(kinds)]
            parents = [(), (0,)] if i % 2 else [(1,), ()]
            rot = list(rows[i % n:] + rows[:i % n])
            sp = Spec(parents, NAMES[("abc", "clash")[i % 2]][:2], [STATES[kind][:ka], STATES[kind][:kb]], rot, m, ess)
            case = {"parents": parents, "names": sp.names, "states": sp.states, "rows": [list(r) for r in rot], "method": m, "equivalent_sample_size": ess}
            ctx.state()
            ctx.trace()
            bn = build(ctx, pd, BN, sp, case)
            if bn is None:
                return
            t = i % 2
            rr = possible(sp, [1 - t], t)
            if not check_predictions(ctx, pd, bn, sp, t, [1 - t], rr, list(range(len(rr)))[::-1], case, "fitted"):
                return
            ctx.outcome((n, str(sp.cpt[0]), str(sp.cpt[1])))


def datasets(n, sizes):
    full = list(itertools.product(*[range(s) for s in sizes]))
    skew = [r for k, r in enumerate(full) for _ in range((k * 7 + 3) % 5)]
    gap = [r for k, r in enumerate(full) for _ in range((k * 5 + 1) % 4) if sum(r) % 3 != 2] or full[:1]
    return {"skew": skew or full, "gap": gap, "one": full[-1:]}


def nets(ctx, pd, BN, u):
    parents = [tuple(p) for p in u["parents"]]
    n = len(parents)
    i = 0
    for tab in NAMES if n < 4 else ("clash",):
        for kind in STATES if n < 4 else ("neg", "str"):
            i += 1
            sizes = [2 if kind == "bool" or n == 4 else (3 if (k + i) % 2 else 2) for k in range(n)]
            for d, (dn, rows) in enumerate(datasets(n, sizes).items()):
                if n == 3 and (i + d) % 3:
                    continue
                m, ess = METHODS[(i + d) % 4]
                sp = Spec(parents, NAMES[tab][:n], [STATES[kind][:s] for s in sizes], rows, m, ess)
                case = {"parents": parents, "names": sp.names, "states": sp.states, "data": dn, "method": m, "equivalent_sample_size": ess}
                ctx.state()
                ctx.trace()
                bn = build(ctx, pd, BN, sp, case)
                if bn is None:
                    return
                predict_all(ctx, pd, bn, sp, case)


def predict_all(ctx, pd, bn, sp, case):
    for t in range(sp.n):
        others = [x for x in range(sp.n) if x != t]
        for r in range(0, sp.n):
            for given in itertools.combinations(others, r):
                for with_target in (True, False):
                    cols = list(given) + ([t] if with_target else [])
                    if not cols:
                        continue
                    if len(given) == 0 and any(True for _ in sp.parents[t]):
                        continue        # nothing is known: no row to predict from
                    if t % 2:
                        cols = cols[::-1]
                    rows = possible(sp, cols, t)
                    if not rows:
                        continue
                    index = [(7 * k + 3) % 101 for k in range(len(rows))]
                    if not check_predictions(ctx, pd, bn, sp, t, cols, rows, index, case, "fitted"):
                        return


def history(ctx, pd, BN, u):
    """refitting replaces; predictions and tables leave no trace"""
    parents = [(), (0,), (0, 1)]
    names = NAMES["clash"][:3]
    st = [STATES["int"][:2], STATES["str"], STATES["neg"][:2]]
    sizes = [2, 3, 2]
    ds = datasets(3, sizes)
    ops = [("fit", "skew", 0), ("fit", "gap", 0), ("fit", "one", 1), ("fit", "gap", 3), ("both", "skew", 2), ("both", "gap", 0), ("predict", None, None), ("cpds", None, None), ("both", "one", 1)]
    for n in range(1, u["len"] + 1):
        for seq in itertools.product(range(len(ops)), repeat=n - 1):
            seq = (u["first"],) + seq
            if ops[seq[0]][0] in ("predict", "cpds"):
                seq = (0,) + seq
            case = {"history": [list(ops[k]) for k in seq]}
            ctx.state()
            ctx.trace()
            base = Spec(parents, names, st, ds["skew"])
            bn, other = BN(base.structure()), BN(base.structure())
            for b in (bn, other):
                b.node_states = {a: set(s) for a, s in zip(names, st)}
            other_sp = Spec(parents, names, st, ds["gap"])
            other_sp.fit(other, other_sp.frame(pd))
            sp = None
            for k in seq:
                op, d, m = ops[k]
                ctx.trans()
                if op in ("fit", "both"):
                    meth, ess = METHODS[m]
                    if op == "both":      # states come from the data
                        rows = ds[d]
                        seen = [sorted({base.states[i][r[i]] for r in rows}) for i in range(3)]
                        rows2 = [[seen[i].index(base.states[i][r[i]]) for i in range(3)] for r in rows]
                        new = Spec(parents, names, seen, rows2, meth, ess)
                        df = new.frame(pd)
                        kw = {} if meth == "MLE" else {"method": "BayesianEstimator", "bayes_prior": meth, "equivalent_sample_size": ess}
                        ok, _ = ctx.guard(lambda: bn.fit_node_states_and_cpds(df, **kw), "fit_node_states_and_cpds", case)
                    else:
                        new = Spec(parents, names, st, ds[d], meth, ess)
                        bn.node_states = {a: set(s) for a, s in zip(names, st)}
                        df = new.frame(pd)
                        df["extra"] = list(range(len(ds[d])))
                        ok, _ = ctx.guard(lambda: new.fit(bn, df), "fit_cpds", case)
                    if not ok:
                        return
                    sp = new
                elif op == "predict":
                    rows = possible(sp, [0, 1], 2)
                    bn.predict(sp.frame(pd, rows, [0, 1], list(range(len(rows)))), names[2])
                    bn.predict_probability(sp.frame(pd, rows, [1, 2], list(range(len(rows)))), names[2])
                else:
                    for t in bn.cpds.values():
                        t.iloc[0, 0] = 9.0
            if not check_cpds(ctx, bn, sp, case, "at the end") or not check_cpds(ctx, other, other_sp, case, "another network"):
                return
            rows = possible(sp, [0], 2)
            if not check_predictions(ctx, pd, bn, sp, 2, [0], rows, list(range(len(rows))), case, "at the end"):
                return
            rows = possible(sp, [0, 1], 2)
            if not check_predictions(ctx, pd, bn, sp, 2, [0, 1], rows, list(range(len(rows))), case, "at the end"):
                return
    ctx.outcome(u["first"])


def states(ctx, pd, BN, u):
    import numpy as np
    names = NAMES["abc"][:3]
    parents = [(), (0,), (1,)]
    for kinds in itertools.product(STATES, repeat=3):
        sp = Spec(parents, names, [STATES[k] for k in kinds], [[0, 0, 0]])
        for cols in ([0, 1, 2], [2, 0, 1]):
            ctx.state()
            ctx.trace()
            ctx.trans()
            rows = [[k % len(s) for s in sp.states] for k in (2, 0, 1, 1, 0, 2)]
            case = {"kinds": kinds, "columns": cols}
            bn = BN(sp.structure())
            df = sp.frame(pd, rows, cols)
            df["extra"] = [1, 2, 1, 2, 1, 2]
            ok, r = ctx.guard(lambda: bn.fit_node_states(df), "fit_node_states", case)
            if not ok:
                return
            want = {n: set(s) for n, s in zip(names, sp.states)}
            got = {n: bn.node_states[n] for n in names}
            if r is not bn or got != want:
                ctx.fail("node states %r, should be %r" % (got, want), case)
    for missing in range(1, 8):
        cols = [i for i in range(3) if not missing >> i & 1]
        ctx.trace()
        bn = BN(sp.structure())
        g = {names[i]: {1, 2} for i in cols}

        def assign():
            bn.node_states = dict(g, other={1})

        ctx.raises(assign, KeyError, "node_states without %r" % [names[i] for i in range(3) if i not in cols])
        if cols:
            ctx.raises(lambda: bn.fit_node_states(sp.frame(pd, [[0, 0, 0]], cols)), KeyError, "fit_node_states without %r" % cols)
    for null in (None, float("nan"), np.nan):
        for i in range(3):
            for others in ({1}, {"a"}, set()):
                ctx.trace()
                bn = BN(sp.structure())

                def assign():
                    bn.node_states = {nm: (others | {null} if k == i else {1, 2}) for k, nm in enumerate(names)}

                ctx.raises(assign, ValueError, "node_states with %r of %r" % (others | {null}, names[i]))
            ctx.raises(lambda: BN(sp.structure()).fit_node_states(pd.DataFrame({nm: ([1.0, null, 2.0] if k == i else [1.0, 2.0, 3.0]) for k, nm in enumerate(names)})), ValueError,
                       "fit_node_states with %r in %r" % (null, names[i]))


def bad(ctx, pd, BN, u):
    sp = Spec([(), (0,)], ["a", "b"], [[0, 1], [0, 1]], [[0, 1], [1, 0], [1, 1]])
    df = sp.frame(pd)
    for kw in ({"method": "nope"}, {"method": ""}, {"method": "mle"}, {"method": "BayesianEstimator"}, {"method": "BayesianEstimator", "bayes_prior": "nope"}, {"method": "BayesianEstimator", "bayes_prior": "bdeu", "equivalent_sample_size": 5}):
        for both in (True, False):
            ctx.state()
            ctx.trace()
            ctx.trans()
            bn = BN(sp.structure()).fit_node_states(df)
            sp.fit(bn, df)
            ctx.raises(lambda: (bn.fit_node_states_and_cpds if both else bn.fit_cpds)(df, **kw), ValueError, "fit with %r" % kw)
            check_cpds(ctx, bn, sp, kw, "after the refused fit")
    bn = BN(sp.structure()).fit_node_states(df)
    sp.fit(bn, df)
    for v in (2, -1, 0.5, "0", None):
        ctx.trace()
        ctx.raises(lambda: bn.predict(pd.DataFrame({"a": [0, v]}), "b"), Exception, "prediction from the unknown state %r" % (v,))
        ctx.raises(lambda: bn.predict_probability(pd.DataFrame({"a": [0, v]}), "b"), Exception, "prediction from the unknown state %r" % (v,))

    def assign():
        bn.structure = sp.structure()

    ctx.raises(assign, AttributeError, "assigning the structure")
