"""From data to answers: discretise, prune a learned structure, fit a network, ask an inference engine, intervene."""
import itertools

from ..engine import load
from ..fitted import NAMES, STATES, Spec, cells, possible
from ..graphs import acyclic, weak_components
from ..nets import all_dags, connected, iso_dags
from .c28 import METHODS, datasets

PROPERTY = "C35"
MEANING = ("state = (structure, data set, kinds of states, method); transition = one operation of the chain (pruning, discretising, fitting, querying, "
           "intervening) or one answer; trace = one answer (all variables, all states) of an engine made from the fitted network, compared with the "
           "relative frequencies of the data multiplied out by hand")
BOUNDS = {
    "quick": "every connected DAG on 2 and 3 nodes x 8 kinds of states x 2 tables of names x 3 data sets, in turn with 4 methods: all observations of <= 2 variables, "
             "every intervention on one variable x observations of <= 1, prediction of every variable from all the others compared with the engine's answer; connected "
             "isomorphism classes on 4 nodes x 2 kinds of states; every sequence of 3 operations of 9 (refit, new states, new engine, intervene, reset, ask, change the tables "
             "handed out); every weighted digraph on 3 nodes and on 4 nodes with <= 3 edges, "
             "pruned to a DAG, reduced to its largest part, fitted on discretised data and asked",
    "thorough": "as quick with every combination of methods, sequences of 4 operations, and every weighted digraph on 4 nodes with 4 and 5 edges",
}
ASSUMPTIONS = ["pandas, pgmpy and scikit-learn stand-ins; code objects as on Python 3.8 (see DESIGN.md)"]
CHUNK = 2
UNIT_CPU = 900
KINDS = [k for k in STATES]


def units(tier):
    t = tier == "thorough"
    us = []
    for n in (2, 3):
        for p in all_dags(n):
            if connected(p):
                for ki in range(len(KINDS)):
                    us.append({"k": "net", "parents": p, "kind": ki, "methods": list(range(4)) if t else None})
    for p in iso_dags(4):
        if connected(p):
            for ki in (0, 2):
                us.append({"k": "net", "parents": p, "kind": ki, "methods": None})
    for a in range(len(OPS)):
        us.append({"k": "history", "first": a, "len": 4 if t else 3})
    for n, top, step in ((3, 6, 8),) + (((4, 5, 64),) if t else ((4, 3, 16),)):
        for off in range(step):
            us.append({"k": "pipe", "n": n, "edges": top, "step": step, "off": off})
    return us


def run_unit(u, ctx):
    IE = load()
    import pandas as pd
    from causalnex.network import BayesianNetwork as BN
    {"net": net, "history": history, "pipe": pipe}[u["k"]](ctx, IE, pd, BN, u)


def posterior(sp, known, do):
    """{name: {state: probability}} under the fitted tables, those in `do` replaced; None if `known` is impossible"""
    tot, acc = 0.0, [[0.0] * len(s) for s in sp.states]
    for a in itertools.product(*[[known[i]] if i in known else range(len(sp.states[i])) for i in range(sp.n)]):
        w = 1.0
        for i in range(sp.n):
            w *= do[i][a[i]] if i in do else sp.cpt[i][tuple(a[p] for p in sp.parents[i])][a[i]]
        tot += w
        for i, x in enumerate(a):
            acc[i][x] += w
    return {sp.names[i]: {s: (acc[i][x] / tot if tot else 0.0) for x, s in enumerate(sp.states[i])} for i in range(sp.n)}


def ask(ctx, ie, sp, known, do, what, case):
    obs = {sp.names[i]: sp.states[i][x] for i, x in known.items()}
    ctx.trans()
    ctx.trace()
    arg = dict(obs)
    ok, got = ctx.guard(lambda: ie.query(arg), "%s: query(%r)" % (what, obs), case)
    if not ok:
        return None
    want = posterior(sp, known, do)
    if arg != obs:
        ctx.fail("%s: query changed the observations to %r" % (what, arg), case)
    if set(got) != set(want) or any(set(got[v]) != set(want[v]) for v in want):
        ctx.fail("%s: query(%r) answers for %r, should be %r" % (what, obs, {v: sorted(map(str, got[v])) for v in got}, {v: sorted(map(str, want[v])) for v in want}), case)
        return None
    for v in want:
        for s in want[v]:
            if not abs(float(got[v][s]) - want[v][s]) <= 1e-9:
                ctx.fail("%s: query(%r): P(%s=%r) is %r, should be %r" % (what, obs, v, s, float(got[v][s]), want[v][s]), case)
                return None
    return got


def evidence(sp, most):
    for r in range(most + 1):
        for vs in itertools.combinations(range(sp.n), r):
            for xs in itertools.product(*[range(len(sp.states[v])) for v in vs]):
                yield dict(zip(vs, xs))


def has_child(sp, i, do=()):
    return any(i in ps for c, ps in enumerate(sp.parents) if c not in do)


def net(ctx, IE, pd, BN, u):
    parents = [tuple(p) for p in u["parents"]]
    n, kind = len(parents), KINDS[u["kind"]]
    i = 0
    for tab in ("abc", "clash"):
        sizes = [2 if kind == "bool" or n == 4 else (3 if (k + u["kind"]) % 2 else 2) for k in range(n)]
        for d, (dn, rows) in enumerate(datasets(n, sizes).items()):
            i += 1
            if n == 4 and i % 3:
                continue
            for mm in (u["methods"] or [(i + u["kind"] + d) % 4]):
                m, ess = METHODS[mm]
                seen = [sorted({r[k] for r in rows}) for k in range(n)]
                sp = Spec(parents, NAMES[tab][:n], [[sorted(STATES[kind][:s])[x] for x in seen[k]] for k, s in enumerate(sizes)],
                          [[seen[k].index(r[k]) for k in range(n)] for r in rows], m, ess)
                case = {"parents": parents, "names": sp.names, "states": sp.states, "data": dn, "method": m, "equivalent_sample_size": ess}
                ctx.state()
                df = sp.frame(pd, cols=list(range(n))[::-1 if i % 2 else 1])
                before = cells(df)
                kw = {} if m == "MLE" else {"method": "BayesianEstimator", "bayes_prior": m, "equivalent_sample_size": ess}
                ok, bn = ctx.guard(lambda: BN(sp.structure()).fit_node_states_and_cpds(df, **kw), "fit", case)
                if not ok:
                    return
                ok, ie = ctx.guard(lambda: IE(bn), "engine", case)
                if not ok:
                    return
                for known in evidence(sp, 2 if n < 4 else 1):
                    if ask(ctx, ie, sp, known, {}, "fitted", case) is None:
                        return
                # what the network predicts is what the engine answers
                for t in range(n):
                    given = [x for x in range(n) if x != t]
                    rr = possible(sp, given, t)
                    fr = sp.frame(pd, rr, given, [3 * k + 1 for k in range(len(rr))])
                    ok, pr = ctx.guard(lambda: bn.predict_probability(fr, sp.names[t]), "predict_probability", case)
                    if not ok:
                        return
                    if not all(p in given for p in sp.parents[t]):
                        continue
                    for k, row in enumerate(rr):
                        par = {p: row[p] for p in sp.parents[t]}
                        if not any(w for _, w in sp.joint(par)):
                            continue
                        ctx.trans()
                        ok, ans = ctx.guard(lambda: ie.query({sp.names[p]: sp.states[p][x] for p, x in par.items()}), "query of the parents", case)
                        if not ok:
                            return
                        for s in sp.states[t]:
                            a, b = float(pr["%s_%s" % (sp.names[t], s)].tolist()[k]), float(ans[sp.names[t]][s])
                            if abs(a - b) > 1e-9:
                                ctx.fail("the network predicts P(%s=%r | parents %r) as %r, the engine answers %r" % (sp.names[t], s, par, a, b), case)
                                return
                for x in range(n):
                    if not has_child(sp, x):
                        continue
                    k = len(sp.states[x])
                    ws = [[float(y == z) for y in range(k)] for z in range(k)] + ([[(y + 1) / sum(range(1, k + 1)) for y in range(k)]] if k > 1 else [])
                    for z, w in enumerate(ws):
                        arg = sp.states[x][z] if z < k else dict(zip(sp.states[x], w))
                        ok, _ = ctx.guard(lambda: ie.do_intervention(sp.names[x], arg), "do(%s, %r)" % (sp.names[x], arg), case)
                        if not ok:
                            return
                        for known in evidence(sp, 1):
                            if ask(ctx, ie, sp, known, {x: w}, "after do(%s, %r)" % (sp.names[x], arg), case) is None:
                                return
                    ok, _ = ctx.guard(lambda: ie.reset_do(sp.names[x]), "reset", case)
                    if not ok or ask(ctx, ie, sp, {}, {}, "after reset", case) is None:
                        return
                if cells(df) != before:
                    ctx.fail("the data were changed", case)
                ctx.outcome(str(sp.cpt))


OPS = [("fit", "skew", 0), ("fit", "gap", 1), ("fit", "one", 2), ("states",), ("engine",), ("do", 0), ("do", 1), ("reset",), ("tables",)]


def history(ctx, IE, pd, BN, u):
    """an engine keeps the tables it was made from, whatever happens to the network, and a later one has the later tables"""
    parents = [(), (0,), (0, 1)]
    names = NAMES["abc"][:3]
    st = [sorted(STATES["str"][:2]), sorted(STATES["int"]), [False, True]]
    ds = datasets(3, [2, 3, 2])
    specs = {(d, m): Spec(parents, names, st, ds[d], *METHODS[m]) for op in OPS if op[0] == "fit" for d, m in [op[1:]]}
    for seq in itertools.product(range(len(OPS)), repeat=u["len"] - 1):
        seq = (u["first"],) + seq
        hist = []
        case = lambda: {"history": hist}  # noqa: E731
        ctx.state()
        cur = specs["skew", 0]
        bn = BN(cur.structure())
        bn.node_states = {a: set(s) for a, s in zip(names, st)}
        cur.fit(bn, cur.frame(pd))
        engines = [(IE(bn), cur, {})]
        for o in seq:
            op = OPS[o]
            hist.append(" ".join(map(str, op)))
            ctx.trans()
            ie, sp, do = engines[-1]
            if op[0] == "fit":
                cur = specs[op[1:]]
                ok, _ = ctx.guard(lambda: cur.fit(bn, cur.frame(pd)), "after %s" % hist, case)
            elif op[0] == "states":
                def back():
                    bn.node_states = {a: set(s) for a, s in zip(names, st)}
                ok, _ = ctx.guard(back, "after %s" % hist, case)
                cur = None
            elif op[0] == "engine":
                if cur is None:
                    cur = specs["gap", 1]
                    cur.fit(bn, cur.frame(pd))
                ok, e = ctx.guard(lambda: IE(bn), "after %s" % hist, case)
                if ok:
                    engines.append((e, cur, {}))
            elif op[0] == "do":
                x = op[1]
                if has_child(sp, x, do):
                    z = len(hist) % len(st[x])
                    ok, _ = ctx.guard(lambda: ie.do_intervention(names[x], st[x][z]), "after %s" % hist, case)
                    do[x] = [float(y == z) for y in range(len(st[x]))]
                else:
                    ctx.raises(lambda: ie.do_intervention(names[x], st[x][0]), ValueError, "after %s" % hist, case)
                    ok = True
            elif op[0] == "reset":
                ok, _ = ctx.guard(lambda: [ie.reset_do(nm) for nm in names], "after %s" % hist, case)
                do.clear()
            elif op[0] == "tables":
                for t in bn.cpds.values():
                    t.iloc[0, 0] = 7.0
                ok = True
            if not ok:
                return
            for k, (ie, sp, do) in enumerate(engines):
                for known in ({}, {2: 1}, {0: 0, 1: 2}):
                    if ask(ctx, ie, sp, known, do, "engine %d after %s" % (k, hist), case) is None:
                        return
    ctx.outcome(u["first"])


def pipe(ctx, IE, pd, BN, u):
    from causalnex.discretiser import Discretiser
    from causalnex.structure import StructureModel
    n = u["n"]
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    names = NAMES["abc"][:n]
    raw = [[((7 * r + 3 * c * r + c * c) % 11) / 2.0 - 1.0 for c in range(n)] for r in range(14)]
    i = -1
    for k in range(1, u["edges"] + 1):
        for es in itertools.combinations(pairs, k):
            i += 1
            if i % u["step"] != u["off"]:
                continue
            # weights: distinct absolute values, signs alternate, the order depends on the graph
            ws = {e: (0.1 + 0.2 * ((q * 5 + i) % (k + 1 if (k + 1) % 5 else k + 2))) * (-1 if (q + i) % 2 else 1) for q, e in enumerate(es)}
            if len({round(abs(w), 9) for w in ws.values()}) < k:
                continue
            case = {"edges": {"%s->%s" % (names[a], names[b]): w for (a, b), w in ws.items()}}
            ctx.state()
            ctx.trace()
            # the specification
            left = {e: w for e, w in ws.items() if abs(w) >= 0.3}
            while not acyclic(range(n), list(left)):
                del left[min(left, key=lambda e: abs(left[e]))]
            comps = weak_components(range(n), list(left))
            counts = [sum(1 for e in left if e[0] in c) for c in comps]
            sm = StructureModel()
            sm.add_nodes_from(names)
            sm.add_weighted_edges_from([(names[a], names[b], w) for (a, b), w in ws.items()], origin="learned")

            def prune():
                sm.remove_edges_below_threshold(0.3)
                sm.threshold_till_dag()
                return sm.get_largest_subgraph()
            ok, part = ctx.guard(prune, "pruning", case)
            if not ok:
                return
            if not max(counts):
                ctx.check(part is None, "no edge is left, but the largest part is %r" % (part,), case)
                continue
            cands = [sorted(c) for c, m in zip(comps, counts) if m == max(counts)]
            idx = sorted(names.index(v) for v in part.nodes)
            if idx not in cands or sorted(part.edges) != sorted((names[a], names[b]) for a, b in left if a in idx):
                ctx.fail("the largest part has the nodes %r and edges %r" % (list(part.nodes), list(part.edges)), case)
                return
            # discretised data
            cut = [[0.5 * (c % 2)] if c % 3 else [0.5, 2.0] for c in range(n)]
            df = pd.DataFrame({names[c]: [r[c] for r in raw] for c in range(n)})
            for c in range(n):
                ok, col = ctx.guard(lambda: Discretiser(method="fixed", numeric_split_points=cut[c]).transform(df[names[c]].values), "discretising", case)
                if not ok:
                    return
                df[names[c]] = list(col)
            pos = [[sum(1 for s in cut[c] if r[c] >= s) for c in idx] for r in raw]
            states = [sorted({r[q] for r in pos}) for q in range(len(idx))]
            sp = Spec([tuple(idx.index(a) for a, b in left if b == c) for c in idx], [names[c] for c in idx], states,
                      [[states[q].index(r[q]) for q in range(len(idx))] for r in pos])
            ok, bn = ctx.guard(lambda: BN(part).fit_node_states_and_cpds(df), "fit", case)
            if not ok:
                return
            ok, ie = ctx.guard(lambda: IE(bn), "engine", case)
            if not ok:
                return
            for known in evidence(sp, 1):
                if ask(ctx, ie, sp, known, {}, "the whole chain", case) is None:
                    return
            x = next(x for x in range(sp.n) if has_child(sp, x))
            ok, _ = ctx.guard(lambda: ie.do_intervention(sp.names[x], sp.states[x][-1]), "do", case)
            if not ok or ask(ctx, ie, sp, {}, {x: [float(y == len(sp.states[x]) - 1) for y in range(len(sp.states[x]))]}, "the whole chain and do(%s)" % sp.names[x], case) is None:
                return
            ctx.outcome(len(left))
    ctx.sample(u)
