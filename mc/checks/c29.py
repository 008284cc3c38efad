"""Evaluation metrics compare every prediction with its own truth."""
import itertools

from ..fitted import NAMES, STATES, Spec, cells

PROPERTY = "C29"
MEANING = "state = (fitted network, test data, node); transition = one report; trace = one ROC curve, area and classification report recomputed by counting pairs"
BOUNDS = {
    "quick": "4 structures (1-3 nodes) x 8 kinds of states (negative, multi-digit, words that repeat the name of the node, ...) x 4 tables of names x 3 fitted data sets x every multiset of <= 3 test rows, and longer skewed ones; "
             "every node; complete and incomplete columns; test data missing states; shuffled index and columns",
    "thorough": "as quick with multisets of <= 5 rows",
}
ASSUMPTIONS = ["pandas, pgmpy and scikit-learn stand-ins (roc_curve, auc and classification_report as documented)"]
CHUNK = 1
UNIT_CPU = 900
PARENTS = [[()], [(), (0,)], [(), (0,), (0, 1)], [(1, 2), (), ()]]


def units(tier):
    return [{"p": p, "kind": k, "rows": 5 if tier == "thorough" and p < 2 else 4 if tier == "thorough" else 3} for p in range(len(PARENTS)) for k in STATES]


def run_unit(u, ctx):
    from ..graphs import load
    load()
    import pandas as pd
    from causalnex.evaluation import classification_report, roc_auc
    from causalnex.network import BayesianNetwork as BN
    parents, st = PARENTS[u["p"]], STATES[u["kind"]]
    n = len(parents)
    sizes = [len(st)] + [min(len(st), 2)] * (n - 1) if u["p"] != 1 else [2, len(st)]
    full = list(itertools.product(*[range(s) for s in sizes]))
    trains = [[r for k, r in enumerate(full) for _ in range((k * 7 + 3) % 5 + 1)], [r for k, r in enumerate(full) for _ in range((k * 11 + 2) % 7 + (sum(r) % 2) * 9 + 1)], full[:1] + full]
    long = [[r for k, r in enumerate(full) for _ in range((k * a + b) % 4)] for a, b in ((3, 1), (5, 2), (1, 3))]
    some = full if len(full) <= 9 else full[::2]
    tests = [list(t) for m in range(1, u["rows"] + 1) for t in itertools.combinations_with_replacement(some, m)] + long
    i = 0
    for tab in NAMES:
        for rows in trains:
            sp = Spec(parents, NAMES[tab][:n], [st[:s] for s in sizes], rows, "K2" if i % 2 else "MLE")
            bn = BN(sp.structure())
            bn.node_states = {a: set(s) for a, s in zip(sp.names, sp.states)}
            df = sp.frame(pd)
            sp.fit(bn, df)
            for j, test in enumerate(tests):
                i += 1
                if len(test) == 3 and n == 3 and i % 4:
                    continue
                for node in range(n) if len(test) < 3 else (i % n,):
                    cols = list(range(n))
                    if i % 3 == 0:
                        cols = cols[::-1]
                    if i % 2 and parents[node] and n == 3:
                        cols.remove(parents[node][0])
                    report(ctx, pd, bn, sp, roc_auc, classification_report, node, test, cols, i, {"parents": parents, "names": sp.names, "states": sp.states, "training rows": [list(r) for r in rows] if len(rows) < 12 else len(rows),
                                                                                                   "test": [list(r) for r in test], "node": sp.names[node], "columns": [sp.names[c] for c in cols]})


def report(ctx, pd, bn, sp, roc_auc, classification_report, node, test, cols, i, case):
    index = [(5 * k + i) % 97 for k in range(len(test))]
    df = sp.frame(pd, test, cols, index)
    keep = cells(df)
    nm, states = sp.names[node], sp.states[node]
    ctx.state()
    ctx.trace()
    ctx.trans()
    complete = all(p in cols for p in sp.parents[node])
    pairs = []
    for row in test:
        if complete:
            dist = sp.cpt[node][tuple(row[p] for p in sp.parents[node])]
        else:
            j = sp.joint({c: row[c] for c in cols if c != node})
            tot = sum(w for _, w in j)
            if not tot:
                return
            dist = [sum(w for a, w in j if a[node] == k) / tot for k in range(len(states))]
        pairs += [(k == row[node], p) for k, p in enumerate(dist)]
    # probabilities that are equal up to rounding are one threshold
    levels = {}
    for p in sorted({p for _, p in pairs}):
        near = [q for q in levels.values() if abs(q - p) < 1e-9]
        levels[p] = near[0] if near else p
    spread = len({p for p in levels}) != len(set(levels.values()))
    pairs = [(t, levels[p]) for t, p in pairs]
    pos, neg = [p for t, p in pairs if t], [p for t, p in pairs if not t]
    if len(states) > 1 and not spread:
        ok, r = ctx.guard(lambda: roc_auc(bn, df, nm), "roc_auc", case)
        if not ok:
            return
        roc, auc = r
        want = sum((a > b) + 0.5 * (a == b) for a in pos for b in neg) / (len(pos) * len(neg))
        if abs(auc - want) > 1e-9 and not close(pairs):
            ctx.fail("the area under the curve is %r, should be %r" % (auc, want), case)
        pts = [(float(a), float(b)) for a, b in roc]
        allowed = [(0.0, 0.0)] + [(sum(x >= t for x in neg) / len(neg), sum(x >= t for x in pos) / len(pos)) for t in {p for _, p in pairs}]
        for p in pts:
            if not any(abs(p[0] - q[0]) + abs(p[1] - q[1]) < 1e-9 for q in allowed) and not close(pairs):
                ctx.fail("the curve contains %r, which no threshold gives" % (p,), case)
        if pts[0] != (0.0, 0.0) or pts[-1] != (1.0, 1.0) or pts != sorted(pts):
            ctx.fail("the curve is %r" % pts, case)
        ctx.outcome(round(auc, 6))
    ok, rep = ctx.guard(lambda: classification_report(bn, df, nm), "classification_report", case)
    if not ok:
        return
    if cells(df) != keep:
        ctx.fail("the data were changed", case)
    ok, pred = ctx.guard(lambda: bn.predict(df, nm), "predict", case)
    if not ok:
        return
    pred = pred.values.ravel().tolist()
    true = [states[r[node]] for r in test]
    stats = []
    for s in states:
        key = "%s_%s" % (nm, s)
        tp = sum(a == s and b == s for a, b in zip(true, pred))
        np_, nt = sum(b == s for b in pred), sum(a == s for a in true)
        prec, rec = tp / np_ if np_ else 0.0, tp / nt if nt else 0.0
        f1 = 2 * prec * rec / (prec + rec) if prec + rec else 0.0
        stats.append((prec, rec, f1))
        got = rep.get(key)
        if got is None or abs(got["precision"] - prec) > 1e-9 or abs(got["recall"] - rec) > 1e-9 or abs(got["f1-score"] - f1) > 1e-9 or got["support"] != nt:
            ctx.fail("the report says %r about %r, should be %r with support %d" % (got, key, (prec, rec, f1), nt), case)
            return
    m = rep.get("macro avg")
    if m is None or abs(m["f1-score"] - sum(f for _, _, f in stats) / len(stats)) > 1e-9 or m["support"] != len(true):
        ctx.fail("the macro average is %r" % (m,), case)


def close(pairs):
    ps = sorted({p for _, p in pairs})
    return any(b - a < 1e-9 for a, b in zip(ps, ps[1:]))
