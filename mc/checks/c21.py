"""DynamicDataTransformer: every row pairs the present with its own past, and nothing else."""
import itertools

from ..optim import load
from .c20 import rows

PROPERTY = "C21"
MEANING = ("state = (list of time series given by the times that are present, lag order, columns); transition = one fit / transform; trace = one transformed table, every cell "
           "compared with the value that series has at that time and lag")
BOUNDS = {
    "quick": "every subset of 9 consecutive times x p in 1..4; every pair of subsets of 5 times and every triple of subsets of 3 times x p in 1..3; p up to 20 with up to 11 columns and every one or two times left out; 1-3 columns, in the order of fit and other orders, "
             "with extra columns at transform; integer and float data; negative, large and shifted times; repeated transforms; fit on one input, transform of another; invalid input of every kind; "
             "series of up to 1025 times in steps of 1-7 or with a gap every 2-8; every sequence of 4 fits and transforms over 4 column sets and both result formats",
    "thorough": "as quick with subsets of 12 times x p in 1..6, pairs of 6 times, triples of 4 times",
}
ASSUMPTIONS = ["pandas stand-in carries the data frames"]
CHUNK = 2
UNIT_CPU = 600
COLS = ["a", "b_lag1", 3]


def units(tier):
    t = tier == "thorough"
    us = []
    for p in range(1, 7 if t else 5):
        for d in (1, 2, 3):
            us.append({"k": "one", "n": 12 if t else 9, "p": p, "d": d})
    us.append({"k": "deep"})
    for p in (1, 2, 3):
        us.append({"k": "many", "n": 6 if t else 5, "m": 2, "p": p})
        us.append({"k": "many", "n": 4 if t else 3, "m": 3, "p": p})
    us += [{"k": "long"}, {"k": "history", "first": 0}, {"k": "history", "first": 1}, {"k": "history", "first": 2}]
    us += [{"k": "columns"}, {"k": "invalid"}, {"k": "types"}]
    return us


def masks(n):
    for bits in itertools.product((0, 1), repeat=n):
        if any(bits):
            yield [i for i in range(n) if bits[i]]


def values(idx, d, k=0, integer=False):
    return [[(1000 * k + 10 * t + j) if integer else (1000 * k + 10 * t + j) / 8 for j in range(d)] for t in idx]


def run_unit(u, ctx):
    tr = load("transformers")
    import numpy as np
    import pandas as pd
    T = tr.DynamicDataTransformer
    if u["k"] == "one":
        off = {1: 0, 2: -5, 3: 10 ** 6}.get(u["d"], 0)
        for m in masks(u["n"]):
            idx = [x + off for x in m]
            one(ctx, np, pd, T, [(idx, values(idx, u["d"]))], u["p"], COLS[:u["d"]], single=True)
        ctx.sample(u)
    elif u["k"] == "deep":
        # lag orders of two digits: every way to leave one or two times out
        for p in (9, 10, 11, 12, 20):
            for d in (1, 2, 11):
                n = p + 6
                for k in (0, 1, 2):
                    for out in itertools.combinations(range(n), k):
                        if k == 2 and (d == 11 or p > 11):
                            continue
                        idx = [x for x in range(n) if x not in out]
                        cols = COLS[:d] if d < 4 else ["c%d" % j for j in range(d)]
                        one(ctx, np, pd, T, [(idx, values(idx, d, 1))], p, cols, single=True)
    elif u["k"] == "long":
        # long series: a gap every s steps, one time in s only, and several of them one after the other
        for n in (11, 12, 13, 30, 60, 99, 100, 101, 130, 257, 513, 1025):
            for s in (1, 2, 3, 5, 7):
                for p in (1, 2, 3):
                    for idx in (list(range(0, n * s, s)), [t for t in range(n) if t % (s + 1) != s], [t + t // (s + p) for t in range(n)]):
                        one(ctx, np, pd, T, [(idx, values(idx, 2, 1))], p, ["x", "y"], single=True)
                        if n < 60:
                            one(ctx, np, pd, T, [(idx, values(idx, 2, k)) for k in range(4)], p, ["x", "y"])
    elif u["k"] == "history":
        history(ctx, np, pd, T, u["first"])
    elif u["k"] == "many":
        ms = list(masks(u["n"]))
        for c in itertools.product(ms, repeat=u["m"]):
            one(ctx, np, pd, T, [([x + 2 * k for x in m], values([x + 2 * k for x in m], 2, k + 1)) for k, m in enumerate(c)], u["p"], COLS[:2])
        ctx.sample(u)
    elif u["k"] == "columns":
        for perm in itertools.permutations(range(3)):
            for extra in (False, True):
                for p in (1, 2):
                    columns(ctx, np, pd, T, perm, extra, p)
    elif u["k"] == "types":
        for integer in (False, True):
            for idx in ([0, 1, 2, 3], [-3, -2, -1, 0, 1], [5, 6, 8, 9, 10], [0, 2, 4, 6], [0, 1, 10 ** 9, 10 ** 9 + 1, 10 ** 9 + 2]):
                for p in (1, 2):
                    one(ctx, np, pd, T, [(idx, values(idx, 2, 1, integer))], p, ["x", "y"], integer=integer)
    else:
        invalid(ctx, np, pd, T, tr)


def expect_table(ctx, np, desc, df, X, L, cols, p, case):
    want_cols = ["%s_lag0" % c for c in cols] + ["%s_lag%d" % (c, k) for k in range(1, p + 1) for c in cols]
    if not hasattr(df, "columns"):
        ctx.fail("%s: gives %s, not a data frame" % (desc, type(df)), case)
        return
    if list(df.columns) != want_cols:
        ctx.fail("%s: columns %r, should be %r" % (desc, list(df.columns), want_cols), case)
    want = [x + l for x, l in zip(X, L)]
    got = [list(map(float, r)) for r in np.asarray(df.values).reshape(-1, len(want_cols)).tolist()]
    if got != [list(map(float, r)) for r in want]:
        ctx.fail("%s: rows %r, should be %r" % (desc, got[:6], want[:6]), case)


def one(ctx, np, pd, T, frames, p, cols, single=False, integer=False):
    X, L = rows(frames, p)
    case = {"times": [i for i, _ in frames], "p": p, "columns": [repr(c) for c in cols]}
    dfs = [pd.DataFrame(v, index=list(i), columns=cols) for i, v in frames]
    arg = dfs[0] if single and len(dfs) == 1 and p % 2 else dfs
    ctx.state()
    ctx.trans()
    ctx.trace()
    ok, tab = ctx.guard(lambda: T(p=p).fit_transform(arg), "fit_transform", case)
    if not ok:
        return
    expect_table(ctx, np, "fit_transform", tab, X, L, cols, p, case)
    t = T(p=p)
    for rep in range(2):
        ctx.trans()
        ctx.trace()
        ok, res = ctx.guard(lambda: t.fit(arg, return_df=False).transform(arg), "transform to arrays", case)
        if not ok:
            return
        gx, gl = res
        d = len(cols)
        if np.shape(gx) != (len(X), d) or np.shape(gl) != (len(X), d * p):
            ctx.fail("transform: shapes %r and %r for %d rows" % (np.shape(gx), np.shape(gl), len(X)), case)
        if gx.tolist() != X or gl.tolist() != L:
            ctx.fail("transform: X %r and Xlags %r, should be %r and %r" % (gx.tolist()[:5], gl.tolist()[:5], X[:5], L[:5]), case)
    for f, (i, v) in zip(dfs, frames):
        if list(f.index) != i or f.values.tolist() != v or list(f.columns) != cols:
            ctx.fail("the data were changed", case)
    ctx.outcome((len(X), p))


def columns(ctx, np, pd, T, perm, extra, p):
    """transform of frames whose columns come in another order: the columns of fit decide."""
    idx = [0, 1, 2, 4, 5, 6, 7]
    vals = values(idx, 3, 2)
    fit_df = pd.DataFrame(values([0, 1, 2, 3], 3, 7), index=[0, 1, 2, 3], columns=COLS)
    order = [COLS[i] for i in perm]
    data = [[r[i] for i in perm] for r in vals]
    if extra:
        order = ["zz"] + order
        data = [[-1.0] + r for r in data]
    df = pd.DataFrame(data, index=idx, columns=order)
    X, L = rows([(idx, vals)], p)
    case = {"columns": [repr(c) for c in order], "p": p}
    ctx.state()
    ctx.trans()
    ctx.trace()
    t = T(p=p).fit(fit_df)
    for arg in (df, [df], [df, df]):
        ok, tab = ctx.guard(lambda: t.transform(arg), "transform", case)
        if ok:
            k = 2 if isinstance(arg, list) and len(arg) == 2 else 1
            expect_table(ctx, np, "transform", tab, X * k, L * k, COLS, p, case)
    for drop in range(3):
        keep = [c for c in order if c != COLS[drop]]
        for arg in (df[keep], [df[keep]], [df[keep], df[keep]]) + (() if extra else ([df, df[keep]], [df, df, df[keep]])):
            ctx.trace()
            ctx.raises(lambda: t.transform(arg), ValueError, "transform without column %r" % (COLS[drop],), case)


def history(ctx, np, pd, T, first):
    """Fitted again and again: the last fit decides about columns and format, and nothing else of the past matters."""
    sets = [["a", "b"], ["b", "a"], ["a", "b", "c"], ["c"]]
    idx = [0, 1, 2, 4, 5, 6, 7]
    frames = {i: pd.DataFrame(values(idx, len(c), i), index=idx, columns=c) for i, c in enumerate(sets)}
    steps = [("fit", i, as_df) for i in range(4) for as_df in (True, False)] + [("transform", i) for i in range(4)]
    starts = [s for s in steps if s[0] == "fit"]
    for p in (1, 2):
        for seq in itertools.product(starts, steps, steps, steps):
            if seq[0][1] % 3 != first:
                continue
            t, fitted = T(p=p), None
            ctx.state()
            for k, s in enumerate(seq):
                case = {"p": p, "history": [repr(x) for x in seq[:k + 1]], "columns": repr(sets)}
                ctx.trans()
                if fitted is not None and not set(sets[fitted[0]]) <= set(sets[s[1]]):
                    # a column of the last fit is missing
                    if s[0] == "transform":
                        ctx.raises(lambda: t.transform(frames[s[1]]), ValueError, "transform without a column of fit", case)
                        continue
                    try:
                        t.fit(frames[s[1]], return_df=s[2])
                    except ValueError:
                        continue
                    fitted = s[1:]
                    continue
                if s[0] == "fit":
                    ok, _ = ctx.guard(lambda: t.fit(frames[s[1]], return_df=s[2]), "fit", case)
                    if not ok:
                        return
                    fitted = s[1:]
                    continue
                ok, res = ctx.guard(lambda: t.transform(frames[s[1]]), "transform", case)
                if not ok:
                    return
                cols = sets[fitted[0]]
                X, L = rows([(idx, frames[s[1]][cols].values.tolist())], p)
                if fitted[1]:
                    if not isinstance(res, pd.DataFrame):
                        ctx.fail("transform gives %s, the last fit asked for a data frame" % type(res), case)
                    expect_table(ctx, np, "transform", res, X, L, cols, p, case)
                elif not isinstance(res, tuple) or len(res) != 2 or np.asarray(res[0]).tolist() != X or np.asarray(res[1]).tolist() != L:
                    ctx.fail("transform gives %r, should be the arrays %r and %r" % (res, X, L), case)
            ctx.trace()


def invalid(ctx, np, pd, T, tr):
    good = pd.DataFrame({"a": [1.0, 2.0, 3.0, 4.0], "b": [2.0, 1.0, 0.0, 1.0]})

    def bad(what, arg, exc):
        for p in (1, 2):
            ctx.state()
            ctx.trans()
            ctx.trace()
            ctx.raises(lambda: T(p=p).fit(arg), exc, "fit with %s" % what)
            ctx.raises(lambda: T(p=p).fit(arg, return_df=False), exc, "fit with %s" % what)
            t = T(p=p).fit(good)
            ctx.raises(lambda: t.transform(arg), exc, "transform with %s" % what)
            if t.transform(good).values.tolist() != T(p=p).fit_transform(good).values.tolist():
                ctx.fail("a rejected transform (%s) has an effect" % what)

    bad("an empty list", [], ValueError)
    bad("an array", np.ones((3, 2)), TypeError)
    bad("a list with an array", [good, np.ones((3, 2))], TypeError)
    for idx in itertools.permutations(range(4)):
        if list(idx) != [0, 1, 2, 3]:
            bad("times in order %r" % (idx,), pd.DataFrame(good.values, index=list(idx), columns=["a", "b"]), ValueError)
            bad("times in order %r in the second series" % (idx,), [good, pd.DataFrame(good.values, index=list(idx), columns=["a", "b"])], ValueError)
    for col in ("a", "b"):
        text = {"a": [1.0, 2.0, 3.0], "b": [1.0, 2.0, 3.0]}
        text[col] = ["x", "y", "z"]
        bad("text in column %s" % col, pd.DataFrame(text), ValueError)
        bad("text in column %s of the second series" % col, [good, pd.DataFrame(text)], ValueError)
        ints = {"a": [1.0, 2.0, 3.0], "b": [1.0, 2.0, 3.0]}
        ints[col] = [1, 2, 3]
        bad("another type in column %s" % col, [good, pd.DataFrame(ints)], ValueError)
    bad("other columns", [good, pd.DataFrame({"a": [1.0, 2.0], "c": [1.0, 2.0]})], ValueError)
    bad("columns in another order", [good, pd.DataFrame({"b": [1.0, 2.0], "a": [1.0, 2.0]})], ValueError)
    bad("float times", pd.DataFrame(good.values, index=[0.5, 1.5, 2.5, 3.5], columns=["a", "b"]), TypeError)
    bad("float times in the second series", [good, pd.DataFrame(good.values, index=[0.5, 1.5, 2.5, 3.5], columns=["a", "b"])], TypeError)
    bad("times as text", pd.DataFrame(good.values, index=["0", "1", "2", "3"], columns=["a", "b"]), TypeError)
    bad("whole times as floats in the second series", [good, pd.DataFrame(good.values, index=[0.0, 1.0, 2.0, 3.0], columns=["a", "b"])], TypeError)
    from sklearn.exceptions import NotFittedError
    ctx.raises(lambda: T(p=1).transform(good), NotFittedError, "transform before fit")
