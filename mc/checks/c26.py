"""Discretisation puts every value into the bucket its method promises."""
import itertools
from fractions import Fraction as F

PROPERTY = "C26"
MEANING = ("state = (options, data fitted so far); transition = construction, fit, transform or copy; trace = one object's history, every answer compared with exact rational split points")
BOUNDS = {
    "quick": "every combination of 11 methods x 3 bucket numbers x 7 outlier percentiles x 7 numeric and 11 percentile split point lists (construction); every multiset of <= 5 values out of 7 x 28 options (fit and transform of 13 values "
             "and of the split points themselves), with 2-d shapes, unsorted orders, 9 dtypes; every sequence of <= 4 operations out of 9 on each method",
    "thorough": "as quick with multisets of <= 7 values and sequences of 5 operations",
}
ASSUMPTIONS = ["scikit-learn stand-in supplies BaseEstimator / TransformerMixin"]
CHUNK = 1
VALUES = [-3, -1, 0, 0.5, 2, 4, 9]
METHODS = ["uniform", "quantile", "outlier", "fixed", "percentiles", "", "Uniform", "kmeans", None, "fix", "percentile"]
PROBE = [-1e9, -3.5, -3, -2, -1, -0.25, 0, 0.5, 1, 2, 3.75, 4, 5, 9, 10, 1e9]


def options():
    for k in (1, 2, 3, 4, 5, 8, 10):
        yield {"method": "uniform", "num_buckets": k}
        yield {"method": "quantile", "num_buckets": k}
    for p in (0.0, 0.25, 0.125, 0.1, 0.05, 0.375, 0.499):
        yield {"method": "outlier", "outlier_percentile": p}
    for ps in ([], [0.0], [0.5], [0.25, 0.75], [0.1, 0.2, 0.9], [0.5, 0.5], [0.0, 1.0]):
        yield {"method": "percentiles", "percentile_split_points": ps}


def units(tier):
    t = tier == "thorough"
    us = [{"k": "new"}, {"k": "fixed"}, {"k": "dtypes"}]
    us += [{"k": "fit", "max": 7 if t else 5, "mod": 8, "rem": r} for r in range(8)]
    us += [{"k": "history", "len": 5 if t else 4, "method": m} for m in ("uniform", "quantile", "outlier", "percentiles", "fixed")]
    return us


def run_unit(u, ctx):
    from ..graphs import load
    load()
    import numpy as np
    from causalnex.discretiser import Discretiser
    {"new": construct, "fixed": fixed, "dtypes": dtypes, "fit": fits, "history": history}[u["k"]](ctx, np, Discretiser, u)


def splits(opts, data):
    """exact split points"""
    x = sorted(F(v) for v in data)
    n = len(x)

    def q(p):
        h = p * (n - 1)
        i = int(h)
        j = min(i + 1, n - 1)
        return x[i] + (x[j] - x[i]) * (h - i)

    m = opts["method"]
    if m == "uniform":
        k = opts["num_buckets"]
        return [x[0] + (x[-1] - x[0]) * F(i, k) for i in range(1, k)]
    if m == "quantile":
        k = opts["num_buckets"]
        return [q(F(i, k)) for i in range(1, k)]
    if m == "outlier":
        p = F(repr(opts["outlier_percentile"]))
        return [q(p), q(1 - p)]
    if m == "percentiles":
        return [q(F(repr(p))) for p in opts["percentile_split_points"]]
    return [F(v) for v in opts["numeric_split_points"]]


def dyadic(f):
    d = f.denominator
    return d & (d - 1) == 0 and d <= 1 << 20


def exact(opts, points):
    """no rounding can occur: all fractions and split points are short binary numbers"""
    m = opts["method"]
    if m == "fixed":
        return True
    ps = {"uniform": lambda: [F(1, opts["num_buckets"])], "quantile": lambda: [F(1, opts["num_buckets"])], "outlier": lambda: [F(opts["outlier_percentile"])],
          "percentiles": lambda: [F(p) for p in opts["percentile_split_points"]]}[m]()
    return all(dyadic(p) for p in ps) and all(dyadic(p) for p in points)


def check(ctx, np, got, values, opts, points, case, what, tol=1e-9):
    got = np.asarray(got)
    vals = np.asarray(values)
    if got.shape != vals.shape:
        ctx.fail("%s has shape %r, should be %r" % (what, got.shape, vals.shape), case)
    ex = exact(opts, points)
    scale = max([1] + [abs(p) for p in points])
    for v, b in zip(vals.ravel().tolist(), got.ravel().tolist()):
        if v != v or v in (float("inf"), float("-inf")):
            if v != v:
                continue
            lo = hi = len(points) if v > 0 else 0
        else:
            f = F(v)
            slack = 0 if ex else F(tol) * scale
            lo, hi = sum(p <= f - slack for p in points), sum(p <= f + slack for p in points)
        if not lo <= b <= hi:
            ctx.fail("%s puts %r into bucket %r, should be %r (split points %s)" % (what, v, b, lo, [str(p) for p in points]), case)
    ctx.trans()


def fits(ctx, np, D, u):
    i = 0
    opts = list(options())
    for n in range(1, u["max"] + 1):
        for data in itertools.combinations_with_replacement(VALUES, n):
            i += 1
            if i % u["mod"] != u["rem"]:
                continue
            for j, o in enumerate(opts):
                rot = (i + j) % n
                seq = list(data[rot:] + data[:rot])[:: -1 if (i + j) % 2 else 1]
                arr = np.array(seq, dtype=float)
                if (i + j) % 3 == 1:
                    arr = arr.reshape(-1, 1)
                elif (i + j) % 3 == 2 and n % 2 == 0:
                    arr = arr.reshape(2, -1)
                case = {"options": o, "data": arr.tolist()}
                ctx.state()
                ctx.trace()
                keep = arr.copy()
                ok, d = ctx.guard(lambda: D(**o).fit(arr), "fit", case)
                if not ok:
                    return
                if not np.array_equal(arr, keep):
                    ctx.fail("fit changed the data to %r" % arr.tolist(), case)
                points = splits(o, seq)
                probe = np.array(PROBE + [float(p) for p in points if dyadic(p)] + [float("inf"), float("-inf")])
                pk = probe.copy()
                ok, got = ctx.guard(lambda: d.transform(probe), "transform", case)
                if not ok:
                    return
                check(ctx, np, got, probe, o, points, case, "transform")
                if not np.array_equal(probe, pk):
                    ctx.fail("transform changed the data", case)
                ok, got = ctx.guard(lambda: D(**o).fit_transform(arr), "fit_transform", case)
                if ok:
                    check(ctx, np, got, arr, o, points, case, "fit_transform")
                ctx.outcome(tuple(np.asarray(got).ravel().tolist()))


def fixed(ctx, np, D, u):
    for n in range(0, 5):
        for pts in itertools.combinations_with_replacement(VALUES, n):
            o = {"method": "fixed", "numeric_split_points": list(pts)}
            case = {"options": o}
            ctx.state()
            ctx.trace()
            ok, d = ctx.guard(lambda: D(**o), "Discretiser", case)
            if not ok:
                return
            for probe in (np.array(PROBE + list(map(float, pts))), np.array(PROBE[:8]).reshape(2, 4), np.array([[1.0], [2.0]]), np.array([])):
                ok, got = ctx.guard(lambda: d.transform(probe), "transform", case)
                if not ok:
                    return
                check(ctx, np, got, probe, o, splits(o, []), case, "transform")
            ctx.raises(lambda: d.fit(np.array([1.0, 2.0])), RuntimeError, "fit with method fixed", case)
            ok, got = ctx.guard(lambda: d.transform(np.array(PROBE)), "transform after a refused fit", case)
            if ok:
                check(ctx, np, got, PROBE, o, splits(o, []), case, "transform after a refused fit")


def dtypes(ctx, np, D, u):
    sets = {"int8": [[-100, 100, 0, 5], [127, -128], [1, 2, 3]], "uint8": [[0, 255, 3], [200, 250, 255]], "int16": [[-32000, 32000, 7]], "int32": [[-2 ** 31, 2 ** 31 - 1, 9]],
            "int64": [[-5, 10 ** 12, 3]], "float32": [[0.5, -1.25, 1024.0], [3.0, 4.0]], "float64": [[1e-9, 2e-9, 5e-9], [1e15, 1e15 + 2, 1e15 + 4]], "bool": [[True, False, True, True]],
            "uint16": [[0, 65535, 32768]]}
    for name, ds in sets.items():
        for data in ds:
            for o in options():
                arr = np.array(data, dtype=name)
                case = {"options": o, "data": data, "dtype": name}
                ctx.state()
                ctx.trace()
                ok, d = ctx.guard(lambda: D(**o).fit(arr), "fit", case)
                if not ok:
                    return
                pts = splits(o, [v.item() for v in arr])
                probe = np.array([float(v) for v in arr])
                tol = 1e-6 if name in ("float32",) else 1e-9
                ok, got = ctx.guard(lambda: d.transform(arr if name != "bool" else probe), "transform", case)
                if ok:
                    sp = dict(o)
                    check(ctx, np, got, probe, sp, pts, case, "transform", tol)


def construct(ctx, np, D, u):
    for m, k, op, nsp, psp in itertools.product(METHODS, (None, 1, 3), (None, 0, 0.1, 0.499, 0.5, -0.1, 1.0), (None, [], [1], [1, 1, 2.5], [2, 1], [-1, 5, 3], [1, 4, 2, 5]),
                                                (None, [], [0, 1], [0.2, 0.4], [0.4, 0.2], [-0.1, 0.5], [0.5, 1.1], [0.5, 0.5], [0.1, 0.9, 0.5], [0.3, 0.1, 0.6], [0.2, 1.5, 0.4])):
        kw = {"method": m, "num_buckets": k, "outlier_percentile": op, "numeric_split_points": nsp, "percentile_split_points": psp}
        good = (m in METHODS[:5] and not (m in ("uniform", "quantile") and k is None) and not (m == "outlier" and op is None) and (op is None or 0 <= op < 0.5)
                and not (m == "fixed" and nsp is None) and (nsp is None or nsp == sorted(nsp)) and not (m == "percentiles" and psp is None)
                and (psp is None or (psp == sorted(psp) and all(0 <= p <= 1 for p in psp))))
        ctx.state()
        ctx.trace()
        ctx.trans()
        keep = repr(kw)
        if good:
            ok, d = ctx.guard(lambda: D(**kw), "Discretiser", kw)
            if not ok:
                return
            if m != "fixed":
                data = np.array([1.0, 5.0, 2.0, 2.0, 3.0])
                o = {a: b for a, b in kw.items()}
                ok, got = ctx.guard(lambda: d.fit_transform(data), "fit_transform", kw)
                if not ok:
                    return
                check(ctx, np, got, data, o, splits(o, data.tolist()), kw, "fit_transform")
        else:
            ctx.raises(lambda: D(**kw), ValueError, "Discretiser", kw)
        if repr(kw) != keep:
            ctx.fail("options were changed to %r" % kw, keep)


def history(ctx, np, D, u):
    m = u["method"]
    base = {"uniform": {"num_buckets": 4}, "quantile": {"num_buckets": 4}, "outlier": {"outlier_percentile": 0.25}, "percentiles": {"percentile_split_points": [0.25, 0.5]},
            "fixed": {"numeric_split_points": [0, 2]}}[m]
    other = {"uniform": {"num_buckets": 2}, "quantile": {"num_buckets": 8}, "outlier": {"outlier_percentile": 0.125}, "percentiles": {"percentile_split_points": [0.75]},
             "fixed": {"numeric_split_points": [0, 0, 4]}}[m]
    datas = {"A": [0.0, 1.0, 2.0, 3.0, 4.0], "B": [-8.0, 8.0, 8.0, 0.0, 1.0], "C": [5.0]}
    probe = np.array(PROBE)
    ops = [("fit", "A"), ("fit", "B"), ("fit", "C"), ("transform", None), ("fit_transform", "A"), ("fit_transform", "B"), ("params", None), ("other", None), ("wreck", None)]
    for n in range(1, u["len"] + 1):
        for seq in itertools.product(ops, repeat=n):
            if n > 1 and seq[-1][0] in ("params", "other"):
                continue
            case = {"method": m, "options": base, "history": [list(x) for x in seq]}
            ctx.state()
            ctx.trace()
            opts = dict(base, method=m)
            opts = {k: list(v) if isinstance(v, list) else v for k, v in opts.items()}
            d = D(**opts)
            fitted = [] if m == "fixed" else None
            bystander = D(**dict(other, method=m))
            for op, arg in seq:
                ctx.trans()
                if op in ("fit", "fit_transform"):
                    arr = np.array(datas[arg])
                    if m == "fixed":
                        ctx.raises(lambda: getattr(d, op)(arr), RuntimeError, op, case)
                        continue
                    ok, got = ctx.guard(lambda: getattr(d, op)(arr), op, case)
                    if not ok:
                        return
                    fitted = datas[arg]
                    if op == "fit":
                        if got is not d:
                            ctx.fail("fit does not return the discretiser itself", case)
                        arr[:] = 77        # fit must not have kept the caller's array
                    else:
                        check(ctx, np, got, datas[arg], opts, splits(opts, fitted), case, "fit_transform")
                elif op == "transform":
                    if fitted is not None:
                        ok, got = ctx.guard(lambda: d.transform(probe), op, case)
                        if not ok:
                            return
                        check(ctx, np, got, probe, opts, splits(opts, fitted), case, "transform")
                elif op == "params":
                    p = d.get_params()
                    if p.get("method") != m or any(p.get(k) != v for k, v in base.items() if k != "numeric_split_points"):
                        ctx.fail("get_params gives %r" % p, case)
                elif op == "other":
                    if m != "fixed":
                        bystander.fit(np.array(datas["B"]))
                    bystander.transform(probe)
                elif fitted is not None:      # a transform of other data must not shift the buckets
                    d.transform(np.array([[1e6, -1e6], [3.0, 3.0]]))
            if fitted is not None:
                ok, got = ctx.guard(lambda: d.transform(probe), "transform", case)
                if ok:
                    check(ctx, np, got, probe, opts, splits(opts, fitted), case, "transform")
                    ctx.outcome((tuple(np.asarray(got).tolist())))
