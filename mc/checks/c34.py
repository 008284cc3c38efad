"""DAGClassifier: what is learned, predicted and reported, for every kind of labels, container, option and history."""
import copy
import itertools
import logging
import warnings

from .. import dag, neural
from ..optim import Script
from .c33 import clones

PROPERTY = "C34"
MEANING = ("state = (types of the features, type, labels and container of the target, options, answer of the optimiser, fits so far); transition = one call of fit, predict, predict_proba or a report; "
           "trace = one fitted classifier compared with the specification of the learned equations")
BOUNDS = {
    "quick": "1-2 features of every assignment of the 5 types (3 features: continuous) x target {2 classes, 3 classes unordered, 2-4 classes ordered, 2 classes as categories; 11 classes of either kind for one feature} x 12 kinds of labels x 6 containers x standardize; "
             "every constraint set of <= 1 edge, parent, child x dependent_target; every sequence of 2 fits out of 6; every option through clone; unfitted calls; invalid labels and options",
    "thorough": "as quick with 3 features of {cont, cat, ord, bin}, every constraint set of <= 2 edges, and sequences of 3 fits",
}
ASSUMPTIONS = ["torch, scikit-learn and pandas are stand-ins; optimiser modelled as any procedure returning a vector within the given bounds"]
CHUNK = 1
UNIT_CPU = 900
TYPES = ("cont", "bin", "cat", "ord", "poiss")
TARGETS = ("bin", "cat", "ord", "bin", "cat", "cat2", "ord2")
FORMS = tuple(f for f in dag.FORMS if f != "int")
#: sorted labels, and the type of the array that holds them
WIDE_LABELS = {
    "codes": (range(11), None), "gaps": ([-40, -4, 0, 1, 7, 8, 9, 10, 11, 12, 100], None), "words": (["class %s" % x for x in "abcdefghijk"], None), "numbers as words": (sorted("%d" % i for i in range(1, 12)), None),
    "floats": ([float(3 * i - 7) for i in range(11)], None),
}
LABELS = {
    "codes": (range(9), None), "gaps": ([-4, 0, 1, 7, 8, 9, 10, 11, 12], None), "from one": (range(1, 10), None), "small": (range(9), "int8"), "floats": ([float(i) for i in range(9)], None), "far floats": ([-3.0, -1.0, 0.0, 2.0, 5.0, 6.0, 7.0, 8.0, 9.0], None),
    "words": (["hi", "lo", "mid", "no", "so", "to", "up", "we", "yo"], None), "numbers as words": (["1", "10", "11", "2", "3", "4", "5", "6", "7"], None), "one long word": (["a", "bb", "cccccc", "d", "e", "f", "g", "h", "i"], None),
    "objects": (["hi", "lo", "mid", "no", "so", "to", "up", "we", "yo"], object), "flags": ([False, True], None), "empty word": (["", "x", "y", "z", "zz", "zzz", "zzzz", "zzzzz", "zzzzzz"], object),
}


def units(tier):
    t = tier == "thorough"
    us = [{"k": "types", "n": n, "mod": m, "rem": i} for n, m in ((1, 2), (2, 8)) + (((3, 16),) if t else ()) for i in range(m)]
    us += [{"k": "tabu", "most": 2 if t else 1, "mod": 3, "rem": i} for i in range(3)]
    us += [{"k": "labels", "mod": 3, "rem": i} for i in range(3)]
    us += [{"k": "clone"}, {"k": "unfitted"}, {"k": "invalid"}]
    us += [{"k": "histories", "first": i, "deep": 3 if t else 2} for i in range(6)]
    us += [{"k": "real", "i": i} for i in range(2)]
    us += [{"k": "wide", "mod": 3, "rem": i} for i in range(3)]
    return us


def run_unit(u, ctx):
    H = dag.load()
    np = H["np"]
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    np.seterr(all="ignore")
    if u["k"] == "types":
        kinds = TYPES if u["n"] < 3 else TYPES[:4]
        idx = 0
        for types in list(itertools.product(kinds, repeat=u["n"])) + ([("cont",) * 3] if u["n"] == 1 else []):
            for target in ("bin", "cat", "ord", "cat2", "ord2"):
                for form in FORMS:
                    idx += 1
                    if idx % u["mod"] == u["rem"]:
                        attempt(ctx, H, types, target, form, idx, labels=list(LABELS)[idx % len(LABELS)], standardize=idx % 3 == 0, intercept=idx % 5 > 0)
        ctx.sample(u)
    elif u["k"] == "labels":
        idx = 0
        for labels in LABELS:
            for target in ("bin", "cat", "ord", "ord4", "cat2", "ord2"):
                for form in FORMS:
                    for explicit in (True, False):
                        idx += 1
                        if idx % u["mod"] == u["rem"]:
                            attempt(ctx, H, ("cont", "bin") if idx % 2 else ("cont",), target, form, idx, labels=labels, explicit=explicit)
    elif u["k"] == "tabu":
        off = [(i, j) for i in range(3) for j in range(3) if i != j]
        idx = 0
        for e in dag.subsets(off, u["most"]):
            for p in dag.subsets(range(3), 1):
                for c in dag.subsets(range(3), 1):
                    for dependent in (True, False):
                        idx += 1
                        if idx % u["mod"] == u["rem"]:
                            attempt(ctx, H, (("cont", "cont"), ("cat", "cont"), ("bin", "ord"))[idx % 3], TARGETS[idx % 5], ("frame", "named", "array", "words")[idx // 4 % 4], idx,
                                    labels=("words", "gaps", "codes")[idx // 2 % 3], e=e or None, p=p or None, c=c or None, dependent=dependent, threshold=(0.0, 0.4)[idx // 8 % 2])
        ctx.sample(u)
    elif u["k"] == "wide":
        # eleven classes
        idx = 0
        for target in ("cat", "ord"):
            for types in (("cont",), ("bin",), ("poiss",), ("ord",), ("cat",)):
                if types == (target,):
                    continue
                for labels in WIDE_LABELS:
                    for form in FORMS:
                        idx += 1
                        if idx % u["mod"] == u["rem"]:
                            attempt(ctx, H, types, target, form, idx, labels=labels, explicit=target == "ord" or idx % 4 < 2, standardize=types == ("cont",) and target == "ord" and idx % 3 == 0, intercept=idx % 5 > 0, threshold=(0.0, 0.3)[idx % 7 == 0], wide=True)
    elif u["k"] == "histories":
        histories(ctx, H, u)
    elif u["k"] == "clone":
        clones(ctx, H, H["Classifier"], ("bin", "cat", "ord"))
    elif u["k"] == "unfitted":
        X = np.array([[1.0, 2.0], [0.5, 1.5]])
        for kw in ({}, {"standardize": True}, {"target_dist_type": "cat", "standardize": True}, {"target_dist_type": "ord"}):
            for what in ("predict", "predict_proba"):
                ctx.trace()
                est = H["Classifier"](**kw)
                ctx.raises(lambda: getattr(est, what)(X), H["NotFitted"], "DAGClassifier(%r), not fitted: %s" % (kw, what))
    elif u["k"] == "invalid":
        invalid(ctx, H)
    else:
        real(ctx, H, u["i"])


def target_codes(np, target, types):
    """(dist type, codes of the rows)"""
    kind = target.rstrip("24")
    if target == "cat2":
        return kind, neural.table(("bin",) * 3)[2]
    if target == "ord2":
        return kind, neural.table(("bin",) * 3)[1]
    if target == "ord4":
        return kind, [(3 * i + i // 4) % 4 for i in range(len(neural.POOL["bin"][0]))]
    col = neural.table(tuple(types) + (target,))[-1]
    values = sorted(set(col))
    return kind, [values.index(v) for v in col]


def attempt(ctx, H, types, target, form, k, labels="codes", e=None, p=None, c=None, dependent=True, standardize=False, intercept=True, threshold=0.0, explicit=True, est=None, wide=False):
    np = H["np"]
    n = len(types)
    for x in TYPES:
        if types.count(x) + (x == target.rstrip("24")) > len(neural.POOL[x]):
            return est
    if standardize and "cont" not in types:
        return est
    kind, codes = target_codes(np, target, types)
    if wide:
        codes = neural.many(tuple(types) + (target,))[-1]
        codes = [sorted(set(codes)).index(v) for v in codes]
    pool, dtype = (WIDE_LABELS if wide else LABELS)[labels]
    pool = list(pool)
    m = len(set(codes))
    if m > len(pool):
        return est
    if not explicit and kind != ("bin" if m == 2 else "cat"):
        return est
    classes = np.array(pool[:m], dtype=dtype)
    cols = neural.many(tuple(types) + (target,))[:n] if wide else neural.table(types)
    X, _, names, yname = dag.wrap(H, cols, codes, form, list(dag.FEATURES[k % 3])[:n], ("y", "t", "a", 0)[k // 3 % 4] if not (e or p or c) else "y")
    y = classes[codes]
    if form not in ("array", "frame"):
        index = list(X.index) if form in ("words", "named") else None
        y = H["pd"].Series(y if k % 2 else y.tolist(), index=index, name=yname, **({"dtype": dtype} if dtype is not None and not k % 2 else {}))
    scaled = list(cols) + [codes]
    if standardize:
        for i, t in enumerate(types):
            if t == "cont":
                scaled[i] = dag.standardised(np, cols[i])[0]
    spec = neural.Mixed(np, tuple(types) + (kind,), scaled, intercept)
    ans = neural.values(spec.meanings, k)
    # the intercepts of standardised columns all have the same effect on the objective
    centred = [i for i, t in enumerate(spec.types) if t == "cont" and standardize]
    for i in centred:
        if ("b", (i, 0)) in ans:
            ans[("b", (i, 0))] = 0.37
    same = (lambda m: "b" if m[0] == "b" and m[1][0] in centred else m) if centred else None
    kw = {"dependent_target": dependent, "fit_intercept": intercept, "threshold": threshold, "standardize": standardize, "max_iter": 2}
    if explicit:
        kw["target_dist_type"] = kind
    if any(t != "cont" for t in types) or k % 2:
        kw["dist_type_schema"] = {names[i]: types[i] for i in range(n)}
    label = lambda i: names[i] if i < n else (yname if yname is not None else "__target")
    if e is not None:
        kw["tabu_edges"] = [(label(i), label(j)) for i, j in e]
    if p is not None:
        kw["tabu_parent_nodes"] = [label(i) for i in p]
    if c is not None:
        kw["tabu_child_nodes"] = [label(i) for i in c]
    given = copy.deepcopy(kw)
    desc = "DAGClassifier(%s) on %s of %r named %r and the target %r of labels %r" % (", ".join("%s=%r" % x for x in sorted(kw.items())), form, types, names, yname, classes.tolist())
    if est is None:
        est = H["Classifier"](**kw)
    else:
        est.set_params(**{a: v for a, v in kw.items() if a != "max_iter"})
    ok_edge = dag.allowed(n + 1, n, e, p, c, dependent)
    script = Script([ans], spec.score, spec.meanings, default=0.6, joint=spec.objective, frozen=lambda a: a[0] == "w" and not ok_edge(a[1][0], a[2][0]), same=same)
    if not dag.fit(ctx, H, est, X, y, desc, script):
        return
    ctx.check(kw == given, "%s: changed its options to %r" % (desc, kw))
    final = {a: (0.0 if a[0] == "w" and not ok_edge(a[1][0], a[2][0]) else w) for a, w in ans.items()}
    ctx.check(list(np.asarray(est.classes_)) == list(classes), "%s: classes_ is %r" % (desc, est.classes_))
    report(ctx, H, est, desc, spec, types, kind, m, final, threshold, intercept)
    predict(ctx, H, est, desc, spec, types, kind, classes, X, final)
    ctx.outcome((types, target, form, labels, standardize))
    return est


def report(ctx, H, est, desc, spec, types, kind, m, final, threshold, intercept):
    np = H["np"]
    n = len(types)
    if kind == "cat" and m == 2:
        # a row per class or one for the both: not specified
        ctx.guard(lambda: (est.coef_, est.feature_importances_, est.intercept_), desc + ": reports")
        return
    ok, res = ctx.guard(lambda: (np.asarray(est.coef_), np.asarray(est.feature_importances_), np.asarray(est.intercept_)), desc + ": reports")
    if not ok:
        return
    coef, imp, icpt = res
    levels = range(m) if kind == "cat" else (0,)
    keep = lambda w: w if abs(w) >= threshold else 0.0
    want = [[keep(final[("w", (i, 0), (n, l))]) for i in range(n)] for l in levels]
    for what, got, exp in (("coef_", coef, want), ("feature_importances_", imp, [[abs(w) for w in r] for r in want])):
        if got.ndim != 2 or got.shape[0] != len(exp) or got.shape[1] < n or any(not neural.close(float(got[l, i]), exp[l][i]) for l in levels for i in range(n)):
            ctx.fail("%s: %s is %r, should be %r (one row per class, or a single one if there is a single equation)" % (desc, what, got.tolist(), exp))
    exp = [final[("b", (n, l))] if intercept else 0.0 for l in levels]
    if icpt.shape != (len(exp),) or any(not neural.close(float(a), b) for a, b in zip(icpt, exp)):
        ctx.fail("%s: intercept_ is %r, should be %r" % (desc, icpt.tolist(), exp))


def predict(ctx, H, est, desc, spec, types, kind, classes, X, final):
    np = H["np"]
    n = len(types)
    W, b = spec.params(final)
    N = len(spec.cols[0])
    for rows in (list(range(N)), [4, 0, 4], [2], [7, 1], [5, 6, 3, 8]):
        E = spec.E[rows].copy()
        for j, v in enumerate(spec.vars):
            if v[0] == n:
                E[:, j] = 0.0
        P = spec.link(spec.latent(E, W, b))[n]
        if kind == "bin":
            P = np.vstack([1 - P, P]).T
        Xr = dag.row(X, rows)
        before = dag.snapshot(H, Xr)
        ctx.trans(2)
        ok, res = ctx.guard(lambda: (np.asarray(est.predict_proba(Xr)), np.asarray(est.predict(Xr))), "%s: predict rows %r" % (desc, rows))
        if not ok:
            return
        proba, got = res
        if proba.shape != P.shape or np.abs(proba - P).max() > 1e-7:
            ctx.fail("%s: the probabilities for rows %r are %r, should be %r" % (desc, rows, proba.tolist(), P.tolist()))
            return
        top = np.sort(P, axis=1)
        for i in range(len(rows)):
            if top[i, -1] - top[i, -2] > 1e-9 and got[i] != classes[int(P[i].argmax())]:
                ctx.fail("%s: row %r is predicted %r, its probabilities are %r for the classes %r" % (desc, rows[i], got[i], P[i].tolist(), classes.tolist()))
                return
        ctx.check(got.dtype == np.asarray(est.classes_).dtype, "%s: the predictions are %s, classes_ is %s" % (desc, got.dtype, np.asarray(est.classes_).dtype))
        ctx.check(got.shape == (len(rows),), "%s: predictions of shape %r" % (desc, got.shape))
        ctx.check(dag.snapshot(H, Xr) == before, "%s: predict changed its input" % desc)


OPS = [("bin", ("cont", "cont"), "frame", "codes", False), ("cat", ("cont",), "array", "words", False), ("ord", ("cat", "cont"), "named", "gaps", True), ("bin", ("cont", "bin"), "words", "flags", True), ("cat", ("cont", "ord"), "frame", "from one", True),
       ("ord4", ("cont",), "array", "numbers as words", False)]


def histories(ctx, H, u):
    """the last fit counts, whatever was fitted before: also where the type of the target follows from the number of classes"""
    for rest in itertools.product(range(len(OPS)), repeat=u["deep"] - 1):
        seq = (u["first"],) + rest
        est = None
        for step, i in enumerate(seq):
            target, types, form, labels, s = OPS[i]
            explicit = target.startswith("ord")
            if est is not None:
                est.set_params(dist_type_schema=None, target_dist_type=None)
            est = attempt(ctx, H, types, target, form, step * 2 + 1, labels=labels, standardize=s, est=est, explicit=explicit)
            if est is None:
                break


def invalid(ctx, H):
    np, pd = H["np"], H["pd"]
    cls = H["Classifier"]
    for bad in ("cont", "poiss", "normal", ""):
        ctx.trace()
        ctx.raises(lambda: cls(target_dist_type=bad), NotImplementedError, "DAGClassifier(target_dist_type=%r)" % bad)
    for k, bads in (("alpha", ("0.1", None)), ("beta", ("0.1", None)), ("fit_intercept", (0, 1, None)), ("threshold", ("0", None))):
        for bad in bads:
            ctx.trace()
            ctx.raises(lambda: cls(**{k: bad}), TypeError, "DAGClassifier(%s=%r)" % (k, bad))
    X = np.array([[1.0, 2.0], [0.5, 1.5], [2.0, 0.0], [0.1, 0.3]])
    for name, y in (("one class", [1, 1, 1, 1]), ("one word", ["a"] * 4), ("one flag", [True] * 4), ("fractions", [0.5, 1.0, 1.5, 0.25]), ("two fractions", [0.5, 1.5, 0.5, 1.5]), ("one unknown", [0.0, 1.0, np.nan, 1.0]), ("endless", [0.0, 1.0, np.inf, 1.0]),
                    ("too few", [0, 1, 0]), ("too many", [0, 1, 0, 1, 1])):
        for form in ("array", "series"):
            for kw in ({}, {"standardize": True}, {"target_dist_type": "bin"}, {"target_dist_type": "cat"}, {"target_dist_type": "ord"}):
                ctx.state()
                ctx.trans()
                ctx.trace()
                Y = np.array(y) if form == "array" else pd.Series(y)
                with Script([[0.0]]):
                    ctx.raises(lambda: cls(**kw).fit(X, Y), ValueError, "DAGClassifier(%r).fit on labels of %s (%s)" % (kw, name, form))
    for rows in (1, 2, 3):
        for label in (0, 1, "a", True):
            for kw in ({}, {"target_dist_type": "bin"}, {"target_dist_type": "cat"}, {"target_dist_type": "ord"}):
                ctx.state()
                ctx.trans()
                ctx.trace()
                with Script([[0.0]]):
                    ctx.raises(lambda: cls(**kw).fit(X[:rows], np.array([label] * rows)), ValueError, "DAGClassifier(%r).fit on %d rows of the one class %r" % (kw, rows, label))
    for bad in (np.nan, np.inf):
        for r in range(4):
            A = X.copy()
            A[r, r % 2] = bad
            ctx.trace()
            with Script([[0.0]]):
                ctx.raises(lambda: cls().fit(A, np.array([0, 1, 0, 1])), ValueError, "DAGClassifier.fit with %r at row %d" % (bad, r))


def real(ctx, H, i):
    """the real optimiser on a separable law: found, whatever the labels and the container"""
    np = H["np"]
    cols = neural.table(("cont", "cont"))
    score = [2 * a - b for a, b in zip(*cols)]
    cut = sorted(score)
    m = (2, 3)[i]
    codes = [sum(s > cut[len(cut) * j // m] for j in range(1, m)) for s in score]
    for j, (labels, (pool, dtype)) in enumerate(sorted(LABELS.items())):
        if len(list(pool)) < m or j % 2:
            continue
        for form in ("array", "frame", "shuffled")[j // 2 % 2:]:
            X, _, names, _ = dag.wrap(H, cols, codes, form, ["a", "b"])
            Y = np.array(list(pool)[:m], dtype=dtype)[codes]
            est = H["Classifier"](alpha=0.001, beta=0.01, standardize=j % 4 == 0)
            desc = "DAGClassifier on %s of a law with %d classes %r" % (form, m, labels)
            if not dag.fit(ctx, H, est, X, Y, desc):
                continue
            ok, got = ctx.guard(lambda: np.asarray(est.predict(X)), desc)
            if ok and (got == Y).mean() < 0.7:
                ctx.fail("%s: only %d of %d rows are predicted right" % (desc, int((got == Y).sum()), len(Y)))
            ctx.outcome((form, labels, m))
