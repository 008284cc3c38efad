"""Bayesian networks fitted from data: the specification (counts, posteriors) and the frames to fit from."""
import itertools

NAMES = {"abc": ["b", "a", "c", "d"], "clash": ["x", "x_2", "x_10", "x_0"], "regex": ["a.b", "(a", "a+", "a*"], "long": ["node one", "Node", "ä", "x_prediction"]}
STATES = {"int": [5, 2, 10], "neg": [-1, -2, 0], "str": ["b", "a", "c"], "bool": [True, False], "float": [0.5, 10.0, 2.25], "words": ["x_1", "_x", "x"], "digits": ["10", "9", "1"], "idx": [0, 1, 2]}


class Spec:
    """Structure + states + data (rows of state positions, in sorted order of states)."""

    def __init__(self, parents, names, states, rows, method="MLE", ess=None, cpts=None):
        self.parents, self.names, self.n = parents, names, len(parents)
        self.states = [sorted(s) for s in states]
        self.rows, self.method, self.ess = rows, method, ess
        self.cpt = cpts if cpts is not None else [self.table(i) for i in range(self.n)]

    def table(self, i):
        ps = self.parents[i]
        k = len(self.states[i])
        q = 1
        for p in ps:
            q *= len(self.states[p])
        pseudo = {"MLE": 0.0, "K2": 1.0, "BDeu": (self.ess or 0) / (k * q)}[self.method]
        res = {}
        for cfg in itertools.product(*[range(len(self.states[p])) for p in ps]):
            c = [pseudo] * k
            for r in self.rows:
                if all(r[p] == x for p, x in zip(ps, cfg)):
                    c[r[i]] += 1
            t = sum(c)
            res[cfg] = [x / t for x in c] if t else [1.0 / k] * k
        return res

    def joint(self, known):
        """[(assignment, weight)] of the assignments that agree with `known` {variable: state position}"""
        out = []
        for a in itertools.product(*[[known[i]] if i in known else range(len(self.states[i])) for i in range(self.n)]):
            w = 1.0
            for i in range(self.n):
                w *= self.cpt[i][tuple(a[p] for p in self.parents[i])][a[i]]
            out.append((a, w))
        return out

    def frame(self, pd, rows=None, cols=None, index=None):
        rows = self.rows if rows is None else rows
        cols = list(range(self.n)) if cols is None else cols
        return pd.DataFrame({self.names[i]: [self.states[i][r[i]] for r in rows] for i in cols}, index=index)

    def structure(self):
        from causalnex.structure import StructureModel
        g = StructureModel()
        g.add_nodes_from(self.names)
        g.add_edges_from([(self.names[p], self.names[i]) for i, ps in enumerate(self.parents) for p in ps])
        return g

    def fit(self, bn, df):
        if self.method == "MLE":
            return bn.fit_cpds(df)
        if self.method == "K2":
            return bn.fit_cpds(df, method="BayesianEstimator", bayes_prior="K2")
        return bn.fit_cpds(df, method="BayesianEstimator", bayes_prior="BDeu", equivalent_sample_size=self.ess)


def cells(df):
    return [list(df.columns), list(df.index), [[x.item() if hasattr(x, "item") else x for x in r] for r in df.values.tolist()]]


def check_cpds(ctx, bn, sp, case, what):
    ok, cpds = ctx.guard(lambda: bn.cpds, what + ": cpds", case)
    if not ok:
        return False
    if set(cpds) != set(sp.names):
        ctx.fail("%s: tables for %r" % (what, sorted(cpds)), case)
        return False
    for i, ps in enumerate(sp.parents):
        t = cpds[sp.names[i]]
        if t.index.tolist() != sp.states[i]:
            ctx.fail("%s: the rows of %r are %r" % (what, sp.names[i], t.index.tolist()), case)
            return False
        names = list(t.columns.names) if ps else []
        if sorted(names) != sorted(sp.names[p] for p in ps):
            ctx.fail("%s: the columns of %r are over %r" % (what, sp.names[i], names), case)
            return False
        order = [sp.names.index(nm) for nm in names]
        cols = [c if isinstance(c, tuple) else (c,) for c in t.columns.tolist()]
        want = {tuple(sp.states[p][cfg[ps.index(p)]] for p in order): v for cfg, v in sp.cpt[i].items()}
        if ps and (len(cols) != len(want) or set(cols) != set(want)):
            ctx.fail("%s: the columns of %r are %r" % (what, sp.names[i], cols), case)
            return False
        vals = t.values.tolist()
        for k, c in enumerate(cols):
            w = want[c if ps else ()]
            if any(abs(float(vals[r][k]) - w[r]) > 1e-9 for r in range(len(w))):
                ctx.fail("%s: P(%s | %s) is %r, should be %r" % (what, sp.names[i], dict(zip(names, c)), [vals[r][k] for r in range(len(w))], w), case)
                return False
        ctx.trans()
    return True


def check_predictions(ctx, pd, bn, sp, target, given, rows, index, case, what):
    """predict and predict_probability of `target` from the columns `given` (which may include it)"""
    df = sp.frame(pd, rows, given, index)
    before = cells(df)
    case = dict(case, target=sp.names[target], given=[sp.names[g] for g in given])
    ok, pr = ctx.guard(lambda: bn.predict_probability(df, sp.names[target]), what + ": predict_probability", case)
    if not ok:
        return False
    ok, pd_ = ctx.guard(lambda: bn.predict(df, sp.names[target]), what + ": predict", case)
    if not ok:
        return False
    if cells(df) != before:
        ctx.fail("%s: the prediction changed its data" % what, case)
    nm = sp.names[target]
    want_cols = ["%s_%s" % (nm, s) for s in sp.states[target]]
    if sorted(pr.columns) != sorted(want_cols) or list(pd_.columns) != ["%s_prediction" % nm]:
        ctx.fail("%s: predicted the columns %r and %r" % (what, list(pr.columns), list(pd_.columns)), case)
        return False
    if list(pr.index) != list(index) or list(pd_.index) != list(index):
        ctx.fail("%s: the predictions have the index %r / %r instead of %r" % (what, list(pr.index), list(pd_.index), list(index)), case)
        return False
    col = {c: pr[c].tolist() for c in want_cols}
    best = pd_[pd_.columns[0]].tolist()
    complete = all(p in given for p in sp.parents[target])
    for r, row in enumerate(rows):
        known = {g: row[g] for g in given if g != target}
        if complete:
            dist = sp.cpt[target][tuple(row[p] for p in sp.parents[target])]
            top = [k for k, x in enumerate(dist) if x >= max(dist) - 1e-9]
        else:
            j = sp.joint(known)
            tot = sum(w for _, w in j)
            dist = [sum(w for a, w in j if a[target] == k) / tot for k in range(len(sp.states[target]))]
            mx = max(w for _, w in j)
            top = sorted({a[target] for a, w in j if w >= mx * (1 - 1e-9)})
        ctx.trans()
        got = [float(col[c][r]) for c in want_cols]
        if any(abs(a - b) > 1e-7 for a, b in zip(got, dist)):
            ctx.fail("%s: row %r gives the probabilities %r, should be %r" % (what, {sp.names[k]: sp.states[k][v] for k, v in known.items()}, got, dist), case)
            return False
        b = best[r]
        if b not in [sp.states[target][k] for k in top]:
            ctx.fail("%s: row %r gives the prediction %r, should be among %r" % (what, {sp.names[k]: sp.states[k][v] for k, v in known.items()}, b, [sp.states[target][k] for k in top]), case)
            return False
    return True


def possible(sp, given, target):
    """rows (over all variables) whose given part is possible, one per value of the given part"""
    res = []
    for vals in itertools.product(*[range(len(sp.states[i])) for i in given]):
        known = {g: v for g, v in zip(given, vals)}
        ev = {g: v for g, v in known.items() if g != target}
        if sum(w for _, w in sp.joint(ev)) > 1e-12:
            res.append([known.get(i, 0) for i in range(sp.n)])
    return res
