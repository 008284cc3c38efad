"""Structure learning from data (NOTEARS): constraints, thresholds, naming and objective, whatever the optimiser answers."""
import copy
import itertools
import warnings

from ..graphs import acyclic, graph_of
from ..optim import Script, reports, load, slope_mismatch

PROPERTY = "C19"
MEANING = ("state = (data, forbidden edges / parents / children, threshold, script of optimiser answers); transition = one call of a learner; trace = one learned "
           "structure compared with what the constraints allow and with the optimiser's answer (identified through the objective it was given)")
BOUNDS = {
    "quick": "d <= 3 columns. Optimiser as environment: every answer with entries from {0, 0.4, -1.2} within the bounds (3 columns; 5 values on 2) x 3 thresholds, 4 learners; scripts of 2 and 3 "
             "answers (cyclic or not) x max_iter {1,2,5}. Every set of forbidden edges x forbidden parents x forbidden children on 3 columns with a dense answer (model), "
             "and every one on 2 / a covering part on 3 with the real optimiser. Every kind of invalid data; 5 tables of column names; "
             "scripts of 20 to 160 answers, each less cyclic than the one before; 7 tolerances x scripts of answers above and below them; 1-69 and up to 20001 rows of floating point, integer and mixed types; weights down to 3e-13; "
             "pairs of calls one after the other against the second one in a module loaded anew",
    "thorough": "as quick with 4 columns for the answers (two nonzero values on every DAG), and all 4096 constraint sets on 3 columns with the real optimiser and all 4 learners",
}
ASSUMPTIONS = ["optimiser modelled as any procedure returning a vector within the given bounds; pandas stand-in carries the data frames"]
CHUNK = 2
UNIT_CPU = 900
NAMES = [["a", "b", "c"], ["c", "b", "a"], ["x1", "x10", "x"], [2, 0, 1], [("t", 1), "t", 0]]
DATA = [[1.0, 2.0, -1.0], [0.5, -1.0, 3.0], [-2.0, 0.25, 1.0], [1.5, 1.0, 0.0], [0.0, -0.5, 2.0], [2.0, 3.0, 1.0]]
LEARNERS = ("numpy", "numpy_lasso", "pandas", "pandas_lasso")
BETA = 0.1


def units(tier):
    t = tier == "thorough"
    us = [{"k": "answers", "d": 1, "mod": 1, "rem": 0, "values": [0, 0.4, -1.2, 0.1, -0.1]}, {"k": "answers", "d": 2, "mod": 1, "rem": 0, "values": [0, 0.4, -1.2, 0.1, -0.1, 1e-10, -3e-13]}]
    for i in range(16):
        us.append({"k": "answers", "d": 3, "mod": 16, "rem": i, "values": [0, 0.4, -1.2]})
    for i in range(16):
        us.append({"k": "tabu", "d": 3, "mod": 16, "rem": i, "real": False})
    us.append({"k": "tabu", "d": 2, "mod": 1, "rem": 0, "real": False})
    for i in range(4):
        us.append({"k": "tabu", "d": 2, "mod": 4, "rem": i, "real": True})
    for i in range(32):
        us.append({"k": "tabu", "d": 3, "mod": 32, "rem": i, "real": True, "all": t})
    for i in range(8):
        us.append({"k": "scripts", "mod": 8, "rem": i})
    us.append({"k": "tolerance", "mod": 1, "rem": 0})
    for i in range(4):
        us.append({"k": "long", "mod": 4, "rem": i})
    for i in range(8):
        us.append({"k": "rows", "mod": 8, "rem": i})
    for i in range(8):
        us.append({"k": "history", "mod": 8, "rem": i, "all": t})
    us.append({"k": "invalid"})
    us.append({"k": "names"})
    if t:
        for i in range(16):
            us.append({"k": "answers4", "mod": 16, "rem": i})
    return us


def run_unit(u, ctx):
    nt = load("notears")
    import numpy as np
    import pandas as pd
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    H = {"np": np, "pd": pd, "nt": nt}
    if u["k"] == "answers":
        d = u["d"]
        free = [(i, j) for i in range(d) for j in range(d)]
        for idx, vals in enumerate(itertools.product(u["values"], repeat=len(free) - d)):
            if idx % u["mod"] != u["rem"]:
                continue
            it = iter(vals)
            w = [0.7 if i == j else next(it) for i, j in free]
            for learner in LEARNERS:
                for thr in (0.0, 0.3, 1.0):
                    attempt(ctx, H, learner, d, [w], thr)
        ctx.sample(u)
    elif u["k"] == "answers4":
        d = 4
        for idx, vals in enumerate(itertools.product((0, 0.4, -1.2), repeat=6)):
            if idx % u["mod"] != u["rem"]:
                continue
            for perm in itertools.permutations(range(4)):
                it = iter(vals)
                w = [0.0] * 16
                for a, b in itertools.combinations(range(4), 2):
                    w[perm[a] * 4 + perm[b]] = next(it)
                attempt(ctx, H, LEARNERS[idx % 4], d, [w], 0.3)
    elif u["k"] == "tabu":
        d = u["d"]
        arcs = [(i, j) for i in range(d) for j in range(d) if i != j]
        subsets = lambda xs: [list(c) for k in range(len(xs) + 1) for c in itertools.combinations(xs, k)]
        for idx, (e, p, c) in enumerate(itertools.product(subsets(arcs), subsets(range(d)), subsets(range(d)))):
            if idx % u["mod"] != u["rem"]:
                continue
            if u["real"] and d == 3 and not u["all"] and not (len(p) + len(c) == 0 or (len(e) <= 1 and len(p) + len(c) <= 2)):
                continue
            e, p, c = e or None, p or None, c or None
            if u["real"]:
                todo = LEARNERS if u.get("all") or d == 2 else (LEARNERS[idx // u["mod"] % 4],)
                for learner in todo:
                    attempt(ctx, H, learner, d, None, 0.05, e, p, c)
            else:
                for learner in LEARNERS:
                    w = [0.9, -0.4, 0.6, 0.8, 0.3, -0.7, -0.5, 1.1, 0.2][:d * d]
                    attempt(ctx, H, learner, d, [w], 0.0, e, p, c, watch=False)
                # empty containers mean the same as none
                attempt(ctx, H, LEARNERS[idx % 4], d, [w], 0.0, e or [], p or [], c or [], watch=False)
        ctx.sample(u)
    elif u["k"] == "scripts":
        # the optimiser changes its mind between calls; convergence and the warning
        vs = [[0, 0.5, 0, 0], [0, 0.5, 0.5, 0], [0, 0, -0.7, 0], [0, 1e-3, 1e-3, 0], [0, 0, 0, 0], [0, 1.5, -1.5, 0], [0, 1e-6, 2, 0]]
        for idx, script in enumerate(itertools.chain(itertools.product(vs, repeat=2), itertools.product(vs[:4] + vs[5:], repeat=3))):
            if idx % u["mod"] != u["rem"]:
                continue
            for max_iter in (1, 2, 5):
                for learner in LEARNERS:
                    attempt(ctx, H, learner, 2, list(script), 0.0, max_iter=max_iter, watch="penalty")
    elif u["k"] == "tolerance":
        # the tolerance decides when an answer is good enough and whether to warn
        vs = [[0, 5e-4, 5e-4, 0], [0, 5e-3, 5e-3, 0], [0, 0.05, 0.05, 0], [0, 0.4, 0.4, 0], [0, 1.0, 1.0, 0], [0, 0.5, 0, 0]]
        for h_tol in (1e-12, 1e-10, 1e-8, 1e-5, 1e-2, 0.5, 20):
            for script in [[v] for v in vs] + [[a, b] for a in vs for b in vs]:
                for max_iter in (1, 3):
                    for learner in LEARNERS:
                        attempt(ctx, H, learner, 2, script, 0.0, max_iter=max_iter, watch=False, h_tol=h_tol)
    elif u["k"] == "long":
        # as many steps as it takes: the k-th answer is less cyclic than the one before, the last one is not
        for idx, (steps, spare) in enumerate(itertools.product((20, 60, 99, 100, 101, 130, 160), (-1, 0, 1, 40))):
            if idx % u["mod"] != u["rem"]:
                continue
            size = [float(np.sqrt(np.arccosh(1 + 0.5 * 1e100 * 4.2 ** -k))) for k in range(steps - 1)]
            script = [[0, a, a, 0] for a in size] + [[0, 0.5, 0, 0]]
            for learner in LEARNERS:
                attempt(ctx, H, learner, 2, script, 0.0, max_iter=steps + spare, watch=False)
    elif u["k"] == "rows":
        # every row counts, and whole numbers are as good as others
        sizes = list(range(1, 70)) + [99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 499, 500, 501, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2001, 4097, 5001, 10001, 20001]
        for idx, n in enumerate(sizes):
            if idx % u["mod"] != u["rem"]:
                continue
            raw = (np.outer(np.arange(1, n + 1), np.sqrt([2.0, 3.0, 5.0])) * 1.1) % 1 * 9 - 4
            raw[-1] = [3, -4, 7]
            for kind in ("f8", "i8", "i4", "i1", "f4", "mixed"):
                if n > 300 and kind not in ("f8", "i8"):
                    continue
                for learner in LEARNERS:
                    if kind == "mixed" and not learner.startswith("pandas"):
                        continue
                    X = np.round(raw, 1) if kind in ("f8", "mixed") else np.round(raw)
                    if kind == "mixed":
                        X[:, 1] = np.round(X[:, 1])
                    tell_apart(np, X)
                    # answers in both directions: the objective of each is that of all the rows
                    for w in ([0, 0.4, -1.2, 0, 0, 0.8, 0, 0, 0], [0, 0, 0, 0.7, 0, 0, -0.5, 1.1, 0]):
                        attempt(ctx, H, learner, 3, [w], 0.0, X=X, kind=kind)
    elif u["k"] == "history":
        history(ctx, H, u)
    elif u["k"] == "names":
        for names in NAMES:
            for e in ([(0, 1)], [(2, 0), (1, 2)], [(0, 0)], None):
                for p in ([0], [2, 1], None):
                    for c in ([1], None):
                        for learner in ("pandas", "pandas_lasso"):
                            attempt(ctx, H, learner, 3, [[0.9, -0.4, 0.6, 0.8, 0.3, -0.7, -0.5, 1.1, 0.2]], 0.0, e, p, c, names=names, watch=False)
    else:
        invalid(ctx, H)


def attempt(ctx, H, learner, d, script, thr, e=None, p=None, c=None, max_iter=100, names=None, watch=True, h_tol=None, X=None, kind="f8"):
    np, pd, nt = H["np"], H["pd"], H["nt"]
    what = "" if X is None else " of %d rows of type %s" % (len(X), kind)
    X = np.array([r[:d] for r in DATA]) if X is None else X
    panda = learner.startswith("pandas")
    names = (names or NAMES[0] + ["d"])[:d] if panda else list(range(d))
    if d == 4:
        X = np.hstack([np.array(DATA), [[1.0], [2.0], [-1.0], [0.5], [0.25], [-2.0]]])
    lab = lambda i: names[i]
    kw = {"w_threshold": thr, "max_iter": max_iter}
    if e is not None:
        kw["tabu_edges"] = [(lab(i), lab(j)) for i, j in e]
    if p is not None:
        kw["tabu_parent_nodes"] = [lab(i) for i in p]
    if c is not None:
        kw["tabu_child_nodes"] = [lab(i) for i in c]
    if script is None:
        kw["max_iter"], kw["h_tol"] = 6, 1e-6
    if h_tol is not None:
        kw["h_tol"] = h_tol
    given = copy.deepcopy(kw)
    data = X.astype("f8" if kind == "mixed" else kind)
    if panda:
        data = pd.DataFrame(data, columns=names)
        if kind == "mixed":
            data[names[1]] = [int(v) for v in X[:, 1]]
    if learner.endswith("lasso"):
        kw["beta"] = BETA
    fn = getattr(nt, "from_" + learner)
    desc = "from_%s(max_iter=%d, w_threshold=%r, tabu_edges=%r, tabu_parent_nodes=%r, tabu_child_nodes=%r)" % (
        learner, kw["max_iter"], thr, kw.get("tabu_edges"), kw.get("tabu_parent_nodes"), kw.get("tabu_child_nodes"))
    if script is not None:
        desc += " with the optimiser answering %r" % (script,)
    if script is not None and len(script) > 8:
        desc = desc.split(" with the optimiser")[0] + " with the optimiser answering %r, each less cyclic than the one before, and %r after %d of them" % (script[0], script[-1], len(script) - 1)
    if what:
        desc += " on data" + what
    if h_tol is not None:
        desc += " with tolerance %g" % h_tol
    seen = []
    lasso = learner.endswith("lasso")

    probes = []

    def look(x, f, g, call):
        if watch == "penalty":
            # the same cyclic structure, at every call
            probes.append(float(f(np.array([0.0 if l is None else 0.5 * max(l[1], 0) for l in env.layout]))))
            return
        if call == 1 or len(script) > 1:
            seen.append((x, float(f(x))))
            if g is not None:
                m = slope_mismatch(f, g, x)
                if m:
                    ctx.fail("%s: %s" % (desc, m))

    def score_of(M):
        s = 0.5 / len(X) * float(((X - X.dot(M)) ** 2).sum())
        return s + BETA * float(np.abs(M).sum()) if lasso else s

    def score(m, w):
        M = np.zeros((d, d))
        M[m] = w
        return score_of(M)

    ctx.state()
    ctx.trans()
    ctx.trace()
    with warnings.catch_warnings(record=True) as warned:
        warnings.simplefilter("always")
        if script is None:
            env = None
            ok, sm = ctx.guard(lambda: fn(data, **kw), desc, cpu=120)
        else:
            answers = [{(i, j): float(w[i * d + j]) for i in range(d) for j in range(d) if i != j} for w in script]
            with Script(answers, score, list(answers[0]), look if watch else None, default=0.7, success=reports(H)) as env:
                ok, sm = ctx.guard(lambda: fn(data, **kw), desc, cpu=60)
    if not ok:
        return
    if env is not None and not env.calls:
        ctx.gaps["the optimiser model was not asked"] = ctx.gaps.get("the optimiser model was not asked", 0) + 1
        env = None
    nodes, edges = graph_of(sm)
    if type(sm).__name__ != "StructureModel":
        ctx.fail("%s: gives a %s" % (desc, type(sm)))
    if set(nodes) != set(names):
        ctx.fail("%s: nodes %r, should be the columns %r" % (desc, list(nodes), names))
    pos = {n: i for i, n in enumerate(names)}
    W = np.zeros((d, d))
    for (a, b), dat in edges.items():
        i, j = pos[a], pos[b]
        w = dat.get("weight")
        if w is None or not np.isfinite(w) or w == 0 or abs(w) < thr:
            ctx.fail("%s: edge %r has weight %r" % (desc, (a, b), w))
        if i == j:
            ctx.fail("%s: self-loop on %r" % (desc, a))
        if e and (i, j) in e:
            ctx.fail("%s: forbidden edge %r" % (desc, (a, b)))
        if p and i in p:
            ctx.fail("%s: %r is a parent of %r" % (desc, a, b))
        if c and j in c:
            ctx.fail("%s: %r is a child of %r" % (desc, b, a))
        if panda and dat.get("origin") != "learned":
            ctx.fail("%s: edge %r has origin %r" % (desc, (a, b), dat.get("origin")))
        W[i, j] = w
    same = (list(data.columns) == list(names) and np.array_equal(data.values, X)) if panda else np.array_equal(data, X)
    if not same:
        ctx.fail("%s: changed the data" % desc)
    if {k: kw[k] for k in given} != given:
        ctx.fail("%s: changed its arguments to %r" % (desc, kw))
    if env is not None:
        mine = [wanted(w, d, e, p, c) for w in script]
        cyc = [not acyclic(range(d), [(i, j) for i in range(d) for j in range(d) if m[i][j]]) for m in mine]
        hres = lambda M: float(np.trace(expm(np, M * M))) - d
        tol = 1e-8 if h_tol is None else h_tol
        # good enough: certainly, certainly not, or too close to say
        enough = lambda M: True if hres(np.array(M)) < 0.9 * tol - 1e-13 else False if hres(np.array(M)) > 1.1 * tol + 1e-13 else None
        if len(script) == 1 or not cyc[0] or enough(mine[0]):
            final = mine[0]
            exp = {(i, j): final[i][j] for i in range(d) for j in range(d) if final[i][j] and abs(final[i][j]) > thr}
            got = {(i, j): W[i, j] for i in range(d) for j in range(d) if W[i, j]}
            for k in set(exp) | set(got):
                if (abs(exp.get(k, 0) - got.get(k, 0)) > 1e-9 or (k in exp) != (k in got)) and not (k in got and abs(abs(final[k[0]][k[1]]) - thr) < 1e-12):
                    ctx.fail("%s: edges %r, the optimum has %r" % (desc, got, exp))
            conv = [w for w in warned if "converge" in str(w.message)]
            if conv and not cyc[0]:
                ctx.fail("%s: warned about convergence of an acyclic answer" % desc)
        last = mine[min(env.calls, len(mine)) - 1]
        if thr == 0 and np.abs(W - np.array(last)).max() > 1e-9:
            ctx.fail("%s: weights %r, the last of the %d answers was %r" % (desc, W.tolist(), env.calls, last))
        conv = any("converge" in str(w.message) for w in warned)
        if enough(last) is False and not conv:
            ctx.fail("%s: no warning, though the answer is cyclic" % desc)
        if enough(last) and conv:
            ctx.fail("%s: warned about convergence of an answer within the tolerance" % desc)
        if len(script) > 8 and max_iter >= len(script) and abs(np.array(last) - np.array(mine[-1])).max() > 1e-9:
            ctx.fail("%s: stopped at answer %d" % (desc, env.calls))
        for k in range(1, len(probes)):
            if not probes[k] >= probes[k - 1] or (hres(np.array(mine[min(k, len(mine)) - 1])) > 1e-3 and not probes[k] > probes[k - 1]):
                ctx.fail("%s: the objective of one cyclic structure is %r at call %d and %r at call %d, though the answers are cyclic" % (
                    desc, probes[k - 1], k, probes[k], k + 1))
        if thr == 0 and seen:
            x, f = seen[0]
            want = score_of(np.array(mine[0]))
            if not cyc[0] and abs(f - want) > 1e-8 * max(1, abs(want)):
                ctx.fail("%s: the objective of the (acyclic) answer is %r, the documented score is %r" % (desc, f, want))
            if cyc[0] and len(script) == 1 and hres(np.array(mine[0])) > 1e-6 and not f > want:
                ctx.fail("%s: a cyclic answer is not penalised" % desc)
    ctx.outcome((learner, tuple(sorted((pos[a], pos[b]) for a, b in edges))))


def tell_apart(np, X):
    """Change the last row until no two single-edge answers have the same score."""
    while True:
        g = X.T.dot(X)
        scores = sorted((0.5 * w * w * g[i, i] - w * g[i, j]) / len(X) + BETA * abs(w) for i in range(3) for j in range(3) if i != j for w in (0.75, -0.75))
        if all(b - a > 1e-6 * max(1, abs(b) + g.trace() / len(X)) for a, b in zip(scores, scores[1:])):
            return
        X[-1] += [0, 1, 2] if abs(X[-1]).max() < 100 else [-60, -55, -111]


def history(ctx, H, u):
    """What was learned before makes no difference: every pair of calls against the second one alone, in a module loaded anew."""
    import importlib.util
    np, pd, nt = H["np"], H["pd"], H["nt"]
    tables = {"six rows": np.array([r[:3] for r in DATA]), "even": np.array([[1.0, 1.0, 0.3], [-1.0, -1.0, 0.2], [2.0, 2.0, -0.4], [-2.0, -2.0, -0.1], [1.0, -1.0, 0.0], [-1.0, 1.0, 0.1]])}
    tables["rows turned round"] = tables["six rows"][::-1] * [1, -1, 1]
    opts = [{}, {"tabu_edges": [(0, 1)]}, {"tabu_edges": [(1, 0), (2, 0)]}, {"tabu_child_nodes": [0]}, {"w_threshold": 0.3}]

    def fresh():
        spec = importlib.util.spec_from_file_location("causalnex.structure.notears_anew", nt.__file__)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        return mod

    def learn(mod, learner, name, opt):
        kw = dict(opt, max_iter=5, h_tol=1e-6)
        if learner.endswith("lasso"):
            kw["beta"] = BETA
        X = tables[name].copy()
        return graph_of(getattr(mod, "from_" + learner)(pd.DataFrame(X, columns=[0, 1, 2]) if learner.startswith("pandas") else X, **kw))

    steps = [(learner, name, k) for learner in LEARNERS for name in tables for k in range(len(opts))]
    alone = {}
    try:
        fresh()
    except ImportError as ex:
        ctx.gaps["the module cannot be loaded anew: %s" % ex] = 1
        return
    for idx, (a, b) in enumerate(itertools.product(steps, repeat=2)):
        if idx % u["mod"] != u["rem"] or a == b or (not u["all"] and a[:2] != b[:2] and (idx // u["mod"]) % 8):
            continue
        if b not in alone:
            alone[b] = learn(fresh(), b[0], b[1], opts[b[2]])
        mod = fresh()
        ctx.state()
        ctx.trans(2)
        ctx.trace()
        desc = "%s after %s" % tuple("from_%s(%s, %r)" % (l, t, opts[k]) for l, t, k in (b, a))
        ok, res = ctx.guard(lambda: (learn(mod, a[0], a[1], opts[a[2]]), learn(mod, b[0], b[1], opts[b[2]]))[1], desc, cpu=120)
        if not ok:
            return
        if set(res[0]) != set(alone[b][0]) or any(abs(res[1].get(k, {}).get("weight", 0) - alone[b][1].get(k, {}).get("weight", 0)) > 0.01 for k in set(res[1]) | set(alone[b][1])):
            ctx.fail("%s: %r, and alone: %r" % (desc, res[1], alone[b][1]))
    ctx.sample(u)


def expm(np, M):
    # of a matrix with two nonzero entries by hand, so that large ones do not lose precision
    if M.shape == (2, 2) and M[0, 0] == M[1, 1] == 0:
        r = np.sqrt(M[0, 1] * M[1, 0])
        return np.cosh(r) * np.eye(2)
    out = term = np.eye(len(M))
    for k in range(1, 60):
        term = term.dot(M) / k
        out = out + term
    return out


def wanted(w, d, e, p, c):
    """the weight matrix the bounds leave of the raw answer"""
    m = [[float(w[i * d + j]) for j in range(d)] for i in range(d)]
    for i in range(d):
        for j in range(d):
            if i == j or (e and (i, j) in e) or (p and i in p) or (c and j in c):
                m[i][j] = 0.0
    return m


def invalid(ctx, H):
    np, pd, nt = H["np"], H["pd"], H["nt"]
    base = np.array(DATA)
    for learner in LEARNERS:
        fn = getattr(nt, "from_" + learner)
        kw = {"beta": BETA} if learner.endswith("lasso") else {}
        panda = learner.startswith("pandas")
        wrap = (lambda a: pd.DataFrame(a, columns=["c%d" % i for i in range(a.shape[1])])) if panda else (lambda a: a)
        for bad in (np.nan, np.inf, -np.inf):
            for r in range(base.shape[0]):
                for c in range(base.shape[1]):
                    X = base.copy()
                    X[r, c] = bad
                    ctx.state()
                    ctx.trans()
                    ctx.trace()
                    with Script([[0] * 18]):
                        ctx.raises(lambda: fn(wrap(X), **kw), ValueError, "from_%s with %r at row %d column %d" % (learner, bad, r, c))
        for shape in ((0, 3), (0, 1)):
            ctx.trace()
            with Script([[0] * 18]):
                ctx.raises(lambda: fn(wrap(np.zeros(shape)), **kw), ValueError, "from_%s on data of shape %r" % (learner, shape))
        if panda:
            for bad in (["a", "b", "c"], [None, "x", "y"], [True, False, True]):
                for at in range(3):
                    cols = [[1.0, 2.0, 0.5], [0.5, 1.5, 2.5], [1, 2, 4]]
                    cols[at] = bad
                    ctx.trace()
                    with Script([[0] * 18]):
                        ctx.raises(lambda: fn(pd.DataFrame({"c%d" % i: col for i, col in enumerate(cols)}), **kw), ValueError,
                                   "from_%s with a column %r" % (learner, bad))
            for tab in ({"tabu_edges": [("c0", "zz")]}, {"tabu_parent_nodes": ["zz"]}, {"tabu_child_nodes": ["zz"]}):
                ctx.trace()
                with Script([[0] * 18]):
                    ctx.raises(lambda: fn(wrap(base), **kw, **tab), Exception, "from_%s with %r" % (learner, tab))
