"""Dynamic structure learning (DYNOTEARS): constraints, lags, naming and objective, whatever the optimiser answers."""
import copy
import itertools
import math
import warnings

from ..graphs import acyclic, graph_of
from ..optim import Script, reports, load, slope_mismatch

PROPERTY = "C20"
MEANING = ("state = (time series, lag order, forbidden edges / parents / children, threshold, optimiser answer); transition = one call of a learner; trace = one "
           "learned structure compared with what the constraints allow and with the optimiser's answer (identified through the objective it was given)")
BOUNDS = {
    "quick": "d <= 2 columns x lag order p <= 2 (and d=3, p=1; d=2, p=3; d=1, p=3): every answer with entries from {0, 0.4, -1.2} on d=2, p=1 and every answer with <= 3 nonzero "
             "entries otherwise, x 3 thresholds x 2 learners; every set of forbidden (lag, from, to) edges on d=2, p=1 x forbidden parents x children, every "
             "<= 2 forbidden edges for the larger shapes; the real optimiser on every single constraint and pairs; series in one or several frames with gaps; invalid data; "
             "5 tables of column names; up to 12 columns and lag orders up to 11; "
             "scripts of 2 and 3 answers out of 6, cyclic or not, x max_iter {1,2,5}; "
             "scripts of 20 to 160 answers, each less cyclic than the one before; 7 tolerances x scripts of answers above and below them; 4-39 and up to 5001 rows of floating point and integer types; weights down to 3e-13; "
             "pairs of calls one after the other against the second one in a module loaded anew",
    "thorough": "as quick with every answer on d=2, p=2 and every set of <= 3 forbidden edges",
}
ASSUMPTIONS = ["optimiser modelled as any procedure returning a vector within the given bounds; pandas stand-in carries the data frames"]
CHUNK = 2
UNIT_CPU = 900
SHAPES = [(1, 1), (1, 3), (2, 1), (2, 2), (2, 3), (3, 1)]
NAMES = [["a", "b", "c"], ["c", "b", "a"], ["x_lag1", "x", "x_lag"], [2, 0, 1], ["1", "0", "2"]]
LW, LA = 0.1, 0.2


def series(d, n=9, k=0):
    return [[round(3 * math.sin(1.7 * t * t + 2.3 * j + 0.9 * t * j + 5 * k + 1), 3) for j in range(d)] for t in range(n)]


def meanings(d, p):
    return [(l, i, j) for l in range(p + 1) for i in range(d) for j in range(d) if l or i != j]


def units(tier):
    t = tier == "thorough"
    us = []
    for d, p in SHAPES:
        for r in range(4):
            us.append({"k": "answers", "d": d, "p": p, "mod": 4, "rem": r, "full": (d, p) == (2, 1) or (t and (d, p) == (2, 2))})
            us.append({"k": "tabu", "d": d, "p": p, "mod": 4, "rem": r, "max": 6 if (d, p) == (2, 1) else 3 if t else 2, "real": False})
    for d, p in ((2, 1), (2, 2)):
        for r in range(8):
            us.append({"k": "tabu", "d": d, "p": p, "mod": 8, "rem": r, "max": 2 if t else 1, "real": True})
    for d, p in ((11, 1), (1, 11), (2, 10), (12, 2)):
        us.append({"k": "large", "d": d, "p": p})
    for r in range(4):
        us.append({"k": "scripts", "mod": 4, "rem": r})
    for r in range(4):
        us.append({"k": "rows", "mod": 4, "rem": r})
        us.append({"k": "long", "mod": 4, "rem": r})
        us.append({"k": "history", "mod": 4, "rem": r, "all": t})
    us.append({"k": "tolerance"})
    us.append({"k": "small"})
    us += [{"k": "names"}, {"k": "frames"}, {"k": "invalid"}]
    return us


def answers(u):
    ms = meanings(u["d"], u["p"])
    if u["full"]:
        for vals in itertools.product((0, 0.4, -1.2), repeat=len(ms)):
            yield dict(zip(ms, vals))
    else:
        for k in range(0, 4):
            for sub in itertools.combinations(ms, k):
                yield {m: (0.4, -1.2, 0.9)[(q + len(sub)) % 3] for q, m in enumerate(sub)}
        yield {m: (0.4, -1.2, 0.9, 0.25)[q % 4] for q, m in enumerate(ms)}
        yield {m: (0.4, -1.2, 0.9, 0.25)[q % 4] for q, m in enumerate(ms) if m[0] or m[1] < m[2]}


def run_unit(u, ctx):
    dt = load("dynotears")
    import numpy as np
    import pandas as pd
    np.seterr(all="ignore")
    H = {"np": np, "pd": pd, "dt": dt}
    if u["k"] == "answers":
        for idx, a in enumerate(answers(u)):
            if idx % u["mod"] != u["rem"]:
                continue
            for panda in (False, True):
                for thr in (0.0, 0.3, 1.0):
                    attempt(ctx, H, panda, u["d"], u["p"], a, thr, watch=(thr == 0 and not panda))
        ctx.sample(u)
    elif u["k"] == "tabu":
        d, p = u["d"], u["p"]
        ms = [(l, i, j) for l in range(p + 1) for i in range(d) for j in range(d)]
        full = {m: (0.4, -1.2, 0.9, 0.25)[q % 4] for q, m in enumerate(meanings(d, p)) if m[0] or m[1] < m[2]}
        back = {m: (0.4, -1.2, 0.9, 0.25)[q % 4] for q, m in enumerate(meanings(d, p)) if m[0] or m[1] > m[2]}
        nodes = [list(c) for k in range(d + 1) for c in itertools.combinations(range(d), k)]
        es = [list(c) for k in range(u["max"] + 1) for c in itertools.combinations(ms, k)]
        for idx, (e, pa, ch) in enumerate(itertools.product(es, nodes, nodes)):
            if idx % u["mod"] != u["rem"]:
                continue
            if len(e) > 1 and len(pa) + len(ch) > 1 and (d, p) != (2, 1):
                continue
            panda = bool(idx // u["mod"] % 2)
            e, pa, ch = e or None, pa or None, ch or None
            if u["real"]:
                attempt(ctx, H, panda, d, p, None, 0.02, e, pa, ch)
            else:
                attempt(ctx, H, panda, d, p, full, 0.0, e, pa, ch, watch=False)
                attempt(ctx, H, not panda, d, p, back, 0.0, e, pa, ch, watch=False)
        ctx.sample(u)
    elif u["k"] == "scripts":
        # the optimiser changes its mind from call to call
        vs = [{(0, 0, 1): 0.5}, {(0, 0, 1): 0.5, (0, 1, 0): 0.5, (1, 0, 0): 0.2}, {(0, 1, 0): -0.7, (1, 0, 1): 0.3}, {(0, 0, 1): 0.3, (0, 1, 0): 0.3},
              {(0, 0, 1): 1.5, (0, 1, 0): -1.5, (2, 1, 1): 0.4}, {}]
        for idx, script in enumerate(itertools.chain(itertools.product(vs, repeat=2), itertools.product(vs, repeat=3))):
            if idx % u["mod"] != u["rem"]:
                continue
            for max_iter in (1, 2, 5):
                attempt(ctx, H, bool(idx % 2), 2, 2, list(script), 0.0, max_iter=max_iter, watch="penalty")
    elif u["k"] == "tolerance":
        # the tolerance decides when an answer is good enough and whether to warn
        vs = [{(0, 0, 1): w, (0, 1, 0): w, (1, 0, 1): 0.3} for w in (5e-4, 5e-3, 0.05, 0.4, 1.0)] + [{(0, 0, 1): 0.5, (1, 1, 1): -0.2}]
        for h_tol in (1e-12, 1e-10, 1e-8, 1e-5, 1e-2, 0.5, 20):
            for script in [[v] for v in vs] + [[a, b] for a in vs for b in vs]:
                for max_iter in (1, 3):
                    for panda in (False, True):
                        attempt(ctx, H, panda, 2, 1, script, 0.0, max_iter=max_iter, watch=False, h_tol=h_tol)
    elif u["k"] == "long":
        # as many steps as it takes: the k-th answer is less cyclic than the one before, the last one is not
        for idx, (steps, spare) in enumerate(itertools.product((20, 60, 99, 100, 101, 130, 160), (-1, 0, 1, 40))):
            if idx % u["mod"] != u["rem"]:
                continue
            size = [float(np.sqrt(np.arccosh(1 + 0.5 * 1e100 * 4.2 ** -k))) for k in range(steps - 1)]
            script = [{(0, 0, 1): a, (0, 1, 0): a, (1, 0, 0): 0.2} for a in size] + [{(0, 0, 1): 0.5, (1, 0, 0): 0.2}]
            for panda in (False, True):
                attempt(ctx, H, panda, 2, 1, script, 0.0, max_iter=steps + spare, watch=False)
    elif u["k"] == "small":
        # nothing is too small to be an edge when the threshold is zero
        for vals in itertools.product((0, 0.4, 1e-10, -3e-13), repeat=3):
            for ms in (((0, 0, 1), (1, 0, 0), (2, 1, 0)), ((0, 1, 0), (1, 0, 1), (2, 1, 1)), ((1, 1, 1), (1, 0, 1), (2, 0, 0))):
                for panda in (False, True):
                    attempt(ctx, H, panda, 2, 2, {m: v for m, v in zip(ms, vals) if v}, 0.0)
    elif u["k"] == "rows":
        # every row counts, and whole numbers are as good as others
        sizes = list(range(4, 40)) + [99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 499, 500, 501, 512, 513, 999, 1000, 1001, 1024, 1025, 2001, 5001]
        for idx, n in enumerate(sizes):
            if idx % u["mod"] != u["rem"]:
                continue
            for kind in ("f8", "i8", "i1", "f4"):
                if n > 300 and kind != "f8" or n < 6 and kind != "f8":
                    continue
                for panda in (False, True):
                    for a in ({(0, 0, 1): 0.4, (1, 0, 0): -1.2, (1, 1, 0): 0.7, (2, 0, 1): 0.25}, {(0, 1, 0): 0.9, (1, 0, 1): -0.5, (2, 1, 1): -0.3}):
                        attempt(ctx, H, panda, 2, 2, a, 0.0, n=n, kind=kind)
    elif u["k"] == "history":
        history(ctx, H, u)
    elif u["k"] == "large":
        # numbers of two digits in columns and lags; enough rows for every variable to be told from the others
        d, p = u["d"], u["p"]
        ms = meanings(d, p)
        a = {m: (0.4, -1.2, 0.9, 0.25)[q % 4] + 0.001 * q for q, m in enumerate(ms) if (m[0] or m[1] < m[2]) and (d < 9 or q % 7 == 3 or m[1] >= 9 and q % 3)}
        for names in (None, ["v%d" % j for j in range(d)], [d - j for j in range(d)]):
            for e in (None, [(p, 0, d - 1), (0, 0, d - 1)], [(l, i, j) for l, i, j in sorted(a)[::3]]):
                for ch in (None, [d - 1]):
                    attempt(ctx, H, names is not None, d, p, a, 0.0, e, None, ch, names=names, watch=False, n=40)
    elif u["k"] == "names":
        for names in NAMES:
            for p in (1, 2):
                ms = meanings(3, p)
                a = {m: 0.3 + 0.1 * q for q, m in enumerate(ms) if m[0] or m[1] < m[2]}
                for e in ([(0, 0, 1)], [(1, 2, 0), (p, 1, 2)], [(0, 1, 1)], None):
                    for pa in ([0], [2, 1], None):
                        for ch in ([1], None):
                            attempt(ctx, H, True, 3, p, a, 0.0, e, pa, ch, names=names, watch=False)
    elif u["k"] == "frames":
        # several realisations and gaps: rows pair each time with its own past only
        for p in (1, 2):
            for cuts in itertools.product((0, 1), repeat=8):
                attempt(ctx, H, True, 2, p, {m: 0.5 for m in meanings(2, p) if m[0] or m[1] < m[2]}, 0.0, gaps=cuts, watch=False)
            for sizes in itertools.product((1, 2, 3, 5), repeat=2):
                if max(sizes) > p:
                    attempt(ctx, H, True, 2, p, {m: 0.5 for m in meanings(2, p) if m[0] or m[1] < m[2]}, 0.0, sizes=sizes, watch=False)
        for p in (3, 4, 7):
            for sizes in ((p + 6, 4, p + 9), (p + 12, p + 5), (p + 30,)):
                for a in ({(p, 0, 0): 0.5}, {(1, 1, 0): 0.4}, {(0, 0, 1): 0.6, (p - 1, 1, 1): -0.3}, {}):
                    attempt(ctx, H, True, 2, p, a, 0.0, sizes=sizes, watch=False)
    else:
        invalid(ctx, H)


def history(ctx, H, u):
    """What was learned before makes no difference: every pair of calls against the second one alone, in a module loaded anew."""
    import importlib.util
    np, pd, dt = H["np"], H["pd"], H["dt"]
    even = [[1.0, 1.0], [-1.0, -1.0], [2.0, 2.0], [-2.0, -2.0], [1.0, -1.0], [-1.0, 1.0], [0.5, 0.5], [1.5, 1.5]]
    tables = {"series": series(2), "another series": series(2, 9, 3), "even": even}
    opts = [{}, {"tabu_edges": [(0, 0, 1)]}, {"tabu_edges": [(0, 1, 0), (1, 0, 1)]}, {"tabu_child_nodes": [0]}, {"w_threshold": 0.3}, {"lambda_w": 0.5, "lambda_a": 0.01}]

    def fresh():
        spec = importlib.util.spec_from_file_location("causalnex.structure.dynotears_anew", dt.__file__)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        return mod

    def learn(mod, panda, name, opt):
        kw = dict({"lambda_w": LW, "lambda_a": LA}, max_iter=5, h_tol=1e-6)
        kw.update(opt)
        if panda:
            return graph_of(mod.from_pandas_dynamic(pd.DataFrame(tables[name], columns=[0, 1]), 1, **kw))
        X, L = rows([(range(len(tables[name])), tables[name])], 1)
        return graph_of(mod.from_numpy_dynamic(np.array(X), np.array(L), **kw))

    steps = [(panda, name, k) for panda in (False, True) for name in tables for k in range(len(opts))]
    alone = {}
    try:
        fresh()
    except ImportError as ex:
        ctx.gaps["the module cannot be loaded anew: %s" % ex] = 1
        return
    for idx, (a, b) in enumerate(itertools.product(steps, repeat=2)):
        if idx % u["mod"] != u["rem"] or a == b or (not u["all"] and a[:2] != b[:2] and (idx // u["mod"]) % 4):
            continue
        if b not in alone:
            alone[b] = learn(fresh(), b[0], b[1], opts[b[2]])
        mod = fresh()
        ctx.state()
        ctx.trans(2)
        ctx.trace()
        desc = "%s after %s" % tuple("from_%s_dynamic(%s, %r)" % ("pandas" if l else "numpy", t, opts[k]) for l, t, k in (b, a))
        ok, res = ctx.guard(lambda: (learn(mod, a[0], a[1], opts[a[2]]), learn(mod, b[0], b[1], opts[b[2]]))[1], desc, cpu=120)
        if not ok:
            return
        if set(res[0]) != set(alone[b][0]) or any(abs(res[1].get(k, {}).get("weight", 0) - alone[b][1].get(k, {}).get("weight", 0)) > 0.01 for k in set(res[1]) | set(alone[b][1])):
            ctx.fail("%s: %r, and alone: %r" % (desc, res[1], alone[b][1]))
    ctx.sample(u)


def rows(frames, p):
    """(present, [past 1, .., past p]) for every time of every realisation that has its whole past; the specification."""
    X, L = [], []
    for idx, vals in frames:
        at = dict(zip(idx, vals))
        for t in idx:
            if all(t - k in at for k in range(1, p + 1)):
                X.append(at[t])
                L.append([x for k in range(1, p + 1) for x in at[t - k]])
    return X, L


def attempt(ctx, H, panda, d, p, answer, thr, e=None, pa=None, ch=None, names=None, watch=True, gaps=None, sizes=None, n=9, max_iter=None, h_tol=None, kind="f8"):
    np, pd, dt = H["np"], H["pd"], H["dt"]
    names = (names or NAMES[0])[:d] if panda else list(range(d))
    if sizes:
        frames = [(list(range(5 * k, 5 * k + n)), series(d, n, k)) for k, n in enumerate(sizes)]
    else:
        idx, t = [], 3
        for k in range(n):
            idx.append(t)
            t += 1 + (2 if gaps and k < len(gaps) and gaps[k] else 0)
        frames = [(idx, series(d, n) if kind == "f8" else np.round(np.array(series(d, n)) * 40 + [[0, 1]] * n).tolist() if kind[0] == "i" else np.array(series(d, n)).astype("f4").tolist())]
    X, L = rows(frames, p)
    if not X:
        return
    X, L = np.array(X), np.array(L)
    kw = {"w_threshold": thr, "lambda_w": LW, "lambda_a": LA}
    if e is not None:
        kw["tabu_edges"] = [(l, names[i], names[j]) for l, i, j in e]
    if pa is not None:
        kw["tabu_parent_nodes"] = [names[i] for i in pa]
    if ch is not None:
        kw["tabu_child_nodes"] = [names[i] for i in ch]
    if max_iter is not None:
        kw["max_iter"] = max_iter
    if answer is None:
        kw["max_iter"], kw["h_tol"] = 5, 1e-6
    if h_tol is not None:
        kw["h_tol"] = h_tol
    given = copy.deepcopy(kw)
    desc = "%s(d=%d, p=%d, %s)" % ("from_pandas_dynamic" if panda else "from_numpy_dynamic", d, p, ", ".join("%s=%r" % x for x in kw.items()))
    if kind != "f8" or n > 9:
        desc += " on %d rows of type %s" % (n, kind)
    if isinstance(answer, list) and len(answer) > 8:
        desc += " with the optimiser answering %r, each less cyclic than the one before, and %r after %d of them" % (answer[0], answer[-1], len(answer) - 1)
    elif answer is not None:
        desc += " with the optimiser answering %r" % (answer,)
    if panda:
        dfs = [pd.DataFrame(v if kind == "f8" else np.array(v).astype(kind), index=i, columns=names) for i, v in frames]
        call = lambda: dt.from_pandas_dynamic(dfs if len(dfs) > 1 or gaps else dfs[0], p, **kw)
    else:
        Xc, Lc = X.astype(kind), L.astype(kind)
        call = lambda: dt.from_numpy_dynamic(Xc, Lc, **kw)
    seen, probes = [], []
    script = answer if isinstance(answer, list) else [answer]

    def look(x, f, g, call_no):
        if watch == "penalty":
            # the same cyclic structure, at every call
            probes.append(float(f(np.array([0.0 if l is None else 0.5 * max(l[1], 0) for l in env.layout]))))
            return
        if call_no == 1:
            seen.append(float(f(x)))
            if g is not None:
                m = slope_mismatch(f, g, x)
                if m:
                    ctx.fail("%s: %s" % (desc, m))

    def score_of(ans):
        W, A = np.zeros((d, d)), np.zeros((p * d, d))
        for (l, i, j), w in ans.items():
            if l:
                A[(l - 1) * d + i, j] = w
            else:
                W[i, j] = w
        return 0.5 / len(X) * float(((X - X.dot(W) - L.dot(A)) ** 2).sum()) + LW * float(np.abs(W).sum()) + LA * float(np.abs(A).sum())

    ctx.state()
    ctx.trans()
    ctx.trace()
    with warnings.catch_warnings(record=True) as warned:
        warnings.simplefilter("always")
        if answer is None:
            env = None
            ok, sm = ctx.guard(call, desc, cpu=120)
        else:
            with Script(script, lambda m, w: score_of({m: w}), meanings(d, p), look if watch else None, default=0.7, success=reports(H)) as env:
                ok, sm = ctx.guard(call, desc, cpu=60)
    if not ok:
        return
    if env is not None and not env.calls:
        ctx.gaps["the optimiser model was not asked"] = 1
        env = None
    nodes, edges = graph_of(sm)
    want_nodes = {"%s_lag%d" % (v, l): (l, i) for i, v in enumerate(names) for l in range(p + 1)}
    if type(sm).__name__ != "StructureModel" or set(nodes) != set(want_nodes):
        ctx.fail("%s: nodes %r, should be %r" % (desc, list(nodes), list(want_nodes)))
    got = {}
    for (a, b), dat in edges.items():
        (l, i), (l2, j) = want_nodes[a], want_nodes[b]
        w = dat.get("weight")
        if l2 != 0:
            ctx.fail("%s: edge %r goes into the past" % (desc, (a, b)))
        if w is None or not np.isfinite(w) or w == 0 or abs(w) < thr:
            ctx.fail("%s: edge %r has weight %r" % (desc, (a, b), w))
        if l == 0 and i == j:
            ctx.fail("%s: self-loop on %r" % (desc, a))
        if (e and (l, i, j) in e) or (pa and i in pa) or (ch and j in ch):
            ctx.fail("%s: forbidden edge %r" % (desc, (a, b)))
        if panda and dat.get("origin") != "learned":
            ctx.fail("%s: edge %r has origin %r" % (desc, (a, b), dat.get("origin")))
        got[l, i, j] = w
    if kw != given:
        ctx.fail("%s: changed its arguments to %r" % (desc, kw))
    if panda:
        if any(list(f.columns) != list(names) or list(f.index) != i or f.values.tolist() != v for f, (i, v) in zip(dfs, frames)):
            ctx.fail("%s: changed the data" % desc)
    elif not (np.array_equal(Xc, X) and np.array_equal(Lc, L)):
        ctx.fail("%s: changed the data" % desc)
    if env is not None:
        leave = lambda ans: {m: w for m, w in ans.items() if w and not ((e and m in e) or (pa and m[1] in pa) or (ch and m[2] in ch))}
        iscyc = lambda ans: not acyclic(range(d), [(i, j) for l, i, j in ans if l == 0])
        mine = leave(script[min(env.calls, len(script)) - 1])
        exp = {m: w for m, w in mine.items() if abs(w) > thr}
        for k in set(exp) | set(got):
            if abs(exp.get(k, 0) - got.get(k, 0)) > 1e-9 or (k in exp) != (k in got) and abs(abs(mine.get(k, 0)) - thr) > 1e-15:
                ctx.fail("%s: edges (lag, from, to) %r, the optimum has %r" % (desc, got, exp))
        cyc = iscyc(mine)
        # good enough: certainly, certainly not, or too close to say
        tol = 1e-8 if h_tol is None else h_tol
        if d == 2:
            hres = lambda ans: 2 * float(np.cosh(abs(ans.get((0, 0, 1), 0) * ans.get((0, 1, 0), 0)))) - 2
            enough = lambda ans: True if hres(ans) < 0.9 * tol - 1e-13 else False if hres(ans) > 1.1 * tol + 1e-13 else None
        else:
            enough = lambda ans: not iscyc(ans)
        if enough(leave(script[0])):
            first = {m: w for m, w in leave(script[0]).items() if abs(w) > thr}
            if set(first) != set(got) or any(abs(first[k] - got[k]) > 1e-9 for k in got):
                ctx.fail("%s: edges (lag, from, to) %r, the first answer is within the tolerance: %r" % (desc, got, first))
        if len(script) > 8 and max_iter >= len(script) and mine != leave(script[-1]):
            ctx.fail("%s: stopped at answer %d" % (desc, env.calls))
        for k in range(1, len(probes)):
            if not probes[k] >= probes[k - 1] or (iscyc(leave(script[min(k, len(script)) - 1])) and not probes[k] > probes[k - 1]):
                ctx.fail("%s: the objective of one cyclic structure is %r at call %d and %r at call %d, though the answers are cyclic" % (
                    desc, probes[k - 1], k, probes[k], k + 1))
        conv = any("converge" in str(w.message) for w in warned)
        if enough(mine) is conv:
            ctx.fail("%s: %s, though the answer is %s" % (desc, "warned" if conv else "no warning", "cyclic" if cyc else "within the tolerance"))
        if seen:
            f, want = seen[0], score_of(mine)
            if not cyc and abs(f - want) > 1e-8 * max(1, abs(want)):
                ctx.fail("%s: the objective of the (acyclic) answer is %r, the documented score is %r" % (desc, f, want))
            if cyc and not f > want:
                ctx.fail("%s: a cyclic answer is not penalised" % desc)
    ctx.outcome(tuple(sorted(got)))


def invalid(ctx, H):
    np, pd, dt = H["np"], H["pd"], H["dt"]
    with Script([[0]]):
        for X, L in (((0, 2), (0, 2)), ((5, 2), (0, 2)), ((0, 2), (5, 2)), ((5, 2), (4, 2)), ((4, 2), (5, 2)), ((5, 2), (5, 3)), ((5, 2), (5, 0)), ((5, 3), (5, 4)), ((5, 2), (5, 1))):
            ctx.state()
            ctx.trans()
            ctx.trace()
            ctx.raises(lambda: dt.from_numpy_dynamic(np.ones(X), np.ones(L)), ValueError, "from_numpy_dynamic with shapes %r and %r" % (X, L))
        good = {"a": [1.0, 2.0, 3.0, 4.0], "b": [2.0, 1.0, 0.0, 1.0]}
        for what, arg, exc in (("an empty list", [], ValueError), ("an array", np.ones((3, 2)), TypeError), ("a text column", pd.DataFrame({"a": ["x", "y", "z"], "b": [1, 2, 3]}), ValueError),
                               ("a decreasing index", pd.DataFrame(good, index=[3, 2, 1, 0]), ValueError), ("a float index", pd.DataFrame(good, index=[0.5, 1.5, 2.5, 3.5]), TypeError),
                               ("different columns", [pd.DataFrame(good), pd.DataFrame({"a": [1.0, 2.0], "c": [1.0, 2.0]})], ValueError),
                               ("different types", [pd.DataFrame(good), pd.DataFrame({"a": [1, 2], "b": [1.0, 2.0]})], ValueError)):
            ctx.state()
            ctx.trans()
            ctx.trace()
            ctx.raises(lambda: dt.from_pandas_dynamic(arg, 1), exc, "from_pandas_dynamic with %s" % what)
        for tab in ({"tabu_edges": [(0, "a", "zz")]}, {"tabu_parent_nodes": ["zz"]}, {"tabu_child_nodes": ["zz"]}):
            ctx.trace()
            ctx.raises(lambda: dt.from_pandas_dynamic(pd.DataFrame(good), 1, **tab), Exception, "from_pandas_dynamic with %r" % tab)
