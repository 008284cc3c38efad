"""Dynamic structures and the time series generated from them."""
import itertools
import warnings

from ..graphs import acyclic, all_digraphs, graph_of

PROPERTY = "C25"
MEANING = ("state = (dynamic structure, options); transition = one generation; trace = one structure or one table of series, every row of which is checked against the recurrence "
           "of the structure and every lagged column against the present one")
BOUNDS = {
    "quick": "data: every intra DAG x every set of lagged edges for (2 variables, lag 1), every set of <= 3 lagged edges for (2 variables, lag 2), <= 2 for (2, lag 3), (3, lag 1), (3, lag 2); 12 variables, lag 2 and 11 lags with chosen "
             "edges; 4 tables of variable names x orders of nodes; 3 noise types, zero and non-zero noise and drift. Structures: 3 constant and 6 patterned random sources x types x degrees x lags 0-3 (4, 6 and 11 with 2 and 3 variables); "
             "noise draws traced under a recognisable random source; every choice of edges in the first three structures the stationary generator tries; series escaping in both directions; stationary pairs for 12 seeds x 1, 2, 3, 4 and 1000 trials, one result for all that find one; degrees no structure can have; invalid arguments",
    "thorough": "as quick with all lagged edges for (2 variables, lag 2), <= 3 for the others, 100 seeds",
}
ASSUMPTIONS = ["pandas stand-in carries the frames; numpy.random replaced by an enumerating environment for the structures"]
CHUNK = 1
UNIT_CPU = 900
NAMES = {"num": ["0", "1", "2"], "ab": ["b", "a", "c"], "pre": ["x", "x1", "x10"], "long": ["10", "2", "1"]}


def units(tier):
    t = tier == "thorough"
    us = []
    for d, p, mx in ((1, 1, 9), (1, 3, 9), (2, 1, 9), (2, 2, 9 if t else 3), (2, 3, 3 if t else 2), (3, 1, 3 if t else 2), (3, 2, 3 if t else 2), (2, 0, 0), (3, 0, 0)):
        for r in range(4):
            us.append({"k": "data", "d": d, "p": p, "max": mx, "mod": 4, "rem": r})
    us += [{"k": "trials", "p": p} for p in (1, 2)] + [{"k": "escape"}, {"k": "shocks"}, {"k": "impossible"}]
    us += [{"k": "big"}, {"k": "bad"}] + [{"k": "structure", "n": n, "p": p} for n in (2, 3, 5) for p in (0, 1, 2, 3)] + [{"k": "structure", "n": n, "p": p} for n, p in ((2, 6), (3, 4), (2, 11))]
    us += [{"k": "stationary", "from": s, "to": s + 4} for s in range(0, 100 if t else 12, 4)]
    return us


def run_unit(u, ctx):
    from ..graphs import load
    from ..nprng import install
    install()      # before the package is imported: it may keep numpy's functions
    load()
    import numpy as np
    from causalnex.structure import data_generators as dg
    np.seterr(all="ignore")
    warnings.simplefilter("ignore")
    k = u["k"]
    if k == "data":
        d, p = u["d"], u["p"]
        lagged = [(l, i, j) for l in range(1, p + 1) for i in range(d) for j in range(d)]
        idx = 0
        for intra in all_digraphs(d):
            if not acyclic(range(d), intra):
                continue
            for m in range(0, min(u["max"], len(lagged)) + 1):
                for sub in itertools.combinations(lagged, m):
                    idx += 1
                    if idx % u["mod"] != u["rem"]:
                        continue
                    names = NAMES[list(NAMES)[idx // u["mod"] % len(NAMES)]][:d]
                    for sem, noise, drift in (("linear-gauss", 0.0, True), ("linear-gauss", 1.0, False), (("linear-exp", "linear-gumbel")[idx % 2], 0.5, True)):
                        data(ctx, np, dg, names, p, intra, sub, sem, noise, drift, idx)
        ctx.sample(u)
    elif k == "big":
        for names in ([str(i) for i in range(12)], ["v%d" % i for i in (3, 1, 11, 10, 2)]):
            d = len(names)
            for p in (1, 2, 3):
                for sub in itertools.combinations([(l, i, (i * 3 + l) % d) for l in range(1, p + 1) for i in range(0, d, 2)], 2):
                    data(ctx, np, dg, names, p, ((0, d - 1), (d - 1, 1)), sub, "linear-gauss", 0.0, True, 3)
        for p in (10, 11, 12):
            for sub in itertools.combinations([(1, 0, 1), (2, 1, 0), (9, 0, 0), (10, 1, 0), (10, 0, 1)], 3):
                data(ctx, np, dg, ["a", "b"], p, ((0, 1),), sub, "linear-gauss", 0.0, True, 1)
    elif k == "structure":
        structures(ctx, np, dg, u["n"], u["p"])
    elif k == "trials":
        trials(ctx, np, dg, u["p"])
    elif k == "escape":
        escape(ctx, np, dg)
    elif k == "shocks":
        shocks(ctx, np, dg)
    elif k == "impossible":
        impossible(ctx, np, dg)
    elif k == "stationary":
        for s in range(u["from"], u["to"]):
            stationary(ctx, np, dg, s)
    else:
        g = dg.generate_structure_dynamic(3, 1, 1, 1)
        for sem in ("", "linear", "gauss", None, "Linear-gauss"):
            ctx.trace()
            ctx.raises(lambda: dg.generate_dataframe_dynamic(g, sem_type=sem, n_samples=5), ValueError, "generate_dataframe_dynamic with %r" % sem)
        for kw in ({"graph_type_intra": "x"}, {"graph_type_inter": "x"}, {"graph_type_inter": "barabasi-albert"}, {"w_min_intra": 2, "w_max_intra": 1}, {"w_min_inter": 2, "w_max_inter": 1}):
            for p in (0, 1, 2):
                ctx.trace()
                ctx.raises(lambda: dg.generate_structure_dynamic(3, p, 1, 1, **kw), ValueError, "generate_structure_dynamic with %r, p=%d" % (kw, p))


def data(ctx, np, dg, names, p, intra, lagged, sem, noise, drift, salt):
    from causalnex.structure import StructureModel
    d = len(names)
    nodes = ["%s_lag%d" % (v, l) for l in range(p + 1) for v in names]
    if salt % 3 == 1:
        nodes = nodes[::-1]
    elif salt % 3 == 2:
        nodes = ["%s_lag%d" % (v, l) for v in names for l in range(p + 1)]
    g = StructureModel()
    g.add_nodes_from(nodes)
    W = {}
    for k, (i, j) in enumerate(intra):
        W[0, i, j] = (0.5, -0.3, 0.7)[k % 3]
    for k, (l, i, j) in enumerate(lagged):
        W[l, i, j] = (0.4, -0.6, 0.25, 0.35)[k % 4]
    for (l, i, j), w in W.items():
        g.add_edge("%s_lag%d" % (names[i], l), "%s_lag0" % names[j], weight=w)
    before = graph_of(g)
    n, burn = 8, (0, 3, 5)[salt % 3]
    # one drift for all: the order of the drift terms is not documented
    mu = 0.75
    case = {"edges": [(a, b, w["weight"]) for a, b, w in g.edges(data=True)], "nodes": nodes, "sem": sem, "noise": noise, "drift": drift}
    ctx.state()
    ctx.trans()
    ctx.trace()
    np.random.seed(salt)
    ok, df = ctx.guard(lambda: dg.generate_dataframe_dynamic(g, n_samples=n, burn_in=burn, sem_type=sem, noise_scale=noise, drift=np.full(d, mu) if drift else None), "generate_dataframe_dynamic", case)
    if not ok:
        return
    if graph_of(g) != before:
        ctx.fail("generate_dataframe_dynamic changed the structure", case)
    cols = list(df.columns)
    if sorted(cols) != sorted(nodes) or len(df) != n:
        ctx.fail("columns %r for %d rows, should be %r for %d rows" % (cols, len(df), nodes, n), case)
    col = {c: [float(x) for x in df[c].tolist()] for c in cols}
    lags(ctx, col, names, p, n, "generate_dataframe_dynamic", case)
    res = []
    for j in range(d):
        for t in range(n):
            mean = (mu if drift else 0) + sum(w * col["%s_lag%d" % (names[i], l)][t] for (l, i, jj), w in W.items() if jj == j)
            res.append(col["%s_lag0" % names[j]][t] - mean)
    if noise == 0 and max(map(abs, res)) > 1e-8:
        ctx.fail("without noise the series does not follow its structure (off by %r)" % max(map(abs, res)), case)
    if sem == "linear-exp" and min(res) < -1e-9:
        ctx.fail("with exponential noise a value is below its mean by %r" % min(res), case)
    if noise and d * n > 8 and max(res) - min(res) < 1e-9:
        ctx.fail("no noise was added", case)
    ctx.outcome((len(intra), len(lagged)))


def shocks(ctx, np, dg):
    """With a recognisable random source: what is left of each value is one draw of the noise asked for, scaled, and no draw is used twice."""
    from ..nprng import Tagged
    from causalnex.structure import StructureModel
    for sem, kind in (("linear-gauss", "normal"), ("linear-exp", "exponential"), ("linear-gumbel", "gumbel")):
        for scale in (1.0, 0.3, 2.5, 0.01, 40.0):
            for d, p in ((1, 1), (2, 1), (3, 2), (6, 1), (2, 5)):
                for edges in range(4):
                    names = list("bacxzq")[:d]
                    W = {}
                    if edges & 1 and d > 1:
                        W[0, 1, 0] = -0.4
                    if edges & 2:
                        W[p, 0, d - 1] = 0.6
                    g = StructureModel()
                    g.add_nodes_from(["%s_lag%d" % (v, l) for l in range(p + 1) for v in names])
                    for (l, i, j), w in W.items():
                        g.add_edge("%s_lag%d" % (names[i], l), "%s_lag0" % names[j], weight=w)
                    case = {"sem": sem, "scale": scale, "edges": [(a, b, x["weight"]) for a, b, x in g.edges(data=True)]}
                    ctx.state()
                    ctx.trans()
                    ctx.trace()
                    with Tagged(edges) as env:
                        ok, df = ctx.guard(lambda: dg.generate_dataframe_dynamic(g, n_samples=12, burn_in=(0, 4)[edges % 2], sem_type=sem, noise_scale=scale), "generate_dataframe_dynamic", case)
                    if not ok:
                        return
                    zs = np.sort(np.concatenate([z.ravel() for k, z, _ in env.log if k == kind] + [np.zeros(0)]))
                    if not env.log:
                        ctx.gaps["the noise does not come from numpy.random's functions"] = 1
                        continue
                    col = {c: [float(x) for x in df[c].tolist()] for c in df.columns}
                    used = []
                    for j in range(d):
                        for t in range(12):
                            r = (col["%s_lag0" % names[j]][t] - sum(w * col["%s_lag%d" % (names[i], l)][t] for (l, i, jj), w in W.items() if jj == j)) / scale
                            k = int(np.abs(zs - r).argmin()) if len(zs) else -1
                            if k < 0 or abs(zs[k] - r) > 1e-7:
                                ctx.fail("%s, noise_scale %r: in row %d of %s the noise is %r times the scale, which was never drawn" % (sem, scale, t, names[j], r), case)
                            used.append(k)
                    if len(set(used)) != len(used):
                        ctx.fail("%s: a draw is the noise of two values" % sem, case)


def trials(ctx, np, dg, p):
    """Every choice of edges in the first three structures that are tried: the one returned has an edge in the present and one from the past."""
    from ..nprng import explore
    per = 4 + 2 * p

    def patterns(i, shape):
        if shape == ():
            return [0.45 + 0.1 * ((i * 0.618) % 1)]
        if i < 3 * per and i % per in (0, 3):
            return [np.zeros(shape), np.full(shape, 0.999)]
        return [np.zeros(shape)] if i % per in (0, 3) or i >= 3 * per else [np.full(shape, 0.3)]

    for di, dj in ((1, 1), (0, 1), (1, 0), (0, 0)):
        case = {"p": p, "degrees": [di, dj]}
        for res, picks in explore(lambda: attempt(ctx, dg, case, num_nodes=2, n_samples=5, p=p, degree_intra=di, degree_inter=dj, w_min_inter=0.1, w_max_inter=0.2), patterns):
            ctx.trans(len(picks))
            if res is None:
                return
            g, df, intra, inter = res
            c = dict(case, picks=picks)
            check_structure(ctx, g, 2, p, "erdos-renyi", "erdos-renyi", di, dj, (0.5, 0.5), (0.1, 0.2), 1.0, c)
            if di and dj:
                for nodes, what in ((intra, "in the present"), (inter, "from the past")):
                    if not any(a in nodes for a, _ in g.edges):
                        ctx.fail("gen_stationary_dyn_net_and_df gives a structure without edges %s" % what, c)
    ctx.outcome(p)


def escape(ctx, np, dg):
    """Series that leave the bounds in either direction are not returned, as long as trials remain."""
    from ..nprng import Choices, Environment
    for noise in (0.2, 0.8):
        for until in (400, 700, 1300):
            for sem in ("linear-gauss", "linear-gumbel"):
                for trials in (50, 2, 1, 0, -3):
                    case = {"noise draws": noise, "large weights for": until, "sem": sem, "max_data_gen_trials": trials}
                    # strong positive feedback first, weak afterwards
                    with Environment(Choices([]), lambda i, shape: [noise if shape == () else np.full(shape, 0.9 if i < until else 0.1)]):
                        with warnings.catch_warnings(record=True) as warned:
                            warnings.simplefilter("always")
                            res = attempt(ctx, dg, case, num_nodes=2, n_samples=5, p=1, degree_intra=0, degree_inter=2, graph_type_inter="full", w_min_inter=0.01, w_max_inter=(1.2 if until < 1000 else 0.9), sem_type=sem, max_data_gen_trials=trials)
                    ctx.trans()
                    if res is None:
                        return
                    df = res[1]
                    col = {c: [float(x) for x in df[c].tolist()] for c in df.columns}
                    gave_up = any("simulate" in str(w.message) for w in warned)
                    if gave_up and any(x != 1 for c in col.values() for x in c):
                        ctx.fail("warned that no data could be simulated, but the data are not constant", case)
                    if max(abs(x) for c in col.values() for x in c) >= 1000:
                        ctx.fail("gen_stationary_dyn_net_and_df gives values up to %r" % max((x for c in col.values() for x in c), key=abs), case)
                    ctx.outcome(gave_up)


def attempt(ctx, dg, case, cpu=60, **kw):
    ctx.state()
    ctx.trace()
    ok, res = ctx.guard(lambda: dg.gen_stationary_dyn_net_and_df(**kw), "gen_stationary_dyn_net_and_df", case, cpu=cpu)
    return res if ok else None


def lags(ctx, col, names, p, n, what, case):
    for v in names:
        for l in range(1, p + 1):
            for t in range(l, n):
                a, b = col["%s_lag%d" % (v, l)][t], col["%s_lag0" % v][t - l]
                if a != b:
                    ctx.fail("%s: in row %d %s_lag%d is %r, but %s was %r %d rows before" % (what, t, v, l, a, v, b, l), case)


def structures(ctx, np, dg, n, p):
    from ..nprng import Choices, Environment
    ramp = lambda s: np.arange(int(np.prod(s))).reshape(s) / max(1, int(np.prod(s)))
    pats = [lambda s: np.full(s, 0.0), lambda s: np.full(s, 0.5), lambda s: np.full(s, 0.999), ramp, lambda s: 0.999 - ramp(s), lambda s: (ramp(s) * 5.7) % 1, lambda s: (ramp(s) * 3.1 + 0.3) % 1]
    for ti, tj in itertools.product(("erdos-renyi", "barabasi-albert", "full"), ("erdos-renyi", "full")):
        for di, dj in ((0, 0), (1, 0), (0, 2), (1.5, 1), (n - 1, n), (2, 0.7)):
            for a, b in itertools.product(range(len(pats)), (0, 2, 3)):
                for decay in (1.0, 2.0):
                    case = {"n": n, "p": p, "types": [ti, tj], "degrees": [di, dj], "draws": [a, b], "decay": decay}
                    ctx.state()
                    ctx.trans()
                    ctx.trace()
                    with Environment(Choices([]), lambda k, shape: [pats[a if k % 2 == 0 else b](shape)]):
                        ok, g = ctx.guard(lambda: dg.generate_structure_dynamic(n, p, di, dj, ti, tj, 0.5, 1.0, 2.0, 4.0, decay), "generate_structure_dynamic", case)
                    if not ok:
                        return
                    check_structure(ctx, g, n, p, ti, tj, di, dj, (0.5, 1.0), (2.0, 4.0), decay, case)
                    if a == b and tj == "erdos-renyi" and p:
                        c = (0.0, 0.5, 0.999)[a] if a < 3 else None
                        if c is not None:
                            m = sum(1 for x, _ in g.edges if not x.endswith("_lag0"))
                            want = p * n * n if c < dj / n else 0
                            if m != want:
                                ctx.fail("all draws %r, degree %r: %d lagged edges, should be %d" % (c, dj, m, want), case)


def check_structure(ctx, g, n, p, ti, tj, di, dj, wi, wj, decay, case):
    nodes, edges = graph_of(g)
    if type(g).__name__ != "StructureModel" or set(nodes) != {"%d_lag%d" % (v, l) for v in range(n) for l in range(p + 1)}:
        ctx.fail("nodes %r" % (list(nodes),), case)
    intra, inter = [], []
    for (a, b), dat in edges.items():
        (v, l), (v2, l2) = a.split("_lag"), b.split("_lag")
        if l2 != "0":
            ctx.fail("edge %r ends in the past" % ((a, b),), case)
        lo, hi = wi if l == "0" else (wj[0] / decay ** (int(l) - 1), wj[1] / decay ** (int(l) - 1))
        w = dat.get("weight")
        if w is None or not lo - 1e-9 <= abs(w) <= hi + 1e-9:
            ctx.fail("edge %r has weight %r, not within [%r, %r]" % ((a, b), w, lo, hi), case)
        (intra if l == "0" else inter).append((a, b))
    if not acyclic(list(nodes), intra):
        ctx.fail("the present is cyclic: %r" % intra, case)
    if ti == "full" and len(intra) != n * (n - 1) // 2:
        ctx.fail("full present has %d edges" % len(intra), case)
    if ti != "full" and di == 0 and intra:
        ctx.fail("degree 0, but edges %r" % intra, case)
    if tj == "full" and len(inter) != p * n * n:
        ctx.fail("full past has %d edges" % len(inter), case)
    if tj != "full" and dj == 0 and inter:
        ctx.fail("degree 0, but lagged edges %r" % inter, case)


def stationary(ctx, np, dg, s):
    for n, p, rows in ((2, 1, 10), (3, 2, 12), (4, 3, 8), (12, 2, 8)):
        for sem, degree in itertools.product(("linear-gauss", "linear-exp", "linear-gumbel"), (1, 0)):
            found = None
            for trials in (1000, 4, 3, 2, 1):
                case = {"seed": s, "n": n, "p": p, "rows": rows, "sem": sem, "degree in the present": degree, "trials": trials}
                np.random.seed(s)
                with warnings.catch_warnings(record=True) as warned:
                    warnings.simplefilter("always")
                    res = attempt(ctx, dg, case, num_nodes=n, n_samples=rows, p=p, degree_intra=degree, degree_inter=1, w_min_inter=0.1, w_max_inter=0.2, sem_type=sem, max_data_gen_trials=trials)
                ctx.trans()
                if res is None:
                    return
                g, df, intra, inter = res
                names = [str(i) for i in range(n)]
                check_structure(ctx, g, n, p, "erdos-renyi", "erdos-renyi", degree, 1, (0.5, 0.5), (0.1, 0.2), 1.0, case)
                if sorted(intra) != sorted("%s_lag0" % v for v in names) or sorted(inter) != sorted("%s_lag%d" % (v, l) for v in names for l in range(1, p + 1)):
                    ctx.fail("node lists %r and %r" % (intra, inter), case)
                if list(df.columns) != list(intra) + list(inter) or len(df) != rows:
                    ctx.fail("columns %r for %d rows" % (list(df.columns), len(df)), case)
                col = {c: [float(x) for x in df[c].tolist()] for c in df.columns}
                ctx.outcome(len(warned))
                if any("simulate" in str(w.message) for w in warned):
                    if any(x != 1 for c in col.values() for x in c):
                        ctx.fail("warned that no data could be simulated, but the data are not constant", case)
                    if not degree:
                        # the first structure has the edges it needs, and its weights are far too small for the series to escape
                        ctx.fail("gave up, although the first trial yields a stationary series", case)
                    found = None
                    continue
                if trials < 1000 and found != col:
                    ctx.fail("another series, or a series in fewer trials but none in more", case)
                found = col
                if max(abs(x) for c in col.values() for x in c) >= 1000:
                    ctx.fail("values beyond 1000", case)
                lags(ctx, col, names, p, rows, "gen_stationary_dyn_net_and_df", case)


def impossible(ctx, np, dg):
    """No structure has the edges asked for: the trials run out."""
    for kw in ({"graph_type_intra": "barabasi-albert", "degree_intra": 1, "degree_inter": 1, "p": 1}, {"degree_intra": 1, "degree_inter": 1, "p": 0}, {"degree_intra": 1e-9, "degree_inter": 1, "p": 2}):
        for trials in (1, 2, 7):
            case = dict(kw, trials=trials)
            np.random.seed(0)
            with warnings.catch_warnings(record=True) as warned:
                warnings.simplefilter("always")
                res = attempt(ctx, dg, case, 5, num_nodes=3, n_samples=6, max_data_gen_trials=trials, **kw)
            ctx.trans()
            if res is None:
                return
            g, df, intra, inter = res
            present, past = [e for e in g.edges if e[0] in intra], [e for e in g.edges if e[0] in inter]
            if not any("simulate" in str(w.message) for w in warned):
                if not (present and past):
                    ctx.fail("no warning, but edges %r in the present and %r from the past" % (present, past), case)
            elif any(float(x) != 1 for c in df.columns for x in df[c].tolist()) or len(df) != 6:
                ctx.fail("warned that no data could be simulated, but the data are not constant", case)
            ctx.outcome(len(warned))
