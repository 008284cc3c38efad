"""StructureModel: pruning by weight and thresholding until the graph is acyclic."""
import itertools

from ..graphs import acyclic, all_digraphs, graph_of, load

PROPERTY = "C18"
MEANING = ("state = weighted directed graph; transition = one call of remove_edges_below_threshold / threshold_till_dag; trace = one resulting graph "
           "compared with the edges the specification keeps")
BOUNDS = {
    "quick": "every digraph on <= 3 nodes (self-loops included on 2) x every assignment of weights from 5 values (signs, ties, zero) x 10 thresholds; every digraph on 4 nodes with <= 6 edges "
             "x 3 weight patterns (all distinct in alternating signs, all tied, growing) x thresholds at and next to every weight; numpy, integer, infinite and tiny weights",
    "thorough": "as quick with every digraph on 4 nodes x 6 weight patterns, and every digraph with <= 6 edges on 5 nodes x 2",
}
ASSUMPTIONS = ["the real networkx 3 of the sandbox is used (the package asks for 2.5)"]
CHUNK = 2
W5 = (-2, -0.5, 0, 0.5, 1)
THR = (0, -1, -0.25, 0.25, 0.5, 0.5000000001, 1, 1.5, 2, 3)
ORIGINS = ("unknown", "learned", "expert")


def units(tier):
    us = [{"k": "small", "n": 1}, {"k": "small", "n": 2}]
    for i in range(32):
        us.append({"k": "small", "n": 3, "mod": 32, "rem": i})
    t = tier == "thorough"
    for i in range(32):
        us.append({"k": "pattern", "n": 4, "mod": 32, "rem": i, "max": None if t else 6, "pats": [0, 1, 2, 3, 4, 5] if t else [0, 1, 2]})
    if t:
        for i in range(64):
            us.append({"k": "pattern", "n": 5, "mod": 64, "rem": i, "max": 6, "pats": [0, 1]})
    us.append({"k": "types"})
    return us


def pattern(p, k, m):
    """the weight of edge k out of m"""
    if p == 0:
        return (k + 1) * (-1) ** k * 0.5
    if p == 1:
        return 0.5 if k % 2 else -0.5
    if p == 2:
        return ((k * 5) % 7 + 1) * 0.1 * (1 if k % 3 else -1)
    if p == 3:
        return (m - k) * 0.25
    if p == 4:
        return -((k * 3) % 5) * 1.0
    return float((k * 7) % 4) - 1.5


def run_unit(u, ctx):
    import numpy as np
    SM = load()
    if u["k"] == "types":
        return types(ctx, SM, np)
    n = u["n"]
    graphs = enumerate(all_digraphs(n, u.get("max"), loops=(n <= 2)))
    for gi, edges in graphs:
        if u["k"] == "small":
            for wi, ws in enumerate(itertools.product(W5, repeat=len(edges))):
                if "mod" in u and (gi + wi) % u["mod"] != u["rem"]:
                    continue
                one(ctx, SM, n, edges, ws, THR if len(edges) <= 4 else (0, 0.5, 1, 3))
        elif gi % u["mod"] == u["rem"]:
            for p in u["pats"]:
                ws = [pattern(p, k, len(edges)) for k in range(len(edges))]
                ths = sorted({abs(w) for w in ws} | {abs(w) + 1e-9 for w in ws} | {0.0, -1.5})
                one(ctx, SM, n, edges, ws, ths)
    ctx.sample({"unit": u})


def one(ctx, SM, n, edges, ws, thresholds, extra=None):
    names = "abcdefgh"

    def build():
        sm = SM()
        sm.add_nodes_from(names[:n])
        for k, (i, j) in enumerate(edges):
            sm.add_edge(names[i], names[j], origin=ORIGINS[k % 3], weight=ws[k], note=k)
        return sm

    ref_nodes = {names[i]: {} for i in range(n)}
    ref = {(names[i], names[j]): {"origin": ORIGINS[k % 3], "weight": ws[k], "note": k} for k, (i, j) in enumerate(edges)}
    case = lambda: {"edges": [(names[i], names[j], repr(ws[k])) for k, (i, j) in enumerate(edges)]}
    ctx.state()
    for t in thresholds:
        sm = build()
        ctx.trans()
        ctx.trace()
        ok, _ = ctx.guard(lambda: sm.remove_edges_below_threshold(t), "remove_edges_below_threshold(%r)" % t, case)
        if not ok:
            return
        want = {e: d for e, d in ref.items() if not abs(d["weight"]) < t}
        got = graph_of(sm)
        if got[0] != ref_nodes or got[1] != want:
            ctx.fail("remove_edges_below_threshold(%r): nodes %r, edges %r, should be edges %r" % (t, list(got[0]), got[1], want), case)
    sm = build()
    ctx.trans()
    ctx.trace()
    ok, _ = ctx.guard(sm.threshold_till_dag, "threshold_till_dag", case)
    if not ok:
        return
    gn, ge = graph_of(sm)
    if gn != ref_nodes:
        ctx.fail("threshold_till_dag: nodes are %r" % gn, case)
    if any(e not in ref or d != ref[e] for e, d in ge.items()):
        ctx.fail("threshold_till_dag: changed an edge: %r" % (ge,), case)
    if not acyclic(list(ref_nodes), list(ge)):
        ctx.fail("threshold_till_dag leaves a cycle: %r" % (list(ge),), case)
    removed = [e for e in ref if e not in ge]
    ctx.outcome((len(ref), len(removed)))
    if removed:
        top = max(abs(ref[e]["weight"]) for e in removed)
        low = [e for e in ge if abs(ge[e]["weight"]) < top]
        if low:
            ctx.fail("threshold_till_dag removed an edge of weight %r and kept the smaller %r" % (top, low), case)
        # it stopped as soon as it could: putting the last removed edge back gives a cycle
        if all(acyclic(list(ref_nodes), list(ge) + [e]) for e in removed if abs(ref[e]["weight"]) == top):
            ctx.fail("threshold_till_dag removed more than needed: %r from %r" % (removed, list(ref)), case)


def types(ctx, SM, np):
    """Weights as the learning algorithms and users produce them."""
    cyc = ((0, 1), (1, 2), (2, 0))
    vals = [np.float64(0.3), -0.7, 1, np.int64(-2), np.float32(0.5), float("inf"), 1e-300, -1e-300, 0.0, -0.0, float("-inf"), 10**20]
    for ws in itertools.product(vals, repeat=3):
        one(ctx, SM, 3, cyc, ws, (0, 1e-300, 0.5, 1, np.float64(0.7), float("inf"), float("-inf"), -1))
    # learned from an array
    for signs in itertools.product((-1, 1), repeat=4):
        w = np.array([[0, signs[0] * 0.4, 0], [signs[1] * 0.2, 0, signs[2] * 0.9], [signs[3] * 0.3, 0, 0]])
        sm = SM(w, origin="learned")
        ctx.state()
        ctx.trans()
        ctx.trace()
        ctx.guard(sm.threshold_till_dag, "threshold_till_dag on an array")
        if {tuple(map(int, e)) for e in sm.edges} != {(0, 1), (1, 2)}:
            ctx.fail("threshold_till_dag on %r keeps %r" % (w.tolist(), list(sm.edges)))
