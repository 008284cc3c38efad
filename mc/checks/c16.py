"""StructureModel: every edge has the origin it was last given, through every history of operations."""
import copy
import itertools
import pickle

from ..graphs import graph_of, load

PROPERTY = "C16"
MEANING = ("state = history of operations on a StructureModel, with the reference model's node and edge data; transition = one operation applied to "
           "both; trace = one complete history, after each step of which all nodes, edges, edge data, edges_with_origin for every origin, "
           "and every copy made so far are compared")
BOUNDS = {
    "quick": "every sequence of 3 operations out of 36 over nodes {a, b} (add_edge, add_edges_from with 2- and 3-tuples, add_weighted_edges_from with "
             "all origins, with default origin, with attributes, and rejected ones; removals; copies, views, conversions, reconstruction; changing what was passed in or "
             "handed out); every way to construct from 9 kinds of data on 5 graphs x 4 origins; invalid origins of every kind",
    "thorough": "as quick with every sequence of 4 operations",
}
ASSUMPTIONS = ["the real networkx 3 of the sandbox is used (the package asks for 2.5)"]
CHUNK = 2
ORIGINS = ("unknown", "learned", "expert")
BAD = ("other", "Learned", "", None, "learned ", 1, "un", "unknownn")


def ops():
    o = []
    for origin in (None,) + ORIGINS:
        o.append(("add", "a", "b", origin, {}))
    o.append(("add", "b", "a", "expert", {"weight": 2}))
    o.append(("add", "a", "a", "learned", {"x": 1}))
    o.append(("add", "b", "a", None, {"x": 3}))
    o.append(("addbad", "a", "b", "nope", {}))
    for origin in (None,) + ORIGINS:
        o.append(("from", (("a", "b"), ("b", "a")), origin, {}))
    o.append(("from", (("b", "a", {"weight": 5}), ("a", "b")), "learned", {"x": 7}))
    o.append(("from", (("a", "b", {"x": 9}),), "expert", {"x": 8}))
    o.append(("from", (("a", "b", {"origin": "expert"}), ("b", "a", {"origin": "learned", "weight": 0})), "unknown", {}))
    o.append(("from", (("a", "b", {}), ("b", "a", {})), "expert", {"x": 5}))
    o.append(("frombad", (("b", "a"),), "bad"))
    o.append(("attr", "a", "b", "y", 6))
    for origin in (None,) + ORIGINS:
        o.append(("weighted", (("a", "b", 0.5), ("b", "a", -1)), "weight", origin, {}))
    o.append(("weighted", (("a", "b", 3),), "w2", "expert", {"x": 2}))
    o.append(("weightedbad", (("a", "b", 4),), "bad"))
    o.append(("rm", "a", "b"))
    o.append(("rmfrom", (("a", "b"), ("b", "a"))))
    o.append(("rmnode", "a"))
    o.append(("node", "b"))
    o += [("copy",), ("subgraph",), ("rebuild", "learned"), ("reverse",), ("directed",), ("undirected",), ("pickle",), ("edgesub",)]
    return o


class Ref:
    """The specification: nodes and edges with data; an edge keeps the data it is not given anew."""

    def __init__(self, nodes=None, edges=None):
        self.nodes = {n: dict(d) for n, d in (nodes or {}).items()}
        self.edges = {e: dict(d) for e, d in (edges or {}).items()}

    def put(self, u, v, data):
        self.nodes.setdefault(u, {})
        self.nodes.setdefault(v, {})
        self.edges.setdefault((u, v), {}).update(data)


def compare(ctx, sm, ref, what, hist):
    got = graph_of(sm)
    ok = True
    if got[0] != ref.nodes:
        return ctx.fail("%s: nodes %r, should be %r" % (what, got[0], ref.nodes), {"history": hist})
    if got[1] != ref.edges:
        return ctx.fail("%s: edges %r, should be %r" % (what, got[1], ref.edges), {"history": hist})
    for origin in ORIGINS:
        e = sm.edges_with_origin(origin)
        exp = [k for k, d in ref.edges.items() if d["origin"] == origin]
        if len(e) != len(exp) or {tuple(x) for x in e} != set(exp):
            return ctx.fail("%s: edges_with_origin(%r) is %r, should be %r" % (what, origin, e, exp), {"history": hist})
    return ok


def kw(origin, attrs):
    d = dict(attrs)
    if origin is not None:
        d["origin"] = origin
    return d


def apply(ctx, SM, sm, ref, op, hist):
    """Apply op to the real graph and to the reference; returns the pair the history goes on with."""
    k = op[0]
    case = {"history": hist}
    if k in ("add", "addbad"):
        _, u, v, origin, attrs = op
        given = dict(attrs)
        if k == "addbad":
            ctx.raises(lambda: sm.add_edge(u, v, origin=origin), ValueError, "add_edge with origin %r" % origin, case)
        else:
            ctx.guard(lambda: sm.add_edge(u, v, **kw(origin, given)), "add_edge", case)
            ref.put(u, v, {**attrs, "origin": origin or "unknown"})
    elif k in ("from", "frombad"):
        ebunch = [tuple(dict(x) if isinstance(x, dict) else x for x in e) for e in op[1]]
        if k == "frombad":
            ctx.raises(lambda: sm.add_edges_from(ebunch, origin=op[2]), ValueError, "add_edges_from with origin %r" % op[2], case)
        else:
            before = copy.deepcopy(ebunch)
            ctx.guard(lambda: sm.add_edges_from(ebunch, **kw(op[2], op[3])), "add_edges_from", case)
            if ebunch != before:
                ctx.fail("add_edges_from changed its argument to %r" % (ebunch,), case)
            for e in op[1]:
                ref.put(e[0], e[1], {**op[3], "origin": op[2] or "unknown", **(e[2] if len(e) == 3 else {})})
            for e in ebunch:                  # the caller goes on using the dictionaries passed in
                if len(e) == 3:
                    e[2]["weight"] = "changed afterwards"
    elif k in ("weighted", "weightedbad"):
        ebunch = list(op[1])
        if k == "weightedbad":
            ctx.raises(lambda: sm.add_weighted_edges_from(ebunch, origin=op[2]), ValueError, "add_weighted_edges_from with origin %r" % op[2], case)
        else:
            kws = kw(op[3], op[4])
            if op[2] != "weight":
                kws["weight"] = op[2]
            ctx.guard(lambda: sm.add_weighted_edges_from(ebunch, **kws), "add_weighted_edges_from", case)
            for u, v, w in op[1]:
                ref.put(u, v, {**op[4], "origin": op[3] or "unknown", op[2]: w})
    elif k == "attr":
        if (op[1], op[2]) in ref.edges:
            sm[op[1]][op[2]][op[3]] = op[4]
            ref.edges[op[1], op[2]][op[3]] = op[4]
    elif k == "rm":
        if (op[1], op[2]) in ref.edges:
            sm.remove_edge(op[1], op[2])
            del ref.edges[op[1], op[2]]
    elif k == "rmfrom":
        sm.remove_edges_from(list(op[1]))
        for e in op[1]:
            ref.edges.pop(e, None)
    elif k == "rmnode":
        if op[1] in ref.nodes:
            sm.remove_node(op[1])
            del ref.nodes[op[1]]
            for e in [e for e in ref.edges if op[1] in e]:
                del ref.edges[e]
    elif k == "node":
        sm.add_node(op[1])
        ref.nodes.setdefault(op[1], {})
    else:
        # a derived graph, which the history goes on with; the source must not notice
        r2 = Ref(ref.nodes, ref.edges)
        if k == "copy":
            s2 = sm.copy()
        elif k == "subgraph":
            keep = [n for n in ref.nodes if n == "a"] if len(ref.edges) > 2 else list(ref.nodes)
            s2 = sm.subgraph(keep).copy()
            r2.nodes = {n: d for n, d in r2.nodes.items() if n in keep}
            r2.edges = {e: d for e, d in r2.edges.items() if e[0] in keep and e[1] in keep}
        elif k == "rebuild":
            s2 = SM(sm, origin=op[1])
            for d in r2.edges.values():
                d["origin"] = op[1]
        elif k == "reverse":
            s2 = sm.reverse()
            r2.edges = {(v, u): d for (u, v), d in r2.edges.items()}
        elif k == "directed":
            s2 = sm.to_directed()
        elif k == "undirected":
            u2 = sm.to_undirected()
            import networkx as nx
            if type(u2) is not nx.Graph:
                ctx.fail("to_undirected() gives a %s" % type(u2), case)
            for u, v, d in u2.edges(data=True):
                cands = [ref.edges[e] for e in ((u, v), (v, u)) if e in ref.edges]
                if not cands or d.get("origin") not in [c["origin"] for c in cands]:
                    ctx.fail("to_undirected() has edge %r with %r, the edges were %r" % ((u, v), d, ref.edges), case)
            if {frozenset(e) for e in u2.edges} != {frozenset(e) for e in ref.edges} or set(u2.nodes) != set(ref.nodes):
                ctx.fail("to_undirected() has other nodes or edges", case)
            s2 = sm
        elif k == "pickle":
            s2 = pickle.loads(pickle.dumps(sm))
        elif k == "edgesub":
            keep = [e for e in ref.edges][:1]
            s2 = sm.edge_subgraph(keep).copy()
            r2.edges = {e: r2.edges[e] for e in keep}
            r2.nodes = {n: d for n, d in r2.nodes.items() if any(n in e for e in keep)}
        if not isinstance(s2, SM):
            ctx.fail("%s gives a %s" % (k, type(s2)), case)
        return s2, r2
    return sm, ref


def units(tier):
    depth = 4 if tier == "thorough" else 3
    n = len(ops())
    us = [{"k": "seq", "prefix": list(p), "depth": depth} for p in itertools.product(range(n), repeat=depth - 2)]
    us += [{"k": "init"}, {"k": "bad"}]
    return us


def run_unit(u, ctx):
    SM = load()
    if u["k"] == "init":
        return construct(ctx, SM)
    if u["k"] == "bad":
        return invalid(ctx, SM)
    all_ops = ops()
    for tail in itertools.product(range(len(all_ops)), repeat=2):
        seq = [all_ops[i] for i in list(u["prefix"]) + list(tail)]
        hist = [repr(o) for o in seq]
        sm, ref = SM(), Ref()
        kept = []
        ctx.state()
        for i, op in enumerate(seq):
            ctx.trans()
            old = (sm, ref)
            sm, ref = apply(ctx, SM, sm, ref, op, hist[:i + 1])
            if sm is not old[0]:
                kept.append((i, old))
            if not compare(ctx, sm, ref, "after %d operations" % (i + 1), hist[:i + 1]):
                return
            for j, (s, r) in kept:
                if not compare(ctx, s, r, "the graph of step %d, after %d operations" % (j, i + 1), hist[:i + 1]):
                    return
        ctx.trace()
    ctx.sample(u)
    ctx.outcome(tuple(sorted(map(repr, ref.edges.items()))))


def construct(ctx, SM):
    import networkx as nx
    import numpy as np
    shapes = [((), 0), ((("a", "b"),), 2), ((("a", "b"), ("b", "c")), 3), ((("a", "b"), ("b", "a")), 2), ((("c", "a"), ("c", "b"), ("a", "b"), ("b", "b")), 3)]
    for edges, n in shapes:
        nodes = ["a", "b", "c"][:n]
        for origin in (None,) + ORIGINS:
            def make(data, **attr):
                return SM(data, **attr) if origin is None else SM(data, origin=origin, **attr)
            want = origin or "unknown"
            kinds = {
                "edge list": lambda: [tuple(e) for e in edges],
                "weighted edge list": lambda: [(a, b, {"weight": 2}) for a, b in edges],
                "edge list with other origins": lambda: [(a, b, {"origin": "learned"}) for a, b in edges],
                "dict of lists": lambda: {x: [b for a, b in edges if a == x] for x in nodes},
                "dict of dicts": lambda: {x: {b: {"weight": 1} for a, b in edges if a == x} for x in nodes},
                "DiGraph": lambda: nx.DiGraph([(a, b, {"weight": 2}) for a, b in edges]),
                "DiGraph with labels": lambda: nx.DiGraph([(a, b, {"origin": "other", "weight": 2}) for a, b in edges]),
                "StructureModel": lambda: other(SM, edges),
                "array": lambda: np.array([[1.5 if (a, b) in edges else 0 for b in nodes] for a in nodes]).reshape(n, n),
            }
            for kind, data in kinds.items():
                if kind == "array" and not n:
                    continue
                src = data()
                before = graph_of(src) if isinstance(src, nx.Graph) else copy.deepcopy(src)
                ctx.state()
                ctx.trans()
                ctx.trace()
                case = {"kind": kind, "edges": edges, "origin": origin}
                ok, sm = ctx.guard(lambda: make(src, name="g"), "StructureModel from %s" % kind, case)
                if not ok:
                    return
                got = {(str(nodes[a]) if kind == "array" else a, str(nodes[b]) if kind == "array" else b): d for (a, b), d in graph_of(sm)[1].items()}
                if set(got) != set(edges):
                    ctx.fail("from %s: edges %r, should be %r" % (kind, sorted(got), sorted(edges)), case)
                if any(d.get("origin") != want for d in got.values()):
                    ctx.fail("from %s: origins %r, should be %r" % (kind, got, want), case)
                if kind in ("weighted edge list", "DiGraph", "DiGraph with labels") and any(d.get("weight") != 2 for d in got.values()):
                    ctx.fail("from %s: weights lost: %r" % (kind, got), case)
                if kind == "array" and any(d.get("weight") != 1.5 for d in got.values()):
                    ctx.fail("from %s: weights lost: %r" % (kind, got), case)
                if sm.graph.get("name") != "g":
                    ctx.fail("from %s: graph attribute lost" % kind, case)
                for o in ORIGINS:
                    e = sm.edges_with_origin(o)
                    if len(e) != (len(edges) if o == want else 0):
                        ctx.fail("from %s: edges_with_origin(%r) is %r" % (kind, o, e), case)
                after = graph_of(src) if isinstance(src, nx.Graph) else src
                if kind != "array" and after != before:
                    ctx.fail("from %s: the source was changed to %r" % (kind, after), case)
    # nothing given
    for origin in ORIGINS:
        if len(SM(origin=origin).edges) or len(SM(None, origin).nodes):
            ctx.fail("an empty model has edges")


def other(SM, edges):
    sm = SM()
    for i, e in enumerate(edges):
        sm.add_edge(*e, origin=ORIGINS[i % 3], weight=i)
    return sm


def invalid(ctx, SM):
    """Invalid origins are refused by every entry point, with no effect at all."""
    for bad in BAD:
        ctx.state()
        ctx.trace()
        for data in (None, [("a", "b")], {}):
            ctx.trans()
            ctx.raises(lambda: SM(data, origin=bad), ValueError, "StructureModel(%r, origin=%r)" % (data, bad))
        for existing in (False, True):
            sm, ref = SM(), Ref()
            if existing:
                sm.add_edge("a", "b", origin="expert", weight=1)
                ref.put("a", "b", {"origin": "expert", "weight": 1})
            for name, call in (
                    ("add_edge", lambda: sm.add_edge("a", "b", origin=bad)), ("add_edge", lambda: sm.add_edge("a", "z", bad, weight=3)),
                    ("add_edges_from", lambda: sm.add_edges_from([("a", "b"), ("x", "y")], origin=bad)),
                    ("add_edges_from", lambda: sm.add_edges_from([], bad)),
                    ("add_weighted_edges_from", lambda: sm.add_weighted_edges_from([("a", "b", 5), ("x", "y", 1)], origin=bad)),
                    ("add_weighted_edges_from", lambda: sm.add_weighted_edges_from([("a", "b", 5)], "weight", bad))):
                ctx.trans()
                ctx.raises(call, ValueError, "%s with origin %r" % (name, bad))
                compare(ctx, sm, ref, "after a rejected %s" % name, [name, repr(bad)])
            for attr in ("origins", "Origin", "", "e", "expert ", "exper", "xpert", "n", "learned", "unknown"):
                if sm.edges_with_origin(attr):
                    ctx.fail("edges_with_origin(%r) is not empty" % attr)
