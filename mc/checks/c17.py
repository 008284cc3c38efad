"""StructureModel: largest and target subgraphs."""
import itertools

from ..graphs import all_digraphs, arcs, graph_of, iso_digraphs, load, weak_components

PROPERTY = "C17"
MEANING = ("state = (graph, node names, edge data); transition = one call of get_largest_subgraph / get_target_subgraph; trace = one returned graph compared "
           "with the weakly connected components computed independently")
BOUNDS = {
    "quick": "every digraph with self-loops on 1-3 labelled nodes and without on 4, every digraph with <= 4 edges on 5 nodes, up to isomorphism <= 3 edges on 6 nodes and "
             "chosen 7-8 node graphs of several parts; one to three parts of up to 30 nodes and 42 edges in every order; 7 tables of node names; every target node, nodes not in the graph; results changed by the caller, calls repeated",
    "thorough": "as quick with every digraph with <= 6 edges on 5 nodes and <= 4 on 6 nodes up to isomorphism",
}
ASSUMPTIONS = ["the real networkx 3 of the sandbox is used (the package asks for 2.5)"]
CHUNK = 2
UNIT_CPU = 900
NAMES = {
    "str": ["a", "b", "c", "d", "e", "f", "g", "h"],
    "int": [0, 1, 2, 3, 4, 5, 6, 7],
    "rev": [7, 6, 5, 4, 3, 2, 1, 0],
    "sub": ["x", "xx", "xxx", "", "x x", "xy", "y", "yx"],
    "odd": [("a", "b"), 0, "a", frozenset([1]), 2.5, -1, "b", ("a",)],
    "look": ["1", 1, "(0,)", "0", (0,), 0, "None", "2"],
    "bool": [False, True, "0", "1", "False", 2, 3, 4],
}
MANY = ["n%d" % (i * 37 % 101) for i in range(101)]
NAMES["many"] = MANY
BASE = [x for x in NAMES if x != "many"]
ABSENT = ["zz", 99, ("a", "z"), None, "X"]
ORIGINS = ("unknown", "learned", "expert")


def units(tier):
    us = []
    for n in (0, 1, 2, 3):
        us.append({"k": "all", "n": n, "loops": True, "names": BASE})
    for i in range(12):
        us.append({"k": "slice", "n": 4, "mod": 12, "rem": i, "max": None})
    m5 = 6 if tier == "thorough" else 4
    mod = 64 if tier == "thorough" else 16
    for i in range(mod):
        us.append({"k": "slice", "n": 5, "mod": mod, "rem": i, "max": m5})
    us.append({"k": "iso", "n": 6, "max": 4 if tier == "thorough" else 3})
    us.append({"k": "big"})
    us += [{"k": "parts", "first": i} for i in range(7)]
    return us


def graphs(u):
    if u["k"] == "all":
        yield from ((u["n"], e) for e in all_digraphs(u["n"], None, True))
    elif u["k"] == "slice":
        yield from ((u["n"], e) for i, e in enumerate(all_digraphs(u["n"], u["max"])) if i % u["mod"] == u["rem"])
    elif u["k"] == "iso":
        # every choice of arcs would be the same under renaming: forests and cycles of at most max arcs over 6 nodes
        yield from ((u["n"], e) for e in iso_digraphs(u["n"], u["max"]))
    elif u["k"] == "parts":
        # parts of up to 30 nodes and 42 edges
        chain = lambda n: [(i, i + 1) for i in range(n - 1)]
        parts = [chain(5), chain(30), [(0, i) for i in range(1, 26)], [(i, 0) for i in range(1, 22)], [(i, j) for i in range(7) for j in range(7) if i != j], [(i, j) for i in range(7) for j in range(i)], chain(22) + [(21, 0)]]
        for rest in [()] + [(b,) for b in range(7)] + list(itertools.permutations(range(7), 2)):
            es, off = [], 0
            for p in (u["first"],) + rest:
                es += [(i + off, j + off) for i, j in parts[p]]
                off += 1 + max(max(a) for a in parts[p])
            if off <= len(MANY) - 1:
                yield off, tuple(es)
    else:
        parts = [((0, 1),), ((0, 1), (1, 0)), ((0, 1), (1, 2)), ((0, 1), (1, 2), (0, 2)), ((1, 0), (2, 0)), ((0, 1), (1, 2), (2, 0)), (), ((0, 0),)]
        size = lambda e: max([x for a in e for x in a], default=0) + 1
        for a, b, c in itertools.product(parts, repeat=3):
            if size(a) + size(b) + size(c) > 8:
                continue
            es, off = [], 0
            for p in (a, b, c):
                es += [(i + off, j + off) for i, j in p]
                off += size(p)
            yield off, tuple(es)


def run_unit(u, ctx):
    SM = load()
    from networkx.exception import NodeNotFound
    tables = u.get("names") or (BASE if u["k"] == "big" else ["many"] if u["k"] == "parts" else None)
    for gi, (n, edges) in enumerate(graphs(u)):
        for t in (tables or [BASE[gi % len(BASE)]]):
            one(ctx, SM, NodeNotFound, n, edges, t)
    ctx.sample({"unit": u})


def build(SM, n, edges, t):
    names = NAMES[t]
    sm = SM()
    for i in range(n):
        sm.add_node(names[i], label=i)
    for k, (i, j) in enumerate(edges):
        sm.add_edge(names[i], names[j], origin=ORIGINS[k % 3], weight=k - 1.5)
    return sm


def one(ctx, SM, NodeNotFound, n, edges, t):
    names = NAMES[t]
    sm = build(SM, n, edges, t)
    nodes, eds = graph_of(sm)
    case = {"nodes": [repr(x) for x in names[:n]], "edges": [repr((names[i], names[j])) for i, j in edges]}
    comps = weak_components(list(nodes), list(eds))
    part = {c: {e: d for e, d in eds.items() if e[0] in c} for c in comps}
    most = max([len(p) for p in part.values()], default=0)
    ctx.state()

    def is_component(g, c, what):
        if not isinstance(g, SM):
            ctx.fail("%s: a %s, not a StructureModel" % (what, type(g)), case)
        gn, ge = graph_of(g)
        if gn != {x: nodes[x] for x in c}:
            ctx.fail("%s: nodes %r, the part holds %r" % (what, gn, {x: nodes[x] for x in c}), case)
        if ge != part[c]:
            ctx.fail("%s: edges %r, the part holds %r" % (what, ge, part[c]), case)

    for rep in range(2):
        ctx.trans()
        ctx.trace()
        ok, g = ctx.guard(sm.get_largest_subgraph, "get_largest_subgraph", case)
        if not ok:
            return
        if most == 0:
            if g is not None:
                ctx.fail("get_largest_subgraph of a graph without edges gives %r" % (graph_of(g),), case)
        elif g is None:
            ctx.fail("get_largest_subgraph gives None for a graph with edges", case)
        else:
            c = next((c for c in comps if set(c) == set(g.nodes)), None)
            if c is None or len(part[c]) != most:
                ctx.fail("get_largest_subgraph gives nodes %r, which is not a part with %d edges" % (list(g.nodes), most), case)
            is_component(g, c, "get_largest_subgraph")
            ctx.outcome((len(c), most))
            g.add_edge("NEW", next(iter(c)), origin="expert")   # the caller changes what it was given
            for e in g.edges:
                g.edges[e]["weight"] = "changed"
        if graph_of(sm) != (nodes, eds):
            ctx.fail("get_largest_subgraph (or changing its result) changed the graph", case)
    for x in list(nodes):
        for rep in range(2):
            ctx.trans()
            ctx.trace()
            ok, g = ctx.guard(lambda: sm.get_target_subgraph(x), "get_target_subgraph(%r)" % (x,), case)
            if not ok:
                return
            is_component(g, next(c for c in comps if x in c), "get_target_subgraph(%r)" % (x,))
            g.remove_node(x)
            g.add_edge("NEW", "NEW2")
            if graph_of(sm) != (nodes, eds):
                ctx.fail("get_target_subgraph (or changing its result) changed the graph", case)
    for x in ABSENT + [names[n] if n < len(names) else "zz"]:
        if x in nodes:
            continue
        ctx.trans()
        ctx.trace()
        ctx.raises(lambda: sm.get_target_subgraph(x), NodeNotFound, "get_target_subgraph(%r)" % (x,), case)
