"""Compilation: moral graph, triangulation and join tree are what the theory demands, for every structure."""
import itertools

from ..ebay import mod, net_from_spec
from ..hashes import Order, controlled
from ..jtree import chordal, graph_edges, moral_edges, problems, skeleton
from ..nets import FAMILIES, all_dags, iso_dags, relabel

PROPERTY = "C07"
MEANING = ("state = (structure, elimination rule); transition = one compilation step on the real code (undirected copy, moral graph, "
           "triangulation, join tree); trace = one compilation whose every intermediate graph was compared with the specification")
BOUNDS = {
    "quick": "all DAGs on <=4 labelled nodes (572), the 302 isomorphism classes on 5 nodes x 6 relabellings, 20 larger shapes, with the built-in "
             "elimination rule; all DAGs on <=3 and classes on 4 nodes x every elimination order through a caller-supplied rule; 4-node structures x 6 "
             "iteration orders of the engine's sets",
    "thorough": "as quick plus the 5984 isomorphism classes on 6 nodes x 4 relabellings, and every elimination order (120) for the 302 classes on 5 nodes",
}
CHUNK = 16


def units(tier):
    us = []
    thorough = tier == "thorough"
    for n in (1, 2, 3, 4):
        for p in all_dags(n):
            us.append({"parents": p, "names": "rev" if n % 2 else "mixed"})
    perms5 = [(0, 1, 2, 3, 4), (4, 3, 2, 1, 0), (2, 0, 4, 1, 3), (1, 4, 0, 3, 2), (3, 1, 2, 4, 0), (0, 3, 1, 4, 2)]
    for p in iso_dags(5):
        for q in perms5:
            us.append({"parents": relabel(p, q), "names": "alpha"})
    if thorough:
        for p in iso_dags(6):
            for q in [(0, 1, 2, 3, 4, 5), (5, 4, 3, 2, 1, 0), (2, 5, 0, 4, 1, 3), (3, 0, 4, 1, 5, 2)]:
                us.append({"parents": relabel(p, q), "names": "alpha"})
    for f in FAMILIES:
        us.append({"family": f, "names": "mixed"})
        us.append({"family": f, "names": "digits"})
    for n in (2, 3):
        for p in all_dags(n):
            us.append({"parents": p, "names": "alpha", "elim": True})
    for p in iso_dags(4) + (iso_dags(5) if thorough else []):
        us.append({"parents": p, "names": "mixed", "elim": True})
    for p in all_dags(4)[::3]:
        us.append({"parents": p, "names": "alpha", "hash": True})
    return us


def snapshot(bbn):
    return (sorted((n.variable_name, n.name, sorted(p.name for p in n.parents), sorted(c.name for c in n.children)) for n in bbn.nodes),
            bbn.get_graphviz_source())


def compile_once(u, net, m, bbn, rule, ctx, what):
    names = net.names
    case = lambda: {"structure": net.describe()["parents"], "what": what}  # noqa: E731

    def bad(msg):
        ctx.fail("%s: %s" % (what, msg), case)

    before = snapshot(bbn)
    ctx.state()
    ctx.trans(4)
    ok, gu = ctx.guard(lambda: m.make_undirected_copy(bbn), what + ": undirected copy", case)
    if not ok:
        return
    es, p = graph_edges(gu)
    if p or es != skeleton(net.parents, names):
        return bad("undirected copy: %s" % (p or "edges %r" % sorted(map(sorted, es))))
    ok, gm = ctx.guard(lambda: m.make_moralized_copy(gu, bbn), what + ": moral graph", case)
    if not ok:
        return
    moral = moral_edges(net.parents, names)
    es, p = graph_edges(gm)
    if p or es != moral:
        return bad("moral graph: %s" % (p or "edges %r, expected %r" % (sorted(map(sorted, es)), sorted(map(sorted, moral)))))
    es, p = graph_edges(gu)
    if p or es != skeleton(net.parents, names):
        return bad("moralising changed the undirected copy")
    ok, res = ctx.guard(lambda: m.triangulate(gm, rule) if rule else m.triangulate(gm), what + ": triangulation", case)
    if not ok:
        return
    cliques, order = res
    factor_names = sorted(n.name for n in bbn.nodes)
    if sorted(order) != factor_names:
        return bad("elimination ordering %r is not a permutation of the nodes" % (order,))
    es, p = graph_edges(gm)
    if p:
        return bad("triangulated graph: " + p)
    if not es >= moral:
        return bad("triangulation lost moral edges")
    if not chordal(names, es):
        return bad("triangulated graph %r is not chordal" % sorted(map(sorted, es)))
    if rule is None:
        # the built-in rule only ever eliminates a variable that needs the fewest new edges at that point
        late = _not_cheapest(names, moral, [{n.name: n.variable_name for n in bbn.nodes}[o] for o in order])
        if late:
            return bad("elimination ordering %r takes %s, which needs %d fill-ins, when %s needs only %d" % ((order,) + late))
    if rule is None or True:
        # exactly the fill-ins of the reported ordering
        var = {n.name: n.variable_name for n in bbn.nodes}
        fill = _fill(names, moral, [var[o] for o in order])
        if es != fill:
            return bad("triangulated graph %r has not exactly the fill-ins of the ordering %r: %r" % (
                sorted(map(sorted, es)), order, sorted(map(sorted, fill))))
        want = _maximal(names, fill)
        got = sorted(sorted(n.variable_name for n in c.nodes) for c in cliques)
        if got != want:
            return bad("cliques %r, expected %r" % (got, want))
    ok, jt = ctx.guard(lambda: m.build_join_tree(bbn, rule) if rule else bbn.build_join_tree(), what + ": join tree", case)
    if not ok:
        return
    p = problems(jt, net.parents, names)
    if p:
        return bad("join tree: " + p)
    got = sorted(sorted(c.variable_names) for c in jt.clique_nodes)
    ok, asg = ctx.guard(lambda: jt.assign_clusters(bbn), what + ": assigning factors", case)
    if not ok:
        return
    placed = sorted(f.variable_name for fs in asg.values() for f in fs)
    if placed != sorted(names):
        return bad("factors are assigned as %r: not each exactly once" % placed)
    fam = {names[i]: {names[i]} | {names[q] for q in ps} for i, ps in enumerate(net.parents)}
    for c, fs in asg.items():
        if not any(c is x for x in jt.clique_nodes) or any(not fam[f.variable_name] <= set(c.variable_names) for f in fs):
            return bad("a factor is assigned to a clique that does not hold its family")
    if snapshot(bbn) != before:
        return bad("compiling changed the network itself")
    ctx.trace()
    ctx.outcome(str(got))


def _fill(names, moral, order):
    adj = {v: {w for e in moral if v in e for w in e if w != v} for v in names}
    es = set(moral)
    left = set(names)
    for v in order:
        nb = adj[v] & left
        for a, b in itertools.combinations(nb, 2):
            adj[a].add(b)
            adj[b].add(a)
            es.add(frozenset((a, b)))
        left.discard(v)
    return es


def _not_cheapest(names, moral, order):
    adj = {v: {w for e in moral if v in e for w in e if w != v} for v in names}
    left = set(names)
    for v in order:
        cost = {x: sum(1 for a, b in itertools.combinations(adj[x] & left, 2) if b not in adj[a]) for x in left}
        best = min(sorted(left), key=cost.get)
        if cost[v] > cost[best]:
            return v, cost[v], best, cost[best]
        for a, b in itertools.combinations(adj[v] & left, 2):
            adj[a].add(b)
            adj[b].add(a)
        left.discard(v)
    return None


def _maximal(names, edges):
    adj = {v: {w for e in edges if v in e for w in e if w != v} for v in names}
    res = []

    def bk(r, p, x):
        if not p and not x:
            res.append(sorted(r))
            return
        for v in sorted(p):
            bk(r | {v}, p & adj[v], x & adj[v])
            p = p - {v}
            x = x | {v}
    bk(set(), set(names), set())
    return sorted(res)


def run_unit(u, ctx):
    m = mod()
    net = net_from_spec(dict(u, cpt="uniform"))
    ok, bbn = ctx.guard(lambda: net.build(m), "building", net.describe)
    if not ok:
        return
    if u.get("elim"):
        factor = {n.variable_name: n.name for n in bbn.nodes}
        for order in itertools.permutations(net.names):
            rank = {factor[v]: k for k, v in enumerate(order)}

            def rule(node):
                return [rank[node.name], 2]
            compile_once(u, net, m, bbn, rule, ctx, "elimination order %r" % (order,))
    elif u.get("hash"):
        for perm in itertools.permutations(range(3)):
            o = Order(perm)
            with controlled(o):
                compile_once(u, net, m, bbn, None, ctx, "iteration order %r" % (perm,))
    else:
        compile_once(u, net, m, bbn, None, ctx, "default rule")
        compile_once(u, net, m, bbn, None, ctx, "default rule, again")
    ctx.sample({"structure": net.describe()["parents"]})
