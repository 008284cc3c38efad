"""Specification of a correct junction tree, evaluated on the real one through its public attributes."""
import itertools


def moral_edges(parents, names):
    es = set()
    for i, ps in enumerate(parents):
        for p in ps:
            es.add(frozenset((names[i], names[p])))
        for a, b in itertools.combinations(ps, 2):
            es.add(frozenset((names[a], names[b])))
    return es


def skeleton(parents, names):
    return {frozenset((names[i], names[p])) for i, ps in enumerate(parents) for p in ps}


def graph_edges(g, var=None):
    """Edges of an undirected graph object; also checks symmetry, no loops, no duplicates.  -> (edges, problem)"""
    var = var or (lambda n: n.variable_name)
    edges = set()
    ids = {id(n) for n in g.nodes}
    for n in g.nodes:
        seen = []
        for o in n.neighbours:
            if id(o) not in ids:
                return None, "node %s has a neighbour outside the graph" % var(n)
            if o is n:
                return None, "node %s is its own neighbour" % var(n)
            if not any(x is n for x in o.neighbours):
                return None, "%s lists %s as neighbour but not vice versa" % (var(n), var(o))
            if any(x is o for x in seen):
                return None, "%s lists %s twice" % (var(n), var(o))
            seen.append(o)
            edges.add(frozenset((var(n), var(o))))
    return edges, None


def chordal(vertices, edges):
    adj = {v: {w for e in edges if v in e for w in e if w != v} for v in vertices}
    left = set(vertices)
    while left:
        for v in sorted(left):
            nb = adj[v] & left
            if all(b in adj[a] for a, b in itertools.combinations(nb, 2)):
                left.discard(v)
                break
        else:
            return False
    return True


def problems(jt, parents, names):
    """The first defect of the join tree of the network, or None."""
    cl = list(jt.clique_nodes)
    ss = list(jt.sepset_nodes)
    n = len(names)
    if not cl:
        return "no cliques"
    if len(jt.nodes) != len(cl) + len(ss) or len({id(x) for x in jt.nodes}) != len(jt.nodes):
        return "%d nodes, but %d cliques and %d sepsets" % (len(jt.nodes), len(cl), len(ss))
    sets = []
    for c in cl:
        v = list(c.variable_names)
        if len(set(v)) != len(v):
            return "clique with duplicate variables %r" % v
        sets.append(frozenset(v))
    if set().union(*sets) != set(names):
        return "cliques cover %r, not the variables %r" % (sorted(set().union(*sets)), names)
    if len(ss) != len(cl) - 1:
        return "%d cliques are joined by %d sepsets" % (len(cl), len(ss))
    idx = {id(c): k for k, c in enumerate(cl)}
    links = []
    for s in ss:
        nb = list(s.neighbours)
        if len(nb) != 2 or any(id(x) not in idx for x in nb) or nb[0] is nb[1]:
            return "sepset %r does not join two different cliques" % (sorted(s.variable_names),)
        for x in nb:
            if sum(1 for y in x.neighbours if y is s) != 1:
                return "clique and sepset do not list each other exactly once"
        a, b = idx[id(nb[0])], idx[id(nb[1])]
        if frozenset(s.variable_names) != sets[a] & sets[b]:
            return "sepset %r between %r and %r is not their intersection" % (
                sorted(s.variable_names), sorted(sets[a]), sorted(sets[b]))
        links.append((a, b))
    for c in cl:
        if any(not any(y is s for s in ss) for y in c.neighbours):
            return "clique %r has a neighbour that is no sepset of the tree" % sorted(c.variable_names)
    adj = {k: set() for k in range(len(cl))}
    for a, b in links:
        adj[a].add(b)
        adj[b].add(a)
    reach, todo = {0}, [0]
    while todo:
        for y in adj[todo.pop()]:
            if y not in reach:
                reach.add(y)
                todo.append(y)
    if len(reach) != len(cl):
        return "the join tree is not connected"
    for v in names:
        holders = {k for k in range(len(cl)) if v in sets[k]}
        r, todo = set(), [next(iter(holders))]
        while todo:
            k = todo.pop()
            if k in r:
                continue
            r.add(k)
            todo.extend(adj[k] & holders)
        if r != holders:
            return "running intersection fails for %s: the cliques holding it are not connected" % v
    for i, ps in enumerate(parents):
        fam = frozenset([names[i]] + [names[p] for p in ps])
        if not any(fam <= s for s in sets):
            return "no clique holds the family %r" % sorted(fam)
    for a, b in itertools.permutations(range(len(sets)), 2):
        if sets[a] <= sets[b]:
            return "clique %r is not maximal (inside %r)" % (sorted(sets[a]), sorted(sets[b]))
    return None
