"""Enumerating directed graphs with edge data, and the StructureModel under test."""
import importlib
import itertools


def load():
    from .standins import install
    install()
    return importlib.import_module("causalnex.structure").StructureModel


def arcs(n, loops=False):
    return [(i, j) for i in range(n) for j in range(n) if loops or i != j]


def all_digraphs(n, max_edges=None, loops=False):
    """Every set of arcs over n labelled nodes."""
    a = arcs(n, loops)
    for k in range(0, min(len(a), max_edges if max_edges is not None else len(a)) + 1):
        yield from itertools.combinations(a, k)


def canonical(n, edges):
    """The smallest relabelling of an arc set (isomorphism class representative)."""
    return min(tuple(sorted((p[i], p[j]) for i, j in edges)) for p in itertools.permutations(range(n)))


def iso_digraphs(n, max_edges=None):
    seen = set()
    for e in all_digraphs(n, max_edges):
        c = canonical(n, e)
        if c not in seen:
            seen.add(c)
            yield c


def acyclic(nodes, edges):
    succ = {}
    indeg = {v: 0 for v in nodes}
    for u, v in edges:
        succ.setdefault(u, []).append(v)
        indeg[v] += 1
    todo = [v for v in nodes if not indeg[v]]
    seen = 0
    while todo:
        v = todo.pop()
        seen += 1
        for w in succ.get(v, ()):
            indeg[w] -= 1
            if not indeg[w]:
                todo.append(w)
    return seen == len(nodes)


def weak_components(nodes, edges):
    comp = {v: frozenset([v]) for v in nodes}
    for u, v in edges:
        if comp[u] is not comp[v]:
            m = comp[u] | comp[v]
            for x in m:
                comp[x] = m
    out = []
    for v in nodes:
        if comp[v] not in out:
            out.append(comp[v])
    return out


def graph_of(sm):
    """(nodes with their data, edges with their data) of a networkx graph, as plain dictionaries."""
    return ({n: dict(d) for n, d in sm.nodes(data=True)}, {(u, v): dict(d) for u, v, d in sm.edges(data=True)})
