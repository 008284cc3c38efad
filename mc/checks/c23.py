"""Random structures: whatever the random source returns, the result is a weighted DAG as asked."""
import itertools
import math

from ..graphs import acyclic, all_digraphs, graph_of

PROPERTY = "C23"
MEANING = ("state = (generator arguments, outcomes of the random source so far); transition = one draw; trace = one generated structure checked against what the "
           "arguments promise; plus the set of all structures reached")
BOUNDS = {
    "quick": "n = 2, 3: every outcome of the edge draws (each entry of the lower triangle below or above the probability) x every permutation x 3 weight draws x all sign draws; "
             "n = 4 with 4 patterns of weights and signs; barabasi-albert: every outcome of every attachment for n <= 4, m <= 2; constant draws on both sides of the edge probability for n <= 7 and 8 degrees; "
             "5 weight ranges; every kind of invalid argument; the real random source with 40 seeds for n <= 10",
    "thorough": "as quick with barabasi-albert n <= 5, 400 seeds and n <= 20",
}
ASSUMPTIONS = ["numpy.random is replaced by an enumerating environment (except in the seeded part)"]
CHUNK = 1
UNIT_CPU = 900
RANGES = [(0.5, 0.5), (0.5, 2.0), (-0.5, 1.0), (0.25, -3.0), (-2.0, -2.0)]


def units(tier):
    t = tier == "thorough"
    us = [{"k": "er", "n": n, "mod": m, "rem": r, "range": list(rg)} for n, m in ((2, 1), (3, 2)) for r in range(m) for rg in RANGES]
    us += [{"k": "er", "n": 4, "mod": 8, "rem": r, "range": [0.5, 2.0]} for r in range(8)]
    us += [{"k": "full", "n": n} for n in (2, 3, 4)]
    us += [{"k": "ba", "n": n, "degree": d} for n in ((2, 3, 4, 5) if t else (2, 3, 4)) for d in (0, 0.9, 1, 1.5, 2, 3, 4) if not (n >= 4 and d >= 3)]
    us += [{"k": "const"}, {"k": "bad"}]
    us += [{"k": "seeds", "from": s, "to": s + 10, "n": 20 if t else 10} for s in range(0, 400 if t else 40, 10)]
    return us


def triangles(n):
    """every low/high choice for the entries below the diagonal, both fillings of the rest"""
    import numpy as np
    low = [(i, j) for i in range(n) for j in range(i)]
    out = []
    for bits in itertools.product((0, 1), repeat=len(low)):
        for rest in (0.999, 0.0):
            m = np.full((n, n), rest)
            for b, (i, j) in zip(bits, low):
                m[i, j] = 0.0 if b else 0.999
            out.append(m)
    return out


def few(n):
    import numpy as np
    m = np.fromfunction(lambda i, j: ((i * 7 + j * 3) % 5) / 5.0, (n, n))
    return [np.zeros((n, n)), np.full((n, n), 1 - 2.0 ** -53), m, m[::-1]]


def run_unit(u, ctx):
    from ..graphs import load
    load()
    import numpy as np
    from causalnex.structure.data_generators import generate_structure
    from ..nprng import explore
    k = u["k"]
    if k == "er":
        n = u["n"]
        tri = triangles(n)[u["rem"]::u["mod"]]
        small = few(n)

        def patterns(i, shape):
            if shape != (n, n):
                return [np.zeros(shape), np.full(shape, 0.999)]
            return tri if i == 0 else small[:3] if i == 1 else (triangles(n)[::2] if n == 2 else small)

        reached, mixed = set(), set()
        lo, hi = u["range"]
        # the probability of an edge is degree / (n - 1) = 1/2
        for (g, picks) in explore(lambda: call(ctx, generate_structure, n, (n - 1) / 2, "erdos-renyi", lo, hi), patterns):
            ctx.trans(len(picks))
            if g is None:
                return
            reached.add(frozenset(valid(ctx, g, n, lo, hi, "erdos-renyi", {"picks": picks})))
            mixed |= signs(g)
        ctx.count("structures reached", len(reached))
        if n > 2:
            all_signs(ctx, mixed, "erdos-renyi", n)
        if u["mod"] == 1 and ctx.traces >= 16:
            dags = {frozenset(e) for e in all_digraphs(n) if acyclic(range(n), e)}
            if reached != dags:
                ctx.fail("erdos-renyi on %d nodes never gives the structures %r" % (n, sorted(map(sorted, dags - reached))[:3]))
    elif k == "full":
        n = u["n"]
        for lo, hi in RANGES:
            small = few(n)
            reached, mixed = set(), set()
            for (g, picks) in explore(lambda: call(ctx, generate_structure, n, 1, "full", lo, hi), lambda i, shape: small if shape == (n, n) else [np.zeros(shape)]):
                ctx.trans(len(picks))
                if g is None:
                    return
                e = valid(ctx, g, n, lo, hi, "full", {"picks": picks})
                if len(e) != n * (n - 1) // 2:
                    ctx.fail("full structure on %d nodes has edges %r" % (n, sorted(e)), {"picks": picks})
                reached.add(frozenset(e))
                mixed |= signs(g)
            if len(reached) != math.factorial(n):
                ctx.fail("full structures on %d nodes come in %d of the %d orders" % (n, len(reached), math.factorial(n)))
            if n > 2:
                all_signs(ctx, mixed, "full", n)
    elif k == "ba":
        n, d = u["n"], u["degree"]
        m = int(round(d / 2))
        small = few(n)
        for (g, picks) in explore(lambda: call(ctx, generate_structure, n, d, "barabasi-albert", 0.5, 2), lambda i, shape: small[:2] if i == 0 and shape == (n, n) else [np.full(shape, 0.3)]):
            ctx.trans(len(picks))
            if g is None:
                return
            e = valid(ctx, g, n, 0.5, 2, "barabasi-albert", {"picks": picks, "degree": d})
            if len(e) > m * (n - 1):
                ctx.fail("barabasi-albert with degree %r on %d nodes has %d edges" % (d, n, len(e)), {"picks": picks})
            out = sorted(max(sum(1 for a in e if a[0] == v), 0) for v in range(n))
            if m and (len(e) < n - 1 or out[0] != 0 or out[1] < 1 or out[-1] > m):
                ctx.fail("barabasi-albert with degree %r on %d nodes: a node other than the first has not between 1 and %d attachments: %r" % (d, n, m, sorted(e)), {"picks": picks})
            ctx.outcome(tuple(out))
    elif k == "const":
        for n in range(2, 8):
            for d in (0, 0.3, 0.5, 1, 1.7, 2, 3, n - 1, n):
                p = d / (n - 1)
                for c in (0.0, 0.05, 0.21, 0.35, 0.45, 0.55, 0.66, 0.81, 0.9, 0.99):
                    if abs(c - p) < 1e-6:
                        continue
                    for (g, picks) in explore(lambda: call(ctx, generate_structure, n, d, "erdos-renyi", 0.5, 1), lambda i, shape: [np.full(shape, c)], limit=3):
                        ctx.trans(len(picks))
                        if g is None:
                            return
                        e = valid(ctx, g, n, 0.5, 1, "erdos-renyi", {"degree": d, "draws": c})
                        want = n * (n - 1) // 2 if c < p else 0
                        if len(e) != want:
                            ctx.fail("erdos-renyi on %d nodes, degree %r, all draws %r: %d edges, should be %d" % (n, d, c, len(e), want))
    elif k == "bad":
        for gt in ("erdos-renyi", "barabasi-albert", "full"):
            for n in (1, 0, -1):
                ctx.trace()
                ctx.raises(lambda: generate_structure(n, 1, gt), ValueError, "generate_structure(%d, 1, %r)" % (n, gt))
            for lo, hi in ((2, 1), (-2, 1), (2, -1), (0.500001, 0.5)):
                ctx.trace()
                ctx.raises(lambda: generate_structure(4, 1, gt, lo, hi), ValueError, "generate_structure with weights %r" % ((lo, hi),))
        for gt in ("", "Full", "erdos", "er", None, "barabasi_albert"):
            ctx.trace()
            ctx.raises(lambda: generate_structure(4, 1, gt), ValueError, "generate_structure with type %r" % (gt,))
    else:
        for s in range(u["from"], u["to"]):
            for n in range(2, u["n"] + 1):
                for gt in ("erdos-renyi", "barabasi-albert", "full"):
                    for d in (0, 1, 2.5, n - 1):
                        np.random.seed(s)
                        g = call(ctx, generate_structure, n, d, gt, 0.5, 1.5)
                        ctx.trans()
                        if g is None:
                            return
                        e = valid(ctx, g, n, 0.5, 1.5, gt, {"seed": s, "degree": d})
                        if (gt == "full" or gt == "erdos-renyi" and d == n - 1) and len(e) != n * (n - 1) // 2:
                            ctx.fail("%s with degree %r on %d nodes has %d edges" % (gt, d, n, len(e)))
                        if d == 0 and gt != "full" and e:
                            ctx.fail("%s with degree 0 has edges" % gt)
                        np.random.seed(s)
                        g2 = call(ctx, generate_structure, n, d, gt, 0.5, 1.5)
                        if g2 is None or graph_of(g2) != graph_of(g):
                            ctx.fail("%s is not determined by the state of the random source" % gt, {"seed": s, "n": n, "degree": d})
    ctx.sample(u)


def signs(g):
    """which signs occur together: for edges with the same source, the same target, and chains"""
    out = set()
    es = list(g.edges.data("weight"))
    for (a, b, w), (c, d, x) in itertools.permutations(es, 2):
        for rel in (("source",) if a == c else ()) + (("target",) if b == d else ()) + (("chain",) if b == c else ()):
            out.add((rel, w > 0, x > 0))
    return out


def all_signs(ctx, mixed, kind, n):
    for rel in ("source", "target", "chain"):
        for s in itertools.product((False, True), repeat=2):
            if (rel,) + s not in mixed:
                ctx.fail("%s on %d nodes: two edges (%s) never have the signs %r" % (kind, n, rel, ["+" if x else "-" for x in s]))


def call(ctx, f, *a):
    ctx.state()
    ctx.trace()
    ok, g = ctx.guard(lambda: f(*a), "generate_structure%r" % (a,))
    return g if ok else None


def valid(ctx, g, n, lo, hi, kind, case):
    nodes, edges = graph_of(g)
    lo, hi = abs(lo), abs(hi)
    if type(g).__name__ != "StructureModel" or set(nodes) != set(range(n)):
        ctx.fail("%s: nodes %r, should be %d" % (kind, list(nodes), n), case)
    if not acyclic(list(nodes), list(edges)):
        ctx.fail("%s: edges %r have a cycle" % (kind, list(edges)), case)
    for e, d in edges.items():
        w = d.get("weight")
        if w is None or not (lo - 1e-9 <= abs(w) <= hi + 1e-9):
            ctx.fail("%s: edge %r has weight %r, not within [%r, %r]" % (kind, e, w, lo, hi), case)
    return set(edges)
