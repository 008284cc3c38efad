"""Independent parts and size: every shape compiles and answers; parts do not influence each other."""
import itertools

from ..ebay import mod, net_from_spec, walk
from ..nets import Net, all_dags, chain, close, diff_marginals, disjoint, hmm, iso_dags, make_cpt, ring, star

PROPERTY = "C12"
MEANING = ("state = (network made of independent parts, factor order, evidence); transition = one query; trace = one answer compared with the joint "
           "(parts) or with the forward recursion (long chains), under a time horizon")
BOUNDS = {
    "quick": "every pair of the 9 isomorphism classes of connected or edgeless parts with <=3 nodes, interleaved in 3 factor orders, x all evidences; triples "
             "of parts with <=2 nodes; up to 10 isolated variables; all disconnected 4-node DAGs x 24 factor orders; chains, stars and HMM "
             "shapes of up to 400 variables x 3 factor orders",
    "thorough": "as quick, with pairs of parts of <=4 nodes and chains of up to 800 variables",
}
CHUNK = 4
UNIT_CPU = 300.0


def units(tier):
    thorough = tier == "thorough"
    us = []
    small = [p for n in (1, 2, 3) for p in iso_dags(n)]
    for a, b in itertools.combinations_with_replacement(small, 2):
        us.append({"k": "parts", "parts": [a, b]})
    tiny = [p for n in (1, 2) for p in iso_dags(n)]
    for t in itertools.combinations_with_replacement(tiny, 3):
        us.append({"k": "parts", "parts": list(t)})
    if thorough:
        for a in iso_dags(4):
            for b in small:
                us.append({"k": "parts", "parts": [a, b]})
    for n in range(4, 11):
        us.append({"k": "parts", "parts": [((),)] * n, "max_ev": 1})
        us.append({"k": "parts", "parts": [chain(2)] + [((),)] * (n - 2), "max_ev": 1})
    from ..nets import connected
    for p in all_dags(4):
        if not connected(p):
            us.append({"k": "perm", "parents": p})
    for n in (50, 150, 400) + ((800,) if thorough else ()):
        for order in ("up", "down", "mix"):
            us.append({"k": "long", "n": n, "order": order, "shape": "chain"})
    for n in (40, 120):
        us.append({"k": "long", "n": n, "order": "mix", "shape": "star"})
        us.append({"k": "long", "n": n, "order": "up", "shape": "hmm"})
    return us


def forward(net):
    """Marginals of a network in which every node has at most one parent, in order."""
    res = []
    for i, ps in enumerate(net.parents):
        if not ps:
            res.append([net.p(i, (), x) for x in range(net.sizes[i])])
        else:
            q = res[ps[0]]
            res.append([sum(q[c] * net.p(i, (c,), x) for c in range(net.sizes[ps[0]])) for x in range(net.sizes[i])])
    return {(net.names[i], net.doms[i][x]): v for i, r in enumerate(res) for x, v in enumerate(r)}


def run_unit(u, ctx):
    m = mod()
    if u["k"] == "long":
        n = u["n"]
        parents = {"chain": chain, "star": star, "hmm": lambda k: hmm(k // 2)}[u["shape"]](n)
        net = Net(parents, [2] * n, make_cpt(parents, [2] * n, "generic:71"), names=["v%03d" % i for i in range(n)])
        r = list(range(n))
        perm = {"up": r, "down": r[::-1], "mix": r[::2] + r[1::2][::-1]}[u["order"]]
        ok, bbn = ctx.guard(lambda: net.build(m, perm=perm), "building %d variables" % n, u)
        if not ok:
            return
        want = forward(net)
        ctx.state()
        ctx.trans()
        ok, got = ctx.guard(bbn.query, "query over %d variables" % n, u, cpu=120.0)
        if not ok:
            return
        d = diff_marginals(got, want, 1e-9)
        if d:
            ctx.fail("%s of %d variables: %s" % (u["shape"], n, d), u)
            return
        ctx.trace()
        # observing the root fixes the rest of the forward recursion
        ok, got = ctx.guard(lambda: bbn.query(**{net.names[0]: True}), "query over %d variables" % n, u, cpu=120.0)
        ctx.trans()
        if ok:
            cond = Net(parents, [2] * n, [{(): [1, 0]}] + net.cpt[1:], names=net.names)
            d = diff_marginals(got, forward(cond), 1e-9)
            ctx.check(not d, "%s of %d variables given the root: %s" % (u["shape"], n, d), u)
        ctx.trace()
        ctx.outcome((u["shape"], n))
        ctx.sample(u)
        return
    if u["k"] == "parts":
        net = net_from_spec({"parents": disjoint(*u["parts"]), "cpt": "sparse:72", "names": "mixed"})
        n = net.n
        r = list(range(n))
        perms = [r, r[::-1], r[::2] + r[1::2]]
        off = [0]
        for p in u["parts"]:
            off.append(off[-1] + len(p))
    else:
        net = net_from_spec({"parents": u["parents"], "cpt": "generic:73", "names": "rev"})
        perms = list(itertools.permutations(range(net.n)))
    for perm in perms:
        ok, bbn = ctx.guard(lambda: net.build(m, perm=perm), "building", net.describe)
        if not ok:
            return
        mx = u.get("max_ev", 2 if net.n > 5 else net.n) if u["k"] == "parts" else 1
        if not walk(ctx, net, bbn, net.all_evidence(mx), "factors in order %r" % (perm,)):
            return
    if u["k"] == "parts" and len(u["parts"]) == 2:
        # observing one part leaves the other one's answers unchanged
        base = bbn.query()
        second = set(net.names[off[1]:])
        for e in net.all_evidence(2, 1):
            if any(i >= off[1] for i in e) or not net.posterior(e)[0]:
                continue
            ctx.trans()
            ok, got = ctx.guard(lambda: bbn.query(**net.ev(e)), "query", net.describe)
            if not ok:
                return
            for k, v in base.items():
                if k[0] in second and not close(got[k], v):
                    ctx.fail("observing %r changes P(%s=%r) of an independent part from %r to %r" % (net.ev(e), k[0], k[1], v, got[k]), net.describe)
                    return
            ctx.trace()
    ctx.outcome(net.parents)
    ctx.sample(u)
