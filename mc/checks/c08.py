"""Calibration: after propagation from any clique, every clique and sepset holds its true unnormalised marginal."""
import itertools

from ..ebay import mod, net_from_spec
from ..hashes import Order, controlled
from ..nets import FAMILIES, all_dags, close, iso_dags

PROPERTY = "C08"
MEANING = ("state = (network, evidence, starting clique, message order); transition = one message propagation on the real join tree; trace = "
           "one calibrated tree whose every clique and sepset table was compared entry by entry with the joint")
BOUNDS = {
    "quick": "the 31 isomorphism classes on 4 nodes and 302 on 5 nodes x every starting clique x {no evidence, every single observation}; 3-node DAGs x "
             "all evidences; 14 named shapes; 6 message orders for the 4-node classes and tree shapes; one tree per network reused for all its evidences in turn",
    "thorough": "as quick with two CPT families (incl. zero probabilities), evidence of <=2 observations, 24 message orders",
}
CHUNK = 6
SHAPES = ["chain6", "star7", "btree7", "hmm4", "grid23", "ring6", "zigzag7", "two_chains", "ring_star", "three", "hd8", "asia", "pair6", "collider5"]


def units(tier):
    thorough = tier == "thorough"
    us = []
    kinds = ("generic:41", "sparse:42") if thorough else ("sparse:42",)
    for c in kinds:
        for p in all_dags(3):
            us.append({"parents": p, "cpt": c, "sizes": [2, 3, 2], "values": "str", "max_ev": 3, "orders": 1})
        for p in iso_dags(4):
            us.append({"parents": p, "cpt": c, "names": "mixed", "max_ev": 2 if thorough else 1, "orders": 4 if thorough else 3})
        for p in iso_dags(5):
            us.append({"parents": p, "cpt": c, "names": "rev", "max_ev": 2 if thorough else 1, "orders": 1})
        for f in SHAPES:
            us.append({"family": f, "cpt": c.replace("sparse", "generic"), "max_ev": 1, "orders": 4 if thorough else 2, "names": "mixed"})
    return us


def wrong(jt, net, e, tables):
    """The first clique or separator table that is not the true marginal, or None."""
    where = {v: i for i, v in enumerate(net.names)}
    label = [{v: x for x, v in enumerate(d)} for d in net.doms]
    for node in jt.nodes:
        vs = sorted(node.variable_names)
        key = tuple(vs)
        if key not in tables:
            tables[key] = net.mass([where[v] for v in vs], e)
        want = tables[key]
        tt = node.potential_tt
        if len(tt) != len(want):
            return "table over %r has %d entries, expected %d" % (vs, len(tt), len(want))
        for k, val in tt.items():
            d = dict(k)
            if sorted(d) != vs:
                return "table over %r has the entry %r" % (vs, k)
            w = want[tuple(label[where[v]][d[v]] for v in vs)]
            if not close(val, w):
                return "table over %r holds %r for %r, should be %r" % (vs, val, k, w)
    return None


def run_unit(u, ctx):
    m = mod()
    net = net_from_spec(u)
    ok, bbn = ctx.guard(lambda: net.build(m), "building", net.describe)
    if not ok:
        return
    evs = list(net.all_evidence(u["max_ev"]))
    for e in evs:
        ev = net.ev(e)
        tables = {}
        for perm in itertools.permutations(range(u["orders"])):
            o = Order(perm)
            with controlled(o):
                start = 0
                while True:
                    def go():
                        jt = bbn.build_join_tree()
                        asg = jt.assign_clusters(bbn)
                        jt.initialize_potentials(asg, bbn, ev)
                        cl = jt.clique_nodes
                        if start < 0:
                            jt.propagate()
                        else:
                            cl = sorted(cl, key=lambda c: c.variable_names)
                            jt.propagate(starting_clique=cl[start])
                        return jt
                    what = "evidence %r, starting at clique %d, message order %r" % (ev, start, perm)
                    ctx.state()
                    ctx.trans()
                    ok, jt = ctx.guard(go, what, net.describe)
                    if not ok:
                        return
                    d = wrong(jt, net, e, tables)
                    if d:
                        ctx.fail("%s: %s" % (what, d), net.describe)
                        return
                    ctx.trace()
                    ncl = len(jt.clique_nodes)
                    start += 1
                    if start >= ncl:
                        break
    # one and the same tree, given one evidence after the other
    def compile_():
        jt = bbn.build_join_tree()
        return jt, jt.assign_clusters(bbn)
    ok, res = ctx.guard(compile_, "join tree", net.describe)
    if not ok:
        return
    jt, asg = res
    for k, e in enumerate(evs + evs[:1] + evs[-1:] + evs[:1]):
        ev = net.ev(e)
        cl = sorted(jt.clique_nodes, key=lambda c: c.variable_names)

        def again():
            jt.initialize_potentials(asg, bbn, ev)
            jt.propagate(starting_clique=cl[k % len(cl)])
        what = "evidence %r entered into a tree used before" % (ev,)
        ctx.state()
        ctx.trans()
        ok, _ = ctx.guard(again, what, net.describe)
        d = ok and wrong(jt, net, e, {})
        if not ok or d:
            if d:
                ctx.fail("%s: %s" % (what, d), net.describe)
            return
        ctx.trace()
    ctx.outcome(len(tables))
    ctx.sample(u)
