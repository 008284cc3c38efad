"""Histories: no operation on a network (or on another one) changes what a later query answers."""
import itertools

from ..ebay import bbn_mod, mod, net_from_spec
from ..nets import diff_marginals

PROPERTY = "C04"
MEANING = ("state = history of operations on two live networks sharing variable names; transition = one operation on the real "
           "objects; trace = one complete history in which every answer, and a final probe of both networks, equals what a freshly "
           "computed joint gives")
BOUNDS = {
    "quick": "6 network pairs (connected/shared names; multi-valued with zero probabilities; one-valued variables; one variable; same structure "
             "from two sets of conditional tables; built twice from the same functions and domains) x every sequence of 3 operations out of 14 "
             "(queries with four evidences on either network, an impossible and two rejected queries, sampling with and without given "
             "values, join tree building and propagation, graph listing, and the caller overwriting a returned answer or the argument)",
    "thorough": "as quick with every sequence of 4 operations",
}
CHUNK = 4

PAIRS = [
    [{"parents": [(), (0,), (0, 1), (2,)], "cpt": "sparse:11", "values": "bool"},
     {"parents": [(), (0,), (1,), (0, 2)], "cpt": "generic:12", "values": "bool"}],
    [{"parents": [(1,), (), (0, 1)], "cpt": "sparse:13", "sizes": [3, 2, 2], "values": "str"},
     {"parents": [(), (0,), (1,)], "cpt": "sparse:14", "sizes": [2, 2, 3], "values": "str"}],
    [{"parents": [(), (0,)], "cpt": "generic:15", "sizes": [1, 2], "values": "str"},
     {"parents": [(), (0,)], "cpt": "sparse:16", "sizes": [2, 1], "values": "str"}],
    [{"parents": [()], "cpt": "generic:17", "sizes": [2], "values": "str"},
     {"parents": [(), (), ()], "cpt": "sparse:18", "sizes": [1, 2, 2], "values": "str"}],
    # the same structure and values from two sets of conditional tables
    [{"parents": [(), (0,), (1,)], "cpt": "sparse:19", "values": "bool", "how": "cond"},
     {"parents": [(), (0,), (1,)], "cpt": "generic:20", "values": "bool", "how": "cond"}],
    # one network built twice from the same functions and the same dictionary of domains, whose values are not sorted
    [{"parents": [(), (0,), (0,)], "cpt": "sparse:21", "sizes": [3, 2, 2], "values": "intrev", "how": "shared"},
     {"parents": [(), (0,), (0,)], "cpt": "sparse:21", "sizes": [3, 2, 2], "values": "intrev", "how": "shared"}],
]
OPS = ["q0", "q1", "q2", "qimp", "qbadname", "qbadvalue", "sample", "sample_given", "tree", "listing", "overwrite", "B0", "B1", "Bsample"]


def units(tier):
    depth = 4 if tier == "thorough" else 3
    return [{"pair": i, "prefix": list(pre), "depth": depth} for i in range(len(PAIRS))
            for pre in itertools.product(range(len(OPS)), repeat=depth - 2)]


def evidences(net):
    """A few possible evidences and one impossible (if any)."""
    poss, imp = [{}], None
    for e in list(net.all_evidence(2, 1)) * 3:
        t, _ = net.posterior(e)
        if t and len(poss) < 4 and (len(e) == (1 if len(poss) < 2 else 2) or net.n < 3):
            poss.append(e)
        if not t and imp is None:
            imp = e
    return poss, imp


class Run:
    def __init__(self, u, ctx):
        self.ctx = ctx
        m = mod()
        self.nets = [net_from_spec(s) for s in PAIRS[u["pair"]]]
        self.evs = [evidences(n) for n in self.nets]
        self.how = [s.get("how", "funcs") for s in PAIRS[u["pair"]]]
        self.m = m

    def build(self):
        """The two networks; what the caller handed over is kept, to be compared afterwards."""
        bbns, self.args = [], []
        shared = None
        for k, (net, how) in enumerate(zip(self.nets, self.how)):
            if how == "cond":
                args = net.conditionals()
                bbns.append(self.m.build_bbn_from_conditionals(args))
            else:
                if shared is None or how != "shared":
                    shared = [net.func(i) for i in range(net.n)], net.domains()
                fs, args = shared
                bbns.append(self.m.build_bbn(fs[::-1] if k else fs, domains=args))
            self.args.append(args)
        self.args_were = repr(self.args)
        return bbns

    def query(self, w, e, hist, keep=None):
        net = self.nets[w]
        _, want = net.marginals(e)
        ev = net.ev(e)
        ok, got = self.ctx.guard(lambda: self.bbns[w].query(**ev), "query after %s" % hist, lambda: hist)
        if not ok:
            return None
        d = diff_marginals(got, want)
        if d:
            self.ctx.fail("after %s: query(%r) on network %d: %s" % (hist, ev, w, d),
                          lambda: {"history": hist, "nets": [n.describe() for n in self.nets]})
        return got

    def op(self, name, hist):
        ctx = self.ctx
        poss, imp = self.evs[0]
        b = self.bbns[0]
        if name in ("q0", "q1", "q2"):
            self.query(0, poss[int(name[1])], hist)
        elif name == "qimp":
            self.query(0, imp if imp is not None else poss[3], hist)
        elif name == "qbadname":
            ctx.raises(lambda: b.query(nosuchvariable=True), Exception, "unknown variable after %s" % hist)
        elif name == "qbadvalue":
            ev = self.nets[0].ev(poss[1])
            ev[self.nets[0].names[-1]] = "no such value"
            ctx.raises(lambda: b.query(**ev), Exception, "unknown value after %s" % hist)
        elif name in ("sample", "sample_given", "Bsample"):
            w = 1 if name == "Bsample" else 0
            net, bb = self.nets[w], self.bbns[w]
            given = net.ev(self.evs[w][0][1]) if name == "sample_given" else {}
            arg = dict(given)
            fn = (lambda: bb.draw_samples(arg, 2)) if name == "sample_given" else (lambda: bb.draw_samples(n=1))
            ok, s = ctx.guard(fn, "draw_samples after %s" % hist, lambda: hist)
            if ok:
                good = [set(x) == set(net.names) and all(x[k] == v for k, v in given.items()) and
                        all(x[nm] in net.doms[i] for i, nm in enumerate(net.names)) for x in s]
                ctx.check(all(good), "after %s: sample %r does not assign each variable one of its values (given %r)" % (hist, s, given))
                ctx.check(len({id(x) for x in s}) == len(s) and not any(x is arg for x in s),
                          "after %s: draw_samples returned one and the same object twice, or the caller's dictionary" % hist)
                ctx.check(arg == given, "after %s: draw_samples changed the caller's dictionary to %r" % (hist, arg))
                for x in s:
                    x.clear()
        elif name == "tree":
            def tree():
                jt = b.build_join_tree()
                asg = jt.assign_clusters(b)
                jt.initialize_potentials(asg, b, self.nets[0].ev(poss[1]))
                jt.propagate()
            ctx.guard(tree, "join tree after %s" % hist, lambda: hist)
        elif name == "listing":
            ctx.guard(b.get_graphviz_source, "graph listing after %s" % hist, lambda: hist)
        elif name == "overwrite":
            for e in (poss[1], {}):
                got = self.query(0, e, hist)
                if got is not None:
                    for k in list(got):
                        got[k] = -1.0
                    if e:
                        got.clear()
        elif name == "B0":
            self.query(1, self.evs[1][0][0], hist)
        elif name == "B1":
            self.query(1, self.evs[1][0][-1], hist)


def run_unit(u, ctx):
    import random
    r = Run(u, ctx)
    for tail in itertools.product(range(len(OPS)), repeat=2):
        seq = [OPS[i] for i in list(u["prefix"]) + list(tail)]
        random.seed(7)
        ok, r.bbns = ctx.guard(r.build, "building", lambda: seq)
        if not ok:
            return
        listing = [b.get_graphviz_source() for b in r.bbns]
        ctx.state()
        for k, name in enumerate(seq):
            ctx.trans()
            r.op(name, seq[:k + 1])
        for w in (0, 1):
            r.query(w, {}, seq + ["probe"])
            r.query(w, r.evs[w][0][2], seq + ["probe"])
        ctx.check(repr(r.args) == r.args_were, "after %s the domains or tables the caller built the networks from have changed" % seq, seq)
        ctx.check([b.get_graphviz_source() for b in r.bbns] == listing, "after %s the graph listing changed" % seq, seq)
        ctx.trace()
        ctx.state(len(seq))
    ctx.outcome((u["pair"], tuple(u["prefix"])))
    ctx.sample({"history": seq, "pair": u["pair"]})
