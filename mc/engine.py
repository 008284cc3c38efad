"""The user-facing inference engine, and the do-calculus specification it is compared with."""
import importlib
import itertools

from .nets import Net, diff_marginals  # noqa: F401


def load():
    from .standins import install
    install()
    from .standins.codecompat import patch
    inf = patch(importlib.import_module("causalnex.inference.inference"))
    return inf.InferenceEngine


def make_bn(net):
    """A BayesianNetwork with exactly the given structure, states and conditional probability tables."""
    from .standins import install
    install()
    import numpy as np
    import pandas as pd
    from causalnex.network import BayesianNetwork
    from causalnex.structure import StructureModel

    class Planned(BayesianNetwork):
        """The tables are given instead of fitted."""

        @property
        def cpds(self):
            return {k: v.copy() for k, v in self.planned.items()}

    sm = StructureModel()
    sm.add_edges_from([(net.names[p], net.names[i]) for i, ps in enumerate(net.parents) for p in ps])
    bn = Planned(sm)
    bn.node_states = {net.names[i]: set(net.doms[i]) for i in range(net.n)}
    bn.planned = {}
    for i, ps in enumerate(net.parents):
        states = sorted(net.doms[i])
        # parents in alphabetical order, states sorted: the form in which fitted tables come
        par = sorted(ps, key=lambda p: net.names[p])
        cols = list(itertools.product(*[sorted(net.doms[p]) for p in par]))
        tab = np.zeros((len(states), len(cols)))
        for c, cfg in enumerate(cols):
            env = dict(zip(par, cfg))
            key = tuple(net.doms[p].index(env[p]) for p in ps)
            for r, s in enumerate(states):
                tab[r, c] = net.p(i, key, net.doms[i].index(s))
        df = pd.DataFrame(tab)
        df[net.names[i]] = states
        df.set_index([net.names[i]], inplace=True)
        df.columns = pd.MultiIndex.from_product([sorted(net.doms[p]) for p in par], names=[net.names[p] for p in par]) if par else [""]
        bn.planned[net.names[i]] = df
    return bn


def mutilated(net, do):
    """do: {variable: integer weights over its states}.  The truncated factorisation."""
    parents = [() if i in do else ps for i, ps in enumerate(net.parents)]
    cpt = [{(): list(do[i])} if i in do else net.cpt[i] for i in range(net.n)]
    return Net(parents, net.sizes, cpt, net.names, net.doms)


def effects(net, do, i):
    """Does variable i still have a child that is not itself intervened on?"""
    return any(i in net.parents[c] for c in range(net.n) if c not in do)


def check(ctx, ie, net, do, evidence, what, case, rel=1e-9):
    m = mutilated(net, do) if do else net
    _, want = m.marginals(evidence)
    ev = net.ev(evidence)
    ctx.trace()
    for arg in ([ev] if ev or ctx.traces % 2 else [None]):
        ok, got = ctx.guard(lambda: ie.query(arg) if arg is not None else ie.query(), "%s: query(%r)" % (what, arg), case)
        if not ok:
            return False
        if not isinstance(got, dict) or set(got) != set(net.names):
            ctx.fail("%s: query(%r) answers %r" % (what, arg, got), case)
            return False
        flat = {(n, s): p for n, d in got.items() for s, p in d.items()}
        d = diff_marginals(flat, want, rel)
        if d:
            ctx.fail("%s: query(%r): %s" % (what, ev, d), case)
            return False
    return True
