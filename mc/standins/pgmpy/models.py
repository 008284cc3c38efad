import itertools

import networkx as nx
import numpy as np

from mc.core import StandInGap

from .factors import TabularCPD


class BayesianModel(nx.DiGraph):
    def __init__(self, ebunch=None):
        super().__init__()
        self.cpds = []
        if ebunch:
            self.add_edges_from(ebunch)

    def add_edge(self, u, v, **kw):
        if u == v:
            raise ValueError("Self loops are not allowed.")
        if u in self.nodes() and v in self.nodes() and nx.has_path(self, v, u):
            raise ValueError("Loops are not allowed. Adding the edge from (%s->%s) forms a loop." % (u, v))
        super().add_edge(u, v, **kw)

    def add_edges_from(self, ebunch, weights=None, **kw):
        for e in list(ebunch):
            self.add_edge(e[0], e[1])

    def get_parents(self, node):
        return list(self.predecessors(node))

    def get_children(self, node):
        return list(self.successors(node))

    def add_cpds(self, *cpds):
        for c in cpds:
            if set(c.variables) - set(self.nodes()):
                raise ValueError("CPD defined on variable not in the model", c)
            for i, old in enumerate(self.cpds):
                if old.variable == c.variable:
                    self.cpds[i] = c
                    break
            else:
                self.cpds.append(c)

    def get_cpds(self, node=None):
        if node is None:
            return self.cpds
        for c in self.cpds:
            if c.variable == node:
                return c
        return None

    def fit(self, data, estimator=None, state_names=None, complete_samples_only=True, **kwargs):
        est = estimator(self, data, state_names=state_names, complete_samples_only=complete_samples_only)
        self.add_cpds(*est.get_parameters(**kwargs))

    def check_model(self):
        return all(self.get_cpds(n) is not None for n in self.nodes())

    # -- exact inference by enumeration
    def _joint(self, evidence):
        """{assignment of the free variables (tuple of indices): weight}, order of the free variables"""
        free = [n for n in self.nodes() if n not in evidence]
        cards = {c.variable: c.values.shape[0] for c in self.cpds}
        res = {}
        for vals in itertools.product(*[range(cards[n]) for n in free]):
            a = dict(evidence)
            a.update(zip(free, vals))
            w = 1.0
            for c in self.cpds:
                w *= c.values[tuple(int(a[v]) for v in c.variables)]
            res[vals] = w
        return free, res

    def _check(self, data):
        if set(data.columns) == set(self.nodes()):
            raise ValueError("No variable missing in data. Nothing to predict")
        if set(data.columns) - set(self.nodes()):
            raise ValueError("Data has variables which are not in the model")

    def predict(self, data, n_jobs=-1):
        import pandas as pd
        self._check(data)
        rows = []
        for _, row in data.iterrows():
            free, joint = self._joint({k: self._idx(k, v) for k, v in row.items()})
            best = max(joint, key=lambda k: joint[k])
            rows.append({n: self.get_cpds(n).state_names[n][x] for n, x in zip(free, best)})
        return pd.DataFrame({n: [r[n] for r in rows] for n in rows[0]}, index=data.index)

    def _idx(self, node, v):
        names = list(self.get_cpds(node).state_names[node])
        if v not in names:
            raise KeyError(v)
        return names.index(v)

    def predict_probability(self, data):
        import pandas as pd
        self._check(data)
        out = {}
        for _, row in data.iterrows():
            free, joint = self._joint({k: self._idx(k, v) for k, v in row.items()})
            tot = sum(joint.values())
            for j, n in enumerate(free):
                names = self.get_cpds(n).state_names[n]
                for x, s in enumerate(names):
                    p = sum(w for k, w in joint.items() if k[j] == x)
                    out.setdefault("%s_%s" % (n, s), []).append(p / tot if tot else np.nan)
        return pd.DataFrame(out, index=data.index)


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise StandInGap("pgmpy.models.%s" % name)
