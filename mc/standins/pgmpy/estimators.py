import itertools

import numpy as np

from .factors import TabularCPD


class _Estimator:
    def __init__(self, model, data, state_names=None, complete_samples_only=True, **kw):
        self.model, self.data = model, data
        if not set(model.nodes()) <= set(data.columns):
            raise ValueError("variable names of the model must be identical to column names in data")
        self.state_names = {}
        for var in data.columns:
            seen = [x.item() if hasattr(x, "item") else x for x in data[var].unique()]
            seen = [x for x in seen if x == x and x is not None]
            if state_names and var in state_names:
                if not set(seen) <= set(state_names[var]):
                    raise ValueError("Data contains unexpected states for variable '%s'." % var)
                self.state_names[var] = sorted(state_names[var])
            else:
                self.state_names[var] = sorted(set(seen))

    def counts(self, node):
        parents = sorted(self.model.get_parents(node))
        names = [self.state_names[p] for p in parents]
        cols = list(itertools.product(*names))
        res = np.zeros((len(self.state_names[node]), len(cols)))
        pcols = [self.data[p].values for p in parents]
        for r, x in enumerate(self.data[node].values):
            if x != x:
                continue
            key = tuple(c[r] for c in pcols)
            if key in cols:
                res[self.state_names[node].index(x), cols.index(key)] += 1
        return parents, names, res

    def cpd(self, node, table):
        parents = sorted(self.model.get_parents(node))
        c = TabularCPD(node, len(self.state_names[node]), table, evidence=parents,
                       evidence_card=[len(self.state_names[p]) for p in parents],
                       state_names={v: self.state_names[v] for v in [node] + parents})
        c.normalize()
        return c


class MaximumLikelihoodEstimator(_Estimator):
    def get_parameters(self, **kw):
        res = []
        for node in sorted(self.model.nodes()):
            _, _, t = self.counts(node)
            t[:, (t == 0).all(axis=0)] = 1
            res.append(self.cpd(node, t))
        return res


class BayesianEstimator(_Estimator):
    def get_parameters(self, prior_type="BDeu", equivalent_sample_size=5, pseudo_counts=None, **kw):
        res = []
        for node in self.model.nodes():
            _, names, t = self.counts(node)
            if prior_type == "K2":
                t = t + 1
            elif prior_type == "BDeu":
                t = t + float(equivalent_sample_size) / t.size
            else:
                raise ValueError("'prior_type' not specified")
            res.append(self.cpd(node, t))
        return res
