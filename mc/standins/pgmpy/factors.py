import numpy as np

from mc.core import StandInGap


class TabularCPD:
    """values[x, p1, p2, ...] = P(variable = x | parents); parents in the order of `evidence`."""

    def __init__(self, variable, variable_card, values, evidence=None, evidence_card=None, state_names=None):
        evidence = list(evidence or [])
        evidence_card = [int(c) for c in (evidence_card if evidence_card is not None else [])]
        self.variable, self.variable_card = variable, variable_card
        self.variables = [variable] + evidence
        self.cardinality = np.array([variable_card] + evidence_card)
        v = np.array(values, dtype=float)
        want = (variable_card, int(np.prod(evidence_card)) if evidence_card else 1)
        if v.ndim == 1:
            v = v.reshape(-1, 1)
        if v.shape != want:
            raise ValueError("values must be of shape %s. Got shape: %s" % (want, v.shape))
        self.values = v.reshape([variable_card] + evidence_card)
        self.state_names = state_names or {x: list(range(c)) for x, c in zip(self.variables, self.cardinality)}

    def get_values(self):
        return self.values.reshape(self.variable_card, -1)

    def get_evidence(self):
        return self.variables[:0:-1]

    def normalize(self, inplace=True):
        v = self.get_values()
        v = v / v.sum(axis=0)
        self.values = v.reshape(self.values.shape)

    def copy(self):
        c = TabularCPD.__new__(TabularCPD)
        c.__dict__.update(self.__dict__)
        c.values = self.values.copy()
        return c

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise StandInGap("pgmpy TabularCPD.%s" % k)
