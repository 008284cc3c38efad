"""The torch based structure learner: loading it on the torch stand-in, and the specification of its (linear) model on mixed data.

A variable of the model is (column, level): level 0 only, except for categorical columns, which have one variable per category (in sorted
order).  A meaning of an optimiser variable is ("w", source, target) - the effect of one model variable on another - or ("b", target).
"""
import importlib
import itertools
import math


def load():
    from .standins import install
    install(torch=True)
    from . import optim
    optim.install()
    importlib.import_module("causalnex.structure")
    return importlib.import_module("causalnex.structure.pytorch.notears")


def load_estimators():
    load()
    return importlib.import_module("causalnex.structure.pytorch")


def name_of(names, v):
    c, l = v
    return names[c] if not l else "%s%s" % (names[c], l)


class Mixed:
    """types: alias per column; cols: the data of each column; reg: (lasso, ridge)"""

    def __init__(self, np, types, cols, bias=False, lasso=0.0, ridge=0.0):
        self.np, self.types, self.bias, self.lasso, self.ridge = np, list(types), bias, lasso, ridge
        self.cols = [list(c) for c in cols]
        self.n = len(self.cols[0])
        self.levels = [sorted(set(c)) if t in ("cat", "ord") else None for t, c in zip(self.types, self.cols)]
        self.vars = [(i, l) for i, t in enumerate(self.types) for l in range(len(self.levels[i]) if t == "cat" else 1)]
        self.at = {v: k for k, v in enumerate(self.vars)}
        self.E = self.encode(self.cols)
        self.meanings = [("w", a, b) for a in self.vars for b in self.vars if a[0] != b[0]] + ([("b", v) for v in self.vars] if bias else [])

    def encode(self, cols):
        """the data as the model sees it, one column per variable"""
        np = self.np
        out = []
        for i, l in self.vars:
            c = cols[i]
            if self.types[i] == "cat":
                out.append([1.0 if x == self.levels[i][l] else 0.0 for x in c])
            elif self.types[i] == "ord":
                out.append([float(self.levels[i].index(x)) for x in c])
            else:
                out.append([float(x) for x in c])
        return np.array(out).T.reshape(len(cols[0]), len(self.vars))

    def params(self, answer):
        np = self.np
        W, b = np.zeros((len(self.vars),) * 2), np.zeros(len(self.vars))
        for m, w in answer.items():
            if m[0] == "w":
                W[self.at[m[1]], self.at[m[2]]] = w
            else:
                b[self.at[m[1]]] = w
        return W, b

    def latent(self, E, W, b):
        return E.dot(W) + b

    def ord_probs(self, i, z):
        np = self.np
        counts = [self.cols[i].count(x) for x in self.levels[i]]
        cum = np.cumsum(counts)[:-1] / float(self.n)
        odds = np.log(cum / (1 - cum))
        s = 1 / (1 + np.exp(-(odds[None, :] - z[:, None])))
        s = np.hstack([np.zeros((len(z), 1)), s, np.ones((len(z), 1))])
        return s[:, 1:] - s[:, :-1]

    def loss(self, Z):
        np = self.np
        total = 0.0
        for i, t in enumerate(self.types):
            ks = [self.at[(i, l)] for l in range(len(self.levels[i]) if t == "cat" else 1)]
            z, x = Z[:, ks], self.E[:, ks]
            if t == "cont":
                total += 0.5 * float(((z - x) ** 2).sum()) / self.n
            elif t == "bin":
                total += float((np.log1p(np.exp(z)) - x * z).mean())
            elif t == "poiss":
                total += float((np.exp(z) - x * z).mean())
            elif t == "cat":
                total += float((np.log(np.exp(z).sum(axis=1)) - (z * x).sum(axis=1)).mean())
            else:
                p = self.ord_probs(i, z[:, 0])
                total += float(-np.log(p[np.arange(self.n), x[:, 0].astype(int)]).mean())
        return total

    def collapsed(self, M):
        """sum over the levels: one row and column per data column"""
        np = self.np
        d = len(self.types)
        S = np.zeros((d, d))
        for a, b in itertools.product(self.vars, repeat=2):
            S[a[0], b[0]] += M[self.at[a], self.at[b]]
        return S

    def h(self, W):
        np = self.np
        S = self.collapsed(W * W)
        d = len(S)
        return float(np.trace(np.linalg.matrix_power(np.eye(d) + S / d, d))) - d

    def objective(self, answer, rho=1.0, alpha=0.0):
        np = self.np
        W, b = self.params(answer)
        D = len(self.vars)
        h = self.h(W)
        return (self.loss(self.latent(self.E, W, b)) + 0.5 * rho * h * h + alpha * h
                + self.lasso * float(np.abs(W).mean()) * D + 0.5 * self.ridge * float((W ** 2).mean()) * D)

    def score(self, m, w):
        return self.objective({m: w})

    def link(self, Z):
        """{column: predictions}: means, probabilities of the positive class, or one column of probabilities per class"""
        np = self.np
        out = {}
        for i, t in enumerate(self.types):
            ks = [self.at[(i, l)] for l in range(len(self.levels[i]) if t == "cat" else 1)]
            z = Z[:, ks]
            if t == "cont":
                out[i] = z[:, 0]
            elif t == "bin":
                out[i] = 1 / (1 + np.exp(-z[:, 0]))
            elif t == "poiss":
                out[i] = np.exp(z[:, 0])
            elif t == "cat":
                out[i] = np.exp(z) / np.exp(z).sum(axis=1, keepdims=True)
            else:
                out[i] = self.ord_probs(i, z[:, 0])
        return out


# searched for: at single effects, no two of them (nor their negatives) have the same score, for any types of up to three columns
POOL = {
    "cont": [
        [-0.18, 1.16, 2.34, 0.84, 1.13, 0.05, -1.15, -1.86, -0.62, -1.57, 1.6, -0.14, 1.1, 0.37, -1.95, -1.96, 1.06, -0.87, -2.66, 0.57, 0.11, -0.05, 1.93, 2.79, 2.1, -1.01, 2.17, -0.18, 0.6, -0.99, -1.18],
        [1.88, 0.93, -1.81, -0.05, 0.31, 0.67, -3.61, -2.08, -1.74, 1.26, 3.31, -1.69, 1.49, -0.62, 2.22, -0.56, 0.07, -0.49, -2.92, -0.91, -0.87, 0.48, 0.69, -2.08, -0.37, -0.67, -1.43, 1.75, -0.58, -2.1, -0.9],
        [-0.78, 0.04, 1.22, -1.65, -1.08, 1.16, 1.75, -0.64, 0.95, -0.18, -2.38, -0.59, -0.52, 0.91, 1.22, 1.95, 0.24, 1.7, -0.33, -3.15, -0.92, 1.22, -1.15, 1.2, 0.19, -0.11, -2.15, -1.82, -0.69, -0.11, -0.96],
        [-1.31, -0.7, -2.19, -1.32, 0.81, -1.27, -0.45, 0.65, -1.62, 0.27, -0.47, 0.75, -2.17, 2.41, 2.2, -0.57, 2.38, 0.05, -1.51, 2.2, 2.56, -1.66, 0.83, -1.41, 1.36, 1.94, -0.41, 0.22, 1.64, -2.09, 0.93],
    ],
    "bin": [
        [0, 0, 1, 0, 1, 0, 1, 1, 1, 1, 0, 1, 0, 0, 1, 1, 1, 1, 1, 0, 1, 0, 1, 1, 1, 1, 1, 1, 1, 0, 1],
        [0, 0, 1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 1, 0, 1, 1, 0, 1, 1, 0, 1, 1, 0, 0, 1, 0, 0, 0],
        [1, 0, 1, 1, 1, 0, 1, 0, 1, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 1, 0, 0, 1, 1, 0, 0, 1, 0, 0, 0, 0],
    ],
    "cat": [
        [2, 1, 2, 2, 2, 2, 2, 2, 0, 2, 2, 0, 2, 1, 1, 2, 0, 0, 0, 2, 1, 2, 1, 0, 2, 2, 0, 0, 0, 0, 1],
        [5, 3, 3, 5, 5, 5, 5, 3, 5, 5, 9, 3, 3, 5, 5, 3, 5, 5, 5, 3, 5, 3, 3, 5, 9, 5, 9, 5, 9, 9, 5],
    ],
    "ord": [
        [0, 1, 2, 1, 0, 2, 2, 0, 2, 2, 0, 2, 2, 1, 1, 2, 2, 2, 0, 2, 1, 1, 1, 1, 1, 0, 1, 2, 2, 2, 0],
        [0, 1, 3, 3, 1, 3, 3, 0, 1, 3, 0, 3, 3, 1, 3, 3, 0, 0, 3, 1, 0, 0, 0, 3, 0, 1, 3, 0, 3, 1, 1],
        [2, 2, 4, 4, 7, 7, 7, 7, 7, 7, 7, 2, 7, 7, 4, 4, 4, 7, 4, 7, 2, 2, 2, 7, 2, 7, 7, 4, 7, 7, 2],
    ],
    "poiss": [
        [2, 1, 0, 0, 2, 0, 1, 3, 4, 2, 4, 4, 2, 1, 1, 2, 0, 0, 1, 2, 0, 2, 2, 0, 3, 2, 4, 1, 1, 1, 5],
        [3, 2, 3, 3, 4, 1, 5, 3, 2, 4, 3, 1, 1, 2, 1, 2, 1, 1, 1, 1, 0, 2, 5, 3, 3, 1, 5, 2, 7, 1, 3],
        [1, 2, 5, 2, 0, 3, 0, 1, 2, 0, 3, 1, 3, 2, 3, 2, 0, 1, 3, 0, 1, 2, 3, 1, 3, 3, 0, 3, 2, 2, 1],
    ],
}


# more classes: four and five of them (searched for in the same way, for up to two columns, at most one of them of categories)
WIDE = {
    "cat": [[6, 3, 8, 6, 6, 6, 6, 8, 8, 8, 8, 3, 3, 8, 6, 3, 3, 8, 8, 3, 4, 3, 4, 6, 8, 6, 4, 4, 6, 6, 4]],
    "ord": [[2, 2, 2, 9, 5, 9, 5, 5, 5, 2, 1, 5, 2, 1, 1, 9, 5, 5, 5, 1, 2, 1, 1, 5, 1, 1, 5, 9, 1, 5, 5],
            [0, 7, 3, 4, 6, 7, 7, 6, 4, 6, 3, 4, 3, 7, 6, 3, 7, 4, 3, 6, 4, 4, 6, 3, 7, 3, 6, 7, 3, 4, 6]],
}


# searched for in the same way
MANY_SEED = {("cat", "ord"): 2, ("cat", "poiss"): 3, ("ord", "cat"): 2, ("poiss", "cat"): 3}


def many(types, seed=None):
    """77 rows with eleven classes, of 2 to 12 rows each (up to two columns, at most one of them of categories)"""
    state = [(MANY_SEED.get(tuple(types), 0) if seed is None else seed) * 2654435761 + 12345]

    def draw(n):
        state[0] = (state[0] * 6364136223846793005 + 1442695040888963407) % 2 ** 64
        return (state[0] >> 33) % n

    level = [l for l in range(11) for _ in range(l + 2)]
    seen = {l: 0 for l in range(11)}
    rows = []
    for l in level:
        seen[l] += 1
        rows.append({"cat": 3 * l + 1, "bin": int(seen[l] > 1 and l > 0), "ord": draw(11) if l else draw(2) * 10, "poiss": draw(3) + (l > 5) + (seen[l] % 3 == 0), "cont": (draw(500) - 250) / 100.0})
    for i in range(len(rows) - 1, 0, -1):
        j = draw(i + 1)
        rows[i], rows[j] = rows[j], rows[i]
    out = []
    for t in types:
        col = [r[t] for r in rows]
        if types[:len(out)].count(t):
            # the second column of a type: shuffled
            for i in range(len(col) - 1, 0, -1):
                j = draw(i + 1)
                col[i], col[j] = col[j], col[i]
        out.append(col)
    return out


RARE_SEED = {("bin", "cat"): 74, ("cat", "bin"): 74}


def rare(types, seed=None):
    """400 rows, the classes of which are as rare as one row (up to two columns of different types)"""
    state = [(RARE_SEED.get(tuple(types), 0) if seed is None else seed) * 2654435761 + 777]

    def draw(n):
        state[0] = (state[0] * 6364136223846793005 + 1442695040888963407) % 2 ** 64
        return (state[0] >> 33) % n

    n = 400
    place = list(range(n))
    for i in range(n - 1, 0, -1):
        j = draw(i + 1)
        place[i], place[j] = place[j], place[i]
    cut = {"cat": (1, 3, 150), "ord": (1, 170, 397, 399)}
    out = []
    for t in types:
        if t in cut:
            shift = 0 if t == "cat" else 57
            out.append([sum((place[i] + shift) % n >= c for c in cut[t]) for i in range(n)])
        elif t == "bin":
            out.append([int(draw(n) < 4 or i == 7) for i in range(n)])
        elif t == "poiss":
            out.append([draw(4) + (9 if i == 11 else 0) for i in range(n)])
        else:
            out.append([(draw(500) - 250) / 100.0 for i in range(n)])
    return out


def table(types, wide=False):
    """data for columns of these types: every column different from the others"""
    if wide == "rare":
        return rare(types)
    if wide == "many":
        return many(types)
    used = {}
    out = []
    for t in types:
        k = used.get(t, 0)
        used[t] = k + 1
        out.append(list((WIDE if wide and t in WIDE else POOL)[t][k]))
    return out


def values(meanings, k=0):
    """a dense, sign-mixed answer without equal entries"""
    out = {}
    for i, m in enumerate(meanings):
        s = -1 if (i * 7 + k * 3) % 5 in (1, 2) else 1
        out[m] = s * (0.15 + 0.07 * ((i * 5 + k) % 11) + 0.003 * i + 1.2345678e-5 / (i + 3))
    return out


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b)) and not math.isnan(a)
