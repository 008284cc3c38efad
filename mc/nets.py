"""Small discrete Bayesian networks: exhaustive enumeration, CPT alphabets, and a brute-force oracle.

The oracle is deliberately boring: the joint distribution is the list of all assignments with an exact
integer weight (product of integer CPT weights), a posterior is a sum over the assignments that agree
with the evidence.  It shares no code with, and knows nothing about, join trees.
"""
import functools
import itertools

# ------------------------------------------------------------------------------- structures


@functools.lru_cache(None)
def all_dags(n):
    """Every labelled DAG on n nodes, as a tuple of parent tuples."""
    res = []
    subsets = [[tuple(c) for k in range(n) for c in itertools.combinations([j for j in range(n) if j != i], k)]
               for i in range(n)]
    for parents in itertools.product(*subsets):
        if is_acyclic(parents):
            res.append(parents)
    res.sort(key=lambda p: (sum(map(len, p)), p))
    return res


def is_acyclic(parents):
    n = len(parents)
    left = set(range(n))
    while left:
        free = [i for i in left if not any(p in left for p in parents[i])]
        if not free:
            return False
        left -= set(free)
    return True


def topo(parents):
    order, left = [], list(range(len(parents)))
    while left:
        for i in left:
            if all(p in order for p in parents[i]):
                order.append(i)
                left.remove(i)
                break
        else:
            raise ValueError("cyclic")
    return order


@functools.lru_cache(None)
def iso_dags(n):
    """One representative (parents precede children) of every isomorphism class of DAGs on n nodes."""
    import numpy as np
    pairs = list(itertools.combinations(range(n), 2))
    m = len(pairs)
    codes = np.arange(1 << m, dtype=np.int64)
    bits = [(codes >> k) & 1 for k in range(m)]
    best = None
    for perm in itertools.permutations(range(n)):
        c = np.zeros(1 << m, dtype=np.int64)
        for k, (i, j) in enumerate(pairs):
            c |= bits[k] << (perm[i] * n + perm[j])
        best = c if best is None else np.minimum(best, c)
    _, first = np.unique(best, return_index=True)
    res = []
    for code in sorted(first.tolist()):
        parents = [[] for _ in range(n)]
        for k, (i, j) in enumerate(pairs):
            if code >> k & 1:
                parents[j].append(i)
        res.append(tuple(tuple(p) for p in parents))
    res.sort(key=lambda p: (sum(map(len, p)), p))
    return res


def relabel(parents, perm):
    """Node i becomes perm[i]."""
    res = [None] * len(parents)
    for i, ps in enumerate(parents):
        res[perm[i]] = tuple(sorted(perm[p] for p in ps))
    return tuple(res)


def components(parents):
    n = len(parents)
    comp = list(range(n))
    for i, ps in enumerate(parents):
        for p in ps:
            a, b = comp[i], comp[p]
            if a != b:
                comp = [a if c == b else c for c in comp]
    return comp


def connected(parents):
    return len(set(components(parents))) <= 1


def chain(n):
    return tuple(() if i == 0 else (i - 1,) for i in range(n))


def star(n):
    return tuple(() if i == 0 else (0,) for i in range(n))


def collider(n):
    return tuple([()] * (n - 1) + [tuple(range(n - 1))])


def btree(n):
    return tuple(() if i == 0 else ((i - 1) // 2,) for i in range(n))


def hmm(n):
    """n hidden states, each with one observation."""
    res = []
    for t in range(n):
        res.append(() if t == 0 else (2 * t - 2,))
        res.append((2 * t,))
    return tuple(res)


def grid(r, c):
    return tuple(tuple(([(i - 1) * c + j] if i else []) + ([i * c + j - 1] if j else []))
                 for i in range(r) for j in range(c))


def ring(n):
    """A chain 0 -> 1 -> ... -> n-1 closed by 0 -> n-1: a moral cycle that needs fill-ins."""
    return tuple(() if i == 0 else ((i - 1,) if i < n - 1 else (0, n - 2)) for i in range(n))


def bipartite(a, b):
    return tuple([()] * a + [tuple(range(a))] * b)


def zigzag(n):
    """Alternating chain a -> b <- c -> d <- e."""
    return tuple(() if i % 2 == 0 else tuple(j for j in (i - 1, i + 1) if j < n) for i in range(n))


def disjoint(*dags):
    res, off = [], 0
    for d in dags:
        res.extend(tuple(p + off for p in ps) for ps in d)
        off += len(d)
    return tuple(res)


FAMILIES = {
    "chain6": chain(6), "chain9": chain(9), "star7": star(7), "collider5": collider(5), "btree7": btree(7),
    "hmm4": hmm(4), "grid23": grid(2, 3), "grid33": grid(3, 3), "ring5": ring(5), "ring6": ring(6),
    "ring8": ring(8), "bip23": bipartite(2, 3), "bip33": bipartite(3, 3), "zigzag7": zigzag(7),
    "zigzag8": zigzag(8), "two_chains": disjoint(chain(3), chain(3)), "ring_star": disjoint(ring(4), star(3)),
    "iso_mix": disjoint(chain(2), chain(1), collider(3)), "three": disjoint(chain(2), chain(2), chain(2)),
    # families of four and more variables that lie in several cliques, and cliques of 64 and more entries
    "pair6": ((), (0,), (0, 1), (0, 1, 2), (0, 1, 2, 3), (0, 1, 2, 3)), "collider7": collider(7),
    "dense6": tuple(tuple(range(i)) for i in range(6)),
    # Huang & Darwiche's example and the "asia"-shaped network
    "hd8": ((), (0,), (0,), (1,), (2,), (3, 4), (2,), (4, 6)),
    "asia": ((), (0,), (), (2,), (2,), (1, 3), (5,), (5, 4)),
}

# ------------------------------------------------------------------------------- CPTs


def _h(*xs):
    h = 2166136261
    for x in xs:
        h = ((h ^ (x + 0x9E37)) * 16777619 + 0x85EB) & 0xFFFFFFFF
        h ^= h >> 13
    return h


def generic_row(s, key, big=997):
    ws = [1 + _h(key, j) % 61 for j in range(s)]
    r = _h(key, 99) % s
    ws[r] = big - (sum(ws) - ws[r])
    return ws


def make_cpt(parents, sizes, kind):
    """kind: 'generic:k' | 'sparse:k' | 'det:k' | 'tiny:k' | 'uniform' -> list of {parent states: int weights}"""
    name, _, k = kind.partition(":")
    k = int(k or 0)
    cpt = []
    for i, ps in enumerate(parents):
        rows = {}
        for r, cfg in enumerate(itertools.product(*[range(sizes[p]) for p in ps])):
            key = _h(k, i, r, len(ps))
            s = sizes[i]
            if name == "generic":
                row = generic_row(s, key)
            elif name == "uniform":
                row = [1] * s
            elif name == "det":
                hot = key % s
                row = [1 if j == hot else 0 for j in range(s)] if ps else generic_row(s, key)
            elif name == "sparse":
                m = key % 3
                hot = (key >> 4) % s
                if m == 0:
                    row = [1 if j == hot else 0 for j in range(s)]
                elif m == 1 and s > 2:
                    row = generic_row(s, key)
                    lost = (hot + 1) % s
                    row[hot] += row[lost]
                    row[lost] = 0
                else:
                    row = generic_row(s, key)
            elif name == "tiny":
                # one state takes nearly all the mass, the others are of the order 1e-15 .. 1e-12
                hot = key % s
                row = [1 + _h(key, j) % 997 for j in range(s)]
                row[hot] = 10 ** 15 - (sum(row) - row[hot])
            elif name == "steep":
                # like tiny, but always state 0 dominates: observing the other states is astronomically rare
                row = [1 + _h(key, j) % 97 for j in range(s)]
                row[0] = 10 ** 15 - (sum(row) - row[0])
            else:
                raise ValueError(kind)
            rows[cfg] = row
        cpt.append(rows)
    return cpt


def cpt_rows(parents, sizes):
    return [(i, cfg) for i, ps in enumerate(parents)
            for cfg in itertools.product(*[range(sizes[p]) for p in ps])]


def cpt_from_digits(parents, sizes, digits, alphabet):
    """digits: one index into alphabet (list of integer weight rows) per CPT row."""
    cpt = [dict() for _ in parents]
    for (i, cfg), d in zip(cpt_rows(parents, sizes), digits):
        cpt[i][cfg] = list(alphabet[d])
    return cpt


# ------------------------------------------------------------------------------- presentation

NAMES = {
    "alpha": ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"],
    "rev": ["z", "y", "x", "w", "v", "u", "t", "s", "r", "q", "p", "o"],
    "mixed": ["m", "B", "b", "Aa", "aA", "x1", "x10", "x2", "_u", "zz", "k", "Z"],
    "words": ["traffic", "rain", "a", "ab", "abc", "Traffic", "sprinkler_on", "f_a", "node", "name", "kwds", "func"],
    "clash": ["self", "args", "kwds", "evidence", "cls", "n", "query", "domains", "node", "name", "func", "args_"],
    "odd": ["1", "0a", "_", "9_x", "class", "None", "A", "a1", "1a", "f_1", "b2", "2b"],
    "digits": ["v10", "v9", "v1", "v2", "v11", "v0", "v100", "v3", "v8", "v7", "v6", "v5"],
}

VALUES = {
    "bool": [True, False],
    "boolr": [False, True],
    "str": ["lo", "hi", "mid", "x"],
    "int": [0, 1, 2, 3],
    "odd": [None, 0, "", "None"],
    "float": [0.5, -1.5, 2.0, 10.0],
    "tuple": [("a", 1), ("b", 2), (), ("a", 2)],
    "intrev": [7, 3, 1, 0],
    "bigint": [1000, -70000, 2 ** 40, 300],
    "words": ["low income", "high income", "middle income", "n/a"],
    "long": ["s%d" % i for i in range(14)],
}


def fresh(v):
    """A value equal to v, but another object wherever the language allows it."""
    if type(v) is str:
        return "".join(list(v)) if len(v) > 1 else v
    if type(v) in (int, float):
        return type(v)(repr(v))
    if type(v) is tuple:
        return tuple([fresh(x) for x in v])
    return v


class Net:
    """A network: structure, sizes, integer-weight CPTs, and the names/values it is presented with."""

    def __init__(self, parents, sizes, cpt, names="alpha", values="bool"):
        self.parents = tuple(tuple(p) for p in parents)
        self.n = len(self.parents)
        self.sizes = tuple(sizes)
        self.cpt = cpt
        self.names = list(NAMES[names][:self.n]) if isinstance(names, str) else list(names)
        if len(self.names) < self.n:
            self.names = ["v%d" % i for i in range(self.n)]
        if isinstance(values, str):
            self.doms = [list(VALUES[values][:s]) for s in self.sizes]
        else:
            self.doms = [list(v) for v in values]
        self.rowsum = [{c: sum(r) for c, r in rows.items()} for rows in cpt]
        self._joint = None

    # -- oracle ---------------------------------------------------------------------------
    @property
    def joint(self):
        """[(assignment, integer weight)], weights over one common denominator."""
        if self._joint is None:
            dens = []
            for rows in self.rowsum:
                d = 1
                for s in rows.values():
                    d = d * s // _gcd(d, s)
                dens.append(d)
            self.den = 1
            for d in dens:
                self.den *= d
            scaled = [{c: [w * (dens[i] // self.rowsum[i][c]) for w in r] for c, r in rows.items()}
                      for i, rows in enumerate(self.cpt)]
            res = []
            for asg in itertools.product(*[range(s) for s in self.sizes]):
                w = 1
                for i, ps in enumerate(self.parents):
                    w *= scaled[i][tuple([asg[p] for p in ps])][asg[i]]
                    if not w:
                        break
                if w:
                    res.append((asg, w))
            self._joint = res
        return self._joint

    def posterior(self, evidence):
        """evidence: {var index: state index} -> (total weight, [[weight per state] per variable])."""
        out = [[0] * s for s in self.sizes]
        total = 0
        ev = tuple(evidence.items())
        for asg, w in self.joint:
            for i, x in ev:
                if asg[i] != x:
                    break
            else:
                total += w
                for i, x in enumerate(asg):
                    out[i][x] += w
        return total, out

    def mass(self, variables, evidence):
        """Unnormalised P(variables, evidence) as {states: float}, in the order of `variables`."""
        self.joint  # noqa
        out = {c: 0 for c in itertools.product(*[range(self.sizes[v]) for v in variables])}
        ev = tuple(evidence.items())
        for asg, w in self.joint:
            for i, x in ev:
                if asg[i] != x:
                    break
            else:
                out[tuple([asg[v] for v in variables])] += w
        return {c: w / self.den for c, w in out.items()}

    def marginals(self, evidence):
        """{(name, value): float}: what a user should see; all zero when the evidence is impossible."""
        total, out = self.posterior(evidence)
        return total, {(self.names[i], self.doms[i][x]): (w / total if total else 0.0)
                       for i in range(self.n) for x, w in enumerate(out[i])}

    def p(self, i, cfg, x):
        return self.cpt[i][cfg][x] / self.rowsum[i][cfg]

    def ev(self, evidence):
        """Evidence in the user's terms."""
        return {self.names[i]: fresh(self.doms[i][x]) for i, x in evidence.items()}

    def all_evidence(self, max_size=None, min_size=0):
        idx = range(self.n)
        top = self.n if max_size is None else min(max_size, self.n)
        for k in range(min_size, top + 1):
            for vs in itertools.combinations(idx, k):
                for xs in itertools.product(*[range(self.sizes[v]) for v in vs]):
                    yield dict(zip(vs, xs))

    # -- presentation to the implementation --------------------------------------------------
    def func(self, i, order="last", style="argspec", prefix="f_", calls=None):
        """The factor of variable i as the user would write it."""
        ps = list(self.parents[i])
        if order == "last":
            args = ps + [i]
        elif order == "first":
            args = [i] + ps
        elif order == "rev":
            args = [i] + ps[::-1]
        elif order == "sorted":
            args = sorted(ps + [i], key=lambda v: self.names[v])
        else:
            raise ValueError(order)
        table = {}
        for cfg in itertools.product(*[range(self.sizes[p]) for p in ps]):
            env = dict(zip(ps, cfg))
            for x in range(self.sizes[i]):
                env[i] = x
                table[tuple(self.doms[v][env[v]] for v in args)] = self.p(i, cfg, x)
        names = [self.names[v] for v in args]

        if style == "argspec":
            def f(*a):
                if calls is not None:
                    calls(i)
                return table[a]
            f.argspec = names
        elif style == "sig":
            src = "def f(%s):\n    return _t[(%s,)]\n" % (", ".join(names), ", ".join(names))
            ns = {"_t": table}
            exec(src, ns)  # pylint: disable=exec-used
            f = ns["f"]
        else:
            raise ValueError(style)
        f.__name__ = prefix + self.names[i]
        return f

    def domains(self, container="list"):
        conv = {"list": list, "tuple": tuple, "set": set, "frozenset": frozenset}[container]
        return {self.names[i]: conv(self.doms[i]) for i in range(self.n)}

    def conditionals(self, row_order=None, given_order=None, given_type=list):
        """{variable: [[givens, {value: prob}], ...]} for build_bbn_from_conditionals."""
        conds = {}
        for i, ps in enumerate(self.parents):
            rows = []
            for cfg in itertools.product(*[range(self.sizes[p]) for p in ps]):
                givens = [given_type((self.names[p], self.doms[p][x])) for p, x in zip(ps, cfg)]
                if given_order == "rev":
                    givens = givens[::-1]
                rows.append([givens, {self.doms[i][x]: self.p(i, cfg, x) for x in range(self.sizes[i])}])
            if row_order == "rev":
                rows = rows[::-1]
            conds[self.names[i]] = rows
        return conds

    def build(self, mod, order="last", style="argspec", perm=None, default_domains=False, container="list",
              as_list=True, how="funcs", calls=None, prefix="f_"):
        """Build the real BBN.  mod is causalnex.ebaybbn."""
        if how == "cond":
            conds = self.conditionals()
            if perm is not None:
                conds = {self.names[i]: conds[self.names[i]] for i in perm}
            return mod.build_bbn_from_conditionals(conds)
        idx = perm if perm is not None else range(self.n)
        fs = [self.func(i, order, style, prefix, calls) for i in idx]
        kw = {} if default_domains else {"domains": self.domains(container)}
        return mod.build_bbn(fs, **kw) if as_list else mod.build_bbn(*fs, **kw)

    def describe(self):
        return {
            "variables": self.names,
            "parents": {self.names[i]: [self.names[p] for p in ps] for i, ps in enumerate(self.parents)},
            "domains": {self.names[i]: [repr(v) for v in self.doms[i]] for i in range(self.n)},
            "cpt": {self.names[i]: {",".join(map(str, c)): ["%d/%d" % (w, sum(r)) for w in r]
                                    for c, r in rows.items()} for i, rows in enumerate(self.cpt)},
        }


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def close(got, want, rel=1e-9):
    """Relative agreement: the implementation only adds, multiplies and divides non-negative numbers."""
    if want == 0:
        return got == 0
    return abs(got - want) <= rel * abs(want)


def diff_marginals(got, want, rel=1e-9):
    """None, or a description of the first disagreement between two {(name, value): p} maps."""
    try:
        g = dict(got)
    except Exception as e:  # pylint: disable=broad-except
        return "not a mapping of (variable, value) to probability: %r (%s)" % (got, e)
    if set(g) != set(want):
        miss = [k for k in want if k not in g]
        extra = [k for k in g if k not in want]
        return "missing entries %r, unexpected entries %r" % (miss, extra)
    for k, w in want.items():
        if not isinstance(g[k], (int, float)) or g[k] != g[k] or not close(g[k], w, rel):
            return "P(%s=%r) is %r, should be %r" % (k[0], k[1], g[k], w)
    return None


def net_from_spec(spec):
    """JSON spec -> Net.  spec: parents|family, sizes, cpt (kind or digits+alphabet), names, values."""
    parents = FAMILIES[spec["family"]] if "family" in spec else [tuple(p) for p in spec["parents"]]
    n = len(parents)
    sizes = spec.get("sizes") or [2] * n
    if "digits" in spec:
        cpt = cpt_from_digits(parents, sizes, spec["digits"], spec["alphabet"])
    else:
        cpt = make_cpt(parents, sizes, spec.get("cpt", "generic:0"))
    return Net(parents, sizes, cpt, spec.get("names", "alpha"), spec.get("values", "bool"))
