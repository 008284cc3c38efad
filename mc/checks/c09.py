"""Sampling: over all draws of the random source, samples follow the posterior exactly; no draw gives an impossible sample."""
import itertools
from fractions import Fraction
from math import gcd

from .. import rng
from ..ebay import mod, net_from_spec, nrows
from ..nets import all_dags, iso_dags

rng.install()
PROPERTY = "C09"
MEANING = ("state = choice point (a draw from the random source); transition = one choice taken; trace = one complete execution of the real "
           "draw_samples; the total weight of the executions giving a sample is compared, as an exact fraction, with its probability")
BOUNDS = {
    "quick": "every sequence of draws (all picks x a grid of K equiprobable uniform draws, K the common denominator of all conditional "
             "probabilities) for: all DAGs on 2 nodes with row alphabets of 4 (K<=60), on 3 nodes with row alphabet {1/2, 1, 0} (K<=8), three-valued "
             "nodes, single nodes with values of probability 1/10000, 4 and 5 nodes of which one is the parity of the others; with no, single and "
             "complete given values; 0 to 3 samples on 1 and 2 nodes; two samples of "
             "parities over 5 and 6 nodes with the variables picked in 4 fixed orders; and the extreme draws {0, 2^-53, 1/2, "
             "1-2^-53} x all picks on 3- and 4-node networks with rounding-prone and zero probabilities",
    "thorough": "as quick with K<=24 on 3 nodes, a parity of 5 others, and extreme draws on all 543 4-node structures",
}
ASSUMPTIONS = ["every random draw goes through Python's random module; the answers of query() for one and the same evidence are "
               "reused within a unit (their exactness is C01)"]
CHUNK = 4
UNIT_CPU = 400.0

ALPHA = [[1, 1], [1, 3], [1, 0], [0, 1]]
ALPHA3 = [[1, 1], [1, 0], [0, 1]]


def units(tier):
    thorough = tier == "thorough"
    us = []
    for p in all_dags(1) + all_dags(2):
        for digits in itertools.product(range(4), repeat=nrows(p)):
            us.append({"k": "dist", "parents": p, "alphabet": ALPHA, "digits": digits, "K": 60})
    for p in all_dags(2):
        for digits in itertools.product(range(3), repeat=nrows(p)):
            us.append({"k": "pairs", "parents": p, "alphabet": [[1, 1], [1, 0], [3, 1]], "digits": digits, "K": 4})
    for p in iso_dags(3):
        r = nrows(p)
        for digits in itertools.product(range(3), repeat=r):
            if r == 7 and (sum(digits) % (2 if thorough else 5)):
                continue
            if sum(1 for d in digits if d == 0) < 1:
                continue
            us.append({"k": "dist", "parents": p, "alphabet": ALPHA3, "digits": digits, "K": 24 if thorough else 8})
    # rare values are still drawn, each as often as it should be
    for digits in itertools.product(range(3), repeat=1):
        us.append({"k": "dist", "parents": [()], "alphabet": [[1, 1999], [4999, 1], [1, 9999]], "digits": digits, "K": 10000})
    us.append({"k": "dist", "parents": [()], "sizes": [3], "rare": 1, "values": "str", "K": 4000})
    # several samples of one variable, and none
    for digits in range(3):
        for n in (0, 2, 3):
            us.append({"k": "pairs", "parents": [()], "alphabet": [[1, 1], [1, 0], [3, 1]], "digits": [digits], "K": 4, "n": n})
    us.append({"k": "pairs", "parents": [(), (0,)], "alphabet": [[1, 1], [1, 0], [3, 1]], "digits": [0, 1, 2], "K": 4, "n": 0})
    # one variable is the parity of all the others, so that every earlier value matters for the last one drawn
    for n in ((4, 5, 6) if thorough else (4, 5)):
        for child in ((0, n - 1) if n < 6 else (2,)):
            us.append({"k": "parity", "n": n, "child": child, "K": 2})
    # two samples of six variables in one call, the variables picked in a fixed order (first, last, middle, alternating)
    for pick in range(4):
        for n in (5, 6):
            for child in (0, n - 1):
                us.append({"k": "parity", "n": n, "child": child, "K": 2, "pick": pick, "samples": 2})
    for p in all_dags(2):
        for c in range(6):
            us.append({"k": "dist", "parents": p, "sizes": [3, 2] if c % 2 else [2, 3], "small": c, "values": "str", "K": 40})
    for p in all_dags(3):
        for c in ("generic:51", "sparse:52", "det:53"):
            us.append({"k": "ext", "parents": p, "cpt": c, "sizes": [2, 3, 2], "values": "boolr" if False else "str"})
        us.append({"k": "ext", "parents": p, "tenths": True, "sizes": [3, 3, 2], "values": "int"})
    for p in (all_dags(4)[::6] if not thorough else all_dags(4)):
        us.append({"k": "ext", "parents": p, "cpt": "sparse:54", "values": "bool"})
    return us


def small_cpt(parents, sizes, seed):
    rows = {2: [[1, 1], [1, 0], [1, 3], [0, 1]], 3: [[1, 1, 2], [0, 1, 1], [2, 1, 1], [1, 0, 1], [1, 0, 0]]}
    cpt, k = [], seed
    for i, ps in enumerate(parents):
        d = {}
        for cfg in itertools.product(*[range(sizes[p]) for p in ps]):
            d[cfg] = rows[sizes[i]][k % len(rows[sizes[i]])]
            k += 1 + seed
        cpt.append(d)
    return cpt


TENTHS = [[1, 2, 7], [7, 2, 1], [1, 6, 3], [3, 3, 4]]


def make(u):
    from ..nets import Net
    if u.get("rare"):
        return Net([()], [3], [{(): [1, 3998, 1]}], values=u["values"])
    if u["k"] == "parity":
        n, c = u["n"], u["child"]
        ps = tuple(i for i in range(n) if i != c)
        cpt = [{(): [1, 1]} if i != c else {cfg: ([0, 1] if sum(cfg) % 2 else [1, 0]) for cfg in itertools.product(range(2), repeat=n - 1)}
               for i in range(n)]
        return Net([() if i != c else ps for i in range(n)], [2] * n, cpt)
    if "small" in u:
        return Net(u["parents"], u["sizes"], small_cpt(u["parents"], u["sizes"], u["small"]), values=u["values"])
    if u.get("tenths"):
        cpt, k = [], 0
        for i, ps in enumerate(u["parents"]):
            d = {}
            for cfg in itertools.product(*[range(u["sizes"][p]) for p in ps]):
                t = TENTHS[k % 4]
                d[cfg] = t if u["sizes"][i] == 3 else [t[0], t[1] + t[2]]
                k += 1
            cpt.append(d)
        return Net(u["parents"], u["sizes"], cpt, values=u["values"])
    return net_from_spec(u)


PICKS = [lambda n: 0, lambda n: n - 1, lambda n: n // 2, lambda n: 0 if n % 2 else n - 1]


def denominator(net):
    k = 1
    for e in net.all_evidence():
        t, out = net.posterior(e)
        if t:
            for ws in out:
                for w in ws:
                    d = t // gcd(t, w)
                    k = k * d // gcd(k, d)
    return k


def run_unit(u, ctx):
    m = mod()
    net = make(u)
    ok, bbn = ctx.guard(lambda: net.build(m), "building", net.describe)
    if not ok:
        return
    # reuse the engine's own answers for repeated evidence
    real, memo = bbn.query, {}

    def query(**kw):
        key = tuple(sorted(((k, kw[k]) for k in kw), key=lambda x: x[0]))
        if key not in memo:
            memo[key] = real(**kw)
        return dict(memo[key])
    bbn.query = query
    givens = [{}] + list(net.all_evidence(1, 1)) + list(net.all_evidence(net.n, net.n))[:2]
    label = [{v: x for x, v in enumerate(d)} for d in net.doms]
    if u["k"] in ("dist", "pairs", "parity"):
        K = denominator(net)
        if K > u["K"]:
            ctx.count("skipped_denominator")
            return
        ctx.count("networks")
        grid = rng.midpoints(K)
    else:
        grid = rng.EXTREMES
    n = u.get("n", 2) if u["k"] == "pairs" else 1
    n = u.get("samples", n)
    pick = PICKS[u["pick"]] if "pick" in u else None
    if n != 1 or u["k"] == "parity":
        givens = givens[:1]
    for e in givens:
        total, _ = net.posterior(e)
        if not total:
            continue
        given = net.ev(e)
        if len(given) == net.n and u["k"] == "ext":
            continue
        weight, mass = {}, {}
        for asg, w in net.joint:
            if all(asg[i] == x for i, x in e.items()):
                mass[asg] = Fraction(w, total)

        def go():
            arg = dict(given)
            res = bbn.draw_samples(arg, n)
            if arg != given:
                ctx.fail("draw_samples(%r, %d) changed the caller's dictionary to %r" % (given, n, arg), net.describe)
            if any(s is arg for s in res) or len({id(s) for s in res}) != len(res):
                ctx.fail("draw_samples(%r, %d): a sample is the caller's dictionary, or another sample" % (given, n), net.describe)
            return res
        what = "draw_samples(%r, %d)" % (given, n)
        it = rng.explore(go, grid, pick)
        while True:
            ok, nxt = ctx.guard(lambda: next(it, None), what, net.describe)
            if not ok:
                return
            if nxt is None:
                break
            samples, w, choices = nxt
            ctx.trace()
            ctx.state(len(choices))
            ctx.trans(len(choices))
            key = []
            for s in samples:
                if set(s) != set(net.names) or any(s[net.names[i]] not in label[i] for i in range(net.n)):
                    ctx.fail("%s gave %r: not one of its values for each variable" % (what, s), net.describe)
                    return
                asg = tuple(label[i][s[net.names[i]]] for i in range(net.n))
                if asg not in mass:
                    ctx.fail("%s gave %r, which has probability zero, under the draws %r" % (what, s, choices), net.describe)
                    return
                key.append(asg)
            if len(samples) != n:
                ctx.fail("%s gave %d samples" % (what, len(samples)), net.describe)
                return
            key = tuple(key)
            weight[key] = weight.get(key, 0) + w
        if u["k"] == "ext":
            ctx.outcome(len(weight))
            continue
        for combo in itertools.product(mass, repeat=n):
            want = Fraction(1)
            for a in combo:
                want *= mass[a]
            got = weight.get(combo, 0)
            if got != want:
                ctx.fail("%s: %r is drawn with probability %s, should be %s" % (
                    what, [dict(zip(net.names, [net.doms[i][x] for i, x in enumerate(a)])) for a in combo], got, want), net.describe)
                return
        ctx.outcome(tuple(sorted(weight.values())))
    ctx.sample(u)
