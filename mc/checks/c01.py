"""Posterior exactness: every query with possible evidence equals the joint's conditional marginals."""
import itertools

from ..ebay import ALPHABETS, mod, net_from_spec, nrows, walk
from ..nets import FAMILIES, all_dags, iso_dags

PROPERTY = "C01"
MEANING = ("state = (network, evidence) with evidence of positive probability, visited on one live object per "
           "network; transition = one query from the previous state; trace = one query answer compared entry by "
           "entry with the sum over the explicitly enumerated joint distribution")
BOUNDS = {
    "quick": "all 29 labelled DAGs on <=3 binary nodes x every assignment of CPT rows from {3/10, 1} x all 27 evidences; "
             "all 543 labelled DAGs on 4 binary nodes x generic CPTs x all 81 evidences; all 25 DAGs on 3 nodes x all domain "
             "sizes in {1,2,3}^3 x all evidences; the 302 isomorphism classes on 5 nodes x evidence of <=1 variable; 24 larger "
             "named shapes (chains, trees, grids, rings, HMMs, disconnected, families of 5 to 7 variables) x evidence <=1; CPTs with 1e-15-scale entries; "
             "six name tables (also names such as self or kwds), ten value tables (evidence given as equal but distinct objects), four argument orders, three construction routes",
    "thorough": "as quick, with CPT rows from {3/10,1,0} on 3 nodes, {generic,sparse} CPTs and two name tables on 4 nodes, "
                "mixed domain sizes on 4 nodes, all evidences on 5 nodes, evidence <=2 on the larger shapes, and the "
                "5984 isomorphism classes on 6 nodes with evidence <=1",
}
ASSUMPTIONS = ["Python float arithmetic is trusted to 1e-9 relative (1e-6 for 1e-15-scale CPT entries)",
               "structures beyond the bounds are not explored"]
CHUNK = 8


def units(tier):
    thorough = tier == "thorough"
    us = []
    # 1. exhaustive CPT alphabets on small structures
    a = 3 if thorough else 2
    for n in (1, 2, 3):
        for p in all_dags(n):
            rows = nrows(p)
            total = a ** rows
            step = 128
            for lo in range(0, total, step):
                us.append({"k": "alpha", "parents": p, "a": a, "lo": lo, "hi": min(total, lo + step)})
    # 2. all structures on four nodes
    for p in all_dags(4):
        for cpt in (("generic:1", "sparse:3", "tiny:1") if thorough else ("generic:1",)):
            for names in (("alpha", "rev") if thorough else ("rev",)):
                us.append({"k": "net", "parents": p, "cpt": cpt, "names": names, "values": "bool", "max_ev": 4})
    # 3. domain sizes
    for p in all_dags(3):
        for sizes in itertools.product((1, 2, 3), repeat=3):
            us.append({"k": "net", "parents": p, "sizes": sizes, "cpt": "generic:2", "values": "str", "max_ev": 3})
    if thorough:
        for p in iso_dags(4):
            for sizes in itertools.product((1, 2, 3), repeat=4):
                us.append({"k": "net", "parents": p, "sizes": sizes, "cpt": "generic:2", "values": "int", "max_ev": 2})
    # 4. five nodes up to isomorphism, with a relabelling so that name order and topological order differ
    for p in iso_dags(5):
        us.append({"k": "net", "parents": p, "cpt": "generic:4", "names": "mixed", "values": "boolr",
                   "max_ev": 5 if thorough else 1})
    if thorough:
        for p in iso_dags(6):
            us.append({"k": "net", "parents": p, "cpt": "generic:5", "names": "digits", "values": "bool", "max_ev": 1})
    # 5. larger shapes
    for f in FAMILIES:
        big = len(FAMILIES[f]) > 8
        for cpt in ("generic:6", "sparse:7"):
            us.append({"k": "net", "family": f, "cpt": cpt, "names": "mixed", "values": "str",
                       "max_ev": (1 if big else 2) if thorough else 1})
    # 6. extreme probabilities: observing the rare side still conditions exactly
    for p in all_dags(3):
        for cpt in ("tiny:1", "tiny:2", "steep:1", "steep:2"):
            us.append({"k": "net", "parents": p, "cpt": cpt, "max_ev": 3, "rel": 1e-6})
    for f in ("chain6", "star7", "hmm4", "collider5", "ring6"):
        us.append({"k": "net", "family": f, "cpt": "steep:3", "max_ev": 2, "rel": 1e-6})
        us.append({"k": "rare", "family": f, "cpt": "steep:3", "rel": 1e-6})
    us.append({"k": "rare", "family": "chain9", "cpt": "steep:3", "rel": 1e-6})
    us.append({"k": "rare", "family": "grid33", "cpt": "steep:3", "rel": 1e-6})
    # 7. presentation of one and the same network
    shapes = [((), (0,), (0, 1)), ((), (), (0, 1), (2,)), ((1, 2), (), (1,), (0,)), ((3,), (0,), (0, 1), ())]
    for p in shapes:
        for names in ("alpha", "rev", "mixed", "words", "digits", "clash"):
            for order in ("last", "first", "rev", "sorted"):
                us.append({"k": "net", "parents": p, "cpt": "generic:8", "names": names, "order": order,
                           "style": "sig", "values": "bool", "max_ev": 2})
        for values in ("bool", "boolr", "str", "int", "odd", "float", "tuple", "intrev", "bigint", "words"):
            for how in ("list", "args", "cond"):
                sizes = [2] * len(p) if values.startswith("bool") else [3] * len(p)
                us.append({"k": "net", "parents": p, "cpt": "sparse:9", "sizes": sizes, "values": values, "how": how,
                           "max_ev": 2})
    return us


def run_unit(u, ctx):
    m = mod()
    if u["k"] == "alpha":
        rows = nrows(u["parents"])
        for code in range(u["lo"], u["hi"]):
            digits, c = [], code
            for _ in range(rows):
                digits.append(c % u["a"])
                c //= u["a"]
            net = net_from_spec({"parents": u["parents"], "alphabet": ALPHABETS[u["a"]], "digits": digits})
            ok, bbn = ctx.guard(lambda n=net: n.build(m, default_domains=True), "building the network", net.describe())
            if ok:
                walk(ctx, net, bbn, net.all_evidence(), "exact", want_possible=True)
        ctx.sample({"unit": u, "last_digits": digits})
        return
    net = net_from_spec(u)
    how = u.get("how", "list")
    ok, bbn = ctx.guard(lambda: net.build(m, order=u.get("order", "last"), style=u.get("style", "argspec"),
                                          as_list=how == "list", how="cond" if how == "cond" else "funcs"),
                        "building the network", net.describe())
    if not ok:
        return
    if u["k"] == "rare":
        # the joint is too large to sum for all evidences: condition on the rarest side, variable sets along the order
        evs = [{i: 1 for i in range(k)} for k in range(1, min(net.n, 5) + 1)]
        evs += [{i: 1 for i in range(net.n - k, net.n)} for k in range(1, min(net.n, 5) + 1)]
    else:
        evs = net.all_evidence(u["max_ev"])
    walk(ctx, net, bbn, evs, u["k"], want_possible=True, rel=u.get("rel", 1e-9))
    ctx.sample({"unit": u, "net": net.describe() if net.n <= 3 else u})
