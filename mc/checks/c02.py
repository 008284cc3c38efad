"""Impossible evidence: zero for every state, no exception, and no after-effect."""
from ..ebay import ALPHABETS, check_query, mod, net_from_spec, nrows
from ..nets import FAMILIES, all_dags, iso_dags

PROPERTY = "C02"
MEANING = ("state = (network, evidence) with evidence of probability zero; transition = one query; trace = one answer "
           "compared with the all-zero table over every (variable, state), plus the re-query of possible evidence after it")
BOUNDS = {
    "quick": "all labelled DAGs on <=3 binary nodes x every assignment of CPT rows from {3/10, 1, 0} (<=7 rows; from {3/10,1} for the "
             "7-row structures) x every impossible evidence; all 543 DAGs on 4 nodes and the 302 classes on 5 nodes with sparse CPTs; "
             "named shapes incl. disconnected ones with deterministic CPTs, evidence <=2 variables",
    "thorough": "as quick with three row values everywhere on 3 nodes, three sparse CPT families on 4 and 5 nodes, evidence <=3 on named shapes",
}
CHUNK = 8


def units(tier):
    thorough = tier == "thorough"
    us = []
    for n in (2, 3):
        for p in all_dags(n):
            rows = nrows(p)
            a = 3 if (rows < 7 or thorough) else 2
            total = a ** rows
            for lo in range(0, total, 96):
                us.append({"k": "alpha", "parents": p, "a": a, "lo": lo, "hi": min(total, lo + 96)})
    kinds = ("sparse:3", "det:3") + (("sparse:4", "sparse:5") if thorough else ())
    for p in all_dags(4):
        for c in kinds:
            us.append({"k": "net", "parents": p, "cpt": c, "names": "rev", "max_ev": 4})
    for p in iso_dags(5):
        for c in kinds:
            us.append({"k": "net", "parents": p, "cpt": c, "names": "mixed", "max_ev": 3 if thorough else 2})
    for p in all_dags(3):
        us.append({"k": "net", "parents": p, "sizes": [3, 2, 3], "cpt": "sparse:8", "values": "odd", "max_ev": 3})
    for f in FAMILIES:
        big = len(FAMILIES[f]) > 8
        for c in ("det:1", "sparse:2"):
            us.append({"k": "net", "family": f, "cpt": c, "values": "str",
                       "max_ev": (2 if big else 3) if thorough else (1 if big else 2)})
    return us


def explore(net, bbn, evidences, ctx):
    k = 0
    for e in evidences:
        total, _ = net.posterior(e)
        if total:
            continue
        ctx.state()
        ctx.trans()
        if not check_query(ctx, net, bbn, e, "impossible evidence"):
            return
        k += 1
        if k % 6 == 1:
            ctx.trans()
            if not check_query(ctx, net, bbn, {}, "after impossible evidence"):
                return
    ctx.outcome((net.n, k))


def run_unit(u, ctx):
    m = mod()
    if u["k"] == "alpha":
        rows = nrows(u["parents"])
        for code in range(u["lo"], u["hi"]):
            digits, c = [], code
            for _ in range(rows):
                digits.append(c % u["a"])
                c //= u["a"]
            if not any(digits):
                continue
            net = net_from_spec({"parents": u["parents"], "alphabet": ALPHABETS[u["a"]], "digits": digits})
            ok, bbn = ctx.guard(lambda n=net: n.build(m, default_domains=True), "building the network", net.describe)
            if ok:
                explore(net, bbn, net.all_evidence(), ctx)
        ctx.sample(u)
        return
    net = net_from_spec(u)
    ok, bbn = ctx.guard(lambda: net.build(m), "building the network", net.describe)
    if ok:
        explore(net, bbn, net.all_evidence(u["max_ev"]), ctx)
        ctx.sample(u)
