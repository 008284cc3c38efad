"""InferenceEngine.query: exact posterior marginals of the Bayesian network's tables."""
import itertools

from ..engine import check, load, make_bn
from ..nets import all_dags, connected, iso_dags, net_from_spec

PROPERTY = "C13"
MEANING = ("state = (BayesianNetwork with given tables, observations); transition = one InferenceEngine.query; trace = one answer "
           "(all variables, all states) compared with the sum over the explicit joint distribution")
BOUNDS = {
    "quick": "all connected labelled DAGs on 2 and 3 nodes x domain sizes {1,2,3}^n x every observation set; all connected DAGs on 4 nodes x "
             "observations of <=1 variable; the connected isomorphism classes on 5 nodes x no observation; 6 kinds of states x 7 tables of "
             "variable names on 4 structures x observations of <=2 variables; every kind of invalid observation; invalid variable "
             "names; networks without tables",
    "thorough": "as quick with all observations on 4 nodes (3 tables of probabilities) and <=1 on 5 nodes",
}
ASSUMPTIONS = ["pandas / pgmpy stand-ins carry the tables into the engine; code objects as on Python 3.8 (see DESIGN.md)"]
CHUNK = 4
VALUES = ("bool", "str", "int", "float", "bigint", "words")
NAMES = ("alpha", "rev", "mixed", "words", "digits", "clash", "odd")


def units(tier):
    thorough = tier == "thorough"
    us = []
    for n in (2, 3):
        for p in all_dags(n):
            if connected(p):
                us.append({"k": "sizes", "parents": p})
    for p in all_dags(4):
        if connected(p):
            for cpt in (("generic:51", "sparse:52", "tiny:53") if thorough else ("sparse:52",)):
                us.append({"k": "net", "parents": p, "cpt": cpt, "values": "str", "names": "rev", "max_ev": 4 if thorough else 1})
    for p in iso_dags(5):
        if connected(p):
            us.append({"k": "net", "parents": p, "cpt": "generic:54", "values": "int", "names": "mixed", "max_ev": 1 if thorough else 0})
    for p in [((), (0,), (0, 1)), ((1, 2), (), (1,)), ((), (), (0, 1), (2,)), ((3,), (0,), (0, 1), ())]:
        for v in VALUES:
            for nm in NAMES:
                us.append({"k": "net", "parents": p, "cpt": "sparse:55", "values": v, "names": nm, "max_ev": 2,
                           "sizes": [2 if v == "bool" else 3, 2] * (len(p) // 2) + [2] * (len(p) % 2)})
    us.append({"k": "bad"})
    us.append({"k": "badnames"})
    return us


def run_unit(u, ctx):
    IE = load()
    if u["k"] == "badnames":
        for nm in ("a b", "a-b", "", "a.b", "$a", "é", "a,b"):
            for pos in range(3):
                names = ["x", "y", "z"]
                names[pos] = nm
                net = net_from_spec({"parents": [(), (0,), (1,)], "names": names, "values": "str"})
                ctx.state()
                ctx.trans()
                ctx.trace()
                ctx.raises(lambda: IE(make_bn(net)), ValueError, "engine on variables %r" % names)
        net = net_from_spec({"parents": [(), (0,)], "values": "str"})
        bn = make_bn(net)
        bn.planned = {}
        ctx.trace()
        ctx.raises(lambda: IE(bn), ValueError, "engine on a network without tables")
        return
    if u["k"] == "bad":
        for p in all_dags(3):
            if not connected(p):
                continue
            net = net_from_spec({"parents": p, "values": "str", "sizes": [2, 3, 2], "cpt": "sparse:56"})
            ok, ie = ctx.guard(lambda: IE(make_bn(net)), "engine", net.describe)
            if not ok:
                return
            good = [{}] + [{net.names[i]: net.doms[i][x]} for i in range(3) for x in range(net.sizes[i])]
            for bad in [{"zzz": "lo"}, {"A": "lo"}] + [{nm: v} for nm in net.names for v in ("nope", None, 0, "")] + [{"a": "mid"}]:
                for g in good:
                    if set(g) & set(bad):
                        continue
                    for obs in ({**g, **bad}, {**bad, **g}):
                        ctx.state()
                        ctx.trans()
                        ctx.trace()
                        ctx.raises(lambda: ie.query(obs), Exception, "query(%r)" % obs, net.describe)
            for e in net.all_evidence(1):
                ctx.trans()
                check(ctx, ie, net, {}, e, "after rejected queries", net.describe)
        return
    if u["k"] == "sizes":
        n = len(u["parents"])
        for sizes in itertools.product((1, 2, 3), repeat=n):
            net = net_from_spec({"parents": u["parents"], "sizes": sizes, "cpt": "sparse:50", "values": "str"})
            walk(ctx, IE, net, n)
    else:
        walk(ctx, IE, net_from_spec(u), u["max_ev"])
    ctx.sample(u)


def walk(ctx, IE, net, max_ev):
    bn = make_bn(net)
    ok, ie = ctx.guard(lambda: IE(bn), "engine", net.describe)
    if not ok:
        return
    for e in net.all_evidence(max_ev):
        ctx.state()
        ctx.trans()
        if not check(ctx, ie, net, {}, e, "query", net.describe):
            return
        if ctx.states % 50 == 1:
            ctx.outcome(tuple(round(v, 10) for v in net.marginals(e)[1].values()))
