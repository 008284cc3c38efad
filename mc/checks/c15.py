"""Histories of interventions, resets, rejected operations and queries."""
import itertools

from ..engine import check, effects, load, make_bn, mutilated
from ..nets import net_from_spec

PROPERTY = "C15"
MEANING = ("state = history of operations on an InferenceEngine (with a second engine on the same BayesianNetwork alongside); transition = one "
           "operation; trace = one complete history, after each step of which the set of active interventions in the specification decides "
           "the marginals of every variable")
BOUNDS = {
    "quick": "3 networks x every sequence of 3 operations out of 22 (do state / do distribution per variable, reset per variable, rejected do's, reset of an "
             "unknown variable, queries with and without observations, caller mutating results / arguments / the network's tables, operations on "
             "a second engine, an engine on another network with the same variable names); all marginals after every step",
    "thorough": "as quick with sequences of 4 operations",
}
ASSUMPTIONS = ["pandas / pgmpy stand-ins carry the tables into the engine; code objects as on Python 3.8 (see DESIGN.md)"]
CHUNK = 4
NETS = [
    {"parents": [(), (0,), (1,)], "values": "str", "cpt": "generic:71"},
    {"parents": [(), (0,), (0, 1)], "values": "bool", "cpt": "sparse:74"},
    {"parents": [(2,), (), (1,)], "values": "int", "cpt": "generic:73", "sizes": [2, 3, 2], "names": "rev"},
]

ELSEWHERE = [
    {"parents": [(), (0,), (0, 1)], "values": "str", "cpt": "generic:75", "sizes": [3, 2, 3]},
    {"parents": [(1,), (), (1,)], "values": "int", "cpt": "sparse:76", "sizes": [2, 3, 2]},
    {"parents": [(), (0,), (1,)], "values": "str", "cpt": "generic:77", "names": "rev"},
]


def ops_of(net):
    ops = []
    for i in range(net.n):
        ops += [("do", i, 0), ("do", i, -1), ("dist", i), ("reset", i)]
    ops += [("badsum", 0), ("badstate", 1), ("badreset",), ("query", 0), ("query", 2), ("badquery",), ("overwrite",), ("tables",), ("other",), ("elsewhere",)]
    return ops


def units(tier):
    depth = 4 if tier == "thorough" else 3
    us = []
    for k, spec in enumerate(NETS):
        n = len(ops_of(net_from_spec(spec)))
        for pre in itertools.product(range(n), repeat=depth - 2):
            us.append({"net": k, "prefix": list(pre)})
    return us


def run_unit(u, ctx):
    IE = load()
    net = net_from_spec(NETS[u["net"]])
    ops = ops_of(net)
    net3 = net_from_spec(ELSEWHERE[u["net"]])
    bn3 = make_bn(net3)

    def probe(ie, do, hist, which=""):
        # marginals without observations after each step; with observations at the end
        return check(ctx, ie, net, do, {}, "after %s%s" % (hist, which), lambda: {"net": net.describe(), "history": hist})

    for tail in itertools.product(range(len(ops)), repeat=2):
        seq = list(u["prefix"]) + list(tail)
        bn = make_bn(net)
        ok, ie = ctx.guard(lambda: IE(bn), "engine", net.describe)
        ok2, ie2 = ctx.guard(lambda: IE(bn), "engine", net.describe)
        if not (ok and ok2):
            return
        do, do2, hist = {}, {}, []
        ie3 = do3 = None
        ctx.state()
        case = lambda: {"net": net.describe(), "history": hist}  # noqa: E731
        for o in seq:
            op = ops[o]
            hist.append(" ".join(map(str, op)))
            ctx.trans()
            ctx.state()
            kind = op[0]
            i = op[1] if len(op) > 1 else None
            nm = net.names[i] if i is not None else None
            if kind in ("do", "dist"):
                s = net.sizes[i]
                if kind == "do":
                    x = op[2] % s
                    arg, ws = net.doms[i][x], [int(y == x) for y in range(s)]
                else:
                    ws = [1, 3, 4][:s]
                    arg = {net.doms[i][x]: ws[x] / sum(ws) for x in range(s)}
                if effects(net, do, i):
                    ok, _ = ctx.guard(lambda: ie.do_intervention(nm, arg), "after %s" % hist, case)
                    if not ok:
                        break
                    do[i] = ws
                    if kind == "dist":
                        for k in arg:
                            arg[k] = 7.0
                else:
                    ctx.raises(lambda: ie.do_intervention(nm, arg), ValueError, "after %s" % hist, case)
            elif kind == "reset":
                ok, _ = ctx.guard(lambda: ie.reset_do(nm), "after %s" % hist, case)
                do.pop(i, None)
            elif kind == "badsum":
                ctx.raises(lambda: ie.do_intervention(nm, {d: 0.7 for d in net.doms[i]}), ValueError, "after %s" % hist, case)
            elif kind == "badstate":
                ctx.raises(lambda: ie.do_intervention(nm, {net.doms[i][0]: 0.5, "nope": 0.5}), ValueError, "after %s" % hist, case)
            elif kind == "badreset":
                ctx.raises(lambda: ie.reset_do("nosuchvariable"), Exception, "after %s" % hist, case)
            elif kind == "query":
                check(ctx, ie, net, do, {i: 1}, "after %s" % hist, case)
            elif kind == "badquery":
                ctx.raises(lambda: ie.query({"nosuchvariable": 1}), Exception, "after %s" % hist, case)
            elif kind == "overwrite":
                for arg in ({}, {net.names[0]: net.doms[0][0]}):
                    ok, got = ctx.guard(lambda: ie.query(arg), "after %s" % hist, case)
                    if ok:
                        for d in got.values():
                            for k in d:
                                d[k] = -1.0
                            d.clear()
                        got.clear()
            elif kind == "tables":
                for df in bn.planned.values():
                    for c in list(df.columns):
                        df[c] = [0.123] * len(df)
                bn.planned = make_bn(net).planned
            elif kind == "other":
                j = next(k for k in range(net.n) if effects(net, {}, k))
                ok, _ = ctx.guard(lambda: ie2.do_intervention(net.names[j], net.doms[j][1]), "after %s" % hist, case)
                do2 = {j: [int(y == 1) for y in range(net.sizes[j])]}
            elif kind == "elsewhere":
                # an engine on another network, whose variables have the same names but other states, parents and probabilities
                ok, ie3 = ctx.guard(lambda: IE(bn3), "after %s" % hist, case)
                if not ok:
                    break
                j = next(k for k in range(net3.n) if effects(net3, {}, k))
                x = len(hist) % net3.sizes[j]
                ok, _ = ctx.guard(lambda: ie3.do_intervention(net3.names[j], net3.doms[j][x]), "after %s" % hist, case)
                do3 = {j: [int(y == x) for y in range(net3.sizes[j])]}
                if not check(ctx, ie3, net3, do3, {}, "after %s (engine on another network)" % hist, case):
                    break
            if not probe(ie, do, hist):
                break
        else:
            for e in list(net.all_evidence(1, 1))[::2]:
                check(ctx, ie, net, do, e, "after %s" % hist, case)
            probe(ie2, do2, hist, " (second engine)")
            if ie3 is not None:
                check(ctx, ie3, net3, do3, {}, "after %s (engine on another network)" % hist, case)
        ctx.trace()
    ctx.outcome((u["net"], tuple(u["prefix"])))
    ctx.sample({"history": hist, "net": u["net"]})
