"""do_intervention: the truncated factorisation."""
import itertools

from ..engine import check, effects, load, make_bn
from ..nets import all_dags, connected, iso_dags, net_from_spec

PROPERTY = "C14"
MEANING = ("state = (network, set of interventions applied in some order, observations); transition = one do_intervention or query; trace = "
           "one answer compared with the joint distribution in which the tables of the intervened variables are replaced")
BOUNDS = {
    "quick": "all connected DAGs on 2 and 3 nodes (states 3,2,2) x every sequence of <=2 interventions over all variables x {each state, three distributions} x "
             "every observation set of <=2 variables; connected DAGs on 4 nodes x every single intervention x observations of <=1 variable; every ordered "
             "pair of interventions on 2 and 3 nodes followed by every reset or replacement; 60 "
             "and more rejected interventions (among them states that only look like the variable's) per variable on every 3-node structure",
    "thorough": "as quick with sequences of 3 interventions on 3 nodes, all pairs on 4 nodes, 5-node classes with single interventions",
}
ASSUMPTIONS = ["pandas / pgmpy stand-ins carry the tables into the engine; code objects as on Python 3.8 (see DESIGN.md)"]
CHUNK = 4


def units(tier):
    thorough = tier == "thorough"
    us = []
    for n in (2, 3):
        for p in all_dags(n):
            if not connected(p):
                continue
            for v in ("str", "int", "bool"):
                sizes = [2] * n if v == "bool" else [3] + [2] * (n - 1)
                base = {"parents": p, "values": v, "sizes": sizes, "cpt": "sparse:61"}
                if v == "str":
                    for first in range(n):
                        us.append(dict(base, k="do", depth=3 if thorough else 2, max_ev=2, first=first, cpt="generic:62"))
                else:
                    us.append(dict(base, k="do", depth=1, max_ev=n, first=None))
                us.append(dict(base, k="bad"))
                us.append(dict(base, k="undo", cpt="generic:65"))
    for p in all_dags(4):
        if connected(p):
            us.append({"k": "do", "parents": p, "values": "str", "cpt": "generic:63", "names": "rev", "depth": 2 if thorough else 1,
                       "max_ev": 1, "first": None, "few": 1})
    if thorough:
        for p in iso_dags(5):
            if connected(p):
                us.append({"k": "do", "parents": p, "values": "int", "cpt": "generic:64", "names": "mixed", "depth": 1, "max_ev": 1,
                           "first": None, "few": 1})
    return us


def actions(net, i, few=False):
    """[(argument of do_intervention, integer weights)]"""
    s = net.sizes[i]
    res = [(net.doms[i][x], [1 if y == x else 0 for y in range(s)]) for x in range(s)]
    for ws in ([[1, 3, 4][:s]] if few else [[1, 3, 4][:s], [5, 0, 3][:s], [1] * s, [1] * (s - 1) + [10 ** 9]]):
        t = sum(ws)
        # also given in reverse order of the states
        for order in ((1, -1) if not few else (-1,)):
            res.append(({net.doms[i][x]: ws[x] / t for x in range(s)[::order]}, list(ws)))
    # a point distribution written as a dictionary, with integers
    if not few:
        res.append(({net.doms[i][x]: 1 if x == 0 else 0 for x in range(s)}, [1] + [0] * (s - 1)))
    return res


def run_unit(u, ctx):
    IE = load()
    net = net_from_spec(u)
    if u["k"] == "bad":
        return bad(IE, net, ctx)
    if u["k"] == "undo":
        return undo(IE, net, ctx)
    few = bool(u.get("few"))
    evs = list(net.all_evidence(u["max_ev"]))

    def go(ie, do, hist, depth):
        for i in range(net.n):
            if depth == 0 and u["first"] not in (None, i):
                continue
            if not effects(net, do, i):
                ctx.trans()
                ctx.trace()
                ctx.raises(lambda: ie.do_intervention(net.names[i], net.doms[i][0]), ValueError,
                           "after %s: do(%s) without effects" % (hist, net.names[i]), net.describe)
                check(ctx, ie, net, do, {}, "after %s and a rejected do(%s)" % (hist, net.names[i]), net.describe)
                continue
            for arg, ws in actions(net, i, few or depth > 0):
                h = hist + ["do(%s, %r)" % (net.names[i], arg)]
                # a fresh engine, brought to the same state
                ok, e2 = ctx.guard(lambda: IE(bn), "engine", net.describe)
                if not ok:
                    return
                for j, a in applied[:depth]:
                    e2.do_intervention(net.names[j], a)
                given = dict(arg) if isinstance(arg, dict) else arg
                ok, _ = ctx.guard(lambda: e2.do_intervention(net.names[i], given), "; ".join(h), net.describe)
                if not ok:
                    continue
                ctx.check(given == arg, "do_intervention changed the caller's dictionary to %r" % (given,), net.describe)
                ctx.trans()
                do2 = dict(do)
                do2[i] = ws
                for ev in evs:
                    ctx.state()
                    ctx.trans()
                    if not check(ctx, e2, net, do2, ev, "; ".join(h), net.describe):
                        break
                if depth + 1 < u["depth"]:
                    del applied[depth:]
                    applied.append((i, arg))
                    go(e2, do2, h, depth + 1)

    applied = []
    bn = make_bn(net)
    ok, ie = ctx.guard(lambda: IE(bn), "engine", net.describe)
    if ok:
        go(ie, {}, [], 0)
    ctx.sample(u)


def undo(IE, net, ctx):
    """Every ordered pair of interventions on different variables, then one of them (or both) taken back, or replaced."""
    bn = make_bn(net)
    evs = list(net.all_evidence(1))
    for i, j in itertools.permutations(range(net.n), 2):
        if not effects(net, {}, i):
            continue
        for ai, wi in actions(net, i, True)[:2]:
            if not effects(net, {i: wi}, j):
                continue
            for aj, wj in actions(net, j, True)[-1:]:
                for back in ((i,), (j,), (i, j), (j, i), ("again", i), ("again", j)):
                    do = {i: wi, j: wj}
                    if back[0] == "again" and not effects(net, do, back[1]):
                        continue
                    hist = "do(%s, %r); do(%s, %r); %s" % (net.names[i], ai, net.names[j], aj, "reset " + ", ".join(
                        "again" if b == "again" else net.names[b] for b in back))
                    ok, ie = ctx.guard(lambda: IE(bn), "engine", net.describe)
                    if not ok:
                        return
                    ctx.state()
                    ctx.trace()

                    def run():
                        ie.do_intervention(net.names[i], ai)
                        ie.do_intervention(net.names[j], aj)
                        if back[0] == "again":
                            x = net.sizes[back[1]] - 1
                            ie.do_intervention(net.names[back[1]], net.doms[back[1]][x])
                            do[back[1]] = [1 if y == x else 0 for y in range(net.sizes[back[1]])]
                        else:
                            for b in back:
                                ie.reset_do(net.names[b])
                                del do[b]
                    ok, _ = ctx.guard(run, hist, net.describe)
                    if not ok:
                        continue
                    for ev in evs:
                        ctx.trans()
                        if not check(ctx, ie, net, do, ev, hist, net.describe):
                            break


def bad(IE, net, ctx):
    bn = make_bn(net)
    for i in range(net.n):
        nm, dom = net.names[i], net.doms[i]
        s = len(dom)
        u = 1.0 / s
        full = {d: u for d in dom}
        bads = [dict(full, **{}) for _ in range(0)]
        bads.append({**full, dom[0]: u + 0.1})                      # sums to more than one
        bads.append({**full, dom[0]: u - 0.1})                      # sums to less than one
        bads.append({**full, dom[0]: u + 1e-3})
        bads.append({**full, dom[0]: u - 1e-3})
        bads.append({d: 0.0 for d in dom})
        bads.append({**full, dom[0]: 0.0, "nope": u})               # an unknown state instead of one
        bads.append({**full, "nope": 0.0})                          # an additional state, probability zero
        bads.append({d: 1.0 / (s - 1) for d in dom[1:]})            # a missing state, sum one
        bads.append({d: 1.0 / (s - 1) for d in dom[:-1]})
        if s == 2:
            bads.append({dom[0]: -0.5, dom[1]: 1.5})                # negative, sums to one
            bads.append({dom[0]: 2.0, dom[1]: -1.0})
        else:
            bads.append({dom[0]: -0.25, dom[1]: 0.75, dom[2]: 0.5})  # negative although none exceeds one
            bads.append({dom[0]: 0.5, dom[1]: -0.25, dom[2]: 0.75})
            bads.append({dom[0]: 1.5, dom[1]: -0.25, dom[2]: -0.25})
        bads.append({"nope": 1.0})
        bads += ["nope", 17, None, {}]
        strict = len(bads)
        # things that look like a state, but are not equal to it
        for d in dom:
            alikes = [str(d), repr(d), (d,), " " + str(d), str(d).upper(), str(d).swapcase(), str(d)[:1], str(d) + str(d), b"" + str(d).encode()]
            if isinstance(d, str):
                alikes += [d + " ", d[:-1]]
            elif isinstance(d, bool):
                alikes += [int(d) + 2, -1]
            else:
                alikes += [d + 0.25, d + 1e-9, -d - 1, complex(d, 1)]
            for a in alikes:
                if not any(a == x for x in dom):
                    bads.append(a)
                    bads.append({**{x: u for x in dom if x != d}, a: u})
        for k, b in enumerate(bads):
            ok, ie = ctx.guard(lambda: IE(bn), "engine", net.describe)
            if not ok:
                return
            ctx.state()
            ctx.trans()
            ctx.trace()
            ctx.raises(lambda: ie.do_intervention(nm, b), ValueError if k < strict else Exception, "do(%s, %r)" % (nm, b), net.describe)
            check(ctx, ie, net, {}, {}, "after the rejected do(%s, %r)" % (nm, b), net.describe)
            for e in list(net.all_evidence(1, 1))[:3]:
                check(ctx, ie, net, {}, e, "after the rejected do(%s, %r)" % (nm, b), net.describe)
    ok, ie = ctx.guard(lambda: IE(bn), "engine", net.describe)
    if ok:
        ctx.raises(lambda: ie.do_intervention("nosuchvariable", net.doms[0][0]), Exception, "do on an unknown variable")
        check(ctx, ie, net, {}, {}, "after do on an unknown variable", net.describe)
