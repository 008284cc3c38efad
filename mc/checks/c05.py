"""Concurrent queries: every interleaving (bounded preemptions) of two threads gives each the sequential answer."""
from .. import core
from ..ebay import mod, net_from_spec
from ..hashes import Order, controlled
from ..nets import diff_marginals
from ..sched import Schedule

PROPERTY = "C05"
MEANING = ("state = scheduling point reached; transition = line (or call) of the engine executed under the controlled scheduler; trace = "
           "one complete schedule of two real threads whose results were compared with the joint")
BOUNDS = {
    "quick": "9 two-thread scenarios (same network / different networks with equal names / building, sampling, rejected and "
             "impossible queries), every schedule with <=1 preemption at every source line executed in the engine, from either first "
             "thread; every schedule with 2 preemptions at call granularity for 3 scenarios on the two-variable network",
    "thorough": "as quick on three-variable networks too, 2 preemptions at call granularity for every scenario",
}
ASSUMPTIONS = ["preemption between lines (not within one line's bytecodes); sets of engine objects iterate in one fixed order"]
CHUNK = 2
UNIT_CPU = 600.0

NET2 = {"parents": [(), (0,)], "cpt": "generic:21", "sizes": [2, 2]}
NET2B = {"parents": [(), (0,)], "cpt": "generic:22", "sizes": [2, 2]}
NET3 = {"parents": [(), (0,), (1,)], "cpt": "generic:23", "sizes": [2, 2, 2]}
NET3B = {"parents": [(), (0,), (0,)], "cpt": "sparse:29", "sizes": [2, 2, 2]}
SCENARIOS = ["same_e_e", "same_none_e", "two_nets", "two_nets_e", "build_query", "build_build", "sample_query", "reject_query",
             "twice_query"]
SLICE = 60


def units(tier):
    us = []
    sizes = ("2", "3") if tier == "thorough" else ("2",)
    for sz in sizes:
        for sc in SCENARIOS:
            for first in (0, 1):
                # enough slices for the number of points; empty slices cost one run
                for s in range(24 if sz == "3" else 16):
                    us.append({"net": sz, "sc": sc, "first": first, "gran": "line", "slice": s, "of": 24 if sz == "3" else 16})
        scs = SCENARIOS if tier == "thorough" else ["same_e_e", "two_nets_e", "build_query"]
        for sc in scs:
            for first in (0, 1):
                for s in range(32):
                    us.append({"net": sz, "sc": sc, "first": first, "gran": "call", "slice": s, "of": 32})
    if tier != "thorough":
        for sc in ("same_e_e", "two_nets"):
            for s in range(24):
                us.append({"net": "3", "sc": sc, "first": 0, "gran": "line", "slice": s, "of": 24})
    return us


def scenario(u, m):
    """-> (bodies, checkers): fresh objects for one execution."""
    a, b = (NET2, NET2B) if u["net"] == "2" else (NET3, NET3B)
    na, nb = net_from_spec(a), net_from_spec(b)
    last = na.n - 1

    def q(net, get, e):
        ev = net.ev(e)
        _, want = net.marginals(e)
        return (lambda: get().query(**ev)), (lambda got: diff_marginals(got, want))

    sc = u["sc"]
    if sc.startswith("same"):
        bbn = na.build(m)
        e0 = {} if sc == "same_none_e" else {0: 1}
        return [q(na, lambda: bbn, e0), q(na, lambda: bbn, {last: 0})]
    if sc.startswith("two_nets"):
        ba, bb = na.build(m), nb.build(m)
        e0 = {last: 1} if sc == "two_nets_e" else {}
        return [q(na, lambda: ba, e0), q(nb, lambda: bb, {last: 0} if e0 else {})]
    if sc == "build_query":
        bb = nb.build(m)
        return [q(na, lambda: na.build(m), {last: 1}), q(nb, lambda: bb, {0: 0})]
    if sc == "build_build":
        fs = [na.func(i) for i in range(na.n)]
        dom = na.domains()
        return [q(na, lambda: m.build_bbn(fs, domains=dom), {0: 0}), q(nb, lambda: nb.build(m), {last: 1})]
    if sc == "sample_query":
        bbn = na.build(m)
        given = na.ev({0: 1})

        def okay(s):
            good = len(s) == 1 and set(s[0]) == set(na.names) and all(s[0][k] == v for k, v in given.items())
            return None if good else "sample %r" % (s,)
        return [((lambda: bbn.draw_samples(dict(given), 1)), okay), q(na, lambda: bbn, {last: 0})]
    if sc == "reject_query":
        bbn = na.build(m)

        def rej():
            try:
                bbn.query(nosuch=True)
            except Exception as e:  # pylint: disable=broad-except
                return type(e).__name__
            return "accepted"
        return [(rej, lambda r: None if r == "VariableNotInGraphError" else "rejected query: %s" % r),
                q(na, lambda: bbn, {last: 0})]
    if sc == "twice_query":
        bbn = na.build(m)
        f0, c0 = q(na, lambda: bbn, {last: 1})
        return [((lambda: (f0(), f0())), (lambda rs: c0(rs[0]) or c0(rs[1]))), q(na, lambda: bbn, {0: 0})]
    raise ValueError(sc)


def execute(u, m, plan, ctx):
    import random
    with controlled(Order((0,))):
        random.seed(3)
        sc = scenario(u, m)
        s = Schedule([f for f, _ in sc], u["first"], plan, core.REPO + "/causalnex", u["gran"])
        ok = s.run()
    if not ok:
        ctx.fail("two threads made no progress (deadlock or endless loop) in schedule %r" % (plan,), dict(u, plan=plan))
        raise core.Stop()
    ctx.trace()
    ctx.state(s.points)
    ctx.trans(s.points)
    for t, (kind, val) in enumerate(s.results):
        d = "raised %s: %s" % (type(val).__name__, val) if kind == "raised" else sc[t][1](val)
        if d:
            ctx.fail("%s, thread %d under schedule first=%d, preempted at %s points %r: %s" % (
                u["sc"], t, u["first"], u["gran"], sorted(plan), d), dict(u, plan=sorted(plan)))
    return s


def run_unit(u, ctx):
    m = mod()
    base = execute(u, m, (), ctx)
    again = execute(u, m, (), ctx)
    if (base.points, base.segments) != (again.points, again.segments):
        ctx.count("nondeterministic_replay")
    n0 = base.segments[0][1]
    if u["gran"] == "line":
        for k in range(1 + u["slice"], n0 + 1, u["of"]):
            execute(u, m, (k,), ctx)
        ctx.outcome((u["sc"], n0))
    else:
        for k in range(1 + u["slice"], n0 + 1, u["of"]):
            s1 = execute(u, m, (k,), ctx)
            n1 = s1.segments[1][1]
            for k2 in range(k + 1, k + n1 + 1):
                execute(u, m, (k, k2), ctx)
        ctx.outcome((u["sc"], n0, 2))
    ctx.count("points_first_thread", n0)
    ctx.sample(dict(u, points_of_first_thread=n0))
