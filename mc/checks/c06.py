"""Presentation independence: the same network, however it is written down or iterated, gives the same answers."""
import itertools

from ..ebay import mod, net_from_spec, walk
from ..hashes import Order, controlled
from ..nets import all_dags

PROPERTY = "C06"
MEANING = ("state = (network, presentation, evidence); transition = one query; trace = one answer compared with the joint.  A presentation "
           "is: order of the factors x argument order x container of the domains x order of the values, or the order in which the "
           "engine's sets of its own objects iterate (controlled through their hashes)")
BOUNDS = {
    "quick": "all 25 DAGs on 3 nodes x 6 factor orders x 4 argument orders x 3 containers x 27 evidences; 543 DAGs on 4 nodes x "
             "all 24 factor orders x 2 evidences; 25 DAGs on 3 nodes and 8 loopy shapes x 24 iteration orders of the engine's sets; conditional tables in "
             "every row order and both parent orders; 36 orders of domain values, domains of 11 to 13 values, 5 namings of the factor functions, and domains of plain objects compared by identity",
    "thorough": "as quick, 4-node structures with all 24 factor orders x evidence <=1, and all 120 iteration orders",
}
CHUNK = 6
LOOPY = [[(), (0,), (0,), (1, 2)], [(), (), (0, 1), (1, 2)], [(), (0,), (1,), (0, 2)], [(), (0,), (0,), (0,)],
         [(), (0,), (0,), (1, 2), (3,)], [(), (0,), (1,), (2,), (0, 3)], [(), (), (), (0, 1, 2)], [(1,), (), (1, 0), (3,), ()][:3] + [(), (3,)]]


class Level:
    """A state compared by identity, like an instance of any plain user class."""

    def __init__(self, label):
        self.label = label

    def __repr__(self):
        return "level_%s" % self.label


class PlantedHash:
    """A value whose hash (and so its place in a set) is chosen; equality by label, like any user-defined state."""

    def __init__(self, label, h):
        self.label, self.h = label, h

    def __hash__(self):
        return self.h

    def __eq__(self, other):
        return isinstance(other, PlantedHash) and other.label == self.label

    def __repr__(self):
        return "state_%s" % self.label


def units(tier):
    thorough = tier == "thorough"
    us = []
    for p in all_dags(3):
        us.append({"k": "pres", "parents": p, "cpt": "sparse:31", "sizes": [2, 3, 2], "values": "str"})
        us.append({"k": "rows", "parents": p, "cpt": "generic:33", "sizes": [2, 2, 2], "values": "str"})
        us.append({"k": "values", "parents": p, "cpt": "sparse:34", "sizes": [3, 2, 3]})
        us.append({"k": "hash", "parents": p, "cpt": "sparse:35", "perm": 5 if thorough else 4})
    for p in ([()], [(), (0,)], [(1,), ()], [(), (), (0, 1)]):
        for big in (11, 13):
            us.append({"k": "big", "parents": p, "cpt": "generic:37", "sizes": [big, 12, 2][:len(p)]})
    for p in ([(), (0,), (1,)], [(), (0,), (0,)], [(1,), (), (1,)]):
        for sizes in ([2, 11, 2], [11, 2, 2], [3, 12, 12]):
            us.append({"k": "big", "parents": p, "cpt": "generic:39", "sizes": sizes})
    for p in all_dags(3):
        us.append({"k": "fnames", "parents": p, "cpt": "generic:38"})
    for p in all_dags(4):
        us.append({"k": "perm4", "parents": p, "cpt": "generic:32", "max_ev": 1 if thorough else 0})
    for p in LOOPY:
        us.append({"k": "hash", "parents": p, "cpt": "sparse:36", "perm": 5 if thorough else 4})
    return us


def run_unit(u, ctx):
    m = mod()
    if u["k"] == "values":
        base = net_from_spec(dict(u, values="str"))
        plain = net_from_spec(dict(u, values=[[Level("%d%d" % (i, x)) for x in range(s)] for i, s in enumerate(base.sizes)]))
        for kw in ({"container": "list"}, {"container": "set"}, {"how": "cond"}):
            ok, bbn = ctx.guard(lambda: plain.build(m, **kw), "building over plain objects", plain.describe)
            if ok:
                walk(ctx, plain, bbn, plain.all_evidence(2), "states compared by identity %r" % (kw,))
        n = 0
        for orders in itertools.product(*[list(itertools.permutations(range(s))) for s in base.sizes]):
            # hashes decide the order in which a set container (and build_bbn_from_conditionals) lists the values
            doms = [[PlantedHash("%d%d" % (i, x), o[x]) for x in range(len(o))] for i, o in enumerate(orders)]
            net = net_from_spec(dict(u, values=doms))
            for kw in ({"container": "set"}, {"how": "cond"}):
                ok, bbn = ctx.guard(lambda: net.build(m, **kw), "building", net.describe)
                if ok:
                    walk(ctx, net, bbn, list(net.all_evidence(1)) + [{0: 1, 2: 2}, {0: 2, 1: 0}], "value order %r" % (orders,))
            n += 1
        ctx.sample(dict(u, value_orders=n))
        return
    if u["k"] == "big":
        # more than ten values: they sort differently as text and as numbers
        for lab in (lambda x: x, lambda x: "v%d" % x, lambda x: -x, lambda x: (x // 10, x % 10)):
            for turn in (0, 5):
                dom = [[lab(x) for x in range(s)] for s in u["sizes"]]
                net = net_from_spec(dict(u, values=[d[turn:] + d[:turn] for d in dom]))
                for kw in ({"container": "list"}, {"container": "set"}, {"container": "tuple"}, {"how": "cond"}):
                    ok, bbn = ctx.guard(lambda: net.build(m, **kw), "building", net.describe)
                    if ok:
                        walk(ctx, net, bbn, net.all_evidence(1), "domains of %r values %r" % (u["sizes"], kw))
        ctx.sample(u)
        return
    net = net_from_spec(u)
    if u["k"] == "fnames":
        # what the factor functions are called tells nothing about the variables
        for fname in (lambda i: "factor%d" % i, lambda i: "f_" + net.names[(i + 1) % net.n], lambda i: net.names[(i + 1) % net.n], lambda i: net.names[i],
                      lambda i: "F_" + net.names[-1 - i]):
            for perm in itertools.permutations(range(net.n)):
                fs = [net.func(i, "rev") for i in perm]
                for i, f in zip(perm, fs):
                    f.__name__ = fname(i)
                ok, bbn = ctx.guard(lambda: m.build_bbn(fs, domains=net.domains()), "building", net.describe)
                if ok:
                    walk(ctx, net, bbn, net.all_evidence(2), "factors called %r" % [f.__name__ for f in fs])
        ctx.sample(u)
        return
    if u["k"] == "pres":
        for perm in itertools.permutations(range(net.n)):
            for order in ("last", "first", "rev", "sorted"):
                for cont in ("list", "tuple", "set"):
                    for as_list in ((True, False) if order == "last" else (True,)):
                        ok, bbn = ctx.guard(lambda: net.build(m, perm=perm, order=order, container=cont, as_list=as_list),
                                            "building %r %r %r" % (perm, order, cont), net.describe)
                        if ok:
                            evs = net.all_evidence() if cont == "list" and as_list else net.all_evidence(1)
                            walk(ctx, net, bbn, evs, "factors in order %r, arguments %s, domains as %s" % (perm, order, cont))
    elif u["k"] == "perm4":
        for perm in itertools.permutations(range(net.n)):
            ok, bbn = ctx.guard(lambda: net.build(m, perm=perm), "building %r" % (perm,), net.describe)
            if ok:
                evs = list(net.all_evidence(u["max_ev"])) + ([] if u["max_ev"] else [{net.n - 1: 1}])
                walk(ctx, net, bbn, evs, "factors in order %r" % (perm,))
    elif u["k"] == "rows":
        for perm in itertools.permutations(range(net.n)):
            for child in range(net.n):
                conds = {net.names[i]: net.conditionals()[net.names[i]] for i in perm}
                rows = conds[net.names[child]]
                for ro in itertools.islice(itertools.permutations(range(len(rows))), 24):
                    for rev in (False, True):
                        c = dict(conds)
                        c[net.names[child]] = [[rows[r][0][::-1] if rev else rows[r][0], rows[r][1]] for r in ro]
                        ok, bbn = ctx.guard(lambda: m.build_bbn_from_conditionals(c), "building from conditionals", net.describe)
                        if ok:
                            walk(ctx, net, bbn, [{}, {child: 1}], "rows of %s in order %r, parents %s" % (
                                net.names[child], ro, "reversed" if rev else "as listed"))
    elif u["k"] == "hash":
        for perm in itertools.permutations(range(u["perm"])):
            o = Order(perm)
            with controlled(o) as k:
                ctx.count("classes_controlled", k)
                ok, bbn = ctx.guard(lambda: net.build(m), "building", net.describe)
                if ok:
                    for e in list(net.all_evidence(1)) + [{0: 0, net.n - 1: 1}]:
                        o.reset()
                        walk(ctx, net, bbn, [e], "iteration order %r" % (perm,))
    ctx.sample(u)
