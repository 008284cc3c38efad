"""Conditional tables: rows and given-lists may come in any order; the table is reproduced exactly."""
import itertools

from ..ebay import mod, net_from_spec
from ..nets import NAMES, VALUES, Net, all_dags, diff_marginals

PROPERTY = "C10"
MEANING = ("state = (conditional table, order of its rows, order of the givens in each row); transition = one call of the produced factor; trace "
           "= one factor whose value at every assignment equals the table, or one network built from it and queried")
BOUNDS = {
    "quick": "children with 0..3 parents of sizes 2/3 and with 4 binary parents, with and without a value that never occurs, 5 name tables, 8 value tables; all orders of <=4 rows (rotations and reversals of more), every "
             "combination of given-orders per row for <=4 rows, givens as lists and tuples; children with 9, 10 and 12 values; three "
             "tables for each structure on 2 and 3 variables, all made (in every order) before any is used",
    "thorough": "as quick with all 720 orders of 6 rows and all given-order combinations for <=8 rows",
}
CHUNK = 4


def units(tier):
    us = []
    shapes = [([], [2]), ([], [3]), ([2], [2]), ([3], [2]), ([2], [3]), ([2, 2], [2]), ([2, 2], [3]), ([3, 2], [2]), ([2, 2, 2], [2]), ([2, 2, 2, 2], [2])]
    for ps, cs in shapes:
        for names in NAMES:
            for values in ("bool", "str", "odd", "intrev") if names != "alpha" else [v for v in VALUES if v != "long"]:
                if values.startswith("bool") and 3 in ps + cs or len(ps) == 4 and names in ("alpha", "digits", "clash") and values != "str":
                    continue
                us.append({"ps": ps, "cs": cs[0], "names": names, "values": values, "all": tier == "thorough"})
                if names in ("alpha", "mixed") and cs[0] == 3 and len(ps) < 2:
                    us.append({"ps": ps, "cs": cs[0], "names": names, "values": values, "all": False, "never": True})
    # children with many values, and two networks over the same variables alive at the same time
    for ps in ([], [2], [2, 2]):
        for cs in (9, 10, 12):
            for names in ("alpha", "mixed"):
                us.append({"ps": ps, "cs": cs, "names": names, "values": "long", "all": False})
    for p in all_dags(2) + all_dags(3):
        for names in ("alpha", "mixed"):
            us.append({"k": "two", "parents": p, "names": names, "values": "bool" if names == "alpha" else "str"})
    return us


def two(u, ctx):
    """Two networks with the same variables and structure but other tables, both built before either is used."""
    m = mod()
    sp = {"parents": u["parents"], "names": u["names"], "values": u["values"]}
    nets = [net_from_spec(dict(sp, cpt=c)) for c in ("generic:62", "sparse:63", "generic:64")]
    for order in itertools.permutations(range(3)):
        built = {}
        for k in order:
            conds = nets[k].conditionals()
            ok, built[k] = ctx.guard(lambda: m.build_bbn_from_conditionals(conds), "network from conditionals", lambda: repr(conds))
            if not ok:
                return
        fs = {}
        for k in order:
            for i, rows in nets[k].conditionals().items():
                fs[k, i] = m.make_node_func(i, rows)
        ctx.state()
        for k in range(3):
            net = nets[k]
            for e in net.all_evidence(1):
                ctx.trans()
                t, want = net.marginals(e)
                ok, got = ctx.guard(lambda: built[k].query(**net.ev(e)), "query", net.describe)
                d = ok and diff_marginals(got, want)
                if not ok or d:
                    ok and ctx.fail("networks built in the order %r, then network %d: query(%r): %s" % (order, k, net.ev(e), d), net.describe)
                    return
            for i, ps in enumerate(net.parents):
                par = sorted(ps, key=lambda q: net.names[q])
                for cfg in itertools.product(*[range(net.sizes[q]) for q in ps]):
                    env = dict(zip(ps, cfg))
                    for x in range(net.sizes[i]):
                        ctx.trans()
                        args = [net.doms[q][env[q]] for q in par] + [net.doms[i][x]]
                        got = fs[k, net.names[i]](*args)
                        if got != net.p(i, cfg, x):
                            ctx.fail("factors made in the order %r: the factor of %s of table %d at %r is %r, should be %r" % (
                                order, net.names[i], k, args, got, net.p(i, cfg, x)), net.describe)
                            return
            ctx.trace()
    ctx.outcome(repr(u["parents"]))


def row_orders(n, everything):
    if n <= 4 or (everything and n <= 6):
        return list(itertools.permutations(range(n)))
    res = []
    for k in range(n):
        r = list(range(n))
        r = r[k:] + r[:k]
        res += [tuple(r), tuple(r[::-1])]
    return res


def run_unit(u, ctx):
    if u.get("k") == "two":
        return two(u, ctx)
    m = mod()
    from causalnex.ebaybbn.utils import get_args
    k = len(u["ps"])
    for child in range(k + 1):
        # the child takes every position in the name table, so that it sorts before, between and after its parents
        parents = [()] * (k + 1)
        others = [i for i in range(k + 1) if i != child]
        parents[child] = tuple(others)
        sizes = [0] * (k + 1)
        for i, s in zip(others, u["ps"]):
            sizes[i] = s
        sizes[child] = u["cs"]
        net = net_from_spec({"parents": parents, "sizes": sizes, "cpt": "generic:61", "names": u["names"], "values": u["values"]})
        if u.get("never"):
            # one value is listed, but with probability zero under every condition
            cpt = [dict(rows) for rows in net.cpt]
            cpt[child] = {cfg: [r[0] + r[1], 0, r[2]] for cfg, r in cpt[child].items()}
            net = Net(net.parents, net.sizes, cpt, u["names"], u["values"])
        name = net.names[child]
        base = net.conditionals()
        rows = base[name]
        full = {}
        for cfg in net.cpt[child]:
            for x in range(sizes[child]):
                env = dict(zip([net.names[p] for p in others], [net.doms[p][c] for p, c in zip(others, cfg)]))
                full[tuple(sorted(env.items(), key=lambda z: z[0]))] = full.get(tuple(sorted(env.items(), key=lambda z: z[0])), {})
                full[tuple(sorted(env.items(), key=lambda z: z[0]))][x] = net.p(child, cfg, x)
        gperm = list(itertools.permutations(range(k)))
        gcombos = list(itertools.product(range(len(gperm)), repeat=len(rows))) if len(rows) <= (8 if u["all"] and k < 3 else 4) else (
            [(g,) * len(rows) for g in range(len(gperm))] + [tuple((r + g) % len(gperm) for r in range(len(rows))) for g in range(len(gperm))])
        for ro in row_orders(len(rows), u["all"]):
            for gc in (gcombos if ro == tuple(range(len(rows))) else gcombos[:1] + gcombos[-1:]):
                for gt in (list, tuple):
                    table = [[[gt(rows[r][0][j]) for j in gperm[gc[r]]], dict(rows[r][1])] for r in ro]
                    ctx.state()
                    what = "rows in order %r, givens %r" % (ro, gc)
                    case = lambda: {"table": repr(table), "child": name}  # noqa: E731
                    ok, f = ctx.guard(lambda: m.make_node_func(name, table), what, case)
                    if not ok:
                        return
                    want_args = sorted(net.names[p] for p in others) + [name]
                    if list(get_args(f)) != want_args:
                        ctx.fail("%s: the factor takes %r, expected the parents in alphabetical order and then the child: %r" % (
                            what, get_args(f), want_args), case)
                        return
                    for key, dist in full.items():
                        args = [v for _, v in key]
                        for x, p in dist.items():
                            ctx.trans()
                            ok, got = ctx.guard(lambda: f(*args, net.doms[child][x]), what, case)
                            if not ok:
                                return
                            if got != p:
                                ctx.fail("%s: factor(%r) is %r, should be %r" % (what, args + [net.doms[child][x]], got, p), case)
                                return
                    ctx.trace()
        # networks built from shuffled tables
        for perm in itertools.islice(itertools.permutations(range(net.n)), 6):
            conds = {net.names[i]: base[net.names[i]] for i in perm}
            conds[name] = conds[name][::-1]
            ok, bbn = ctx.guard(lambda: m.build_bbn_from_conditionals(conds), "network from conditionals", lambda: repr(conds))
            if not ok:
                return
            for e in [{}] + [{child: x} for x in range(sizes[child])]:
                ctx.trans()
                t, want = net.marginals(e)
                ok, got = ctx.guard(lambda: bbn.query(**net.ev(e)), "query", lambda: repr(conds))
                d = ok and diff_marginals(got, want)
                if d:
                    ctx.fail("network from conditionals %r: query(%r): %s" % (perm, net.ev(e), d), lambda: repr(conds))
                    return
            ctx.trace()
        ctx.outcome((child, len(rows)))
    ctx.sample(u)
