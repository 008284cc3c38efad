"""Building: the graph of a network is exactly what the factor signatures say."""
import itertools

from ..ebay import mod, net_from_spec
from ..nets import FAMILIES, all_dags, chain, iso_dags, relabel

PROPERTY = "C11"
MEANING = ("state = (structure, order of the factors, order of the arguments); transition = one network built from real functions; trace = one "
           "built network whose nodes, parents, children, variable-to-factor map, domains and listing equal the specification")
BOUNDS = {
    "quick": "all DAGs on <=3 nodes x all factor orders x 4 argument orders x {signatures, declared argument lists} x {list, separate arguments}; "
             "543 DAGs on 4 nodes x 24 factor orders; 302 classes on 5 nodes x 120 factor orders; 24 larger shapes x 4; functions named after other variables (3- and 4-node structures); 300 factors in one list",
    "thorough": "as quick, 4-node structures x 24 factor orders x 4 argument orders, 5984 classes on 6 nodes x 24 factor orders",
}
CHUNK = 12


def units(tier):
    us = []
    thorough = tier == "thorough"
    for n in (1, 2, 3):
        for p in all_dags(n):
            us.append({"parents": p, "orders": "all", "args": ["last", "first", "rev", "sorted"], "styles": ["sig", "argspec"]})
    for p in all_dags(4):
        us.append({"parents": p, "orders": "all", "args": ["last", "first", "rev", "sorted"] if thorough else ["sorted"], "styles": ["argspec"]})
    for p in iso_dags(5):
        us.append({"parents": p, "orders": "all", "args": ["rev"], "styles": ["argspec"]})
    if thorough:
        for p in iso_dags(6):
            us.append({"parents": relabel(p, (3, 0, 5, 1, 4, 2)), "orders": "cyc", "args": ["last"], "styles": ["argspec"]})
    for f in FAMILIES:
        us.append({"family": f, "orders": "cyc", "args": ["last", "rev"], "styles": ["sig"]})
    for p in all_dags(3) + all_dags(4)[::7]:
        us.append({"parents": p, "orders": "all", "args": ["rev"], "styles": ["argspec"], "fnames": 1})
    us.append({"big": 300})
    return us


def check_bbn(net, bbn, fs):
    """None or the first difference from the specification."""
    names = net.names
    by = {}
    for nd in bbn.nodes:
        if nd.variable_name in by:
            return "variable %r is introduced twice" % nd.variable_name
        by[nd.variable_name] = nd
    if set(by) != set(names):
        return "variables %r, expected %r" % (sorted(by), names)
    for i, v in enumerate(names):
        nd = by[v]
        if nd.name != fs[i].__name__ or nd.func is not fs[i]:
            return "variable %s is introduced by %r instead of %r" % (v, nd.name, fs[i].__name__)
        ps = sorted(p.variable_name for p in nd.parents)
        want = sorted(names[p] for p in net.parents[i])
        if ps != want:
            return "parents of %s are %r, expected %r" % (v, ps, want)
        cs = sorted(c.variable_name for c in nd.children)
        want = sorted(names[j] for j in range(net.n) if i in net.parents[j])
        if cs != want:
            return "children of %s are %r, expected %r" % (v, cs, want)
        if any(not any(p is q for q in bbn.nodes) for p in list(nd.parents) + list(nd.children)):
            return "a neighbour of %s is no node of the network" % v
    if set(bbn.vars_to_nodes) != set(names) or any(bbn.vars_to_nodes[v] is not by[v] for v in names):
        return "the variable to node map disagrees with the nodes"
    src = bbn.get_graphviz_source()
    lines = [ln.strip().rstrip(";") for ln in src.splitlines()]
    edges = sorted(tuple(x.strip() for x in ln.split("->")) for ln in lines if "->" in ln)
    want = sorted((fs[p].__name__, fs[i].__name__) for i in range(net.n) for p in net.parents[i])
    if edges != want:
        return "the listing has the edges %r, expected %r" % (edges, want)
    nodes = sorted(ln.split()[0] for ln in lines if "shape=" in ln and "->" not in ln)
    if nodes != sorted(f.__name__ for f in fs):
        return "the listing has the nodes %r" % (nodes,)
    return None


def run_unit(u, ctx):
    m = mod()
    from causalnex.ebaybbn.utils import get_original_factors
    if "big" in u:
        n = u["big"]
        net = net_from_spec({"parents": chain(n), "cpt": "uniform", "names": ["v%d" % i for i in range(n)]})
    else:
        net = net_from_spec(dict(u, cpt="uniform", names="mixed"))
    n = net.n
    if u.get("orders") == "all":
        perms = list(itertools.permutations(range(n)))
    else:
        r = list(range(n))
        perms = [r, r[::-1], r[n // 2:] + r[:n // 2], r[::2] + r[1::2]]
    for order in u.get("args", ["last"]):
        for style in u.get("styles", ["argspec"]):
            fs = [net.func(i, order, style) for i in range(n)]
            if u.get("fnames"):
                # the names of the functions say nothing about the variables they introduce
                for i, f in enumerate(fs):
                    f.__name__ = "f_" + net.names[(i + 1) % n]
            doms = net.domains()
            for perm in perms:
                for as_list in ((True, False) if n <= 3 else (True,)):
                    ctx.state()
                    ctx.trans()
                    given = [fs[i] for i in perm]
                    arg = list(given)
                    what = "factors %r, arguments %s (%s)" % ([f.__name__ for f in given][:8], order, style)
                    ok, bbn = ctx.guard(lambda: m.build_bbn(arg, domains=doms) if as_list else m.build_bbn(*arg, domains=doms),
                                        what, lambda: {"structure": net.describe()["parents"]})
                    if not ok:
                        return
                    d = check_bbn(net, bbn, fs)
                    if not d and arg != given:
                        d = "the caller's list of factors was changed"
                    if not d and bbn.domains != doms:
                        d = "domains changed"
                    if d:
                        ctx.fail("%s: %s" % (what, d), lambda: {"structure": net.describe()["parents"]})
                        return
                    ok, of = ctx.guard(lambda: get_original_factors(given), what)
                    if ok and any(of.get(net.names[i]) is not fs[i] for i in range(n)) or ok and len(of) != n:
                        ctx.fail("%s: the factors introducing the variables are identified as %r" % (
                            what, {k: f.__name__ for k, f in of.items()}))
                        return
                    ctx.trace()
    ctx.outcome((n, sum(map(len, net.parents))))
    ctx.sample({"structure": net.describe()["parents"] if n < 6 else u})
