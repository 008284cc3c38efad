"""Answer shape and evidence validation."""
import itertools

from ..ebay import check_query, mod, net_from_spec
from ..nets import VALUES, all_dags, diff_marginals

PROPERTY = "C03"
MEANING = ("state = (network, evidence dictionary) over an alphabet of valid and invalid names and values; transition = one "
           "query; trace = one query whose outcome (answer table, or the kind of rejection) is compared with the specification")
BOUNDS = {
    "quick": "all 25 DAGs on 3 nodes x 8 value tables x every evidence dictionary with <=2 entries over {3 variables, 5 unknown names} x "
             "{each domain value, 8 foreign values, among them strings that print like a domain value}; dictionaries of up to 5 entries about 4- and 5-node "
             "networks with one bad entry at every place; default and explicit domains; domains given as list, tuple, set",
    "thorough": "as quick with evidence dictionaries of <=3 entries, and 4-node structures",
}
CHUNK = 8
FOREIGN = ["nope", 99, None, "", 0.25, ("z",), (), "lo", 3, False]


def units(tier):
    us = []
    thorough = tier == "thorough"
    for p in all_dags(3):
        for values in VALUES:
            for cont in ("list", "tuple", "set"):
                if cont != "list" and (sum(map(len, p)) % 2 or values == "tuple"):
                    continue
                us.append({"parents": p, "values": values, "cont": cont, "max": 3 if thorough else 2,
                           "sizes": [2, 2, 2] if values.startswith("bool") else [2, 3, 2]})
        us.append({"parents": p, "values": "bool", "cont": None, "max": 2, "sizes": [2, 2, 2]})
    # longer dictionaries, with the bad entry at every place
    for p in ([(), (0,), (0, 1), (2,)], [(3,), (), (1,), ()], [(), (0,), (1,), (2,), (3,)], [(), (), (0, 1), (2,), (1,)]):
        for values in ("bool", "str", "odd", "float"):
            us.append({"k": "long", "parents": p, "values": values, "cont": "list",
                       "sizes": [2] * len(p) if values == "bool" else [2, 3, 2, 1, 2][:len(p)]})
    if thorough:
        for p in all_dags(4)[::5]:
            us.append({"parents": p, "values": "odd", "cont": "list", "max": 2, "sizes": [2, 3, 1, 2]})
    return us


def lookalikes(dom):
    """Values that print, or nearly print, like a value of the domain without being one."""
    res = []
    for v in dom[:2]:
        for w in (str(v), v + " " if type(v) is str else repr(v) + " "):
            if not any(w == d for d in dom) and w not in res:
                res.append(w)
    return res[:3]


def long_evidence(u, ctx, net, bbn, exc):
    """Evidence about nearly every variable, with one bad entry at every place of the dictionary."""
    for size in range(2, net.n + 1):
        for vs in itertools.combinations(range(net.n), size):
            e = {v: (v + size) % net.sizes[v] for v in vs}
            ctx.state()
            ctx.trans()
            check_query(ctx, net, bbn, e, "long evidence")
            for turn in range(size):
                ent = [(net.names[v], net.doms[v][e[v]]) for v in vs]
                ent = ent[turn:] + ent[:turn]
                for pos in range(size + 1):
                    bads = [(ent[:pos] + [("nosuch", net.doms[0][0])] + ent[pos:], exc.VariableNotInGraphError)]
                    if pos < size:
                        bads.append((ent[:pos] + [(ent[pos][0], "no such value")] + ent[pos + 1:], exc.VariableValueNotInDomainError))
                    for bad, want in bads:
                        ev = dict(bad)
                        ctx.state()
                        ctx.trans()
                        ctx.trace()
                        ctx.raises(lambda ev=ev: bbn.query(**ev), want, "query(%r)" % (ev,),
                                   lambda: {"net": net.describe(), "evidence": repr(ev)})
    check_query(ctx, net, bbn, {}, "after rejected queries")
    ctx.outcome(("long", net.n))
    ctx.sample(u)


def run_unit(u, ctx):
    m = mod()
    exc = __import__("causalnex.ebaybbn.exceptions", fromlist=["x"])
    net = net_from_spec(dict(u, cpt="sparse:4"))
    ok, bbn = ctx.guard(lambda: net.build(m, default_domains=u["cont"] is None, container=u["cont"] or "list"),
                        "building the network", net.describe)
    if not ok:
        return
    if u.get("k") == "long":
        return long_evidence(u, ctx, net, bbn, exc)
    unknown = ["zzz", "A", "f_a", "aa", "b "]
    names = net.names + unknown
    options = []
    for nm in names:
        opts = []
        if nm in net.names:
            i = net.names.index(nm)
            for x, v in enumerate(net.doms[i]):
                opts.append((nm, v, ("ok", i, x)))
            k = 0
            for v in lookalikes(net.doms[i]) + FOREIGN:
                if not any(v == d for d in net.doms[i]):
                    opts.append((nm, v, ("value",)))
                    k += 1
                    if k == (8 if u["max"] == 2 else 5):
                        break
        else:
            opts.append((nm, net.doms[0][0], ("name",)))
        options.append(opts)
    for k in range(0, u["max"] + 1):
        for combo in itertools.combinations(range(len(names)), k):
            if sum(1 for c in combo if c >= net.n) > 1:
                continue
            for choice in itertools.product(*[options[c] for c in combo]):
                for flip in ((False, True) if k == 2 and any(c[2][0] != "ok" for c in choice) else (False,)):
                    ent = choice[::-1] if flip else choice
                    ev = {nm: v for nm, v, _ in ent}
                    kinds = {c[2][0] for c in ent}
                    ctx.state()
                    ctx.trans()
                    if kinds <= {"ok"}:
                        check_query(ctx, net, bbn, {c[2][1]: c[2][2] for c in ent}, "valid evidence")
                        ctx.outcome("ok")
                        continue
                    want = tuple([exc.VariableNotInGraphError] * ("name" in kinds)
                                 + [exc.VariableValueNotInDomainError] * ("value" in kinds))
                    ctx.trace()
                    ctx.raises(lambda ev=ev: bbn.query(**ev), want, "query(%r)" % (ev,),
                               lambda: {"net": net.describe(), "evidence": repr(ev)})
                    ctx.outcome(tuple(sorted(kinds)))
    # still answers exactly afterwards
    check_query(ctx, net, bbn, {}, "after rejected queries")
    ctx.sample(u)
