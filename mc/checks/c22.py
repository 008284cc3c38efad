"""Variable schemas and the mapping of variables to feature columns."""
import copy
import itertools

PROPERTY = "C22"
MEANING = ("state = schema (variables with types); transition = one query of the mapper or validation; trace = one schema with all answers compared with "
           "the specification's columns")
BOUNDS = {
    "quick": "every assignment of 8 types (binary, continuous, count, categorical:1,2,3,10,12) to <= 4 variables under 5 tables of names (names that look like features of another variable, numbers, "
             "tuples, prefixes of one another); every order of 3 variables; every subset and order of <= 3 variables as list, set and iterator; validation for every partial schema, node container, default and invalid type",
    "thorough": "as quick with 5 variables",
}
ASSUMPTIONS = ["pandas / scikit-learn stand-ins allow the package to be imported"]
CHUNK = 4
TYPES = ["binary", "continuous", "count", "categorical:1", "categorical:2", "categorical:3", "categorical:10", "categorical:12"]
NAMES = {
    "plain": ["a", "b", "c", "d", "e"],
    "feature-like": ["a", "a_0", "a_1", "a_0_0", "a_1_1"],
    "mixed": [0, "x", ("t", 1), 2.5, "0_x"],
    "prefix": ["v", "vv", "v_", "_v", "v "],
    "typed": ["binary", "continuous", "categorical", "count", "categorical:2"],
}
INVALID = ["", "Binary", "categorical", "categorical:", "categorical:0", "categorical:03", "categorical:x", "categorical:-1", "other", "string", "int", "categorical3", "categorical: 3", "conti"]


def units(tier):
    us = []
    for t in NAMES:
        for n in range(0, 4):
            us.append({"k": "map", "names": t, "n": n, "mod": 1, "rem": 0})
        for r in range(4):
            us.append({"k": "map", "names": t, "n": 4, "mod": 4, "rem": r})
        us.append({"k": "orders", "names": t})
        us.append({"k": "validate", "names": t})
        if tier == "thorough":
            for r in range(16):
                us.append({"k": "map", "names": t, "n": 5, "mod": 16, "rem": r})
    return us


def run_unit(u, ctx):
    from ..graphs import load
    load()
    from causalnex.structure import categorical_variable_mapper as cvm
    names = NAMES[u["names"]]
    if u["k"] == "map":
        for i, ts in enumerate(itertools.product(TYPES, repeat=u["n"])):
            if i % u["mod"] == u["rem"]:
                one(ctx, cvm, list(zip(names, ts)), full=u["n"] <= 2 or i % 29 == 0)
        ctx.sample(u)
    elif u["k"] == "orders":
        for ts in itertools.product(("binary", "count", "continuous", "categorical:2", "categorical:11"), repeat=3):
            for perm in itertools.permutations(range(3)):
                one(ctx, cvm, [(names[p], ts[p]) for p in perm], full=True)
    else:
        validate(ctx, cvm, names)


def card(t):
    return int(t.split(":")[1]) if t.startswith("categorical") else 1


def one(ctx, cvm, items, full):
    schema = dict(items)
    case = {"schema": [(repr(k), v) for k, v in items]}
    before = dict(schema)
    ctx.state()
    ctx.trace()
    ok, m = ctx.guard(lambda: cvm.VariableFeatureMapper(schema), "VariableFeatureMapper", case)
    if not ok:
        return
    if schema != before:
        ctx.fail("the schema was changed to %r" % schema, case)

    def eq(what, got, want):
        ctx.trans()
        if got != want:
            ctx.fail("%s is %r, should be %r" % (what, got, want), case)

    nvar, nft = len(items), sum(card(t) for _, t in items)
    if not items:
        eq("n_variables", m.n_variables, 0)
        eq("n_features", m.n_features, 0)
        return
    eq("n_variables", m.n_variables, nvar)
    eq("n_features", m.n_features, nft)
    vl = list(m.variable_list)
    if len(vl) != nvar or set(vl) != set(schema):
        ctx.fail("variable_list is %r" % (vl,), case)
    for kind in ("binary", "continuous", "count", "categorical"):
        want = [k for k, t in items if t.split(":")[0] == kind]
        got = m.get_var_of_type(kind)
        ctx.trans()
        if len(got) != len(want) or set(got) != set(want):
            ctx.fail("get_var_of_type(%r) is %r, should be %r" % (kind, got, want), case)
        for k, _ in items:
            eq("is_var_of_type(%r, %r)" % (k, kind), bool(m.is_var_of_type(k, kind)), k in want)
    feats = list(m.get_feature_names())
    where = {}
    for k, t in items:
        ctx.trans()
        ok, ix = ctx.guard(lambda: m.get_indices(k), "get_indices(%r)" % (k,), case)
        if not ok:
            return
        where[k] = list(ix)
        want = ["{}_{}".format(k, i) for i in range(card(t))] if t.startswith("categorical") else [k]
        if [feats[i] for i in where[k]] != want:
            ctx.fail("get_indices(%r) gives %r, which are the features %r, should be %r" % (k, ix, [feats[i] for i in where[k]], want), case)
        names = m.get_feature_names(k)
        eq("get_feature_names(%r)" % (k,), list(names) if isinstance(names, list) and t.startswith("cat") else names, want if t.startswith("cat") else k)
        sq = m.get_indices(k, squeeze=True)
        eq("get_indices(%r, squeeze=True)" % (k,), sq, where[k] if t.startswith("categorical") else where[k][0])
    if sorted(i for ix in where.values() for i in ix) != list(range(nft)):
        ctx.fail("the columns of the variables are %r, not a partition of %d columns" % (where, nft), case)
    got = [list(x) for x in m.get_categorical_indices()]
    want = [where[k] for k, t in items if t.startswith("categorical")]
    if sorted(got) != sorted(want):
        ctx.fail("get_categorical_indices() is %r, should be %r" % (got, want), case)
    if len(set(map(repr, feats))) == len(feats):
        for i, f in enumerate(feats):
            eq("get_feature_index(%r)" % (f,), m.get_feature_index(f), i)
        for k, t in items:
            if t.startswith("categorical") and k not in feats:
                ctx.trans()
                ctx.raises(lambda: m.get_feature_index(k), ValueError, "get_feature_index(%r)" % (k,), case)
        for f in ("zz", "zz_0", ("a", "b"), 77, 3.25, None):
            if f not in feats and f not in [k for k, _ in items]:
                ctx.trans()
                ctx.raises(lambda: m.get_feature_index(f), (KeyError, ValueError), "get_feature_index(%r)" % (f,), case)
    if full:
        vs = [k for k, _ in items]
        for r in range(0, min(3, len(vs)) + 1):
            for sub in itertools.permutations(vs, r):
                want = [i for v in sub for i in where[v]]
                eq("get_indices(%r)" % (list(sub),), m.get_indices(list(sub)), want)
                eq("get_indices(iter(%r))" % (list(sub),), m.get_indices(iter(list(sub))), want)
                if len(set(sub)) == len(sub):
                    eq("get_indices(%r)" % (set(sub),), sorted(m.get_indices(set(sub))), sorted(want))
        for bad in ("zz", ("a", "b"), 77, 3.25):
            if bad not in vs:
                ctx.raises(lambda: m.get_indices(bad), ValueError, "get_indices(%r)" % (bad,), case)
        for bad in ("Binary", "", "string", "categorical:3", "bin"):
            ctx.raises(lambda: m.get_var_of_type(bad), ValueError, "get_var_of_type(%r)" % bad, case)
            ctx.raises(lambda: m.is_var_of_type(vs[0], bad), ValueError, "is_var_of_type(_, %r)" % bad, case)
    ctx.outcome((nvar, nft))


def validate(ctx, cvm, names):
    import networkx as nx
    good = [None, "binary", "continuous", "count", "categorical:1", "categorical:3", "categorical:10", "categorical:25", "categorical:101"]
    for n in (1, 2, 3):
        for ts in itertools.product(good, repeat=n):
            if n == 3 and (ts[0] or "") > "categorical:2":
                continue
            given = {k: t for k, t in zip(names, ts) if t}
            extra = dict(given, **{"not a node": "binary"})
            nodes = names[:n]
            g = nx.DiGraph()
            g.add_nodes_from(nodes)
            for default in ("continuous", "binary", "categorical:4", None):
                want = {k: given.get(k, default or "continuous") for k in nodes}
                for cont in (nodes, set(nodes), g.nodes, g.nodes()):
                    for sch in ([given, extra] + ([None] if not given else [])):
                        ctx.state()
                        ctx.trans()
                        ctx.trace()
                        case = {"nodes": [repr(x) for x in nodes], "schema": repr(sch), "default": default}
                        before = copy.deepcopy(sch)
                        kw = {"schema": sch}
                        if default:
                            kw["default_type"] = default
                        ok, res = ctx.guard(lambda: cvm.validate_schema(cont, **kw), "validate_schema", case)
                        if not ok:
                            return
                        if res != want:
                            ctx.fail("validate_schema gives %r, should be %r" % (res, want), case)
                        if sch != before:
                            ctx.fail("validate_schema changed the schema to %r" % sch, case)
                        if res is sch:
                            ctx.fail("validate_schema returns the caller's dictionary", case)
    for bad in ("", "Binary", "other", "string", "int", "conti"):
        for complete in ({k: "binary" for k in names[:3]}, {k: "continuous" for k in names}):
            ctx.trace()
            ctx.raises(lambda: cvm.validate_schema(names[:3], default_type=bad, schema=complete), ValueError, "validate_schema of a complete schema with default %r" % bad)
    for bad in INVALID:
        for at in range(3):
            for others in ("binary", "categorical:2", None):
                sch = {names[i]: others for i in range(3) if others}
                sch[names[at]] = bad
                ctx.state()
                ctx.trans()
                ctx.trace()
                ctx.raises(lambda: cvm.validate_schema(names[:3], schema=sch), ValueError, "validate_schema with %r" % sch)
                ctx.raises(lambda: cvm.validate_schema(names[:3], default_type=bad, schema={k: v for k, v in sch.items() if v != bad}), ValueError,
                           "validate_schema with default %r" % bad)
