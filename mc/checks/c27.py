"""Plots show exactly the structure, styled as asked."""
import itertools
import sys
import types

from ..graphs import all_digraphs, graph_of

PROPERTY = "C27"
MEANING = ("state = (structure, the layers of style that set each attribute); transition = one plot; trace = one plot whose every node, edge and graph attribute is compared with the documented precedence")
BOUNDS = {
    "quick": "all 512 directed graphs (with loops) on 3 nodes and all on <= 2, three tables of names; all 2^4 (2^3) layer combinations for each of 3 attributes on nodes, edges and the graph x every set of individually styled nodes; "
             "colour gradients: all 65,536 channel pairs x 40 numbers of steps (one channel), 4-channel combinations with and without alpha; display with and without the optional packages",
    "thorough": "as quick with all loop-free directed graphs on 4 nodes and 400 numbers of steps",
}
ASSUMPTIONS = ["a recording stand-in for pygraphviz (only what networkx.nx_agraph.to_agraph uses)"]
CHUNK = 1
NAMES = {"abc": ["a", "b", "c", "d"], "mixed": ["a b", "0", "ä", "\\n"], "pre": ["x", "xx", "x_x", ""]}


def units(tier):
    t = tier == "thorough"
    us = [{"k": "graphs", "n": n, "loops": True, "mod": 1, "rem": 0} for n in (0, 1, 2)] + [{"k": "graphs", "n": 3, "loops": True, "mod": 4, "rem": r} for r in range(4)]
    if t:
        us += [{"k": "graphs", "n": 4, "loops": False, "mod": 16, "rem": r} for r in range(16)]
    us += [{"k": "layers", "mod": 4, "rem": r} for r in range(4)]
    us += [{"k": "gradient", "from": f, "to": f + 32, "steps": 400 if t else 40} for f in range(0, 256, 32)] + [{"k": "colors"}, {"k": "display"}]
    return us


def run_unit(u, ctx):
    from ..graphs import load
    load()
    from causalnex import plots
    {"graphs": graphs, "layers": layers, "gradient": gradient, "colors": colors, "display": display}[u["k"]](ctx, plots, u)


def build(names, n, edges):
    from causalnex.structure import StructureModel
    g = StructureModel()
    g.add_nodes_from(names[:n])
    for k, (i, j) in enumerate(edges):
        g.add_edge(names[i], names[j], origin=("unknown", "learned", "expert")[k % 3], **({"weight": k + 0.5} if k % 2 else {}))
    return g


def expect(style, *more):
    res = dict(style)
    for m in more:
        res.update(m or {})
    return {k: str(v) for k, v in res.items()}


def one(ctx, plots, g, case, prog="neato", all_n=None, all_e=None, node=None, edge=None, graph=None):
    ctx.state()
    ctx.trans()
    ctx.trace()
    import copy
    import networkx as nx
    args = {"all_node_attributes": all_n, "all_edge_attributes": all_e, "node_attributes": node, "edge_attributes": edge, "graph_attributes": graph}
    keep, before = copy.deepcopy(args), graph_of(g)
    styles = repr((plots.NODE_STYLE, plots.EDGE_STYLE, plots.GRAPH_STYLE))
    ok, a = ctx.guard(lambda: plots.plot_structure(g, prog=prog, **{k: v for k, v in args.items() if v is not None}), "plot_structure", case)
    if not ok:
        return
    if args != keep or graph_of(g) != before or repr((plots.NODE_STYLE, plots.EDGE_STYLE, plots.GRAPH_STYLE)) != styles:
        ctx.fail("plot_structure changed the structure, its arguments or the default styles", case)
    if not a.directed:
        ctx.fail("the plot is not directed", case)
    if sorted(a.nodes()) != sorted(g.nodes) or sorted(a.edges()) != sorted(g.edges):
        ctx.fail("the plot has nodes %r and edges %r" % (a.nodes(), a.edges()), case)
    for n in g.nodes:
        got = dict(a.get_node(n).attr)
        label = got.get("label", "")
        styled = expect(plots.NODE_STYLE.NORMAL, all_n, (node or {}).get(n))
        want = dict({k: str(v) for k, v in g.nodes[n].items() if k != "label"}, **styled)
        if "label" not in want and str(n) not in label:
            ctx.fail("node %r is labelled %r" % (n, label), case)
        cmp(ctx, "node %r" % (n,), got, want, {"label"}, case)
    for e in g.edges:
        got = dict(a.get_edge(*e).attr)
        own = {k: str(v) for k, v in g.edges[e].items()}
        want = dict(own, **expect(plots.EDGE_STYLE.NORMAL, all_e, (edge or {}).get(e)))
        cmp(ctx, "edge %r" % (e,), got, want, set(), case)
    got = {k: str(v) for k, v in a.graph_attr.items()}
    cmp(ctx, "graph", got, expect(plots.GRAPH_STYLE, graph), set(), case)
    if a.layouts != [prog]:
        ctx.fail("laid out with %r, should be once with %r" % (a.layouts, prog), case)
    ctx.outcome((len(a.nodes()), len(a.edges())))


def cmp(ctx, what, got, want, extra, case):
    for k in want:
        if got.get(k) != want[k]:
            ctx.fail("%s has %s = %r, should be %r" % (what, k, got.get(k), want[k]), case)
    odd = {k: v for k, v in got.items() if k not in want and k not in extra}
    if odd:
        ctx.fail("%s has the unasked attributes %r" % (what, odd), case)


def graphs(ctx, plots, u):
    n = u["n"]
    for i, e in enumerate(all_digraphs(n, None, u["loops"])):
        if i % u["mod"] != u["rem"]:
            continue
        for t, names in NAMES.items():
            g = build(names, n, e)
            case = {"names": t, "edges": [list(x) for x in e], "n": n}
            one(ctx, plots, g, case, prog=("neato", "dot", "fdp")[i % 3])
            if e:
                own = build(names, n, e)
                for q, nm in enumerate(names[:n]):
                    own.nodes[nm].update([{"label": "own label", "color": "own", "note": 7}, {"fontsize": 3}, {}][(q + i) % 3])
                for q, (x, y) in enumerate(e):
                    own.edges[names[x], names[y]].update([{"color": "own", "label": "own label"}, {}, {"penwidth": 9, "note": 7}][(q + i) % 3])
                one(ctx, plots, own, dict(case, own_attributes=True), all_n={"shape": "box"} if i % 2 else None, node={names[0]: {"fontsize": 99}} if i % 3 else None)
                one(ctx, plots, g, dict(case, styled=True), node={names[e[0][0]]: {"color": "red"}}, edge={(names[e[-1][0]], names[e[-1][1]]): {"color": "blue"}},
                    all_e={"penwidth": 7}, all_n={"shape": "box"}, graph={"scale": 1})


def layers(ctx, plots, u):
    keys = ["color", "shape", "penwidth", "newkey"]
    i = 0
    for e in (((0, 1), (1, 2)), ((0, 1), (1, 0), (2, 2)), ((0, 1),)):
        for key in keys + ["label"]:
            for bits in itertools.product((0, 1), repeat=5):
                for subset in itertools.product((0, 1), repeat=3):
                    i += 1
                    if i % u["mod"] != u["rem"]:
                        continue
                    names = NAMES["abc"]
                    g = build(names, 3, e)
                    v = iter(range(1, 100))
                    all_n = {key: "an%d" % next(v), "other": 3} if bits[0] else None
                    all_e = {key: "ae%d" % next(v)} if bits[1] else None
                    node = {names[k]: {key: "n%d" % k, "solo": 1.5} for k in range(3) if subset[k]} if bits[2] else None
                    edge = {(names[a], names[b]): {key: "e%d" % k} for k, (a, b) in enumerate(e) if subset[k]} if bits[3] else None
                    graph = {key: "g", "bgcolor": "white"} if bits[4] else None
                    case = {"edges": [list(x) for x in e], "all_node_attributes": all_n, "all_edge_attributes": all_e, "node_attributes": repr(node), "edge_attributes": repr(edge), "graph_attributes": graph}
                    one(ctx, plots, g, case, all_n=all_n, all_e=all_e, node=node, edge=edge, graph=graph)


def parse(ctx, s, steps, case):
    parts = s.split(":")
    if len(parts) != steps + 1:
        ctx.fail("%d colours, should be %d" % (len(parts), steps + 1), case)
    out = []
    for p in parts:
        col, _, share = p.partition(";")
        if len(col) != 9 or col[0] != "#" or share != "%.2f" % (1 / (steps + 1)):
            ctx.fail("entry %r of the gradient" % p, case)
        out.append([int(col[k:k + 2], 16) for k in (1, 3, 5, 7)])
    return out


def grad(ctx, plots, a, b, fa, fb, steps):
    case = {"from": fa, "to": fb, "steps": steps}
    ctx.trans()
    ok, s = ctx.guard(lambda: plots.color_gradient_string(fa, fb, steps), "color_gradient_string", case)
    if not ok:
        return
    cols = parse(ctx, s, steps, case)
    if cols[0] != a or cols[-1] != b:
        ctx.fail("goes from %r to %r" % (cols[0], cols[-1]), case)
    for i, c in enumerate(cols):
        for x, y, z in zip(a, b, c):
            if abs(x * steps + (y - x) * i - z * steps) > steps:
                ctx.fail("colour %d is %r" % (i, c), case)


def hexa(c, upper=False):
    return "#" + "".join("%02X" % x if upper else "%02x" % x for x in c)


def gradient(ctx, plots, u):
    """four channel pairs at once; every pair of channel values meets every number of steps"""
    for f in range(u["from"], u["to"]):
        for t in range(0, 64):
            ctx.state()
            ctx.trace()
            for steps in range(1, u["steps"] + 1):
                if u["steps"] > 40 and steps > 40 and (f + t + steps) % 7:
                    continue
                a, b = [f, f, f, f], [t, t + 64, t + 128, t + 192]
                grad(ctx, plots, a, b, hexa(a), hexa(b, steps % 2), steps)


def colors(ctx, plots, u):
    base = [0, 1, 15, 16, 127, 128, 200, 255]
    for a in itertools.product((0, 17, 255), repeat=3):
        for b in itertools.product((0, 128, 255), repeat=3):
            for fa, fb in itertools.product((None, 0, 51, 255), repeat=2):
                for steps in (1, 2, 7):
                    ctx.state()
                    ctx.trace()
                    x, y = list(a), list(b)
                    grad(ctx, plots, x + [255 if fa is None else fa], y + [255 if fb is None else fb], hexa(x + ([] if fa is None else [fa])), hexa(y + ([] if fb is None else [fb]), True), steps)
    ctx.sample(base)


class Viz:
    def __init__(self):
        self.calls = []

    def draw(self, path=None, format=None, prog=None, args=""):
        self.calls.append((path, format, prog))
        return b"PNG"


def display(ctx, plots, u):
    """the optional packages come and go; the functions use them as documented"""
    import importlib
    import numpy as np
    mod = importlib.import_module("causalnex.plots.display")
    names = ["IPython", "IPython.display", "matplotlib", "matplotlib.pyplot", "matplotlib.axes", "matplotlib.figure"]
    saved = {n: sys.modules.get(n) for n in names}
    try:
        for has_i, has_m in itertools.product((0, 1), repeat=2):
            log = []
            for n in names:
                sys.modules[n] = None
            if has_i:
                i, d = types.ModuleType("IPython"), types.ModuleType("IPython.display")
                d.Image = type("Image", (), {"__init__": lambda self, data=None, **k: setattr(self, "data", data)})
                i.display = d
                sys.modules.update({"IPython": i, "IPython.display": d})
            if has_m:
                m, p, ax, fg = (types.ModuleType(x) for x in names[2:])

                class Axes:
                    def __init__(self):
                        self.shown, self.off = [], []

                    def imshow(self, x):
                        self.shown.append(x)

                    def axis(self, x):
                        self.off.append(x)

                class Figure:
                    def tight_layout(self, **k):
                        self.tight = k

                image = np.zeros((40, 70, 4))

                def subplots(a=1, b=1, figsize=None, **k):
                    f = Figure()
                    f.size = figsize
                    log.append(f)
                    return f, Axes()

                p.imread = lambda x: (log.append(x.read()), image)[1]
                p.subplots = subplots
                ax.Axes, fg.Figure = Axes, Figure
                m.pyplot, m.axes, m.figure = p, ax, fg
                sys.modules.update({"matplotlib": m, "matplotlib.pyplot": p, "matplotlib.axes": ax, "matplotlib.figure": fg})
            importlib.reload(mod)
            case = {"IPython": has_i, "matplotlib": has_m}
            for prog in ("neato", "dot"):
                ctx.state()
                ctx.trace()
                ctx.trans()
                v = Viz()
                if not has_i:
                    ctx.raises(lambda: mod.display_plot_ipython(v, prog), ImportError, "display_plot_ipython", case)
                else:
                    ok, im = ctx.guard(lambda: mod.display_plot_ipython(v, prog=prog), "display_plot_ipython", case)
                    if ok and (im.data != b"PNG" or v.calls != [(None, "png", prog)]):
                        ctx.fail("display_plot_ipython shows %r of %r" % (im.data, v.calls), case)
                v = Viz()
                if not has_m:
                    ctx.raises(lambda: mod.display_plot_mpl(v, prog), ImportError, "display_plot_mpl", case)
                    continue
                for size in (0.01, 0.5):
                    v, log[:] = Viz(), []
                    ok, r = ctx.guard(lambda: mod.display_plot_mpl(v, prog=prog, pixel_size_in=size), "display_plot_mpl", case)
                    if not ok:
                        return
                    f, a = r
                    if v.calls != [(None, "png", prog)] or log[0] != b"PNG" or len(a.shown) != 1 or a.shown[0] is not image or a.off != ["off"]:
                        ctx.fail("display_plot_mpl drew %r, showed %d images" % (v.calls, len(a.shown)), case)
                    if f is not log[1] or any(abs(x - y) > 1e-9 for x, y in zip(f.size, (70 * size, 40 * size))):
                        ctx.fail("display_plot_mpl: an image of 70 x 40 pixels at %r is shown at size %r" % (size, f.size), case)
                    v, log[:], mine = Viz(), [], Axes()
                    ok, r = ctx.guard(lambda: mod.display_plot_mpl(v, prog=prog, ax=mine, pixel_size_in=size), "display_plot_mpl", case)
                    if ok and (r[0] is not None or r[1] is not mine or len(mine.shown) != 1 or mine.shown[0] is not image or mine.off != ["off"] or len(log) != 1):
                        ctx.fail("display_plot_mpl on given axes returned %r" % (r,), case)
    finally:
        for n, m in saved.items():
            if m is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = m
        importlib.reload(mod)
