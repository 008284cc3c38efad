class _Attr(dict):
    pass


class _Item:
    def __init__(self, name, attr):
        self.name, self.attr = name, attr


class AGraph:
    def __init__(self, name=None, strict=False, directed=False, **kw):
        self.name, self.strict, self.directed = name, strict, directed
        self.graph_attr, self.node_attr, self.edge_attr = _Attr(kw), _Attr(), _Attr()
        self._nodes, self._edges, self.layouts = {}, {}, []

    def add_node(self, n, **attr):
        self._nodes.setdefault(n, _Attr()).update(attr)

    def add_edge(self, u, v=None, key=None, **attr):
        if v is None:
            u, v = u[:2]
        for n in (u, v):
            self.add_node(n)
        self._edges.setdefault((u, v), _Attr()).update(attr)

    def add_nodes_from(self, ns, **attr):
        for n in ns:
            self.add_node(n, **attr)

    def get_node(self, n):
        return _Item(n, self._nodes[n])

    def get_edge(self, u, v, key=None):
        return _Item((u, v), self._edges[(u, v)])

    def nodes(self):
        return list(self._nodes)

    def edges(self, keys=False):
        return list(self._edges)

    def layout(self, prog="neato", args=""):
        self.layouts.append(prog)

    def draw(self, path=None, format=None, prog=None, args=""):
        return b""
