"""C15: conversions to and from NetworkX and adjacency matrices preserve the graph."""
from .structures import *

TECHNIQUE = ("value-flow analysis of the conversions: small networks and graphs of every shape that matters (isolated nodes, self-loops, parallel and "
             "opposite edges, labels of several types), with unknown attributes, are followed through the bodies of Network's methods, NetworkX being "
             "followed through a stand-in, and the nodes, edges and attributes of the result compared as value graphs with those converted")
LEVEL_NOTE = "The shapes of the graphs are enumerated (up to 4 nodes and 6 edges); attributes, weights and entries of matrices are symbolic. "

NX = """
class View:
    def __init__(self, full, plain, table):
        self.full = full
        self.plain = plain
        self.table = table
    def __call__(self, data=False, keys=False, default=None, nbunch=None):
        if data is True:
            return self.full
        if data is False:
            return self.plain
        return [tuple([*x[:-1], x[-1].get(data, default)]) for x in self.full]
    def data(self, data=True, default=None, keys=False):
        return self(data=data, default=default)
    def items(self):
        return self.table.items()
    def __iter__(self):
        return iter(self.plain)
    def __len__(self):
        return len(self.plain)
    def __contains__(self, x):
        return x in self.plain
    def __getitem__(self, k):
        return self.table[k]

class DiGraph:
    multi = False
    def __init__(self, incoming_graph_data=None, **attr):
        self.N = {}
        self.E = []
    def add_node(self, node_for_adding, **attr):
        if node_for_adding not in self.N:
            self.N[node_for_adding] = {}
        self.N[node_for_adding].update(attr)
    def add_nodes_from(self, nodes_for_adding, **attr):
        for n in nodes_for_adding:
            if isinstance(n, tuple):
                self.add_node(n[0], **attr)
                self.N[n[0]].update(n[1])
            else:
                self.add_node(n, **attr)
    def add_edge(self, u, v, key=None, **attr):
        self.add_node(u)
        self.add_node(v)
        if not self.multi:
            for e in self.E:
                if e[0] == u and e[1] == v:
                    e[2].update(attr)
                    return None
        k = len([e for e in self.E if e[0] == u and e[1] == v])
        self.E.append((u, v, attr))
        return k
    def add_edges_from(self, ebunch_to_add, **attr):
        for e in ebunch_to_add:
            if len(e) > 2:
                self.add_edge(e[0], e[1], **e[2])
            else:
                self.add_edge(e[0], e[1], **attr)
    def number_of_nodes(self):
        return len(self.N)
    def number_of_edges(self, u=None, v=None):
        return len(self.E)
    def is_directed(self):
        return True
    def is_multigraph(self):
        return self.multi
    def has_node(self, n):
        return n in self.N
    def __len__(self):
        return len(self.N)
    def __iter__(self):
        return iter(list(self.N))
    def __contains__(self, n):
        return n in self.N
    @property
    def nodes(self):
        return View([(n, a) for n, a in self.N.items()], list(self.N), self.N)
    @property
    def edges(self):
        return View([(i, j, a) for i, j, a in self.E], [(i, j, 0) if self.multi else (i, j) for i, j, a in self.E], None)

class MultiDiGraph(DiGraph):
    multi = True

def graph(multi):
    return MultiDiGraph() if multi else DiGraph()

def nx_nodes(G):
    return {x: {k: v for k, v in a.items()} for x, a in G.N.items()}

def nx_edges(G):
    out = {}
    for i, j, a in G.E:
        if (i, j) not in out:
            out[(i, j)] = []
        out[(i, j)].append({k: v for k, v in a.items()})
    return out

def convert(n):
    return n.to_networkx()
"""


def lab(C):
    L = Lab(C, NX)
    for name in ("MultiDiGraph", "DiGraph"):
        L.eng.ext_override["networkx." + name] = lambda e, a, k, c=L.env[name]: e.call(c, a, k)
    return L


def to_networkx(C, shape):
    L = lab(C)
    n = L.network(shape)
    f = L.eng.getattr(n, "to_networkx")
    got = call(L.eng, f, [])
    want = required(shape)
    for what in ("nodes", "edges"):
        L.require("to_networkx of %s: the %s and their attributes" % (shape, what), call(L.eng, L.env["nx_" + what], [got.value]), want[what], site_of(L.eng, f), got.raises)
        L.require("to_networkx leaves %s as it was: %s" % (shape, what), L.see(what, n), want[what], site_of(L.eng, f))


def from_networkx(C, shape, multi):
    nodes, edges = SHAPES[shape]
    if not multi and len({e[:2] for e in edges}) < len(edges):
        return
    L = lab(C)
    g = call(L.eng, L.env["graph"], [const(multi)]).value
    src = "def fill(G, u0, u1, u2, u3):\n"
    for n, a in nodes:
        src += "    G.add_node(%r%s)\n" % (n, "".join(", %s=%s" % (k, text(v)) for k, v in a.items()))
    for i, j, a in edges:
        src += "    G.add_edge(%r, %r%s)\n" % (i, j, "".join(", %s=%s" % (k, text(v)) for k, v in a.items()))
    call(L.eng, spec_env(L.eng, src + "    return G\n")["fill"], [g] + L.u)
    f = L.eng.getattr(L.eng.lookup_export("netomaton.Network"), "from_networkx")
    got = call(L.eng, f, [g])
    want = required(shape)
    for what in ("nodes", "edges", "degrees"):
        L.require("from_networkx of %s (%s): the %s" % (shape, "MultiDiGraph" if multi else "DiGraph", what), L.see(what, got.value), want[what],
                  site_of(L.eng, f), got.raises)


def to_matrix(C, shape):
    nodes, edges = SHAPES[shape]
    L = lab(C)
    n = L.network(shape)
    f = L.eng.getattr(n, "to_adjacency_matrix")
    labels = [x for x, _ in nodes]
    orders = [None] + ([list(reversed(labels)), labels[1:] + labels[:1]] if labels else [])
    simple = len({e[:2] for e in edges}) == len(edges)
    for order in orders:
        for weight in ("weight", "sign", None):
            for total in (True, False):
                if not total and not simple:
                    continue
                kw = {}
                if order is not None:
                    kw["nodelist"] = L.value(repr(order))
                if weight != "weight":
                    kw["weight"] = const(weight)
                if not total:
                    kw["sum_multiedges"] = FALSE
                at = order or labels
                rows = [["+".join([text(a.get(weight, 1)) for x, y, a in edges if (x, y) == (i, j)]) or "0" for j in at] for i in at]
                got = call(L.eng, f, [], kw)
                L.require("to_adjacency_matrix of %s (nodes %s, weights %s%s): row i, column j has the weight from i to j" % (
                    shape, "in order" if order is None else order, weight, "" if total else ", edges not summed"), got,
                    "[%s]" % ", ".join("[%s]" % ", ".join(r) for r in rows), site_of(L.eng, f))


def from_matrix(C, n):
    L = lab(C)
    f = L.eng.lookup_export("netomaton.topology.from_adjacency_matrix")
    w = {"w%d%d" % (i, j): P(L.eng, "w%d%d" % (i, j), "num") for i in range(n) for j in range(n)}
    rows = "[%s]" % ", ".join("[%s]" % ", ".join("w%d%d" % (i, j) for j in range(n)) for i in range(n))
    m = graphs.literal(L.eng, rows, **w)
    asg = []
    for seed in range(40 if n > 1 else 4):
        r = random.Random(seed)
        asg.append({x: r.choice((0, 0, 1, 2.5, -1)) for x in w.values()})
    L.eng.opaque = {"Network"}
    env = spec_env(L.eng, "def links(n):\n    return {x: sorted((i, es) for i, es in n.in_edges(x).items()) for x in sorted(n.nodes)}\n")
    net = call(L.eng, f, [m])
    got = call(L.eng, env["links"], [net.value])
    want = graphs.literal(L.eng, "{j: [(i, [{'weight': row[j]}]) for i, row in enumerate(M) if row[j] != 0] for j in range(%d)}" % n, M=m)
    C.equal("from_adjacency_matrix (%d x %d): entry i, j is the weight of the edge from i to j, 0 for none" % (n, n), ite(net.raises, RAISES, got.den),
            L.eng.den(want), asg, site_of(L.eng, f))


def check(C):
    for shape in SHAPES:
        C.group("to_networkx: " + shape, to_networkx, C, shape)
        for multi in (True, False):
            C.group("from_networkx: %s, %s" % (shape, multi), from_networkx, C, shape, multi)
        C.group("to_adjacency_matrix: " + shape, to_matrix, C, shape)
    for n in range(1, 5 if C.thorough else 4):
        C.group("from_adjacency_matrix: %d" % n, from_matrix, C, n)
    C.assumptions.append("networkx does what its documentation says")
