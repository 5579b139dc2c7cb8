"""Stand-ins for the parts of NetworkX the package uses, for the analysis to follow calls into (as of NetworkX 2.5)."""
from .common import *

GRAPHS = """
class View:
    def __init__(self, items, plain=None):
        self.items = items
        self.plain = items if plain is None else plain
    def __call__(self, data=False, keys=False, default=None, nbunch=None):
        if data is True:
            return self.items
        return self.plain
    def __iter__(self):
        return iter(self.plain)
    def __len__(self):
        return len(self.plain)
    def __contains__(self, x):
        return x in self.plain

class Simple:
    def __init__(self, nodes, edges):
        self.nodes = View([(x, {}) for x in nodes], nodes)
        self.edges = View([(i, j, {}) for i, j in edges], edges)
    def __iter__(self):
        return iter(self.nodes)
    def __len__(self):
        return len(self.nodes)
    def __contains__(self, x):
        return x in self.nodes
    def number_of_nodes(self):
        return len(self.nodes)
    def order(self):
        return len(self.nodes)
    def number_of_edges(self):
        return len(self.edges)
    def neighbors(self, x):
        return [e[1] for e in self.edges if e[0] == x] + [e[0] for e in self.edges if e[1] == x and e[0] != x]
    def has_edge(self, i, j):
        return (i, j) in self.edges or (j, i) in self.edges

class Matrix:
    def __init__(self, rows):
        self.rows = rows
    def todense(self):
        return self
    def toarray(self):
        return self
    def tolist(self):
        return self.rows

def simple(nodes, edges):
    return Simple(nodes, edges)

def matrix(G, rows):
    return Matrix(rows)
"""


class Unmodelled(Exception):
    pass


def plain(eng, t):
    """the Python value of a term of constants"""
    t = eng.den(t) if t.op == "obj" else t
    if t.op == "const":
        return t.args[0]
    if t.op == "tuple":
        return tuple(plain(eng, x) for x in t.args[0])
    if t.op == "seq" and all(not p.args[0] and p.args[1] is TRUE for p in t.args[0]):
        return [plain(eng, p.args[2]) for p in t.args[0]]
    if t.op == "range":
        return range(*[plain(eng, x) for x in t.args])
    raise Unmodelled(str(t)[:80])


def literal(eng, src, **params):
    names = sorted(params)
    f = spec_env(eng, "def f(%s):\n    return %s\n" % (", ".join(names), src))["f"]
    return eng.call(f, [params[k] for k in names], {})


def grid(dim, periodic):
    """the nodes of networkx.grid_graph in order, and its edges"""
    dim = [d if isinstance(d, int) else len(d) for d in dim]
    per = list(periodic) if isinstance(periodic, (tuple, list)) else [periodic] * len(dim)
    nodes = [()]
    for d in reversed(dim):                          # the last dimension is the most significant
        nodes = [p + (k,) for p in nodes for k in range(d)]
    edges = []
    for p in nodes:
        for axis in range(len(dim)):
            at = len(dim) - 1 - axis
            k = p[at] + 1
            if k == dim[axis]:
                if not per[axis]:
                    continue
                k = 0
            q = p[:at] + (k,) + p[at + 1:]
            if (p, q) not in edges and (q, p) not in edges:
                edges.append((p, q))
    if len(dim) == 1:
        nodes = [p[0] for p in nodes]
        edges = [(p[0], q[0]) for p, q in edges]
    return nodes, edges


def install(eng):
    """follow the calls of networkx.grid_graph, convert_node_labels_to_integers, complete_graph, ..., with the stand-ins"""
    env = spec_env(eng, GRAPHS)
    made = {}

    def graph(nodes, edges):
        g = eng.call(env["simple"], [literal(eng, repr(nodes)), literal(eng, repr(edges))], {})
        made[g] = (nodes, edges)
        return g

    def arg(args, kw, k, name, default=None):
        return args[k] if len(args) > k else kw.get(name, default)

    def grid_graph(e, args, kw):
        dim = plain(e, arg(args, kw, 0, "dim"))
        per = arg(args, kw, 1, "periodic", FALSE)
        return graph(*grid(dim, plain(e, per)))

    def cycle_graph(e, args, kw):
        return graph(*grid((plain(e, arg(args, kw, 0, "n")),), True))

    def path_graph(e, args, kw):
        return graph(*grid((plain(e, arg(args, kw, 0, "n")),), False))

    def complete_graph(e, args, kw):
        n = plain(e, arg(args, kw, 0, "n"))
        n = list(range(n)) if isinstance(n, int) else list(n)
        return graph(n, [(a, b) for i, a in enumerate(n) for b in n[i + 1:]])

    def grid_2d_graph(e, args, kw):
        m, n = plain(e, arg(args, kw, 0, "m")), plain(e, arg(args, kw, 1, "n"))
        return graph(*grid((n, m), plain(e, arg(args, kw, 2, "periodic", FALSE))))

    def to_integers(e, args, kw):
        g = arg(args, kw, 0, "G")
        first = arg(args, kw, 1, "first_label", ZERO)
        order = plain(e, arg(args, kw, 2, "ordering", const("default")))
        if g not in made or order not in ("default", "sorted"):
            raise Unmodelled("graph")
        nodes, edges = made[g]
        nodes = sorted(nodes) if order == "sorted" else nodes
        name = {x: "first + %d" % i for i, x in enumerate(nodes)}
        ns = literal(e, "[%s]" % ", ".join(name[x] for x in nodes), first=first)
        es = literal(e, "[%s]" % ", ".join("(%s, %s)" % (name[a], name[b]) for a, b in edges), first=first)
        return e.call(env["simple"], [ns, es], {})

    def adjacency_matrix(e, args, kw):
        g = arg(args, kw, 0, "G")
        if g not in made or len(args) + len(kw) > 1 or not made[g][0]:
            raise Unmodelled("graph")
        nodes, edges = made[g]
        rows = made.get((g, "rows"))
        if rows is None:
            both = set(edges) | {(b, a) for a, b in edges}
            rows = literal(e, repr([[1 if (a, b) in both else 0 for b in nodes] for a in nodes]))
        return e.call(env["matrix"], [g, rows], {})

    o = eng.ext_override
    for f in (grid_graph, cycle_graph, path_graph, complete_graph, grid_2d_graph, adjacency_matrix):
        o["networkx." + f.__name__] = f
    o["networkx.to_scipy_sparse_matrix"] = adjacency_matrix
    o["networkx.to_numpy_array"] = o["networkx.to_numpy_matrix"] = adjacency_matrix
    o["networkx.convert_node_labels_to_integers"] = to_integers
    eng.graphs = made
    eng.graph_of = graph
    return env
