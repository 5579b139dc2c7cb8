"""C16: the topology builders create every requested node and symmetric connections."""
import itertools
from .common import *
from . import graphs

TECHNIQUE = ("value-flow analysis of the topology builders: the network they return is followed symbolically as the script of the operations on "
             "it, and the nodes and edges it denotes are compared, as value graphs, with what was requested; NetworkX is followed through "
             "stand-ins for the functions used, random graphs as arbitrary symmetric matrices")
LEVEL_NOTE = "Sizes of NetworkX graphs and of label sets are enumerated up to small bounds; labels, weights and attributes are symbolic. "

SPEC = """
def nodes(network):
    return sorted(network.nodes)

def links(network):
    return {node: sorted((i, edges) for i, edges in network.in_edges(node).items()) for node in sorted(network.nodes)}

def bare(network):
    return {node: sorted((i, len(edges)) for i, edges in network.in_edges(node).items()) for node in sorted(network.nodes)}
"""


def network(C):
    eng = C.engine()
    eng.opaque = {"Network"}
    eng.unroll = eng.unroll_range = 200
    return eng, spec_env(eng, SPEC)


def builder(eng, name):
    return eng.lookup_export("netomaton.topology." + name)


def compare(C, eng, env, net, f, what, want, spec="links", asg=({},)):
    got = call(eng, env[spec], [net.value])
    C.equal(what, ite(net.raises, RAISES, got.den), eng.den(want), list(asg), site_of(eng, f))


def rejects(C, net, f, eng, what, asg=({},)):
    C.equal(what, ite(net.raises, TRUE, FALSE), TRUE, list(asg), site_of(eng, f))


# ---------------------------------------------------------------------------------------------------------- lattices

def box(dims, periodic, loops):
    """who is connected to whom in a lattice, by index"""
    cells = list(itertools.product(*[range(d) for d in reversed(dims)]))
    sizes = list(reversed(dims))
    out = {}
    for p in cells:
        near = set()
        for a in range(len(sizes)):
            for s in (-1, 1):
                k = p[a] + s
                if periodic:
                    k %= sizes[a]
                if 0 <= k < sizes[a]:
                    near.add(p[:a] + (k,) + p[a + 1:])
        near.discard(p)
        if loops:
            near.add(p)
        out[cells.index(p)] = sorted(cells.index(q) for q in near)
    return out


def lattices(C):
    dims = [(1, 1, 1), (1, 2, 1), (1, 1, 3), (1, 2, 2), (1, 3, 2), (1, 2, 3), (1, 3, 3), (2, 2, 2), (4, 1, 1), (1, 4, 3), (5,), (2,), (1,), (3, 2)]
    if C.thorough:
        dims += [(1, 5, 5), (3, 3, 3), (1, 7, 4), (2, 3, 4), (2, 2, 2, 2)]
    return [(d, p, l) for d in dims for p in (False, True) for l in (False, True)]


def lattice(C, dims, periodic, loops):
    eng, env = network(C)
    graphs.install(eng)
    first = P(eng, "first", "int")
    f = builder(eng, "lattice")
    want = box(dims, periodic, loops)
    asg = [{first: v} for v in (0, 1, 7)]
    kw = {"dim": graphs.literal(eng, repr(dims)), "first_label": first}
    if periodic:
        kw["periodic"] = TRUE
    if loops:
        kw["self_loops"] = TRUE
    net = call(eng, f, [], kw)
    tag = "lattice(%s%s%s)" % (dims, ", periodic" if periodic else "", ", self_loops" if loops else "")
    sp = graphs.literal(eng, "{%s}" % ", ".join(
        "first + %d: [%s]" % (k, ", ".join("(first + %d, 1)" % j for j in v)) for k, v in want.items()), first=first)
    compare(C, eng, env, net, f, "%s: nodes and connections" % tag, sp, "bare", asg)
    if dims == (1, 3, 2) and not periodic and not loops:
        net = call(eng, f, [kw["dim"]])
        sp = graphs.literal(eng, "{%s}" % ", ".join("%d: [%s]" % (k, ", ".join("(%d, 1)" % j for j in v)) for k, v in want.items()))
        compare(C, eng, env, net, f, "lattice: not periodic, no self-loops, labels from 0 by default", sp, "bare")


# -------------------------------------------------------------------------------------------------------- without edges

def disconnected(C):
    eng, env = network(C)
    f = builder(eng, "disconnected")
    n = P(eng, "n", "int")
    sp = graphs.literal(eng, "{i: [] for i in range(n)}", n=n)
    compare(C, eng, env, call(eng, f, [n]), f, "disconnected(n): the nodes 0 to n - 1, unconnected", sp, "links", [{n: v} for v in (0, 1, 2, 5)])
    for labels in ([], [0], [3, 1, 2], [1, 1, 4], ["b", "a"], [(0, 1), (0, 0)]):
        for wrap in ("", "np.array"):
            if wrap and (not labels or isinstance(labels[0], tuple)):
                continue
            eng, env = network(C)
            from sa import small
            small.install(eng)
            f = builder(eng, "disconnected")
            src = "import numpy as np\ndef f():\n    return %s(%r)\n" % (wrap, labels)
            arg = eng.call(spec_env(eng, src)["f"], [], {})
            sp = graphs.literal(eng, "{%s}" % ", ".join("%r: []" % (x,) for x in sorted(set(labels))))
            compare(C, eng, env, call(eng, f, [arg]), f, "disconnected(%s%r): exactly those nodes, unconnected" % (wrap and "array of ", labels), sp)


# ------------------------------------------------------------------------------------------------------------ matrices

def matrix(C, n):
    """every entry a number of its own; an entry that isn't 0 is an edge"""
    eng, env = network(C)
    f = builder(eng, "from_adjacency_matrix")
    w = [[P(eng, "w%d%d" % (i, j), "num") for j in range(n)] for i in range(n)]
    ps = {str(x): x for row in w for x in row}
    rows = "[%s]" % ", ".join("[%s]" % ", ".join("w%d%d" % (i, j) for j in range(n)) for i in range(n))
    m = graphs.literal(eng, rows, **{"w%d%d" % (i, j): w[i][j] for i in range(n) for j in range(n)})
    src = "{j: [(i, [{'weight': row[j]}]) for i, row in enumerate(M) if row[j] != 0] for j in range(%d)}" % n
    sp = graphs.literal(eng, src, M=m)
    asg = []
    for seed in range(40 if n > 1 else 3):
        r = __import__("random").Random(seed)
        asg.append({x: r.choice((0, 0, 1, 2.5, -1)) for row in w for x in row})
    compare(C, eng, env, call(eng, f, [m]), f, "from_adjacency_matrix of a %d x %d matrix: every node, the edges of the non-zero entries" % (n, n), sp,
            "links", asg)


def complete(C, n):
    eng, env = network(C)
    graphs.install(eng)
    f = builder(eng, "complete")
    sp = graphs.literal(eng, "{j: [(i, [{'weight': 1}]) for i in range(%d) if i != j] for j in range(%d)}" % (n, n))
    compare(C, eng, env, call(eng, f, [const(n)]), f, "complete(%d): an edge of weight 1 between any two nodes, both ways" % n, sp)


def small_world(C, n):
    """an arbitrary symmetric relation without loops in place of the random graph, made with the arguments given"""
    eng, env = network(C)
    genv = graphs.install(eng)
    k, p, seed = P(eng, "k", "int"), P(eng, "p", "num"), P(eng, "seed", "int")
    a = {(i, j): P(eng, "a%d%d" % (i, j), "int") for i in range(n) for j in range(i)}
    at = lambda i, j: ZERO if i == j else a[max(i, j), min(i, j)]
    asked = []

    def drawn(e, args, kw):
        names = ("n", "k", "p", "seed")
        got = dict(zip(names, args))
        got.update(kw)
        asked.append(mk("tuple", tuple(got.get(x, const(None)) for x in names)))
        g = eng.graph_of(list(range(n)), [])
        eng.graphs[g, "rows"] = eng.build([[at(i, j) for j in range(n)] for i in range(n)]) if hasattr(eng, "build") else \
            graphs.literal(e, "[%s]" % ", ".join("[%s]" % ", ".join("0" if i == j else "a%d%d" % (max(i, j), min(i, j)) for j in range(n)) for i in range(n)),
                           **{"a%d%d" % ij: v for ij, v in a.items()})
        return g
    eng.ext_override["networkx.watts_strogatz_graph"] = drawn
    f = builder(eng, "watts_strogatz_graph")
    src = "{%s}" % ", ".join("%d: [(i, [{'weight': 1}]) for i, x in [%s] if x != 0]" % (
        j, ", ".join("(%d, a%d%d)" % (i, max(i, j), min(i, j)) for i in range(n) if i != j)) for j in range(n))
    sp = graphs.literal(eng, src, **{"a%d%d" % ij: v for ij, v in a.items()})
    asg = []
    for s in range(30):
        r = __import__("random").Random(s)
        x = {v: r.choice((0, 1)) for v in a.values()}
        x.update({k: 2, p: 0.5, seed: 3})
        asg.append(x)
    net = call(eng, f, [const(n), k, p, seed])
    compare(C, eng, env, net, f, "watts_strogatz_graph(%d, k, p, seed): every node, the edges of the graph, both ways" % n, sp, "links", asg)
    want = [mk("tuple", (const(n), k, p, seed))]
    C.equal("watts_strogatz_graph(%d, k, p, seed): the graph is drawn with these arguments" % n, mk("tuple", tuple(asked)), mk("tuple", tuple(want)), asg[:1],
            site_of(eng, f))


# ----------------------------------------------------------------------------------------------------------- bipartite

def bipartite(C, one, two):
    eng, env = network(C)
    f = builder(eng, "bipartite")
    tag = "bipartite(%r, %r)" % (one, two)
    a, b = graphs.literal(eng, repr(one)), graphs.literal(eng, repr(two))
    both = sorted(set(one) | set(two))
    near = {x: sorted(two) if x in one else sorted(one) for x in both}
    sp = graphs.literal(eng, "{%s}" % ", ".join("%r: [%s]" % (x, ", ".join("(%r, [{}])" % y for y in near[x])) for x in both))
    compare(C, eng, env, call(eng, f, [a, b]), f, "%s: an edge in both directions for every pair" % tag, sp)
    if not one or not two:
        return
    attrs = {(x, y): "p%s_%s" % (x, y) for x in one for y in two}
    ps = {v: P(eng, v, "num") for v in attrs.values()}
    src = "{%s}" % ", ".join("%r: {%s}" % (x, ", ".join("%r: {'weight': %s, 'colour': %s + 1}" % (y, attrs[x, y], attrs[x, y]) for y in two)) for x in one)
    asg = [{p: k * 1.5 + s for k, p in enumerate(ps.values())} for s in (0, 3)]
    e = graphs.literal(eng, src, **ps)
    name = lambda x, y: attrs.get((x, y)) or attrs.get((y, x))
    sp = graphs.literal(eng, "{%s}" % ", ".join("%r: [%s]" % (
        x, ", ".join("(%r, [{'weight': %s, 'colour': %s + 1}])" % (y, name(x, y), name(x, y)) for y in near[x])) for x in both), **ps)
    compare(C, eng, env, call(eng, f, [a, b], {"edge_attributes": e}), f, "%s: with the given attributes" % tag, sp, "links", asg)


# ---------------------------------------------------------------------------------------------------- unsupported options

def unsupported(C):
    for name, args, kw, what in (
            ("adjacency.cellular_automaton", 1, {"boundary": "b"}, "boundary condition"),
            ("adjacency.cellular_automaton2d", 2, {"boundary": "b"}, "boundary condition"),
            ("adjacency.cellular_automaton2d", 2, {"neighbourhood": "h"}, "neighbourhood type"),
            ("cellular_automaton", 1, {"periodic": False}, "boundary condition"),
            ("cellular_automaton2d", 2, {"periodic": False}, "boundary condition"),
            ("cellular_automaton2d", 2, {"neighbourhood": "h"}, "neighbourhood type")):
        eng, env = network(C)
        f = builder(eng, name)
        n, m = P(eng, "n", "int"), P(eng, "m", "int")
        b = P(eng, "b", "str")
        kk = {k: b if isinstance(v, str) else const(v) for k, v in kw.items()}
        net = call(eng, f, [n, m][:args], kk)
        asg = [{n: x, m: y, b: s} for x, y in ((3, 3), (4, 5), (9, 9), (1, 12)) if x >= 3 or args == 2
               for s in ("fixed", "open", "", "periodical", "Periodic", "moore", "Von Neumann", "hexagonal", "reflecting")]
        rejects(C, net, f, eng, "%s: a %s that is not supported is rejected" % (name, what), asg)


def check(C):
    for d, p, l in lattices(C):
        C.group("lattice(%s, %s, %s)" % (d, p, l), lattice, C, d, p, l)
    C.group("disconnected", disconnected, C)
    for n in range(0, 5 if C.thorough else 4):
        C.group("from_adjacency_matrix(%d)" % n, matrix, C, n)
    for n in range(1, 8 if C.thorough else 6):
        C.group("complete(%d)" % n, complete, C, n)
    for n in range(1, 6 if C.thorough else 5):
        C.group("watts_strogatz_graph(%d)" % n, small_world, C, n)
    for one, two in (([], []), ([0, 1], []), ([], [0, 1]), ([0], [1]), ([0, 1], [2]), ([0, 1], [2, 3]), ([5, 3, 1], [2, 4]), (["a"], ["b", "c"])):
        C.group("bipartite(%r, %r)" % (one, two), bipartite, C, one, two)
    C.group("unsupported options", unsupported, C)
    C.assumptions.append("the operations of Network do what their names say (C12, C13); networkx does what its documentation says")
