"""C17: the neighbourhoods of cellular automata, and the order in which they are presented."""
from .common import *

TECHNIQUE = ("value-flow analysis of the topology builders: the network they return is followed symbolically as the script of the "
             "operations on it (the adjacency matrix as the script of the stores to its rows, sizes and radius symbolic), and the "
             "neighbour relation and the rotation system it denotes are compared, as value graphs, with those of a torus")
LEVEL_NOTE = ("The value graphs are symbolic in the sizes and the radius; where they aren't identical to the required ones they are compared "
              "by random interpretation over sizes up to 7 x 7 and radii up to 3. ")

SPEC = """
def neighbours(network):
    return {node: sorted((i, len(edges)) for i, edges in network.in_edges(node).items()) for node in network.nodes}

def sources(network):
    return {node: sorted(network.in_edges(node)) for node in network.nodes}

def order(network):
    if network.rotation_system is None:
        return None
    return {node: list(network.rotation_system[node]) for node in network.nodes}

def ring(n, r):
    return {c: [(d, 1) for d in range(n) if (c - d) % n <= r or (d - c) % n <= r] for c in range(n)}

def moore(rows, cols, r):
    return {a * cols + b: [(c * cols + d, 1) for c in range(rows) for d in range(cols)
                           if ((a - c) % rows <= r or (c - a) % rows <= r) and ((b - d) % cols <= r or (d - b) % cols <= r)]
            for a in range(rows) for b in range(cols)}

def von_neumann(rows, cols, r):
    return {a * cols + b: [(c * cols + d, 1) for c in range(rows) for d in range(cols)
                           if min((a - c) % rows, (c - a) % rows) + min((b - d) % cols, (d - b) % cols) <= r]
            for a in range(rows) for b in range(cols)}

def hexagonal(rows, cols, r):
    near = lambda a, b: [(a, b), (a, b - 1), (a, b + 1)] + [(c, d) for c in (a - 1, a + 1) for d in (b, b + (1 if a % 2 == 0 else -1))]
    return {a * cols + b: sorted([(x, 1) for x in {(c % rows) * cols + d % cols: 0 for c, d in near(a, b)}]) for a in range(rows) for b in range(cols)}

def centered(table):
    out = {}
    for node, pairs in table.items():
        xs = sorted(p[0] for p in pairs)
        k = [p for p in range(len(xs)) if xs[p] == node][0]
        out[node] = [xs[(k - len(xs) // 2 + p) % len(xs)] for p in range(len(xs))]
    return out

def ring_order(n, r):
    return centered(ring(n, r))

def moore_order(rows, cols, r):
    return centered(moore(rows, cols, r))

def von_neumann_order(rows, cols, r):
    return centered(von_neumann(rows, cols, r))

def hexagonal_order(rows, cols, r):
    return centered(hexagonal(rows, cols, r))

def matrix(table, n):
    return [[1 if b in [p[0] for p in row] else 0 for b in range(n)] for _, row in table.items()]

def ring_matrix(n, r):
    return matrix(ring(n, r), n)

def moore_matrix(rows, cols, r):
    return matrix(moore(rows, cols, r), rows * cols)

def von_neumann_matrix(rows, cols, r):
    return matrix(von_neumann(rows, cols, r), rows * cols)

def symmetric(m):
    return [[1 if x else 0 for x in row] for row in m]
"""

STEPS = 3000000


def ring_sizes(C):
    out = [(n, r) for n in (3, 4, 5, 6, 7, 9, 12) for r in (1, 2, 3, 4) if 2 * r + 1 <= n]
    return out + ([(n, r) for n in (8, 13, 16, 21) for r in range(1, 9) if 2 * r + 1 <= n] if C.thorough else [])


def torus_sizes(C):
    out = [(3, 3, 1), (3, 4, 1), (4, 3, 1), (2, 5, 1), (5, 2, 1), (5, 5, 2), (5, 6, 2), (7, 5, 2)]
    return out + ([(6, 5, 1), (7, 7, 3), (8, 7, 3), (1, 9, 1), (9, 1, 1), (7, 9, 2), (9, 9, 4)] if C.thorough else [])


def one_d(C):
    def assignments(n, r):
        return [{n: a, r: b} for a, b in ring_sizes(C)]
    for ordered in (False, True):
        eng = C.engine()
        eng.opaque = {"Network"}
        env = spec_env(eng, SPEC)
        n, r = P(eng, "n", "int"), P(eng, "r", "int")
        f = eng.lookup_export("netomaton.topology.cellular_automaton")
        net = call(eng, f, [n], {"r": r, "ordered": const(ordered)})
        site = site_of(eng, f)
        got = call(eng, env["neighbours"], [net.value])
        want = call(eng, env["ring"], [n, r])
        tag = "cellular_automaton(ordered=%s)" % ordered
        C.equal("%s: the neighbours are the cells at distance at most r around the ring" % tag,
                ite(net.raises, RAISES, got.den), want.den, assignments(n, r), site, steps=STEPS)
        if ordered:
            got = call(eng, env["order"], [net.value])
            want = call(eng, env["ring_order"], [n, r])
            C.equal("%s: increasing order, rotated so that the cell is at the center" % tag,
                    ite(net.raises, RAISES, got.den), want.den, assignments(n, r), site, steps=STEPS)
            # what isn't given
            for args, kw, rr, what in (([n], {}, ONE, "radius 1 and ordered"), ([n, r], {}, r, "ordered")):
                d = call(eng, f, args, kw)
                got = call(eng, env["order"], [d.value])
                want = call(eng, env["ring_order"], [n, rr])
                C.equal("cellular_automaton: %s by default" % what, ite(d.raises, RAISES, got.den), want.den,
                        [{n: a, r: b} for a, b in ring_sizes(C) if rr is r or b == 1], site, steps=STEPS)
    eng = C.engine()
    env = spec_env(eng, SPEC)
    n, r = P(eng, "n", "int"), P(eng, "r", "int")
    f = eng.lookup_export("netomaton.topology.adjacency.cellular_automaton")
    m = call(eng, f, [n, r])
    got = call(eng, env["symmetric"], [m.value])
    want = call(eng, env["ring_matrix"], [n, r])
    C.equal("adjacency.cellular_automaton: the neighbour relation of the ring", ite(m.raises, RAISES, got.den), want.den,
            assignments(n, r), site_of(eng, f), steps=STEPS)


def two_d(C, kind, spec):
    for ordered in (False, True):
        eng = C.engine()
        eng.opaque = {"Network"}
        env = spec_env(eng, SPEC)
        rows, cols, r = P(eng, "rows", "int"), P(eng, "cols", "int"), P(eng, "r", "int")
        asg = [{rows: a, cols: b, r: c} for a, b, c in torus_sizes(C)]
        f = eng.lookup_export("netomaton.topology.cellular_automaton2d")
        site = site_of(eng, f)
        net = call(eng, f, [rows, cols], {"r": r, "ordered": const(ordered), "neighbourhood": const(kind)})
        got = call(eng, env["neighbours"], [net.value])
        want = call(eng, env[spec], [rows, cols, r])
        tag = "cellular_automaton2d(%s, ordered=%s)" % (kind, ordered)
        C.equal("%s: the neighbours on the torus" % tag, ite(net.raises, RAISES, got.den), want.den, asg, site, steps=STEPS)
        if ordered:
            got = call(eng, env["order"], [net.value])
            want = call(eng, env[spec + "_order"], [rows, cols, r])
            C.equal("%s: increasing order, rotated so that the cell is at the center" % tag,
                    ite(net.raises, RAISES, got.den), want.den, asg, site, steps=STEPS)
            if kind == "Moore":
                d = call(eng, f, [rows, cols])
                got = call(eng, env["order"], [d.value])
                want = call(eng, env["moore_order"], [rows, cols, ONE])
                C.equal("cellular_automaton2d: Moore neighbourhoods of radius 1, ordered, by default",
                        ite(d.raises, RAISES, got.den), want.den, [x for x in asg if x[r] == 1], site, steps=STEPS)
    eng = C.engine()
    env = spec_env(eng, SPEC)
    rows, cols, r = P(eng, "rows", "int"), P(eng, "cols", "int"), P(eng, "r", "int")
    asg = [{rows: a, cols: b, r: c} for a, b, c in torus_sizes(C)]
    f = eng.lookup_export("netomaton.topology.adjacency.cellular_automaton2d")
    m = call(eng, f, [rows, cols, r], {"neighbourhood": const(kind)})
    got = call(eng, env["symmetric"], [m.value])
    want = call(eng, env[spec + "_matrix"], [rows, cols, r])
    C.equal("adjacency.cellular_automaton2d(%s): the neighbour relation of the torus" % kind, ite(m.raises, RAISES, got.den), want.den,
            asg, site_of(eng, f), steps=STEPS)


def hexagons(C):
    for ordered in (False, True):
        eng = C.engine()
        eng.opaque = {"Network"}
        env = spec_env(eng, SPEC)
        rows, cols = P(eng, "rows", "int"), P(eng, "cols", "int")
        sizes = [(4, 3), (4, 4), (6, 5), (4, 6)] + ([(6, 7), (8, 8), (10, 3)] if C.thorough else [])
        asg = [{rows: a, cols: b} for a, b in sizes]
        f = eng.lookup_export("netomaton.topology.cellular_automaton2d")
        net = call(eng, f, [rows, cols], {"ordered": const(ordered), "neighbourhood": const("Hex")})
        tag = "cellular_automaton2d(Hex, ordered=%s)" % ordered
        for what, spec in (("neighbours", "the cell and the six around it, odd rows shifted"),) + \
                ((("order", "increasing order, rotated so that the cell is at the center"),) if ordered else ()):
            got = call(eng, env[what], [net.value])
            want = call(eng, env["hexagonal" if what == "neighbours" else "hexagonal_order"], [rows, cols, ONE])
            C.equal("%s: %s" % (tag, spec), ite(net.raises, RAISES, got.den), want.den, asg, site_of(eng, f), steps=STEPS)


def check(C):
    C.group("cellular_automaton2d(Hex)", hexagons, C)
    C.group("cellular_automaton", one_d, C)
    for kind, spec in (("Moore", "moore"), ("von Neumann", "von_neumann")):
        C.group("cellular_automaton2d(%s)" % kind, two_d, C, kind, spec)
    C.assumptions.append("the operations of Network do what their names say (C12, C13, C15)")
