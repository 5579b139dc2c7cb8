"""C30: sandpiles topple and Hopfield nets learn and recall as documented."""
import random
from .common import *
from sa import small
from . import c21, c17

TECHNIQUE = ("value-flow analysis of the activity rules and of the training (symbolic grains, patterns, weights and activities; small arrays "
             "followed cell by cell); the normal forms are compared with those of the documented sums")
LEVEL_NOTE = "Lattices of up to 5 x 6 cells, up to 3 patterns of up to 4 values, up to 4 neighbours. "

SPEC = """
class Ctx:
    def __init__(self, node_label, activities, neighbour_labels, connection_states):
        self.node_label = node_label
        self.timestep = 1
        self.activities = activities
        self.neighbour_labels = neighbour_labels
        self.neighbourhood_activities = [activities[x] for x in neighbour_labels]
        self.current_activity = activities[node_label] if node_label in activities else 0
        self.connection_states = connection_states
        self.input = None

def topple(pile, node, labels, grains):
    activities = {}
    for x, g in zip(labels, grains):
        activities[x] = g
    return pile.activity_rule(Ctx(node, activities, labels, {}))

def toppled(edge, closed, node, labels, grains):
    own = [g for x, g in zip(labels, grains) if x == node][0]
    if closed and edge:
        return 0
    out = own
    if own >= 4:
        out = out - 4
    for x, g in zip(labels, grains):
        if x != node:
            if g >= 4:
                out = out + 1
    return out

def sources(net):
    return {node: sorted(net.in_edges(node)) for node in net.nodes}

def weights(net, n):
    return [[net.adjacency_matrix[i][j] for j in range(n)] for i in range(n)]

def learned(patterns, n):
    return [[sum([p[i] * p[j] for p in patterns]) if i != j else 0 for j in range(n)] for i in range(n)]

def edges(net):
    return {(a, b): net.in_edges(b)[a][0]["weight"] for b in net.nodes for a in net.in_edges(b)}

def nodes(net):
    return sorted(net.nodes)

def learned_edges(patterns, n):
    out = {}
    for i in range(n):
        for j in range(n):
            if i != j:
                w = sum([p[i] * p[j] for p in patterns])
                if w != 0:
                    out[(i, j)] = w
    return out

def recall(rule, labels, weights, activities):
    known = {}
    states = {}
    for x, w, a in zip(labels, weights, activities):
        known[x] = a
        states[x] = [{"weight": w}]
    return rule(Ctx(0, known, labels, states))

def recalled(weights, activities):
    v = 0
    for w, a in zip(weights, activities):
        v = v + w * a
    return 1 if v >= 0 else -1
"""


def lit(eng, x):
    return eng.call(spec_env(eng, "def mk():\n    return %r\n" % (x,))["mk"], [], {})


def params(eng, names, ty="int"):
    return eng.call(spec_env(eng, "def mk(%s):\n    return [%s]\n" % (", ".join(names), ", ".join(names)))["mk"], [P(eng, x, ty) for x in names], {})


def setup(C):
    eng = C.engine()
    eng.opaque = {"Network"}
    small.install(eng)
    eng.peel = 64
    return eng, spec_env(eng, SPEC)


def neighbours(rows, cols, node):
    a, b = divmod(node, cols)
    return sorted({node, (a - 1) % rows * cols + b, (a + 1) % rows * cols + b, a * cols + (b - 1) % cols, a * cols + (b + 1) % cols})


GRAINS = [(0, 0, 0, 0, 0), (3, 4, 3, 4, 3), (4, 3, 4, 3, 4), (4, 4, 4, 4, 4), (5, 7, 3, 8, 2), (8, 0, 4, 1, 5), (3, 3, 3, 3, 3), (4, 3, 3, 3, 3), (2, 4, 4, 4, 4)]


def sandpile(C, rows, cols):
    for closed, kw in ((True, {}), (True, {"is_closed_boundary": TRUE}), (False, {"is_closed_boundary": FALSE})):
        eng, env = setup(C)
        cls = eng.lookup_export("netomaton.Sandpile")
        site = site_of(eng, cls)
        pile = call(eng, cls, [const(rows), const(cols)], kw)
        names = ["g%d" % i for i in range(5)]
        grains = params(eng, names)
        asg = [dict(zip([P(eng, x) for x in names], g)) for g in GRAINS]
        for node in range(rows * cols):
            base = neighbours(rows, cols, node)
            k = base.index(node)
            orders = [base, base[::-1], [node] + [x for x in base if x != node], base[(k - 2) % 5:] + base[:(k - 2) % 5]]
            labels = lit(eng, orders[(node + bool(kw)) % 4])
            a, b = divmod(node, cols)
            edge = a in (0, rows - 1) or b in (0, cols - 1)
            got = call(eng, env["topple"], [pile.value, const(node), labels, grains])
            want = call(eng, env["toppled"], [const(edge), const(closed), const(node), labels, grains])
            C.equal("sandpile of %d x %d cells, %s boundary%s: the grains of cell %d" % (rows, cols, "closed" if closed else "open", "" if kw else " by default", node),
                    ite(pile.raises, RAISES, got.term), want.term, asg, site)


def lattice(C):
    eng, env = setup(C)
    env2 = spec_env(eng, c17.SPEC)
    rows, cols = P(eng, "rows", "int"), P(eng, "cols", "int")
    cls = eng.lookup_export("netomaton.Sandpile")
    pile = call(eng, cls, [rows, cols])
    net = call(eng, spec_env(eng, "def f(p):\n    return p.network\n")["f"], [pile.value])
    got = call(eng, env2["neighbours"], [net.value])
    want = call(eng, env2["von_neumann"], [rows, cols, ONE])
    C.equal("the cells of a sandpile lie on a torus with von Neumann neighbourhoods", ite(OR(pile.raises, net.raises), RAISES, got.den), want.den,
            [{rows: a, cols: b} for a, b in ((3, 3), (3, 4), (5, 3), (4, 4), (6, 5))], site_of(eng, cls), steps=3000000)


def training(C, m, n, seed=None):
    eng, env = setup(C)
    c21.shuffles(eng, spec_env(eng, c21.SPEC, {"CUR": P(eng, "FN_CUR"), "INNER": P(eng, "FN_INNER")}), "same")
    cls = eng.lookup_export("netomaton.HopfieldNet")
    site = site_of(eng, cls)
    names = [["p%d%d" % (a, b) for b in range(n)] for a in range(m)]
    if seed is None:
        rows = [params(eng, x) for x in names]
    else:
        r = random.Random(seed)
        given = [[r.choice((1, -1)) for _ in range(n)] for _ in range(m)]
        rows = [lit(eng, x) for x in given]
    ps = ["r%d" % a for a in range(m)]
    patterns = eng.call(spec_env(eng, "def mk(%s):\n    return [%s]\n" % (", ".join(ps), ", ".join(ps)))["mk"], rows, {})
    net = call(eng, cls, [const(n)])
    tr = call(eng, spec_env(eng, "def f(n, p):\n    n.train(p)\n    return n.network\n")["f"], [net.value, patterns])
    asg = []
    for v in range(6):
        asg.append({P(eng, names[a][b]): [1, -1][(v * 7 + a * 5 + b * 3 + (v >> 1) * a * b) % 4 % 2 if v < 4 else (v + a * b) % 2]
                    for a in range(m) for b in range(n)})
    tag = "%d pattern%s of %d values: " % (m, "s" if m > 1 else "", n) if seed is None else "patterns %s: " % given
    got = call(eng, env["weights"], [net.value, const(n)])
    want = call(eng, env["learned"], [patterns, const(n)])
    bad = OR(net.raises, tr.raises)
    C.equal(tag + "the weights are the sums of the products, zero on the diagonal", ite(bad, RAISES, got.term), want.term, asg, site)
    got = call(eng, env["edges"], [tr.value])
    want = call(eng, env["learned_edges"], [patterns, const(n)])
    C.equal(tag + "the links carry the weights", ite(bad, RAISES, got.den), want.den, asg, site)
    got = call(eng, env["nodes"], [tr.value])
    C.equal(tag + "the network has all the nodes", ite(bad, RAISES, got.den), lit_den(eng, list(range(n))), asg, site)


def lit_den(eng, x):
    return eng.den(lit(eng, x))


def recall(C, k):
    eng, env = setup(C)
    c21.shuffles(eng, spec_env(eng, c21.SPEC, {"CUR": P(eng, "FN_CUR"), "INNER": P(eng, "FN_INNER")}), "same")
    cls = eng.lookup_export("netomaton.HopfieldNet")
    net = call(eng, cls, [ONE])
    rule = call(eng, spec_env(eng, "def f(n):\n    return n.activity_rule\n")["f"], [net.value])
    ws, xs = params(eng, ["w%d" % i for i in range(k)]), params(eng, ["a%d" % i for i in range(k)])
    labels = lit(eng, [3, 1, 2, 7, 5][:k])
    got = call(eng, env["recall"], [rule.value, labels, ws, xs])
    want = call(eng, env["recalled"], [ws, xs])
    asg = []
    for seed in range(16):
        asg.append(dict([(P(eng, "w%d" % i), [2, -1, 3, -4, 5][(seed + i + (seed >> 2) * i) % 5]) for i in range(k)] + [(P(eng, "a%d" % i), [1, -1][(seed >> i) % 2]) for i in range(k)]))
    C.equal("a node with %d neighbours becomes 1 when its weighted input is at least zero, else -1" % k, ite(OR(net.raises, rule.raises), RAISES, got.term),
            want.term, asg, site_of(eng, cls))


def check(C):
    for rows, cols in ((4, 5), (5, 3)) + (((6, 5), (3, 3), (7, 4)) if C.thorough else ()):
        C.group("sandpile", sandpile, C, rows, cols)
    C.group("lattice", lattice, C)
    for m, n in ((1, 2), (1, 3), (2, 3), (3, 4)) + (((4, 5), (2, 6)) if C.thorough else ()):
        C.group("training", training, C, m, n)
    for seed, (m, n) in enumerate(((2, 3), (3, 3), (3, 4), (4, 3), (5, 4), (3, 5)) * (3 if C.thorough else 1)):
        C.group("training", training, C, m, n, seed)
    for k in (0, 1, 2, 3, 4):
        C.group("recall", recall, C, k)
