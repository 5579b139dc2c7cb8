"""C29: the fungal growth model moves resource along links within its lattice."""
import random
from .common import *
from . import graphs
from sa import small

TECHNIQUE = ("value-flow analysis of the two rules: the topology rule is followed for an arbitrary state of every pair of lattice neighbours (unlinked, or "
             "linked in one direction) and arbitrary resources, every random draw being a fresh unknown; the links and weights it leaves, and the "
             "resource the activity rule returns, are compared as value graphs with what is required")
LEVEL_NOTE = ("One step from any state of the lattices up to 2 x 2 and 3 x 1, and on those up to 4 x 3 from states in which all but a few pairs are given; "
              "links, resources, weights and random draws are symbolic. ")

SPEC = """
class Links:
    # a network of which only the number and the weight of the edges of every ordered pair are recorded
    def __init__(self, n=0):
        self.labels = [i for i in range(n)]
        self.count = {}
        self.weight = {}
        self.rotation_system = None

    def add_node(self, node_label, **attr):
        if node_label not in self.labels:
            self.labels.append(node_label)

    def add_edge(self, i, j, **attr):
        self.count[(i, j)] = self.count.get((i, j), 0) + 1
        self.weight[(i, j)] = attr.get("weight", None)

    def add_edge_bidir(self, i, j, **attr):
        self.add_edge(i, j, **attr)
        self.add_edge(j, i, **attr)

    def update_edge(self, i, j, indices=None, **attr):
        if "weight" in attr:
            self.weight[(i, j)] = attr["weight"]

    def remove_edge(self, i, j):
        self.count[(i, j)] = 0

    @property
    def nodes(self):
        return list(self.labels)

    @property
    def edges(self):
        return [(i, j, {"weight": self.weight[(i, j)]}) for (i, j), c in self.count.items() if c > 0]

    def has_edge(self, i, j):
        return self.count.get((i, j), 0) > 0

    def out_degree(self, node_label):
        return sum([c for (i, j), c in self.count.items() if i == node_label])

    def in_degree(self, node_label):
        return sum([c for (i, j), c in self.count.items() if j == node_label])

    def degree(self, node_label):
        return self.in_degree(node_label) + self.out_degree(node_label)

    def in_edges(self, node_label):
        return {i: [{"weight": self.weight[(i, j)]}] for (i, j), c in self.count.items() if j == node_label and c > 0}

    def edge(self, i, j):
        return [{"weight": self.weight[(i, j)]}]

    def copy(self):
        n = Links()
        n.labels = list(self.labels)
        n.count = {k: v for k, v in self.count.items()}
        n.weight = {k: v for k, v in self.weight.items()}
        return n

    def __len__(self):
        return len(self.labels)

class Context:
    def __init__(self, network, activities):
        self.network = network
        self.activities = activities
        self.timestep = 1

class NodeContext:
    def __init__(self, label, own, labels, states, activities):
        self.node_label = label
        self.current_activity = own
        self.neighbour_labels = labels
        self.connection_states = states
        self.activities = activities
        self.neighbourhood_activities = [activities[x] for x in labels]
        self.timestep = 1

def make(n):
    return Links(n)

def put(network, i, j, present, weight):
    network.count[(i, j)] = present
    network.weight[(i, j)] = weight

def grown(model, network, activities):
    ctx = Context(network, activities)
    return model.topology_rule(ctx)

def count(network, i, j):
    return network.count.get((i, j), 0)

def weight(network, i, j):
    return network.weight.get((i, j), None)

def pairs(network):
    return [k for k, c in network.count.items()]

def felt(model, label, own, labels, weights, activities):
    states = {}
    for x, w in zip(labels, weights):
        states[x] = [{"weight": w}]
    return model.activity_rule(NodeContext(label, own, labels, states, activities))
"""


def install(C):
    eng = C.engine()
    eng.unroll = eng.unroll_range = 200
    small.install(eng)
    graphs.install(eng)
    drawn = []

    def real(e, args, kw):
        if args or kw:
            return None
        p = P(eng, "draw%d" % len(drawn), "float")
        drawn.append(p)
        return p
    for name in ("random.random", "numpy.random.random", "numpy.random.rand", "numpy.random.random_sample", "numpy.random.uniform", "random.uniform"):
        eng.ext_override[name] = real
    for name in ("numpy.random.choice", "random.choice"):
        def pick(e, args, kw):
            xs = e.finite(args[0]) if args and len(args) == 1 and not kw else None
            if not xs:
                return None
            p = real(e, [], {})
            r = xs[-1]
            for k in reversed(range(len(xs) - 1)):
                r = ite(compare("lt", p, const((k + 1) / len(xs))), xs[k], r)
            return r
        eng.ext_override[name] = pick
    eng.ext_override["numpy.random.seed"] = eng.ext_override["random.seed"] = lambda e, a, k: NONE
    env = spec_env(eng, SPEC)
    eng.lookup_export("netomaton.Network")
    eng.classes["Network"] = eng.classes["Links"]
    return eng, env, drawn


def near(width, height):
    out = set()
    for y in range(height):
        for x in range(width):
            for a, b in ((x + 1, y), (x, y + 1)):
                i, j = y * width + x, (b % height) * width + a % width
                if i != j:
                    out.add((min(i, j), max(i, j)))
    return sorted(out)


def topology(C, width, height, seed=None):
    eng, env, drawn = install(C)
    n = width * height
    cls = eng.lookup_export("netomaton.FungalGrowthModel")
    zeros = graphs.literal(eng, repr([0] * n))
    made = call(eng, cls, [P(eng, "R_E", "float"), const(width), const(height), zeros], {"resource_layer": zeros, "verbose": FALSE})
    model = made.value
    tag = "%d x %d lattice%s: " % (width, height, "" if seed is None else ", state %d" % seed)
    site = site_of(eng, cls)
    S = [P(eng, "S%d" % i, "float") for i in range(n)]
    acts = graphs.literal(eng, "{%s}" % ", ".join("%d: S%d" % (i, i) for i in range(n)), **{"S%d" % i: S[i] for i in range(n)})
    net = call(eng, env["make"], [const(n)]).value
    links, state, old = near(width, height), {}, {}
    draw = random.Random(seed)
    open_ = draw.sample(links, min(4, len(links)))
    for i, j in links:
        if seed is not None:
            # most pairs in some known state, the others in an unknown one
            state[i, j] = P(eng, "link%d_%d" % (i, j), "int") if (i, j) in open_[:2] else ZERO if (i, j) in open_ else const(draw.choice((1, 2)))
            continue
        state[i, j] = P(eng, "link%d_%d" % (i, j), "int")
    for i, j in links:
        x = state[i, j]
        for a, b, v in ((i, j, 1), (j, i, 2)):
            w = old[a, b] = P(eng, "w%d_%d" % (a, b), "float")
            call(eng, env["put"], [net, const(a), const(b), ite(compare("eq", x, const(v)), ONE, ZERO), w])
    got = call(eng, env["grown"], [model, net, acts])
    asg = []
    for seed in range(60 if not C.thorough else 300):
        r = random.Random(seed)
        d = {s: r.choice((0.0, 0.0, 0.5, 2.0)) for s in S}
        d.update({x: r.choice((0, 0, 1, 2)) for x in state.values() if x.op == "param"})
        d.update({w: 0.25 for w in old.values()})
        d.update({p: r.choice((0.0, 0.1, 0.3, 0.6, 0.9, 0.99)) for p in drawn})
        asg.append(d)

    def value(f, net_, *args):
        return call(eng, env[f], [net_] + [const(a) for a in args]).term

    def require(what, a, b):
        C.equal(tag + what, ite(OR(made.raises, got.raises), RAISES, a), b, asg, site)
    new = got.value
    held = [compare("gt", s, ZERO) for s in S]
    counts = {}
    wrong, kept, lone = FALSE, TRUE, TRUE
    for i, j in links:
        a, b = counts[i, j], counts[j, i] = value("count", new, i, j), value("count", new, j, i)
        x = state[i, j]
        was = ite(compare("eq", x, ONE), ONE, ZERO), ite(compare("eq", x, const(2)), ONE, ZERO)
        linked = OR(compare("eq", x, ONE), compare("eq", x, const(2)))
        same = AND(compare("eq", a, was[0]), compare("eq", b, was[1]))
        none = AND(compare("eq", a, ZERO), compare("eq", b, ZERO))
        fresh = OR(none, OR(AND(held[i], AND(compare("eq", a, ONE), compare("eq", b, ZERO))), AND(held[j], AND(compare("eq", a, ZERO), compare("eq", b, ONE)))))
        require("agents %d and %d: linked ones stay as they are, others get at most one link, leading away from one with resource" % (i, j),
                ite(ite(linked, same, fresh), TRUE, FALSE), TRUE)
        for u, v, old_c in ((i, j, was[0]), (j, i, was[1])):
            require("the network given is not changed (%d, %d)" % (u, v), value("count", net, u, v), old_c)
    stray = [(i, j) for i in range(n) for j in range(n) if (min(i, j), max(i, j)) not in links or i == j]
    for i, j in stray:
        require("no link between %d and %d, which aren't neighbours" % (i, j), value("count", new, i, j), ZERO)
    for (i, j), c in counts.items():
        out = ZERO
        for (a, b), k in counts.items():
            if a == i:
                out = add(out, k)
        w = value("weight", new, i, j)
        present = compare("gt", c, ZERO)
        require("the weight of the link from %d to %d is one over the out-degree of %d" % (i, j, i),
                ite(present, w, NONE), ite(present, div(ONE, out), NONE))


def activity(C, k, alive):
    """an agent with k incoming links"""
    eng, env, drawn = install(C)
    n, label = 6, 2
    cls = eng.lookup_export("netomaton.FungalGrowthModel")
    R = P(eng, "R_E", "float")
    site = site_of(eng, cls)
    L = [P(eng, "L%d" % i, "int") for i in range(n)]
    S = [P(eng, "S%d" % i, "float") for i in range(n)]
    W = [P(eng, "W%d" % i, "float") for i in range(k)]
    src = [0, 3, 5, 1][:k]
    from_ = dict([("S%d" % i, S[i]) for i in range(n)])
    acts = graphs.literal(eng, "{%s}" % ", ".join("%d: S%d" % (i, i) for i in range(n)), **from_)
    ws = graphs.literal(eng, "[%s]" % ", ".join("W%d" % i for i in range(k)), **{"W%d" % i: W[i] for i in range(k)})
    ls = graphs.literal(eng, repr(src))
    layer = graphs.literal(eng, "[%s]" % ", ".join("L%d" % i for i in range(n)), **{"L%d" % i: L[i] for i in range(n)})
    init = graphs.literal(eng, "[%s]" % ", ".join("L%d" % i for i in range(n)), **{"L%d" % i: L[i] for i in range(n)})
    asg = []
    for seed in range(60):
        r = random.Random(seed)
        d = {x: r.choice((0, 1)) for x in L}
        d.update({x: r.choice((0.0, 0.5, 2.0, 0.125)) for x in S})
        d.update({x: r.choice((1.0, 0.5, 0.25)) for x in W})
        d[R] = r.choice((0.5, 0.0, 1.25))
        asg.append(d)
    inflow = S[label] if not k else ZERO
    for i, w in zip(src, W):
        inflow = add(inflow, mul(w, S[i]))
    for given in (True, False):
        made = call(eng, cls, [R, const(3), const(2), init if not given else graphs.literal(eng, repr([0] * n))],
                    {"resource_layer": layer, "verbose": FALSE} if given else {"verbose": FALSE})
        got = call(eng, env["felt"], [made.value, const(label), S[label], ls, ws, acts])
        there = compare("ne", L[label], ZERO)
        want = add(inflow, ite(AND(there, compare("gt", S[label], ZERO)), R, ZERO))
        C.equal("%d incoming links, %s: what they carry%s, and the absorption rate where the agent is alive and resource is available" % (
            k, "resource layer given" if given else "resource where agents start", "" if k else " (its own resource)"),
            ite(OR(made.raises, got.raises), RAISES, got.den), want, asg, site)
    for start in ([1, 0, 3, 0, 0, 2], [0, 0, 5, 1, 0, 0], [0, 0, 0, 0, 0, 1]) if k < 2 else ():
        made = call(eng, cls, [R, const(3), const(2), graphs.literal(eng, repr(start))], {"verbose": FALSE})
        for at in range(n):
            got = call(eng, env["felt"], [made.value, const(at), S[label], ls, ws, acts])
            want = add(inflow, ite(AND(TRUE if start[at] else FALSE, compare("gt", S[label], ZERO)), R, ZERO))
            C.equal("%d incoming links, starting from %r: resource for agent %d exactly if it starts with some" % (k, start, at),
                    ite(OR(made.raises, got.raises), RAISES, got.den), want, asg, site)
    if not k:
        d = call(eng, spec_env(eng, "def f(m):\n    return [x for x in m.network.nodes] + [e for e in m.network.edges]\n")["f"], [made.value])
        C.equal("the initial network has an agent for every cell and no links", d.term, eng.den(graphs.literal(eng, repr(list(range(n))))), asg[:1], site)


def check(C):
    for w, h in ((2, 1), (2, 2), (3, 1), (1, 3)):
        C.group("topology rule, %d x %d" % (w, h), topology, C, w, h)
    for w, h in ((3, 2), (3, 3), (4, 3)):
        for seed in range(40 if C.thorough else 6):
            C.group("topology rule, %d x %d, state %d" % (w, h, seed), topology, C, w, h, seed)
    for k in range(5):
        C.group("activity rule, %d links" % k, activity, C, k, True)
    C.assumptions.append("the operations of Network do what their names say (C12, C13, C16); ticks of the random number generator give arbitrary numbers")
