"""C12: degrees and incidence of a Network agree after every mutation."""
import random
from .netops import *
from . import structures

TECHNIQUE = ("inductive effect analysis of Network: for an arbitrary well-formed network, what in_degree, out_degree, degree, in_edges, nodes and "
             "the record of outgoing edges give after each mutator is computed from the mutator's effects on the nested containers "
             "(access paths, aliasing of equal labels and self-loops included) and compared with what the operation means")

SPEC = """
def nodes_add(R, i, j):
    return [x for x in R] + [x for x in ([i, j] if i != j else [i]) if x not in R]
def add_in(R, i, j):
    return {x: (R[x]["in"] if x in R else 0) + (1 if x == j else 0) for x in nodes_add(R, i, j)}
def add_out(R, i, j):
    return {x: (R[x]["out"] if x in R else 0) + (1 if x == i else 0) for x in nodes_add(R, i, j)}
def add_leaving(R, i, j):
    return {x: ([y for y in R[x]["outgoing"]] if x in R else []) + ([j] if x == i else []) for x in nodes_add(R, i, j)}
def add_edges_at(R, i, j):
    return {x: {y: ([{k: e[k] for k in e} for e in R[x]["incoming"][y]] if x in R and y in R[x]["incoming"] else []) + ([{}] if y == i and x == j else [])
                for y in ([z for z in R[x]["incoming"]] if x in R else [])
                    + ([i] if x == j and (x not in R or i not in R[x]["incoming"]) else [])}
            for x in nodes_add(R, i, j)}

def two_nodes(R, i, j):
    return nodes_add(R, i, j)
def two_in(R, i, j):
    return {x: (R[x]["in"] if x in R else 0) + (1 if x == j else 0) + (1 if x == i else 0) for x in nodes_add(R, i, j)}
def two_out(R, i, j):
    return {x: (R[x]["out"] if x in R else 0) + (1 if x == j else 0) + (1 if x == i else 0) for x in nodes_add(R, i, j)}
def two_leaving(R, i, j):
    return {x: ([y for y in R[x]["outgoing"]] if x in R else []) + ([j] if x == i else []) + ([i] if x == j else []) for x in nodes_add(R, i, j)}

def up_nodes(R, i, j):
    return [x for x in R]
def up_in(R, i, j):
    return {x: R[x]["in"] for x in R}
def up_out(R, i, j):
    return {x: R[x]["out"] for x in R}
def up_leaving(R, i, j):
    return {x: [y for y in R[x]["outgoing"]] for x in R}

def fresh(k):
    return [x for x in range(k)]
def fresh_zero(k):
    return {x: 0 for x in range(k)}
def fresh_none(k):
    return {x: {} for x in range(k)}
def fresh_one(k, i, j):
    return {x: 1 if x == j else 0 for x in range(k)}
def fresh_list(k):
    return {x: [] for x in range(k)}

def rm_nodes(R, i, j):
    return [x for x in R]
def rm_in(R, i, j):
    return {x: R[x]["in"] - (len(R[x]["incoming"][i]) if x == j else 0) for x in R}
def rm_out(R, i, j):
    return {x: R[x]["out"] - (len(R[j]["incoming"][i]) if x == i else 0) for x in R}
def rm_leaving(R, i, j):
    return {x: [y for y in R[x]["outgoing"] if not (x == i and y == j)] for x in R}
def rm_edges_at(R, i, j):
    return {x: {y: [{k: e[k] for k in e} for e in R[x]["incoming"][y]] for y in R[x]["incoming"] if not (x == j and y == i)} for x in R}

def del_nodes(R, i):
    return [x for x in R if x != i]
def del_in(R, i):
    return {x: R[x]["in"] - (len(R[x]["incoming"][i]) if i in R[x]["incoming"] else 0) for x in R if x != i}
def del_out(R, i):
    return {x: R[x]["out"] - (len(R[i]["incoming"][x]) if x in R[i]["incoming"] else 0) for x in R if x != i}
def del_leaving(R, i):
    return {x: [y for y in R[x]["outgoing"] if y != i] for x in R if x != i}
def del_edges_at(R, i):
    return {x: {y: [{k: e[k] for k in e} for e in R[x]["incoming"][y]] for y in R[x]["incoming"] if y != i} for x in R if x != i}

def node_nodes(R, i):
    return [x for x in R] + [x for x in [i] if x not in R]
def node_in(R, i):
    return {x: R[x]["in"] if x in R else 0 for x in node_nodes(R, i)}
def node_out(R, i):
    return {x: R[x]["out"] if x in R else 0 for x in node_nodes(R, i)}
def node_leaving(R, i):
    return {x: [y for y in R[x]["outgoing"]] if x in R else [] for x in node_nodes(R, i)}
def node_edges_at(R, i):
    return {x: {y: [{k: e[k] for k in e} for e in R[x]["incoming"][y]] for y in R[x]["incoming"]} if x in R else {} for x in node_nodes(R, i)}
"""


def exists(net, i, j):
    return j in net.attrs and i in net.inc[j]


def check(C):
    C.group("reading", reading, C)
    C.group("add_edge", mutation, C, "add_edge", ("i", "j"), {"in": "add_in", "out": "add_out", "leaving": "add_leaving",
                                                              "edges_at": "add_edges_at"}, None)
    C.group("add_edge_bidir", mutation, C, "add_edge_bidir", ("i", "j"), {"nodes": "two_nodes", "in": "two_in", "out": "two_out",
                                                                         "leaving": "two_leaving"}, None)
    C.group("update_edge", mutation, C, "update_edge", ("i", "j"), {"nodes": "up_nodes", "in": "up_in", "out": "up_out",
                                                                    "leaving": "up_leaving"}, exists, ("w",))
    C.group("a new network", constructed, C)
    C.group("remove_edge", mutation, C, "remove_edge", ("i", "j"), {"nodes": "rm_nodes", "in": "rm_in", "out": "rm_out", "leaving": "rm_leaving",
                                                                    "edges_at": "rm_edges_at"}, exists)
    for name in ("remove_node", "__delitem__"):
        C.group(name, mutation, C, name, ("i",), {"nodes": "del_nodes", "in": "del_in", "out": "del_out", "leaving": "del_leaving",
                                                  "edges_at": "del_edges_at"}, lambda net, i, j: i in net.attrs)
    C.group("add_node", mutation, C, "add_node", ("i",), {"nodes": "node_nodes", "in": "node_in", "out": "node_out", "leaving": "node_leaving",
                                                          "edges_at": "node_edges_at"}, None)
    for shape in structures.SHAPES:
        C.group("small networks: " + shape, sequences, C, shape)


def on(net, op, args):
    """what an operation makes of a network given as a list of nodes and a list of edges (from, to, attributes); None if it is not to be called"""
    nodes, edges = list(net[0]), list(net[1])
    if op == "remove_node":
        if args[0] not in nodes:
            return None
        return [x for x in nodes if x != args[0]], [e for e in edges if args[0] not in e[:2]]
    if op == "remove_edge":
        if not any(e[:2] == args for e in edges):
            return None
        return nodes, [e for e in edges if e[:2] != args]
    nodes += [x for x in dict.fromkeys(args) if x not in nodes]
    if op == "add_edge":
        edges.append(args + ({},))
    elif op == "add_edge_bidir":
        edges += [args + ({},), args[::-1] + ({},)]
    return nodes, edges


def sequence(C, shape, ops):
    """operations on a small network of a given shape: the degrees and the incidence in the end, piece by piece"""
    net = ([n for n, _ in structures.SHAPES[shape][0]], structures.SHAPES[shape][1])
    L = structures.Lab(C)
    n = L.network(shape)
    bad = FALSE
    for op, args in ops:
        net = on(net, op, args)
        r = call(L.eng, L.eng.getattr(n, op), [L.value(repr(a)) for a in args])
        bad = OR(bad, r.raises)
    nodes, edges = net
    tag = "%s, then %s: " % (shape, ", ".join("%s%r" % (op, args) for op, args in ops))
    din = {x: sum(1 for e in edges if e[1] == x) for x in nodes}
    dout = {x: sum(1 for e in edges if e[0] == x) for x in nodes}
    site = site_of(L.eng, L.eng.getattr(n, ops[-1][0]))
    L.require(tag + "the degrees", L.see("degrees", n), repr({x: [din[x], dout[x], din[x] + dout[x]] for x in nodes}), site, bad)
    L.require(tag + "the edges arriving", L.see("arriving", n), structures.text(
        {x: {i: [a for p, q, a in edges if (p, q) == (i, x)] for i in dict.fromkeys(e[0] for e in edges if e[1] == x)} for x in nodes}), site, bad)


def sequences(C, shape):
    labels = [n for n, _ in structures.SHAPES[shape][0]] or ["p"]
    some = labels[:3] + ["new"]
    single = [("remove_node", (x,)) for x in labels] + [(op, (x, y)) for op in ("remove_edge", "add_edge", "add_edge_bidir") for x in some for y in some]
    start = (labels if structures.SHAPES[shape][0] else [], structures.SHAPES[shape][1])
    valid = [o for o in single if on(start, *o) is not None]
    runs = [[o] for o in valid]
    r = random.Random(shape)
    for _ in range(60 if C.thorough else 12):
        run, net = [], start
        for _ in range(r.randint(2, 4)):
            o = r.choice([o for o in single + [("remove_node", ("new",))] if on(net, *o) is not None])
            run.append(o)
            net = on(net, *o)
        runs.append(run)
    for run in runs:
        sequence(C, shape, run)


def reading(C):
    w = Net(C)
    w.use_rot = False
    w.when = TRUE
    for what in NAMES:
        v, out = w.observed(what)
        s = w.spec("", "see_" + what)
        C.equal("%s are read from the network" % NAMES[what], v, s, list(assignments(w)), None)


def mutation(C, name, names, specs, valid, attrs=()):
    for what, sp in specs.items():
        w = Net(C, names, attrs)
        w.use_rot = False
        w.do(name, *w.args, **w.kw)
        w.prepare(w.pre(name))
        asg = list(assignments(w, valid))
        v, out = w.observed(what)
        s = w.spec(SPEC, sp, *w.args)
        C.equal("%s after %s" % (NAMES[what], name), v, s, asg, w.site)
    C.equal("%s is carried out" % name, w.raises, FALSE, asg, w.site, when=w.when)


def constructed(C):
    """Network(k): k nodes, no edges; two of its nodes share nothing"""
    for what, sp in (("nodes", "fresh"), ("in", "fresh_zero"), ("out", "fresh_zero"), ("edges_at", "fresh_none"), ("leaving", "fresh_list")):
        eng = C.engine()
        k = P(eng, "k", "int")
        env = spec_env(eng, OBSERVE + SPEC, {"FIELDS": eng.eval_in(repr(FIELDS), {})})
        net = call(eng, eng.lookup_export("netomaton.Network"), [k], {}).value
        out = call(eng, env["obs_" + what], [net], {})
        sp = call(eng, env[sp], [k], {})
        C.equal("%s of a new network" % NAMES[what], eng.den(out.value), eng.den(sp.value), [{k: n} for n in range(5)], None)
    eng = C.engine()
    k, i, j = [P(eng, a, "int") for a in ("k", "i", "j")]
    env = spec_env(eng, OBSERVE + SPEC, {"FIELDS": eng.eval_in(repr(FIELDS), {})})
    net = call(eng, eng.lookup_export("netomaton.Network"), [k], {}).value
    eng.pc = AND(*[compare(o, x, y) for z in (i, j) for o, x, y in (("ge", z, const(0)), ("lt", z, k))])
    call(eng, eng.getattr(net, "add_edge"), [i, j], {})
    out = call(eng, env["obs_in"], [net], {})
    sp = call(eng, env["fresh_one"], [k, i, j], {})
    C.equal("the nodes of a new network share nothing", eng.den(out.value), eng.den(sp.value),
            [{k: n, i: a, j: b} for n in range(1, 4) for a in range(n) for b in range(n)], None)
