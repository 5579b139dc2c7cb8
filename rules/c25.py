"""C25: Wolfram model rewriting consumes matched relations and nothing else."""
from .structures import *

TECHNIQUE = ("value-flow analysis of the rewriting model: configurations and rules of every kind that matters, whose nodes are numbered from an unknown "
             "number onwards, are followed through the construction, several updates and the reading of the trajectory, through the bodies of Network's "
             "methods, and the configurations seen are compared as value graphs with those that the rewriting requires")
LEVEL_NOTE = "Configurations have up to 7 relations (11 when only read back) of up to 5 nodes; two updates (thorough: three for the smaller ones); the first node's number is symbolic. "


class Config(object):
    pass


def largest(config):
    return max([0] + [n for r in config for n in r])


def update(config, lhs, rhs):
    """what an update makes of a configuration"""
    left, kept, matches = list(config), [], []
    going = True
    while going:
        bound, taken = {}, []
        for pattern in lhs:
            going = False
            for k, r in enumerate(left):
                if len(r) == len(pattern):
                    b = dict(bound)
                    if all(b.setdefault(s, n) == n for s, n in zip(pattern, r)):
                        bound, going = b, True
                        taken.append(left.pop(k))
                        break
        if len(taken) == len(lhs):
            matches.append(bound)
        else:
            kept += taken
    new, last = left + kept, largest(config)
    for b in matches:
        for pattern in rhs:
            for s in pattern:
                if s not in b:
                    last += 1
                    b[s] = last
            new.append(tuple(b[s] for s in pattern))
    return new


RULES = {
    "splitting edges": ([("x", "y")], [("x", "y"), ("y", "z")]),
    "pairs from a node": ([("x", "y"), ("x", "z")], [("x", "y"), ("x", "w"), ("y", "w"), ("z", "w")]),
    "chains": ([("x", "y"), ("y", "z")], [("z", "x"), ("w", "y")]),
    "loops": ([("x", "x")], [("y", "y"), ("x", "y"), ("x", "y")]),
    "pairs on a loop": ([("x", "x"), ("x", "y")], [("y",), ("x", "x", "z")]),
    "unary": ([("x",)], [("x", "y"), ("y",), ("y",)]),
    "mixed arity": ([("x", "y", "z"), ("u", "x")], [("x", "u", "v"), ("w", "v", "z"), ("v", "y"), ("w", "x")]),
    "repeated symbols": ([("x", "y", "x"), ("y", "y")], [("x", "y"), ("n", "n", "y", "m")]),
    "three relations": ([("x", "y"), ("x", "z"), ("x", "w")], [("x", "x"), ("v", "x"), ("v", "y"), ("z", "v"), ("w", "z")]),
    "failing late": ([("x", "y", "z", "x"), ("z", "x")], [("x", "z", "n")]),
    "failing on the second symbol": ([("x", "y"), ("z", "y", "z")], [("z", "x", "n", "y")]),
    "numbers as symbols": ([(1, 2), (3, 1)], [(4, 3), (4, 2), (5, 1, 4)]),
    "only removing": ([("x", "y"), ("y", "x")], []),
    "swapping": ([("x", "y", "z")], [("z", "y", "x")]),
    "unary and edge": ([("x",), ("x", "y")], [("y",), ("z", "x")]),
    "edge and unary": ([("x", "y"), ("y",)], [("x",), ("x", "y", "n")]),
}

CONFIGS = [
    [(1, 2), (1, 3), (2, 3), (3, 1)],
    [(1, 1), (1, 1), (1, 2)],
    [(2, 1), (1, 2), (2, 2), (5, 2), (1,)],
    [(1,), (2,), (1, 2), (2,), (2, 1)],
    [(1, 2, 3), (4, 1), (3, 1), (2, 2), (1, 2, 1)],
    [(1, 2, 1), (2, 3, 2), (3, 3), (2, 2), (1, 1, 1)],
    [(1, 2, 3, 4), (1, 2, 3, 1), (3, 2), (3, 1), (1, 3)],
    [(3, 2), (5, 4, 5), (1, 4), (4, 2, 4), (6, 4), (2, 2, 3)],
    [(1, 1, 1), (1, 1), (1,), (1, 1, 1, 1)],
]

READ = [
    [],
    [(1,)],
    [(3, 2)],
    [(1, 2), (1, 2), (2, 1), (1, 1)],
    [(1, 1, 1), (1, 1), (1,), (1,), (1, 1, 1)],
    [(4, 3, 2, 1), (1, 3, 4), (2, 3, 2, 3, 2), (1, 2)],
    [(1, 2, 1, 2, 1), (2, 1, 2), (1, 2, 1), (2, 2, 2, 2)],
    [(i % 3 + 1, i % 4 + 1) for i in range(11)],
    [(1, 2, 3)] * 11,
    [(7, 8), (9,), (2, 5, 7, 1), (9, 9), (9,), (5, 7, 2)],
]

SPEC = """
class Context:
    def __init__(self, network):
        self.network = network

class State(Context):
    pass

def build(model, config, rules):
    return model(config, rules)

def updates(m, n):
    networks = [m.network]
    for t in range(n):
        networks.append(m.topology_rule(Context(networks[-1])))
    return networks

def current(m):
    return [tuple(r) for r in m.network_to_config(m.network)]

def read(m, network):
    return [tuple(r) for r in m.network_to_config(network)]

def read_all(m, networks):
    return [[tuple(r) for r in c] for c in m.to_configurations([State(n) for n in networks])]
"""


def source(config, where):
    return "[%s]" % ", ".join("(%s)" % "".join("%s, " % (("k + %d" % n) if where else n) for n in r) for r in config)


def lab(C):
    L = Lab(C, SPEC)
    L.eng.peel = 16
    L.k = P(L.eng, "k", "int")
    L.asg = [{L.k: v} for v in (0, 1, 5)]
    L.eng.assume = AND(L.eng.assume, compare("lt", const(-1), L.k))
    return L


def rewriting(C, name, at, steps, where):
    config, (lhs, rhs) = CONFIGS[at], RULES[name]
    tag = "%s, configuration %s, first node %s" % (name, config, "k + 1" if where else "1")
    L = lab(C)
    lit = lambda src: graphs.literal(L.eng, src, k=L.k)
    rules = lit("{'in': %r, 'out': %r}" % (lhs, rhs))
    given = lit(source(config, where))
    cls = L.eng.lookup_export("netomaton.WolframPhysicsModel")
    site = site_of(L.eng, cls)
    m = call(L.eng, L.env["build"], [cls, given, rules])
    nets = call(L.eng, L.env["updates"], [m.value, const(steps)])
    history = [config]
    for t in range(steps):
        history.append(update(history[-1], lhs, rhs))
    bad = OR(m.raises, nets.raises)
    want = lit("[%s]" % ", ".join(source(c, where) for c in history))
    L.require(tag + ": the configurations of the trajectory", call(L.eng, L.env["read_all"], [m.value, nets.value]), L.eng.den(want), site, bad)
    L.require(tag + ": the model's configuration in the end", call(L.eng, L.env["current"], [m.value]), L.eng.den(lit(source(history[-1], where))), site, bad)
    C.equal(tag + ": the rules are left as given", L.eng.den(rules), L.eng.den(lit("{'in': %r, 'out': %r}" % (lhs, rhs))), L.asg, site)
    C.equal(tag + ": the configuration is left as given", L.eng.den(given), L.eng.den(lit(source(config, where))), L.asg, site)


def reading(C, at):
    config = READ[at]
    L = lab(C)
    cls = L.eng.lookup_export("netomaton.WolframPhysicsModel")
    given = graphs.literal(L.eng, source(config, True), k=L.k)
    m = call(L.eng, L.env["build"], [cls, given, graphs.literal(L.eng, "{'in': [('x',)], 'out': []}")])
    L.require("reading back %s" % (config,), call(L.eng, L.env["current"], [m.value]), L.eng.den(given), site_of(L.eng, cls), m.raises)


def check(C):
    for at in range(len(READ)):
        C.group("reading %d" % at, reading, C, at)
    for where in (False, True):
        for name in RULES:
            for at in range(len(CONFIGS)):
                C.group("rewriting %s %d %s" % (name, at, where), rewriting, C, name, at, 3 if C.thorough and not where and len(CONFIGS[at]) < 5 else 2, where)
