"""Small networks of every shape that matters, with symbolic attributes, and NetworkX and msgpack as far as Network uses them."""
import random
from .common import *
from . import graphs
from sa import small
from sa import terms as tm

# nodes with their attributes, edges with theirs; $k is the k-th unknown number
SHAPES = {
    "an empty network": ([], []),
    "one node": ([(0, {"colour": "$0"})], []),
    "isolated nodes": ([("b", {"colour": "$0", "size": "$1"}), ("a", {}), (7, {"colour": "$2"})], []),
    "a self-loop": ([(0, {}), (1, {"colour": "$1"})], [(0, 0, {"weight": "$0"})]),
    "one direction": ([("x", {"colour": "$3"}), ("y", {}), ("z", {})], [("x", "y", {"weight": "$0"}), ("z", "y", {"weight": "$1", "sign": "$2"})]),
    "both directions": ([(2, {}), (0, {}), (1, {"colour": "$2"})], [(0, 1, {"weight": "$0"}), (1, 0, {"weight": "$1"}), (2, 1, {})]),
    "parallel edges": ([(0, {}), (1, {}), (2, {})], [(0, 1, {"weight": "$0"}), (0, 1, {"weight": "$1"}), (1, 0, {"weight": "$2"}), (0, 1, {}),
                                                    (2, 2, {"weight": "$3"}), (2, 2, {"sign": "$0"})]),
    "attributes with structure": ([("p", {"tags": ["$0", {"deep": "$1"}]}), ("q", {"table": {"a": ["$2"]}})], [("p", "q", {"path": ["$0", "$3"]})]),
    "a bit of everything": ([("hub", {"colour": "$0"}), (3, {"size": "$1"}), ("leaf", {}), ("alone", {"colour": "$2", "size": "$2"})],
                            [("hub", "leaf", {"weight": "$0"}), (3, "hub", {"weight": "$1", "sign": "$1"}), ("hub", 3, {}), ("hub", "hub", {"weight": "$3"}),
                             ("leaf", "hub", {"sign": "$2"}), (3, "hub", {"weight": "$2"})]),
}

SEE = """
def nodes(network):
    return {x: {k: v for k, v in network[x].items() if k not in ("in", "out", "incoming", "outgoing")} for x in network.nodes}

def edges(network):
    out = {}
    for i, j, a in network.edges:
        if (i, j) not in out:
            out[(i, j)] = []
        out[(i, j)].append({k: v for k, v in a.items()})
    return out

def degrees(network):
    return {x: [network.in_degree(x), network.out_degree(x), network.degree(x)] for x in network.nodes}

def leaving(network):
    return {x: [y for y in network[x]["outgoing"]] for x in network.nodes}

def arriving(network):
    return {x: {y: [{k: v for k, v in a.items()} for a in es] for y, es in network.in_edges(x).items()} for x in network.nodes}
"""


def text(x):
    """source for a value in which "$k" stands for an unknown"""
    if isinstance(x, str) and x.startswith("$"):
        return "u" + x[1:]
    if isinstance(x, dict):
        return "{%s}" % ", ".join("%s: %s" % (text(k), text(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return ("[%s]" if isinstance(x, list) else "(%s)" if len(x) != 1 else "(%s,)") % ", ".join(text(y) for y in x)
    return repr(x)


def required(shape):
    """what is seen of a shape, as source texts"""
    nodes, edges = SHAPES[shape]
    es = {}
    for i, j, a in edges:
        es.setdefault((i, j), []).append(a)
    labels = [n for n, _ in nodes]
    din = {n: sum(1 for e in edges if e[1] == n) for n in labels}
    dout = {n: sum(1 for e in edges if e[0] == n) for n in labels}
    return {"nodes": text(dict(nodes)), "edges": text(es),
            "degrees": text({n: [din[n], dout[n], din[n] + dout[n]] for n in labels}),
            "arriving": text({n: {i: [a for x, y, a in edges if (x, y) == (i, n)] for i in dict.fromkeys(e[0] for e in edges if e[1] == n)} for n in labels})}


class Lab(object):
    """an engine that follows small networks through the bodies of Network's methods"""

    def __init__(self, C, extra=""):
        self.C = C
        self.eng = eng = C.engine()
        eng.unroll = eng.unroll_range = 200
        small.install(eng)
        eng.ext_override["copy.deepcopy"] = lambda e, a, k: clone(e, a[0], {}) if len(a) == 1 else None
        self.env = spec_env(eng, SEE + extra)
        self.u = [P(eng, "u%d" % i, "num") for i in range(4)]
        for u in self.u:
            tm.NOTNONE_TERMS.add(u)
        self.names = {"u%d" % i: u for i, u in enumerate(self.u)}
        self.asg = []
        for seed in range(6):
            r = random.Random(seed)
            self.asg.append({u: r.choice((0, 1, 2.5, -1, 7)) for u in self.u})

    def value(self, src, **kw):
        kw.update(self.names)
        return graphs.literal(self.eng, src, **kw)

    def network(self, shape):
        nodes, edges = SHAPES[shape]
        src = "import netomaton as ntm\ndef build(u0, u1, u2, u3):\n    n = ntm.Network()\n"
        for n, a in nodes:
            src += "    n.add_node(%r%s)\n" % (n, "".join(", %s=%s" % (k, text(v)) for k, v in a.items()))
        for i, j, a in edges:
            src += "    n.add_edge(%r, %r%s)\n" % (i, j, "".join(", %s=%s" % (k, text(v)) for k, v in a.items()))
        return call(self.eng, spec_env(self.eng, src + "    return n\n")["build"], self.u).value

    def see(self, what, net):
        return call(self.eng, self.env[what], [net])

    def require(self, what, got, want, site, raises=FALSE, asg=None):
        """got: an outcome; want: source text"""
        self.C.equal(what, ite(OR(raises, got.raises), RAISES, self.eng.den(got.value) if got.value.op == "obj" else got.value),
                     self.eng.den(self.value(want)) if isinstance(want, str) else want, asg or self.asg, site)


def clone(eng, v, memo=None):
    """a copy that shares nothing, or None if the content of the value isn't known piece by piece"""
    if v.op == "ite":
        return None
    if v.op == "tuple":
        xs = [clone(eng, x, memo) for x in v.args[0]]
        return None if None in xs else mk("tuple", tuple(xs))
    if v.op != "obj":
        if v.op in ("const", "param", "uf", "enum", "func", "class") or numeric(v):
            return v
        return None
    if memo is not None and v in memo:
        return memo[v]
    m = eng.objs[v.args[0]]
    if m["kind"] == "dict":
        items = eng.finite_dict(v, "items")
        if items is None:
            return None
        o = eng.alloc("dict")
        eng.objs[o.args[0]]["default"] = m.get("default")
        for kv in items:
            k, x = kv.args[0]
            x = clone(eng, x, memo)
            if x is None:
                return None
            eng.emit("store", o, k, x)
    elif m["kind"] in ("list", "tuple", "deque"):
        xs = eng.straight_items(v)
        if xs is None:
            return None
        o = eng.alloc(m["kind"])
        for x in xs:
            x = clone(eng, x, memo)
            if x is None:
                return None
            eng.emit("append", o, None, x)
    elif m["kind"] == "inst" and memo is not None:
        return None if m["cls"] not in eng.classes else copied_instance(eng, v, memo)
    else:
        return None
    if memo is not None:
        memo[v] = o
    return o


def copied_instance(eng, v, memo):
    cls = eng.classes[eng.objs[v.args[0]]["cls"]]
    names = None
    for k in cls.mro(eng):
        s = k.attrs.get("__slots__")
        xs = eng.finite(s) if s is not None else None
        if xs is not None and all(x.op == "const" for x in xs):
            names = (names or []) + [x.args[0] for x in xs]
    if names is None:
        return None
    o = eng.alloc("inst", eng.objs[v.args[0]]["cls"])
    memo[v] = o
    for n in names:
        x = clone(eng, eng.getattr(v, n), memo)
        if x is None:
            return None
        eng.emit("sattr", o, n, x)
    return o
