"""
The operations of Network, decided from their bodies: for an arbitrary well-formed network before the operation, what every
observation gives afterwards, in terms of what was there before.  Well-formedness is thereby shown to be preserved.
"""
from rules.common import *
from sa import heap, ident
from sa import terms as tm
from sa.engine import item
from sa.ident import Interp, NP
from sa.netval import NetVal
from rules.evo import networks

FIELDS = ("in", "out", "incoming", "outgoing")

OBSERVE = """
def obs_nodes(n):
    return [x for x in n.nodes]
def obs_in(n):
    return {x: n.in_degree(x) for x in n.nodes}
def obs_out(n):
    return {x: n.out_degree(x) for x in n.nodes}
def obs_degree(n):
    return {x: n.degree(x) for x in n.nodes}
def obs_edges_at(n):
    return {x: {y: [{k: e[k] for k in e} for e in n.in_edges(x)[y]] for y in n.in_edges(x)} for x in n.nodes}
def obs_leaving(n):
    return {x: [y for y in n[x]["outgoing"]] for x in n.nodes}
def obs_attributes(n):
    return {x: {k: n[x][k] for k in n[x] if k not in FIELDS} for x in n.nodes}
"""

# the same, from what the network consists of
PLAIN = """
def see_nodes(R):
    return [x for x in R]
def see_in(R):
    return {x: R[x]["in"] for x in R}
def see_out(R):
    return {x: R[x]["out"] for x in R}
def see_degree(R):
    return {x: R[x]["out"] + R[x]["in"] for x in R}
def see_edges_at(R):
    return {x: {y: [{k: e[k] for k in e} for e in R[x]["incoming"][y]] for y in R[x]["incoming"]} for x in R}
def see_leaving(R):
    return {x: [y for y in R[x]["outgoing"]] for x in R}
def see_attributes(R):
    return {x: {k: R[x][k] for k in R[x] if k not in FIELDS} for x in R}
"""

NAMES = {"nodes": "the nodes", "in": "in-degrees", "out": "out-degrees", "degree": "degrees", "edges_at": "edges arriving at each node",
         "leaving": "the record of where edges go", "attributes": "node attributes"}


def raw(net):
    """a network as Network represents it"""
    r = {}
    for l in net.attrs:
        d = {"in": 0, "out": 0, "incoming": {}, "outgoing": []}
        d.update(net.attrs[l])
        r[l] = d
    for j in net.attrs:
        for i, es in net.inc[j].items():
            r[j]["incoming"][i] = [dict(e) for e in es]
            r[j]["in"] += len(es)
            r[i]["out"] += len(es)
            r[i]["outgoing"] += [j] * len(es)
    return r


def representation(eng, t):
    if t.op == "attr" and t.args[1] == "_network":
        return "dict"
    if t.op == "item" and t.args[1] is const("incoming"):
        return "dict"
    if t.op == "item" and t.args[1] is const("outgoing"):
        return "list"
    if t.op in ("item", "nth") and t.args[0].op == "item" and t.args[0].args[1] is const("incoming"):
        return "list" if t.op == "item" else None
    return None


class Net(object):
    """a network about which nothing is known but that it is well-formed"""

    def __init__(self, C, names=(), attrs=()):
        self.C = C
        self.eng = eng = C.engine()
        eng.typehooks.append(representation)
        self.net = P(eng, "network", "class:Network")
        tm.NOTNONE_TERMS.add(self.net)
        self.R = mk("attr", self.net, "_network")
        self.rot = mk("attr", self.net, "_rotation_system")
        tm.NOTNONE_TERMS.add(self.R)
        self.env = spec_env(eng, OBSERVE + PLAIN, {"FIELDS": eng.eval_in(repr(FIELDS), {})})
        self.args = [P(eng, a) for a in names]
        self.kw = {a: P(eng, "attr_" + a) for a in attrs}
        self.n0 = self.n1 = None
        self.use_rot = False
        self.when = TRUE

    def do(self, name, *args, **kw):
        """an operation"""
        eng = self.eng
        f = eng.getattr(self.net, name)
        self.site = site_of(eng, f)
        if self.n0 is None:
            self.n0 = len(eng.log)
        out = call(eng, f, args, kw)
        self.n1 = len(eng.log)
        self.raises = OR(getattr(self, "raises", FALSE), out.raises)
        return out

    def prepare(self, when=TRUE):
        if self.n0 is None:
            return
        heap.own_paths(self.eng, self.n0, self.n1)
        self.unsure = heap.logged(self.eng, self.n0, self.n1)
        self.when = when

    def pre(self, name):
        """when the operation is defined"""
        i = self.args[0]
        if name in ("remove_edge", "update_edge"):
            j = self.args[1]
            return AND(atom("in", j, self.R), atom("in", i, item(item(self.R, j), const("incoming"))))
        if name in ("remove_node", "__delitem__"):
            return atom("in", i, self.R)
        return TRUE

    def read(self, v):
        return heap.settle(self.eng, self.eng.den(v), getattr(self, "unsure", ()), self.when)

    def observed(self, what):
        out = call(self.eng, self.env["obs_" + what], [self.net], {})
        return fused(simplify(self.read(out.value), self.when)), out

    def spec(self, src, name, *args):
        """a piece of specification, about the network (R) as it was before"""
        eng = self.eng
        R = P(eng, "before", "dict")
        tm.NOTNONE_TERMS.add(R)
        env = spec_env(eng, src, dict(self.env))
        out = call(eng, env[name], [R] + list(args), {})
        t = subst(heap.settle(eng, eng.den(out.value)), {R: self.R})
        return fused(simplify(t, self.when))


def fused(t):
    return t


def cases(w, links=True):
    """well-formed networks, and pairs of labels in them: of every kind of pair that can be told apart"""
    for net in list(networks()) + [small()]:
        labels = list(net.attrs)
        extra = ["new", 99]
        pairs = []
        linked = [(i, j) for j in labels for i in net.inc[j]]
        for i in labels + extra:
            for j in labels + extra:
                kind = (i == j, (i, j) in linked, (j, i) in linked, i in labels, j in labels, len(net.inc[j].get(i, ())) if j in labels else 0)
                pairs.append((kind, (i, j)))
        seen = {}
        for k, p in pairs:
            seen.setdefault(k, []).append(p)
        for k, ps in seen.items():
            for p in ps[:2]:
                yield net, p[0], p[1], k


def small():
    n = NetVal()
    for l in ("a", "b", "c"):
        n.add_node(l, size=l)
    for i, j, a in (("a", "a", {"w": 1}), ("a", "a", {"w": 2}), ("a", "b", {"w": 3}), ("a", "b", {}), ("b", "a", {"w": 4}), ("c", "a", {"w": 5}),
                    ("c", "c", {"w": 6}), ("b", "c", {"x": 7})):
        n.add_edge(i, j, **a)
    return n


def assignments(w, valid=None):
    for net, i, j, kind in cases(w):
        if valid and not valid(net, i, j):
            continue
        for rot in ((None, rotation(net)) if w.use_rot else (None,)):
            a = {w.R: raw(net), w.rot: rot}
            for p, v in zip(w.args, (i, j)):
                a[p] = v
            for k, p in enumerate(w.kw.values()):
                a[p] = (17 + k, "value", None, 0)[(k + len(str(i))) % 4]
            yield a


def rotation(net):
    return {l: [l] + [i for i in reversed(list(net.inc[l])) if i != l] for l in net.attrs}
