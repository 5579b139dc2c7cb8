"""C13: edges are directed and their attributes belong to them alone."""
from .netops import *

TECHNIQUE = ("inductive effect analysis of Network: for an arbitrary well-formed network, which edge is found where, with which attributes, and "
             "which node attributes there are after each operation and after sequences of two is computed from the effects of the operations "
             "on the nested containers (object identity of attribute dictionaries included) and compared with what the operations mean")

SPEC = """
def nodes_add(R, *xs):
    out = [x for x in R]
    return out + [x for x in dict.fromkeys(xs) if x not in R]
def arriving(R, x):
    return R[x]["incoming"] if x in R else {}
def place(R, i, j, attrs):
    return {x: {y: ([{k: e[k] for k in e} for e in R[x]["incoming"][y]] if x in R and y in R[x]["incoming"] else []) + ([attrs] if y == i and x == j else [])
                for y in ([z for z in R[x]["incoming"]] if x in R else [])
                    + ([i] if x == j and (x not in R or i not in R[x]["incoming"]) else [])}
            for x in ([z for z in R] + [z for z in ([i, j] if i != j else [i]) if z not in R])}
def kept(R, *xs):
    return {x: {k: R[x][k] for k in R[x] if k not in FIELDS} if x in R else {} for x in ([z for z in R] + [z for z in xs if z not in R])}

def add(R, i, j, w, c):
    return place(R, i, j, {"w": w, "c": c})
def add_attributes(R, i, j, w, c):
    return kept(R, i, j)
def bidir(R, i, j, w):
    P = [z for z in R] + [z for z in ([i, j] if i != j else [i]) if z not in R]
    def now(y, x):
        return ([{k: e[k] for k in e} for e in R[x]["incoming"][y]] if x in R and y in R[x]["incoming"] else []) + ([{"w": w}] if y == i and x == j else []) \\
            + ([{"w": w}] if y == j and x == i else [])
    return {x: {y: now(y, x) for y in P if len(now(y, x)) > 0} for x in P}
def bidir_attributes(R, i, j, w):
    return kept(R, i, j)
def merged(e, w):
    return {**e, "w": w}
def update(R, i, j, w):
    return {x: {y: [({**e, "w": w} if x == j and y == i else {k: e[k] for k in e}) for e in R[x]["incoming"][y]] for y in R[x]["incoming"]} for x in R}
def update_attributes(R, i, j, w):
    return {x: {k: R[x][k] for k in R[x] if k not in FIELDS} for x in R}
def update_nth(R, i, j, w, m):
    return {x: {y: [({**e, "w": w} if x == j and y == i and n == m else {k: e[k] for k in e}) for n, e in enumerate(R[x]["incoming"][y])]
                for y in R[x]["incoming"]} for x in R}
def update_two(R, i, j, w, m):
    return {x: {y: [({**e, "w": w} if x == j and y == i and n in (0, m) else {k: e[k] for k in e}) for n, e in enumerate(R[x]["incoming"][y])]
                for y in R[x]["incoming"]} for x in R}
def update_no(R, i, j, w, m):
    return {x: {y: [{k: e[k] for k in e} for e in R[x]["incoming"][y]] for y in R[x]["incoming"]} for x in R}
def same_attributes(R, *xs):
    return {x: {k: R[x][k] for k in R[x] if k not in FIELDS} for x in R}
def less_attributes(R, i):
    return {x: {k: R[x][k] for k in R[x] if k not in FIELDS} for x in R if x != i}
def bidir_update(R, i, j, w, v):
    P = [z for z in R] + [z for z in [i, j] if z not in R]
    def now(y, x):
        return ([{k: e[k] for k in e} for e in R[x]["incoming"][y]] if x in R and y in R[x]["incoming"] else []) \
            + ([{"w": v}] if y == i and x == j else []) + ([{"w": w}] if y == j and x == i else [])
    return {x: {y: now(y, x) for y in P if len(now(y, x)) > 0} for x in P}
def twice(R, i, j, w, v):
    P = [z for z in R] + [z for z in ([i, j] if i != j else [i]) if z not in R]
    def now(y, x):
        return ([{k: e[k] for k in e} for e in R[x]["incoming"][y]] if x in R and y in R[x]["incoming"] else []) \
            + ([{"w": w}, {"w": v}] if y == i and x == j else [])
    return {x: {y: now(y, x) for y in P if len(now(y, x)) > 0} for x in P}
def node_attributes(R, i, s):
    return {x: {**({k: R[x][k] for k in R[x] if k not in FIELDS} if x in R else {}), **({"size": s} if x == i else {})}
            for x in ([z for z in R] + [z for z in [i] if z not in R])}

def see_edges(R):
    return [(i, j, e) for j in R for i in R[j]["incoming"] for e in R[j]["incoming"][i]]
def see_has(R, i, j):
    return j in R and i in R[j]["incoming"]
def see_edge(R, i, j):
    return [{k: e[k] for k in e} for e in R[j]["incoming"][i]]
"""

READ = """
def has(n, i, j):
    return n.has_edge(i, j)
def edge(n, i, j):
    return [{k: e[k] for k in e} for e in n.edge(i, j)]
def edges(n):
    return [(i, j, e) for i, j, e in n.edges]
"""


def exists(net, i, j):
    return j in net.attrs and i in net.inc[j]


def linked(w):
    return w.pre("update_edge")


def check(C):
    C.group("reading edges", reading, C)
    C.group("add_edge", op, C, "add_edge", ("i", "j"), ("w", "c"), {"edges_at": "add", "attributes": "add_attributes"})
    C.group("add_edge_bidir", op, C, "add_edge_bidir", ("i", "j"), ("w",), {"edges_at": "bidir", "attributes": "bidir_attributes"})
    C.group("update_edge", op, C, "update_edge", ("i", "j"), ("w",), {"edges_at": "update", "attributes": "update_attributes"}, exists, True)
    C.group("update_edge of one", op, C, "update_edge", ("i", "j"), ("w",), {"edges_at": "update_nth"}, exists, True, "[n]")
    C.group("update_edge of two", op, C, "update_edge", ("i", "j"), ("w",), {"edges_at": "update_two"}, exists, True, "[0, n]")
    C.group("update_edge of none", op, C, "update_edge", ("i", "j"), ("w",), {"edges_at": "update_no"}, exists, True, "[]")
    C.group("remove_edge", op, C, "remove_edge", ("i", "j"), (), {"attributes": "same_attributes"}, exists, True)
    C.group("remove_node", op, C, "remove_node", ("i",), (), {"attributes": "less_attributes"}, lambda net, i, j: i in net.attrs, True)
    C.group("both edges of a pair", pair, C, "bidir_update", "update_edge of one of the edges of a pair leaves the other one alone",
            [("add_edge_bidir", "w"), ("update_edge", "v")])
    C.group("parallel edges", pair, C, "twice", "an edge added next to another one has its own attributes",
            [("add_edge", "w"), ("add_edge", "v")])
    C.group("rotation system", rotation_after, C)
    C.group("update of a missing edge", missing_edge, C)
    C.group("add_node", op, C, "add_node", ("i",), ("size",), {"attributes": "node_attributes"})


def reading(C):
    for name, spec, n in (("edges", "see_edges", 0), ("has", "see_has", 2), ("edge", "see_edge", 2)):
        w = Net(C, ("i", "j"))
        w.when = linked(w) if name == "edge" else TRUE
        env = spec_env(w.eng, READ, dict(w.env))
        out = call(w.eng, env[name], [w.net] + w.args[:n])
        v = w.read(out.value)
        s = w.spec(SPEC, spec, *w.args[:n])
        if name == "edges":
            v, s = mk("bag", (v,)), mk("bag", (s,))
        what = {"edges": "edges lists every edge with source, target and attributes", "has": "has_edge tells whether there is an edge",
                "edge": "edge gives the attributes of the edges from i to j"}[name]
        C.equal(what, v, s, list(assignments(w, exists if name == "edge" else None)), None, when=w.when)


def op(C, name, names, attrs, specs, valid=None, needs=False, indices=None):
    for what, sp in specs.items():
        w = Net(C, names, attrs)
        kw = dict(w.kw)
        vals = w.args + list(w.kw.values())
        when = w.pre(name) if needs else TRUE
        if indices:
            n = P(w.eng, "n", "int")
            kw["indices"] = w.eng.eval_in(indices, {"n": n})
            vals.append(n)
            if "n" in indices:
                when = AND(when, AND(compare("ge", n, const(0)), compare("lt", n, mk("len", item(item(item(w.R, w.args[1]), const("incoming")), w.args[0])))))
        w.do(name, *w.args, **kw)
        w.prepare(when)
        v, out = w.observed(what)
        s = w.spec(SPEC, sp, *vals)
        asg = list(assignments(w, valid))
        if indices:
            asg = [{**a, n: k} for a in asg for k in range(max(1, len(a[w.R][a[w.args[1]]]["incoming"][a[w.args[0]]])))]
        C.equal("%s after %s%s" % (NAMES[what], name, " of " + indices if indices else ""), v, s, asg, w.site, when=when)
    C.equal("%s is carried out%s" % (name, " for " + indices if indices else ""), w.raises, FALSE, asg, w.site, when=w.when)


def pair(C, spec, what, steps):
    w = Net(C, ("i", "j"), ("w", "v"))
    for name, a in steps:
        more = {"indices": w.eng.eval_in("[-1]", {})} if name == "update_edge" else {}
        w.do(name, *w.args, w=w.kw[a], **more)
    i, j = w.args
    when = NOT(compare("eq", i, j)) if spec == "bidir_update" else TRUE
    w.prepare(when)
    v, out = w.observed("edges_at")
    s = w.spec(SPEC, spec, *(w.args + list(w.kw.values())))
    C.equal(what, v, s, list(assignments(w)), w.site, when=when)


ROTATION = """
def obs_rotation(n):
    s = n.rotation_system
    return None if s is None else {x: [y for y in s[x]] for x in s}
"""
LEFT = """
def same_rotation(S, *xs):
    return None if S is None else {x: [y for y in S[x]] for x in S}
def less_rotation(S, i):
    return None if S is None else {x: [y for y in S[x] if y != i] for x in S if x != i}
"""


def rotation_after(C):
    """what the rotation system says after an operation"""
    for name, names, spec in (("add_edge", ("i", "j"), "same_rotation"), ("add_node", ("i",), "same_rotation"), ("remove_node", ("i",), "less_rotation")):
        w = Net(C, names)
        w.use_rot = True
        w.do(name, *w.args)
        when = w.pre(name)
        w.prepare(when)
        env = spec_env(w.eng, ROTATION + LEFT, {})
        v = w.read(call(w.eng, env["obs_rotation"], [w.net], {}).value)
        before = P(w.eng, "rotations")
        s = subst(w.eng.den(call(w.eng, env[spec], [before] + w.args, {}).value), {before: w.rot})
        C.equal("the rotation system after %s" % name, v, s, list(assignments(w, (lambda net, i, j: i in net.attrs) if name == "remove_node" else None)),
                w.site, when=when)


def missing_edge(C):
    w = Net(C, ("i", "j"), ("w",))
    w.do("update_edge", *w.args, **w.kw)
    w.prepare()
    C.equal("update_edge rejects an edge that does not exist", w.raises, NOT(linked(w)), list(assignments(w)), w.site)
