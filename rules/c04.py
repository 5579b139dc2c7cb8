"""C04: a node's context describes its incoming neighbourhood in the network in force."""
from .evo import *

TECHNIQUE = ("interprocedural value-flow and effect analysis of evolve over an abstract network with uninterpreted callbacks: neighbour "
             "labels, neighbourhood activities and connection states of every context are closed forms over the network in force, compared "
             "with its incoming edges or rotation system, also after the network has changed")


FIELDS_ = ("rule.neighbour_labels", "rule.neighbourhood_activities", "rule.connection_states", "rule.label")


def check(C):
    for order in ORDERS:
        for topo in (None, "topo", "growing"):
            C.group("%s %s" % (order, topo), one, C, dict(order=order, topo=topo, T=7 if C.thorough else 4))
    C.group("network changed in place", one, C, dict(topo="growing", copy=False))
    C.group("nodes added and removed", one, C, dict(rule="requesting", requests=True, T=3))
    C.group("nodes added and removed, topology rule", one, C, dict(rule="requesting", requests=True, topo="growing", T=3 if C.thorough else 2))
    for order in ORDERS[1:]:
        C.group("requests that are ignored", one, C, dict(rule="requesting", order=order, T=3))


def one(C, kw):
    s = Scenario(C, **kw)
    s.fields("network in force", *FIELDS_)
    for name, src, want in (("activity_of", "ctx.activity_of(label)", "ctx.activities[label]"),
                            ("edge_data", "ctx.edge_data(label, 'weight', k)", "ctx.connection_states[label][k]['weight']"),
                            ("edge_data, first edge by default", "ctx.edge_data(label, 'weight')", "ctx.connection_states[label][0]['weight']")):
        if kw.get("topo") is None and kw.get("order") == "SYNCHRONOUS" and not kw.get("rule"):
            accessor(C, name, src, want)


def accessor(C, name, src, want):
    eng = C.engine()
    ctx = P(eng, "ctx", "class:NodeContext")
    env = {"ctx": ctx, "label": P(eng, "label"), "k": P(eng, "k", "int")}
    f = eng.eval_in(src, dict(env))
    g = eng.eval_in(want, dict(env))
    act, con = {}, {}
    asg = []
    for l in ("a", 3):
        for k in (0, 1):
            asg.append({ctx: ident.Stub("context", activities={"a": 1, 3: 2}, connection_states={
                "a": [{"weight": 5}, {"weight": 6}], 3: [{"weight": 7}, {"weight": 8}]}), env["label"]: l, env["k"]: k})
    C.equal("NodeContext.%s" % name, f, g, asg)
