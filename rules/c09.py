"""C09: evolve leaves the caller's objects alone, and recorded states stay as they were recorded."""
from .evo import *
from .effects import *

TECHNIQUE = ("interprocedural effect and alias analysis of evolve: no effect reaches what the caller passed, and what the states hold at the "
             "end is, as a closed form, what was recorded; the network given to a topology rule is traced to a fresh copy")


def check(C):
    T = 6 if C.thorough else 4
    for order in ORDERS:
        for topo in (None, "topo", "growing"):
            C.group("%s %s" % (order, topo), one, C, dict(order=order, topo=topo, pert=True, T=T))
    C.group("network not copied", one, C, dict(topo="topo", copy=False, T=T))
    C.group("node requests", one, C, dict(rule="requesting", requests=True, T=3, past=1))
    C.group("node requests, network not copied", one, C, dict(rule="requesting", requests=True, copy=False, T=3))
    C.group("node requests, network not persisted", one, C, dict(rule="requesting", requests=True, T=3, persist_network=FALSE, states=False))
    C.group("node requests, topology rule", one, C, dict(rule="requesting", requests=True, topo="growing", T=2))
    for ty in ("list", "ndarray"):
        C.group("initial and past conditions (%s)" % ty, one, C, dict(initial="from_sequence", ictype=ty, past=2, pasttype=ty))
    C.group("past conditions", one, C, dict(past=2, topo="growing"))
    C.group("inputs", one, C, dict(inputs=3, pert=True))
    C.group("compression", one, C, dict(topo="growing", compression=TRUE, T=T))
    C.group("memoize", one, C, dict(memoize=TRUE, states=False))


def one(C, kw):
    states = kw.pop("states", True)
    s = Scenario(C, **kw)
    eng, w = s.w.eng, s.w
    what = s.what + ("" if kw.get("copy", True) else ", copy_network=False")
    site = site_of(eng, eng.lookup_export("netomaton.evolve"))
    for name, ps in (("the network", [w.net]), ("the initial conditions", [w.ic]), ("the past conditions", s.past + s.containers[1:]),
                     ("the inputs", s.ins + s.containers[:1])):
        ps = [p for p in ps if p is not None]
        if ps:
            unmodified(C, "%s stay as given (%s)" % (name, what), eng, ps, s.n0, s.n1, s.assignments(), site)
    if states:
        s.activities("recorded activities stay as recorded")
        s.networks("recorded networks stay as recorded")
    if kw.get("copy", True) and kw.get("topo"):
        given_copy(C, s, what)


def given_copy(C, s, what):
    """the network that the topology rule gets is not one that a state holds, nor the caller's"""
    eng = s.w.eng
    n = 0
    for e in eng.log[s.n0:s.n1]:
        if e.kind == "call" and e.extra.get("cb") == "topo":
            n += 1
            raw = e.extra["args"][1]
            name = "the topology rule is given a copy (%s) #%d" % (what, n)
            bad = [x for x in leaves(raw) if not (x.op == "obj" and s.w.eng.objs[x.args[0]].get("netbase") is not None and
                                                  s.w.eng.objs[x.args[0]]["netbase"].op == "netcopy")]
            if not bad:
                C.proved(name, "it is %s" % show(raw), e.site)
            elif any(x is s.w.net or x.op == "uf" for x in bad):
                C.violated(name, "it is %s itself" % show(bad[0])[:200], e.site)
            else:
                C.undecided(name, show(raw)[:200], e.site)
