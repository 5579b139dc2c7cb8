"""C02: each update order gives the activity rule and the topology rule the documented versions of network and activities."""
from .evo import *

TECHNIQUE = ("interprocedural value-flow and effect analysis of evolve over an abstract network with uninterpreted callbacks: the network "
             "and the activities that each callback receives are closed forms over A(0), S(0) and the callbacks, compared with those of "
             "the documented recurrences of the three update orders")



def check(C):
    for order in ORDERS:
        for topo in ("topo", "growing"):
            for copy in (True, False):
                if topo == "growing" or copy:
                    C.group("%s %s" % (order, topo), one, C, dict(order=order, topo=topo, copy=copy, pert=C.thorough, T=7 if C.thorough else 4))
    C.group("topology rule and node requests", one, C, dict(rule="requesting", requests=True, topo="growing", T=2 if not C.thorough else 3))
    C.group("unsupported order", rejected, C)


def one(C, kw):
    s = Scenario(C, **kw)
    s.fields("version given to the rules", "rule.activities", "rule.neighbour_labels", "rule.connection_states", "topo.network", "topo.activities")
    s.networks("A(t)")
    s.activities("S(t)")
    s.length("A(0), S(0) to A(T-1), S(T-1)")


def rejected(C):
    w = World(C)
    bad = const("activities first")
    f = w.eng.lookup_export("netomaton.evolve")
    out = call(w.eng, f, [w.net], dict(initial_conditions=w.ic, activity_rule=w.env["rule"], topology_rule=w.env["topo"], timesteps=const(3),
                                       update_order=bad))
    C.equal("an update order that is not supported is rejected", lengths(w.eng, out.raises), TRUE, [{w.net: n, w.ic: states_for(n.attrs, 0)} for n in networks()],
            site_of(w.eng, f))
