"""C06: nodes that a rule adds or removes change the network and the activities together."""
from .evo import *

TECHNIQUE = ("interprocedural value-flow and effect analysis of evolve over an abstract network with uninterpreted callbacks: the script "
             "of changes to the abstract network and the entries of the activities are closed forms over the rules' requests, compared "
             "with those of the recurrence")



def check(C):
    C.group("requests", one, C, dict(rule="requesting", requests=True, T=3))
    C.group("requests, perturbation", one, C, dict(rule="requesting", requests=True, pert=True, T=3))
    C.group("requests, no copies", one, C, dict(rule="requesting", requests=True, copy=False, T=3))
    C.group("requests, topology rule", one, C, dict(rule="requesting", requests=True, topo="growing", T=3 if C.thorough else 2))
    C.group("requests, past", one, C, dict(rule="requesting", requests=True, past=1, T=3))
    for order in ORDERS[1:]:
        for topo in (None, "growing"):
            C.group("ignored requests", one, C, dict(rule="requesting", order=order, topo=topo, T=4, pert=True))


def one(C, kw):
    s = Scenario(C, **kw)
    what = "requests" if kw.get("requests") else "requests are ignored"
    s.networks(what)
    s.activities(what)
    s.fields(what, "rule.label", "rule.activities", "rule.neighbour_labels", "pert.label")
    s.accepted(what)
