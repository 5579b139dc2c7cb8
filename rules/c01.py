"""C01: what the activity rule is shown about activities is what was recorded for the previous timestep."""
from .evo import *

TECHNIQUE = ("interprocedural value-flow and effect analysis of evolve over an abstract network with uninterpreted callbacks: the "
             "closed form of the activities in every context is compared with that of the previous timestep's state")


FIELDS_ = ("rule.activities", "rule.neighbourhood_activities", "rule.current_activity")


def check(C):
    for order in ORDERS:
        for topo in (None, "topo", "growing"):
            for pert in ((False, True) if C.thorough else (topo is None,)):
                C.group("%s %s" % (order, topo), one, C, dict(order=order, topo=topo, pert=pert, T=7 if C.thorough else 4))
    C.group("node requests", one, C, dict(rule="requesting", requests=True, T=3))
    C.group("requests that are ignored", one, C, dict(rule="requesting", order="TOPOLOGY_FIRST", T=3))
    C.group("initial activities in a list", one, C, dict(initial="from_sequence", ictype="list", T=3))
    C.group("inputs", one, C, dict(inputs=2, pert=True))


def one(C, kw):
    s = Scenario(C, **kw)
    s.fields("previous timestep's activities", *FIELDS_)
    s.activities("recorded")
