"""C10: persistence and compression determine what a State holds and nothing else."""
from .evo import *

TECHNIQUE = ("interprocedural value-flow and effect analysis of evolve over an abstract network with uninterpreted callbacks: the calls "
             "of all callbacks under each combination of the options are compared with those without, and what the states hold with what the "
             "options say")


ALL = tuple("%s.%s" % (n, f) for n in RECORD for f in RECORD[n])


def check(C):
    for order in ORDERS:
        for comp in (False, True):
            for pa in (True, False):
                for pn in (True, False):
                    if (comp, pa, pn) != (False, True, True):
                        for topo in ("growing", None) if C.thorough or order == ORDERS[0] else ("growing",):
                            C.group("%s %s %s" % (comp, pa, pn), one, C, comp, pa, pn,
                                    dict(order=order, topo=topo, pert=True, T=6 if C.thorough else 3))
    for comp, pa, pn in ((True, True, True), (False, False, False), (True, False, True)):
        C.group("node requests", one, C, comp, pa, pn, dict(rule="requesting", requests=True, T=3))


def one(C, comp, pa, pn, kw):
    s = Scenario(C, compression=const(comp), persist_activities=const(pa), persist_network=const(pn), **kw)
    label = "compression=%s, persist_activities=%s, persist_network=%s" % (comp, pa, pn)
    s.fields(label, *ALL)
    s.length(label)
    if pa:
        s.activities(label + ": activities are held")
    else:
        nothing(C, s, label, 0)
    if pn:
        s.networks(label + ": networks are held")
    else:
        nothing(C, s, label, 1)


def nothing(C, s, label, part):
    site = site_of(s.w.eng, s.w.eng.lookup_export("netomaton.evolve"))
    for k, x in enumerate(s.i.states):
        if k:
            C.equal("%s: state %d holds no %s" % (label, k, ("activities", "network")[part]), bare(x[part]), NONE, s.assignments(), site)
