"""C05: inputs and perturbations reach exactly the node they belong to."""
from .evo import *

TECHNIQUE = ("interprocedural value-flow and effect analysis of evolve over an abstract network with uninterpreted callbacks: the input "
             "in every context, the calls of the perturbation and the activities that result are closed forms over the inputs, compared "
             "with each node's entry")


FIELDS_ = ("rule.input", "rule.label", "pert.input", "pert.label", "pert.timestep", "pert.activity")


def check(C):
    n = 5 if C.thorough else 3
    for order in ORDERS:
        C.group(order + ", inputs", one, C, dict(order=order, inputs=n, pert=True))
        C.group(order + ", timesteps", one, C, dict(order=order, pert=True))
    C.group("inputs, no perturbation", one, C, dict(inputs=n))
    C.group("inputs, node requests", one, C, dict(inputs=2, pert=True, rule="requesting", requests=True))
    C.group("topology rule", one, C, dict(inputs=n, pert=True, topo="topo"))


def one(C, kw):
    s = Scenario(C, **kw)
    what = "%s" % ("inputs" if "inputs" in kw else "timesteps only")
    s.fields(what, *FIELDS_)
    s.activities(what)
