"""C03: one state per timestep, in order, and every callback is told the timestep it works for."""
from .evo import *

TECHNIQUE = ("interprocedural value-flow and effect analysis of evolve over an abstract network with uninterpreted callbacks: the "
             "timestep numbers in the calls of all callbacks and the states of the returned list are compared with those of the recurrence, "
             "for every number of timesteps or inputs up to a bound")


ASK = """
def asking(last):
    def f(t, activities, network):
        OBS_input(t, activities, network)
        if t > last:
            return None
        return SIGNAL(t)
    return f
"""


def check(C):
    for T in range(0, 13 if C.thorough else 7):
        C.group("timesteps=%d" % T, one, C, dict(T=T, topo="topo", pert=True))
    for order in ORDERS[1:]:
        C.group(order, one, C, dict(order=order, topo="topo", pert=True))
    for n in range(0, 8 if C.thorough else 4):
        C.group("%d inputs" % n, one, C, dict(inputs=n, topo="topo", pert=True))
    for n in (0, 1, 3):
        C.group("input function", asked, C, n)
    C.group("neither inputs nor timesteps", neither, C)


def one(C, kw):
    s = Scenario(C, **kw)
    what = "timesteps=%s" % kw["T"] if "T" in kw else "%d inputs" % kw["inputs"] if "inputs" in kw else "4 timesteps"
    s.length(what)
    s.fields(what, "rule.timestep", "rule.label", "pert.timestep", "pert.label", "topo.timestep")
    s.activities(what)
    s.networks(what)
    s.accepted(what)


def asked(C, n):
    w = World(C)
    eng = w.eng
    seen = P(eng, "OBS_input")
    tm.NOTNONE_TERMS.add(seen)
    asks = []

    def h(eng, e, res):
        e.extra["cb"] = "input"
        asks.append((e, [eng.den(a) for a in e.extra["args"]]))
        return NONE
    eng.callbacks[seen] = h
    env = spec_env(eng, ASK, dict(w.env, OBS_input=seen))
    f = eng.call(env["asking"], [const(n)], {})
    i = implementation(w, activity_rule=w.env["rule"], input=f, perturbation=w.env["pert"])
    site = site_of(eng, eng.lookup_export("netomaton.evolve"))
    told = [show(a[0]) for e, a in asks]
    want = [str(t) for t in range(1, n + 2)]
    name = "an input function that ends after %d inputs is asked for timesteps 1 to %d" % (n, n + 1)
    if told == want:
        C.proved(name, "told %s" % ", ".join(told), site)
    elif all(a[0].op == "const" for e, a in asks):
        C.violated(name, "it is told %s" % ", ".join(told), site)
    else:
        C.undecided(name, "told %s" % ", ".join(told), site)
    if i.states is None:
        raise Unsupported("the trajectory")
    name = "an input function that ends after %d inputs gives %d states" % (n, n + 1)
    if len(i.states) == n + 1:
        C.proved(name, "", site)
    else:
        C.violated(name, "the list that is returned has %d entries" % len(i.states), site)


def neither(C):
    w = World(C)
    f = w.eng.lookup_export("netomaton.evolve")
    out = call(w.eng, f, [w.net], dict(initial_conditions=w.ic, activity_rule=w.env["rule"]))
    C.equal("rejected when neither timesteps nor input are given", lengths(w.eng, out.raises), TRUE, [{w.net: n, w.ic: states_for(n.attrs, 0)} for n in networks()],
            site_of(w.eng, f))
