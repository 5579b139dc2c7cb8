"""C11: activities hold plain Python values, however they were produced."""
from .evo import *
from .c08 import Memo, results, memo_assignments

TECHNIQUE = ("interprocedural value-flow analysis of evolve: every value that becomes an activity is the conversion of what came in, and no "
             "recorded activity, or activity that a callback is told, is an unconverted NumPy scalar")

TOLD = ("rule.activities", "rule.neighbourhood_activities", "rule.current_activity", "pert.activity", "topo.activities")


def check(C):
    T = 6 if C.thorough else 3
    for order in ORDERS:
        C.group(order, one, C, dict(order=order, T=T))
        C.group(order + ", perturbation", one, C, dict(order=order, pert=True, topo="topo", T=T))
    for ty in ("list", "ndarray"):
        C.group("initial conditions (%s)" % ty, one, C, dict(initial="from_sequence", ictype=ty, T=T))
    C.group("node requests", one, C, dict(rule="requesting", requests=True, T=3))
    C.group("node requests, perturbation", one, C, dict(rule="requesting", requests=True, pert=True, T=2))
    C.group("compression", one, C, dict(compression=TRUE, T=T))
    for pert in (False, True):
        C.group("memoize", memoized, C, pert)
    C.group("conversion", conversion, C)


def one(C, kw):
    s = Scenario(C, **kw)
    what = "initial conditions in a %s" % kw.get("ictype", "dict")
    site = site_of(s.w.eng, s.w.eng.lookup_export("netomaton.evolve"))
    for k, (x, y) in enumerate(zip(s.i.states, s.r.states)):
        free(C, "state %d (%s, %s)" % (k, what, s.what), x[0], y[0], s.assignments(), site, s.i.raises)
    for nf in TOLD:
        name, f = nf.split(".")
        k = RECORD[name].index(f)
        if s.r.calls[name]:
            free(C, "%s (%s, %s)" % (nf, what, s.what), field(s.i.calls[name], name, k), field(s.r.calls[name], name, k), s.assignments(), s.site(name),
                 s.i.raises)


def free(C, name, a, b, asg, site, raises):
    """no unconverted scalar in a, given that b has none"""
    C.equal("plain values in " + name, mk("npfree", bare(a)), mk("npfree", bare(b)), asg, site, when=NOT(raises))


def memoized(C, pert):
    m = Memo(C, ORDERS[0], pert, None, 3, True)
    site = site_of(m.eng, m.eng.lookup_export("netomaton.evolve"))
    ref = reference(m.w, [const("__timestep__")] * 2, ORDERS[0], pert=pert)
    # what the table holds is converted (C08: it is the result for the key)
    n = 0
    for e in m.eng.log[m.n0:m.n1]:
        if e.kind == "store" and e.tgt in m.tables:
            n += 1
            k, v = m.eng.den(e.key), results(m, m.eng.den(e.val))
            doms, g, v2 = m.eng.close(e.loops, TRUE, v)
            w2 = m.eng.close(e.loops, TRUE, result_of(k))[2]
            a, b = [plainly(mk("bag", (mk("seq", (mk("part", tuple(results(m, d) for d in doms), TRUE, results(m, x)),)),))) for x in (v2, w2)]
            free(C, "the table of memoized results #%d%s" % (n, ", perturbation" if pert else ""), a, b, list(memo_assignments(m.w)), e.site, m.i.raises)
    if m.i.states is None:
        raise Unsupported("the trajectory")
    for k, (x, y) in enumerate(zip(m.i.states, ref.states)):
        free(C, "state %d (memoize%s)" % (k, ", perturbation" if pert else ""), plainly(results(m, x[0])), y[0], list(memo_assignments(m.w)), site,
             m.i.raises)


def result_of(k):
    from .c08 import result
    return result(mk("uf", "rule", (k,)))


def conversion(C):
    eng = C.engine()
    f = eng.lookup_export("netomaton.check_np")
    x = P(eng, "x")
    got = call(eng, f, [x])
    want = ite(atom_of(mk("isinstance", x, ("numpy.generic",))), mk("plain", x), x)
    C.equal("check_np: the Python value of a NumPy scalar, anything else as it is", got.term, want, [{x: v} for v in (
        NP(3), NP(0), NP(2.5), 7, None, "s", [NP(1)], True)], site_of(eng, f))
