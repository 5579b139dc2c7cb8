"""C19: the decision diagram computed from each rule's source is the published transition table."""
from .common import *

TECHNIQUE = ("interprocedural value-flow analysis of the rule functions to canonical decision diagrams, compared with the "
             "diagrams of the published transition tables over all regions of (state, neighbour count)")

SPEC = """
def life(state, neighbours):
    total = 0
    for x in neighbours:
        total += x
    live = total - state
    if state == 1:
        return 1 if live == 2 or live == 3 else 0
    return 1 if live == 3 else 0

def wireworld(state, neighbours):
    if state == 0:
        return 0
    if state == 1:
        return 2
    if state == 2:
        return 3
    heads = neighbours.count(1)
    return 1 if heads == 1 or heads == 2 else 3
"""


def region_assignments(eng, ctx, states, live):
    """every state and every number of live neighbours (the neighbourhood includes the cell itself)"""
    cur = mk("attr", ctx, "current_activity")
    nb = mk("attr", ctx, "neighbourhood_activities")
    size = 9
    for s in states:
        for n in range(0, size):
            rest = [live] * n + [0] * (size - 1 - n)
            if live == 1 and s == 1 or True:
                yield {cur: s, nb: rest[:4] + [s] + rest[4:]}
    other = [x for x in states if x not in (0, 1)]
    for s in states:
        for n in range(0, size):
            for o in other:
                rest = [live] * n + [o] * (size - 1 - n)
                yield {cur: s, nb: rest[:2] + [s] + rest[2:]}


def check(C):
    for name, specname, states in (("netomaton.rules.game_of_life_rule", "life", (0, 1)),
                                   ("netomaton.rules.wireworld_rule", "wireworld", (0, 1, 2, 3))):
        C.group(name, one, C, name, specname, states)


def one(C, name, specname, states):
    eng = C.engine()
    f = eng.lookup_export(name)
    site = site_of(eng, f)
    ctx = P(eng, "ctx", "class:NodeContext")
    cur = mk("attr", ctx, "current_activity")
    nb = mk("attr", ctx, "neighbourhood_activities")
    eng.types[nb] = "list"
    got = call(eng, f, [ctx])
    spec = spec_env(eng, SPEC)
    want = call(eng, spec[specname], [cur, nb])
    regions = list(region_assignments(eng, ctx, states, 1))
    # the table, row by row: the diagram restricted to the cell state is the row of the table
    for s in states:
        rows = [a for a in regions if a[cur] == s]
        g = subst(got.term, {cur: const(s)})
        w = subst(want.term, {cur: const(s)})
        C.equal("%s: row of state %d" % (specname, s), g, w, rows, site)
    C.extra["regions_of_state_and_count"] = C.extra.get("regions_of_state_and_count", 0) + len(regions)
    # no region is left without an answer
    none = [x for x in leaves(got.term) if x is NONE]
    if none:
        bad = []
        for a in regions:
            try:
                if Interp(a).ev(got.term) is None:
                    bad.append(a)
            except (ident.Und, ident.Fault):
                pass
        if bad:
            C.violated("%s: every case has an answer" % specname, "no answer where %s" % show_assignment(bad[0], got.term), site)
        else:
            C.proved("%s: every case has an answer" % specname, "the only leaf without an answer is outside of the states", site)
    else:
        C.proved("%s: every case has an answer" % specname, "no leaf without an answer", site)
