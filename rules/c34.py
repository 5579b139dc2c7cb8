"""C34: the majority rule's value is a most frequent state, and with several of them it is drawn from the neighbourhood."""
from .common import *

TECHNIQUE = ("value-flow analysis of the rule to a closed form with its random draws as explicit leaves; the form is compared "
             "with the definition (mode; a draw when several states are equally frequent)")

SPEC = """
from collections import Counter
import numpy as np

def majority(neighbourhood):
    counts = Counter(neighbourhood)
    highest = max(counts.values())
    best = [s for s, c in counts.items() if c == highest]
    if len(best) > 1:
        return np.random.choice(neighbourhood)
    return best[0]
"""


def draw_hook(eng, k):
    """random draws, interpreted as the k-th of the possible outcomes"""
    def h(interp, t):
        if t.op == "res" and t in eng.resinfo:
            name, args, kwargs = eng.resinfo[t]
            last = name.split(".")[-1]
            if last in ("choice",) and args and not kwargs:
                v = interp.ev(args[0])
                if isinstance(v, int):
                    return k % v
                v = list(interp.coll(v))
                return v[k % len(v)]
            if last in ("randint", "randrange") and len(args) in (1, 2) and not kwargs:
                a = [interp.ev(x) for x in args]
                lo, hi = (0, a[0]) if len(a) == 1 else a
                if name == "random.randint":
                    hi += 1
                return lo + k % (hi - lo)
            raise ident.Und(name)
        return NotImplemented
    return h


def check(C):
    C.group("majority_rule", one, C)


def one(C):
    eng = C.engine()
    f = eng.lookup_export("netomaton.rules.majority_rule")
    site = site_of(eng, f)
    ctx = P(eng, "ctx", "class:NodeContext")
    nb = mk("attr", ctx, "neighbourhood_activities")
    cur = mk("attr", ctx, "current_activity")
    eng.types[nb] = "list"
    got = call(eng, f, [ctx])
    uniq, tied = [], []
    pool = [[1], [0, 0, 1], [1, 0, 1], [2, 2, 2], [1, 1, 0, 2], [0, 2, 2, 1, 2], [3, 0, 3, 0, 3], ["a", "b", "a"], [-1, -1, 1],
            [0, 1], [1, 0, 0, 1], [2, 1, 0], [1, 1, 2, 2, 3], [0, 1, 1, 2, 2], [3, 3, 1, 1], [5, 4, 4, 5, 1, 2], ["a", "b"]]
    for _ in range(20 if not C.thorough else 300):
        pool.append([C.rng.randint(0, 3) for _ in range(C.rng.randint(1, 9))])
    for p in pool:
        counts = {x: p.count(x) for x in p}
        m = max(counts.values())
        best = [x for x in counts if counts[x] == m]
        (uniq if len(best) == 1 else tied).append((p, best))
    if got.raises is not FALSE:
        C.undecided("majority_rule: always answers", "may raise where %s" % show(got.raises)[:200], site)
    bad = und = 0
    n = 0
    for p, best in uniq:
        try:
            vals = {ident.freeze(Interp({nb: p, cur: p[0]}, draw_hook(eng, k)).ev(got.term)) for k in range(2)}
        except (ident.Und, ident.Fault) as e:
            und = str(e)
            continue
        n += 1
        if vals != {ident.freeze(best[0])} and not bad:
            bad = "neighbourhood %r: %s instead of %r" % (p, sorted(map(str, vals)), best[0])
    report(C, "majority_rule: the most frequent state", bad, und, n, got, site)
    bad = und = 0
    n = 0
    for p, best in tied:
        try:
            vals = {ident.freeze(Interp({nb: p, cur: p[0]}, draw_hook(eng, k)).ev(got.term)) for k in range(60)}
        except (ident.Und, ident.Fault) as e:
            und = str(e)
            continue
        n += 1
        if not bad:
            if len(vals) < 2:
                bad = "neighbourhood %r: always %s, although %r are equally frequent" % (p, sorted(map(str, vals)), best)
            elif not vals <= {ident.freeze(x) for x in p}:
                bad = "neighbourhood %r: may give %s" % (p, sorted(map(str, vals)))
            elif not vals >= {ident.freeze(x) for x in best}:
                bad = "neighbourhood %r: never gives some of %r" % (p, best)
    report(C, "majority_rule: a random state when several are equally frequent", bad, und, n, got, site)


def report(C, name, bad, und, n, got, site):
    if bad:
        C.violated(name, "%s\nfound %s" % (bad, show(got.term)[:600]), site)
    elif n:
        C.proved(name, "closed form %s on %d regions" % (show(got.term)[:200], n), site)
    else:
        C.undecided(name, "not resolved: %s" % und, site)
