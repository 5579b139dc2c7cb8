"""C21: an asynchronous rule applies the wrapped rule on the node whose turn it is; a reversible rule XORs with the past."""
from .common import *
from .evo import uf

TECHNIQUE = ("value-flow analysis of the wrappers along histories of visits with symbolic activities, an uninterpreted wrapped rule, and "
             "given outcomes of every shuffle; the normal form of every value handed back is compared with that of a reference "
             "scheduler")

SPEC = """
class Visit:
    def __init__(self, label, k):
        self.node_label = label
        self.k = k
        self.current_activity = CUR(k)
        self.timestep = k

def wrapped(ctx):
    return INNER(ctx.k)

def history(rule, visits):
    out = []
    for k, label in visits:
        out.append(rule(Visit(label, k)))
    return out

def scheduled(orders, visits):
    out = []
    order = orders[0]
    turn = 0
    seen = 0
    cycles = 0
    for k, label in visits:
        if label == order[turn]:
            out.append(INNER(k))
        else:
            out.append(CUR(k))
        if label in order:
            seen += 1
        if seen == len(order):
            seen = 0
            cycles += 1
            turn = (turn + 1) % len(order)
            order = orders[cycles % len(orders)]
    return out

def mirrored(a):
    x = [y for y in a]
    a.clear()
    a.extend(x[::-1])

def rotated(a):
    a.append(a.pop(0))

def same(a):
    pass

def past_of(ctx):
    return ctx.past_activity_of(ctx.node_label)
"""


def engine(C):
    eng = C.engine()
    eng.peel = 64
    env = {}
    for n, name in (("CUR", "activity"), ("INNER", "inner")):
        p = P(eng, "FN_" + n)

        def h(eng, e, res, name=name):
            return uf(eng, name, [eng.den(a) for a in e.extra["args"]])
        eng.callbacks[p] = h
        env[n] = p
    env.update(spec_env(eng, SPEC, dict(env)))
    return eng, env


def shuffles(eng, env, perm):
    f = env[perm]
    n = [0]

    def h(eng, args, kwargs):
        n[0] += 1
        eng.call(f, [args[0]], {})
        return NONE

    def copied(eng, args, kwargs):
        n[0] += 1
        a = eng.call(spec_env(eng, "def copied(a, f):\n    x = list(a)\n    f(x)\n    return x\n")["copied"], [args[0], f], {})
        return a
    for m in ("numpy.random.shuffle", "random.shuffle"):
        eng.ext_override[m] = h
    eng.ext_override["numpy.random.permutation"] = copied
    return n


ASSIGN = [{("uf", "activity"): lambda k: ident.Opaque("activity", k), ("uf", "inner"): lambda k: ident.Opaque("inner", k)}]


def lst(eng, xs):
    return eng.call(spec_env(eng, "def mk():\n    return %r\n" % (xs,))["mk"], [], {})


def permute(order, perm):
    return {"same": order, "mirrored": order[::-1], "rotated": order[1:] + order[:1]}[perm]


def one(C, name, order, n, visits, perm, every):
    eng, env = engine(C)
    cls = eng.lookup_export("netomaton.AsynchronousRule")
    site = site_of(eng, cls)
    shuffles(eng, env, perm)
    kw = {"activity_rule": env["wrapped"]}
    if order is not None:
        kw["update_order"] = lst(eng, order)
        orders = [order]
        start = order
    else:
        kw["n"] = const(n)
        start = permute(list(range(n)), perm)
        orders = [start]
    if every:
        kw["randomize_each_cycle"] = TRUE
        # each shuffle permutes the given entries, or what the last shuffle made of them
        fresh = [orders[0]] + [permute(list(order if order is not None else range(n)), perm)]
        chain = [orders[0]]
        for _ in range(6):
            chain.append(permute(chain[-1], perm))
        variants = [fresh + [fresh[1]] * 6, chain]
    else:
        variants = [orders]
    rule = eng.call(cls, [], kw)
    got = call(eng, env["history"], [rule, lst(eng, list(enumerate(visits)))])
    wants = []
    for v in variants:
        if all(v2 == v[0] for v2 in v):
            v = v[:1]
        wants.append(call(eng, env["scheduled"], [lst(eng, v), lst(eng, list(enumerate(visits)))]).term)
    t = got.term
    if len(wants) > 1:
        for w in wants:
            if ident.separate(t, w, ASSIGN)[0] == "same":
                C.proved(name, show(t)[:200], site)
                return
    C.equal(name, t, wants[0], ASSIGN, site)


def reversible(C):
    eng = C.engine()
    cls = eng.lookup_export("netomaton.ReversibleRule")
    site = site_of(eng, cls)
    r, past = P(eng, "result", "num"), P(eng, "past", "num")
    src = """
class Past:
    def __init__(self, past, label):
        self.node_label = label
        self.past = past
    def past_activity_of(self, label):
        return self.past[label]
    @property
    def past_activities(self):
        return [self.past]
    def activity_of(self, label):
        return None

def run(cls, results, pasts, label):
    out = []
    for r, p in zip(results, pasts):
        rule = cls(lambda ctx: r)
        out.append(rule(Past({label: p, "other": 5, 0: 3}, label)))
    return out

def run_one(cls, results, pasts, label):
    k = {"i": 0}
    def f(ctx):
        k["i"] += 1
        return results[k["i"] - 1]
    rule = cls(f)
    return [rule(Past({label: p, "other": 5, 0: 3}, label)) for p in pasts]

def spec(results, pasts):
    return [r ^ p for r, p in zip(results, pasts)]
"""
    env = spec_env(eng, src)
    r2, p2 = P(eng, "result2", "num"), P(eng, "past2", "num")
    mklist = spec_env(eng, "def mk(a, b):\n    return [a, b]\n")["mk"]
    rs, ps = eng.call(mklist, [r, r2], {}), eng.call(mklist, [past, past2 if False else p2], {})
    asg = [{r: a, past: b, r2: c, p2: d} for a in (0, 1) for b in (0, 1) for c in (0, 1) for d in (0, 1)] + [{r: 5, past: 3, r2: 6, p2: 6}]
    for label in ("x", 7):
        for f in ("run", "run_one"):
            got = call(eng, env[f], [cls, rs, ps, const(label)])
            want = call(eng, env["spec"], [rs, ps])
            C.equal("reversible: the result XOR the node's past activity (%r, %s)" % (label, f), got.term, want.term, asg, site)


def rejected(C):
    eng, env = engine(C)
    cls = eng.lookup_export("netomaton.AsynchronousRule")
    got = call(eng, cls, [], {"activity_rule": env["wrapped"]})
    C.equal("asynchronous: an update order or a number of nodes is required", ite(got.raises, RAISES, NONE), RAISES, [{}], site_of(eng, cls))


def check(C):
    runs = [([0, 1, 2], [0, 1, 2], 4), ([2, 0, 1], [0, 1, 2], 4), ([1], [0, 1, 2], 2), ([3, 1], [0, 1, 2, 3], 3), (["a", "b"], ["b", "a", "c"], 3),
            ([1, 0], [1, 0], 3), ([4, 2, 0, 3], [0, 1, 2, 3, 4], 5)]
    if C.thorough:
        runs += [([5, 3, 1, 0, 2, 4], [0, 1, 2, 3, 4, 5], 13), ([0, 2, 4, 6, 8], [0, 1, 2, 3, 4, 5, 6, 7, 8], 11)]
    for order, nodes, cycles in runs:
        visits = nodes * cycles
        C.group("order %s" % order, one, C, "asynchronous: order %s, nodes %s, %d rounds" % (order, nodes, cycles), order, None, visits, "mirrored", False)
        C.group("order %s" % order, one, C, "asynchronous: order %s, nodes %s, %d rounds, shuffled every cycle" % (order, nodes, cycles), order, None,
                visits, "rotated", True)
    for n in (1, 2, 3, 4):
        for perm in ("same", "mirrored", "rotated"):
            C.group("n %d" % n, one, C, "asynchronous: %d nodes, shuffled (%s)" % (n, perm), None, n, list(range(n)) * (n + 2), perm, False)
            C.group("n %d" % n, one, C, "asynchronous: %d nodes, shuffled every cycle (%s)" % (n, perm), None, n, list(range(n)) * (n + 2), perm, True)
    C.group("required arguments", rejected, C)
    C.group("reversible", reversible, C)
