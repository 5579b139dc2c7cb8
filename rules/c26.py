"""C26: generated and perturbed rule tables are complete, quiescent, isotropic, and of the reported lambda."""
import random
from sa import terms as tm
from .common import *

TECHNIQUE = ("value-flow analysis of the generation and of the walk-through with every random draw an unknown of its own (loops of the walk-through "
             "followed for a bounded number of rounds); the normal forms of the returned table and lambda are checked against each other")
LEVEL_NOTE = "Tables of up to 32 entries; walk-throughs of up to 4 changes. "

SPEC = """
def size(table, keys):
    return [k in table for k in keys], len(table)

def full(keys):
    return [True for k in keys], len(keys)

def fraction(table, keys, q):
    n = 0
    for k in keys:
        if table[k] != q:
            n = n + 1
    return n / len(keys)

def counted(table, keys, q):
    return (len(keys) - [table[k] for k in keys].count(q)) / len(keys)

def entries(table, keys):
    return [table[k] for k in keys]

def mirrored(table, keys):
    return [table[k[::-1]] for k in keys]

def states(table, keys, n):
    return [0 <= table[k] < n for k in keys]

def all_true(keys):
    return [True for k in keys]

def part(got, i):
    return got[i]
"""


def draws(eng):
    """every random draw is an unknown; eng.drawn lists them with the values that each can take"""
    eng.drawn = []
    eng.changed = FALSE
    eng.feasible = TRUE         # the draws are of elements that are there

    def fresh(values, ty):
        p = P(eng, "draw%d" % len(eng.drawn), ty)
        eng.drawn.append((p, values))
        return p

    def real(eng, args, kwargs):
        return fresh(None, "float")

    def pick(eng, args, kwargs):
        if kwargs or len(args) != 1:
            return None
        xs = eng.finite(args[0])
        if xs is None and num_const(args[0]):
            xs = [const(i) for i in range(args[0].args[0])]
        if xs is not None and len(xs) <= 64:
            if not xs:
                return None
            p = fresh(range(len(xs)), "int")
            r = xs[-1]
            for i in reversed(range(len(xs) - 1)):
                r = ite(compare("eq", p, const(i)), xs[i], r)
            return r
        ps = eng.parts(args[0]) if args[0].op == "obj" else None
        if ps is None or any(p[0] for p in ps) or len(ps) > 64:
            return None
        if any(x.op == "const" and isinstance(x.args[0], str) for p in ps for x in leaves(p[2])):
            # one change of a walk is followed
            again = AND(eng.pc, eng.changed)
            eng.feasible = AND(eng.feasible, NOT(again))
            eng.changed = OR(eng.changed, eng.pc)
            eng.pc = AND(eng.pc, NOT(again))
            if eng.pc is FALSE:
                return const("")
        p = fresh(range(len(ps)), "int")
        r, ok = ps[-1][2], FALSE
        for i in reversed(range(len(ps))):
            here = compare("eq", p, const(i))
            r = ite(here, ps[i][2], r)
            ok = OR(ok, AND(ps[i][1], here))
        eng.feasible = AND(eng.feasible, OR(NOT(eng.pc), ok))
        return r

    def integer(lo, hi):
        def f(eng, args, kwargs):
            kwargs = {k: v for k, v in kwargs.items() if k != "dtype"}
            if kwargs or not all(num_const(a) for a in args) or not args or len(args) > 2:
                return None
            a, b = (0, args[0].args[0]) if len(args) == 1 else (args[0].args[0], args[1].args[0] + hi)
            return fresh(range(a, b), "int")
        return f
    o = eng.ext_override
    o["random.random"] = o["numpy.random.random"] = o["numpy.random.rand"] = o["numpy.random.random_sample"] = real
    o["random.choice"] = o["numpy.random.choice"] = pick
    o["random.randint"] = integer(0, 1)
    o["random.randrange"] = o["numpy.random.randint"] = integer(0, 0)


def assignments(eng, n, extra=()):
    out = []
    for seed in range(n):
        r = random.Random(seed)
        d = {}
        for p, values in eng.drawn:
            d[p] = r.choice(list(values)) if values is not None else [0.0, 0.25, 0.5, 0.75, 0.9][r.randrange(5)] if seed % 3 else [0.0, 0.95][seed % 2]
        for p, values in extra:
            d[p] = r.choice(values)
        out.append(d)
    return out


def possible(eng, d):
    try:
        return ident.Interp(d).ev(ite(eng.feasible, ONE, ZERO)) == 1
    except ident.Und:
        return False


def strings(k, n):
    digits = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"
    out = [""]
    for _ in range(n):
        out = [a + digits[b] for a in out for b in range(k)]
    return out


def lit(eng, x):
    return eng.call(spec_env(eng, "def mk():\n    return %r\n" % (x,))["mk"], [], {})


def engine(C):
    eng = C.engine()
    eng.unroll = eng.unroll_range = 64
    draws(eng)
    return eng, spec_env(eng, SPEC)


def conclusions(C, eng, env, tag, got, table, lam, q, k, n, strong, isotropic, site, asg):
    keys = strings(k, n)
    ks = lit(eng, keys)
    bad = got.raises

    def check(what, a, b):
        C.equal(tag + what, ite(eng.feasible, ite(bad, RAISES, a), NONE), ite(eng.feasible, b, NONE), asg, site)

    def same(what, f, args, g, args2):
        a = call(eng, env[f], args)
        b = call(eng, env[g], args2) if isinstance(g, str) else None
        check(what, a.term, b.term)
    same("there is an entry for every neighbourhood", "size", [table, ks], "full", [ks])
    same("every entry is a state", "states", [table, ks, const(k)], "all_true", [ks])
    want = call(eng, env["counted" if eng.peel_unknown else "fraction"], [table, ks, q])
    check("the reported lambda is the fraction of entries that are not quiescent", lam, want.term)
    if strong:
        uni = lit(eng, [x for x in keys if len(set(x)) == 1])
        a = call(eng, env["entries"], [table, uni])
        check("uniform neighbourhoods map to themselves", a.term, call(eng, env["entries"], [lit(eng, {x: int(x[0], 36) for x in keys if len(set(x)) == 1}), uni]).term)
    if isotropic:
        same("mirror images have the same image", "entries", [table, ks], "mirrored", [table, ks])


def generated(C, k, r, quiescent, given, strong, isotropic):
    eng, env = engine(C)
    f = eng.lookup_export("netomaton.random_rule_table")
    kw = {}
    lam = P(eng, "lambda_val", "float")
    tm.NOTNONE_TERMS.add(lam)
    if given:
        kw["lambda_val"] = lam
    if quiescent is not None:
        kw["quiescent_state"] = const(quiescent)
    if strong:
        kw["strong_quiescence"] = TRUE
    if isotropic:
        kw["isotropic"] = TRUE
    got = call(eng, f, [const(k), const(r)], kw)
    bits = [call(eng, env["part"], [got.value, const(i)]) for i in range(3)]
    tag = "%d states, radius %d, quiescent state %s%s%s%s: " % (k, r, quiescent, ", given lambda" if given else "", ", strong quiescence" if strong else "", ", isotropic" if isotropic else "")
    asg = assignments(eng, 12, [(lam, [0.0, 0.3, 0.5, 0.8, 1.0])])
    q = const(quiescent) if quiescent is not None else bits[2].value
    conclusions(C, eng, env, tag, got, bits[0].value, bits[1].term, q, k, 2 * r + 1, strong, isotropic, site_of(eng, f), asg)
    if quiescent is not None:
        C.equal(tag + "the reported quiescent state is the given one", ite(got.raises, RAISES, bits[2].term), const(quiescent), asg, site_of(eng, f))


def arbitrary(eng, k, n, isotropic, strong):
    """a table of which nothing is known but what a walk-through presumes: names of the entries, and the table"""
    keys = strings(k, n)
    name = {}
    for x in keys:
        if strong and len(set(x)) == 1:
            name[x] = str(int(x[0], 36))
        else:
            name[x] = "v" + (min(x, x[::-1]) if isotropic else x)
    names = sorted({v for v in name.values() if v[0] == "v"})
    text = "def f(%s):\n    return {%s}\n" % (", ".join(names), ", ".join("%r: %s" % y for y in name.items()))
    terms = [P(eng, x, "int") for x in names]
    return name, dict(zip(names, terms)), eng.call(spec_env(eng, text)["f"], terms, {})


def walked(C, k, r, q, up, strong, isotropic, rounds=1):
    eng, env = engine(C)
    eng.peel_unknown = rounds
    n = 2 * r + 1
    f = eng.lookup_export("netomaton.table_walk_through")
    name, terms, table = arbitrary(eng, k, n, isotropic, strong)
    kw = dict([("strong_quiescence", TRUE)] * strong + [("isotropic", TRUE)] * isotropic)
    target = P(eng, "target", "float")
    got = call(eng, f, [table, target, const(k), const(r), const(q)], kw)
    tag = "walk-through, %d states, radius %d, quiescent state %d, %s%s%s, any %s: " % (
        k, r, q, "increase" if up else "decrease", ", strong quiescence" if strong else "", ", isotropic" if isotropic else "", "change" if rounds == 1 else "%d changes" % rounds)
    bits = [call(eng, env["part"], [got.value, const(i)]) for i in range(2)]
    asg = []
    for seed in range(400):
        rnd = random.Random(seed)
        d = {t: rnd.choice([q, rnd.randrange(k)]) if up else rnd.randrange(k) for t in terms.values()}
        val = {x: d[terms[v]] if v in terms else int(v) for x, v in name.items()}
        free = [x for x in val if (val[x] == q) == up and not (strong and len(set(x)) == 1)]
        lam = sum(v != q for v in val.values())
        if len(free) < rounds:
            continue
        d[target] = (lam + (1 if up else -1) * (rounds - 0.5)) / k ** n if isotropic and rounds == 1 or seed % 2 else (lam + (1 if up else -1) * rounds) / k ** n
        for p, values in eng.drawn:
            d[p] = rnd.choice(list(values)) if values is not None else rnd.random()
        if possible(eng, d):
            asg.append(d)
            if len(asg) == (40 if C.thorough else 16):
                break
    if len(asg) < 6:
        C.undecided(tag, "too few draws that are possible", site_of(eng, f))
    conclusions(C, eng, env, tag, got, bits[0].value, bits[1].term, const(q), k, n, strong, isotropic, site_of(eng, f), asg)


def check(C):
    for k, r in ((2, 1), (3, 0)):
        for q in list(range(k)) + [None]:
            for strong in (False, True):
                for isotropic in (False, True):
                    C.group("generated", generated, C, k, r, q, q is not None, strong, isotropic)
    for k, r, q in ((3, 1, 1), (2, 2, 0)) + (((4, 1, 3), (3, 1, None)) if C.thorough else ()):
        for strong, isotropic in ((False, False), (True, False), (False, True), (True, True)):
            C.group("generated", generated, C, k, r, q, True, strong, isotropic)
    for k, r, q, up in ((2, 1, 0, False), (2, 1, 0, True), (2, 1, 1, False), (2, 1, 1, True), (3, 0, 1, False), (3, 0, 2, True)):
        for strong in (False, True) if r else (False,):
            for isotropic in (False, True):
                C.group("walked", walked, C, k, r, q, up, strong, isotropic)
