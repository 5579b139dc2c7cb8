"""C22: CTRBL rules present the neighbours as center, top, right, bottom, left."""
from .common import *

TECHNIQUE = ("value-flow analysis of the constructor (rows and columns symbolic; the network as the script of the operations on it, the "
             "neighbourhood map as the script of its stores) and of the lookup (symbolic images and activities); rotation system, "
             "neighbourhood map, rule table and looked-up image are compared, as value graphs, with those of the torus")
LEVEL_NOTE = ("Where the value graphs are not identical they are compared by random interpretation over sizes up to 6 x 6; rule tables of one to "
              "four entries. ")

SPEC = """
class Ctx:
    def __init__(self, activities):
        self.neighbourhood_activities = activities

def order(rule):
    return {node: list(rule.network.rotation_system[node]) for node in rule.network.nodes}

def sources(rule):
    return {node: sorted(rule.network.in_edges(node)) for node in rule.network.nodes}

def described(rule):
    return {node: [h.center, h.top, h.right, h.bottom, h.left] for node, h in rule.neighbourhood_map.items()}

def torus(rows, cols):
    return {a * cols + b: [a * cols + b, (a - 1) % rows * cols + b, a * cols + (b + 1) % cols, (a + 1) % rows * cols + b, a * cols + (b - 1) % cols]
            for a in range(rows) for b in range(cols)}

def torus_sources(rows, cols):
    return {k: sorted(set(v)) for k, v in torus(rows, cols).items()}

def look(rule, activities):
    return rule.activity_rule(Ctx(activities))

def known(rule, keys):
    return [k in rule.rule_table for k in keys], [rule.rule_table.get(k) for k in keys]

def find(entries, rotations, activities):
    for key, image in entries:
        c, t, r, b, l = key
        for k in ([[c, t, r, b, l], [c, l, t, r, b], [c, b, l, t, r], [c, r, b, l, t]] if rotations else [[c, t, r, b, l]]):
            if k == activities:
                return image
    raise KeyError(activities)

def found(entries, rotations, keys):
    yes = []
    what = []
    for q in keys:
        image = None
        hit = False
        for key, x in entries:
            c, t, r, b, l = key
            for k in ([(c, t, r, b, l), (c, l, t, r, b), (c, b, l, t, r), (c, r, b, l, t)] if rotations else [(c, t, r, b, l)]):
                if k == q:
                    image = x
                    hit = True
        yes.append(hit)
        what.append(image)
    return yes, what
"""
STEPS = 2000000


def sizes(C):
    out = [(3, 3), (3, 4), (4, 3), (2, 5), (5, 2), (4, 6), (1, 10)]
    return out + ([(6, 6), (7, 3), (3, 7), (5, 9), (11, 1), (9, 8)] if C.thorough else [])


def structure(C):
    eng = C.engine()
    eng.opaque = {"Network"}
    env = spec_env(eng, SPEC)
    rows, cols = P(eng, "rows", "int"), P(eng, "cols", "int")
    cls = eng.lookup_export("netomaton.CTRBLRule")
    site = site_of(eng, cls)
    table = eng.call(spec_env(eng, "def f(i):\n    return {(0, 0, 0, 0, 0): i}\n")["f"], [P(eng, "image")], {})
    dim = eng.call(spec_env(eng, "def f(a, b):\n    return (a, b)\n")["f"], [rows, cols], {})
    rule = call(eng, cls, [dim, table])
    asg = [{rows: a, cols: b} for a, b in sizes(C)]
    for f, g, what in (("order", "torus", "the order the neighbours are presented in is center, top, right, bottom, left"),
                       ("sources", "torus_sources", "the neighbours of a cell are its von Neumann neighbours on the torus"),
                       ("described", "torus", "the neighbourhood map names the neighbours of every cell")):
        got = call(eng, env[f], [rule.value])
        want = call(eng, env[g], [rows, cols])
        C.equal(what, ite(OR(rule.raises, got.raises), RAISES, got.den), want.den, asg, site, steps=STEPS)


TABLES = [
    ([(0, 1, 2, 3, 4)],),
    ([(0, 1, 2, 3, 4), (1, 0, 0, 0, 2), (2, 1, 0, 1, 0), (3, 3, 3, 3, 3)],),
    ([(0, 4, 3, 2, 1), (0, 1, 2, 3, 4), (1, 1, 1, 2, 2)],),
]


def rotated(k):
    c, t, r, b, l = k
    return [(c, t, r, b, l), (c, l, t, r, b), (c, b, l, t, r), (c, r, b, l, t)]


def lookups(C, keys, rotations, given):
    eng = C.engine()
    eng.opaque = {"Network"}
    eng.exact_raises = True
    env = spec_env(eng, SPEC)
    cls = eng.lookup_export("netomaton.CTRBLRule")
    site = site_of(eng, cls)
    images = [P(eng, "image%d" % i) for i in range(len(keys))]
    names = ["i%d" % i for i in range(len(keys))]
    table = eng.call(spec_env(eng, "def f(%s):\n    return {%s}\n" % (", ".join(names), ", ".join("%r: %s" % x for x in zip(keys, names))))["f"], images, {})
    entries = eng.call(spec_env(eng, "def f(%s):\n    return [%s]\n" % (", ".join(names), ", ".join("(%r, %s)" % x for x in zip(keys, names))))["f"], images, {})
    dim = eng.call(spec_env(eng, "def f():\n    return (3, 4)\n")["f"], [], {})
    rule = call(eng, cls, [dim, table], {"add_rotations": const(rotations)} if given else {})
    tag = "table of %s, %s" % (", ".join("".join(map(str, k)) for k in keys), "rotations added" if rotations else "no rotations" + ("" if given else " by default"))
    asg = [{x: "im%d" % i for i, x in enumerate(images)}, {x: i for i, x in enumerate(images)}]
    queries = []
    for k in keys:
        queries += [x for x in rotated(k) + [k[::-1], k[1:] + k[:1], k[:1] + k[:0:-1], (k[0], k[2], k[1], k[3], k[4]), (9,) + k[1:]] if x not in queries]
    q = eng.call(spec_env(eng, "def f():\n    return %r\n" % (queries,))["f"], [], {})
    got = call(eng, env["known"], [rule.value, q])
    want = call(eng, env["found"], [entries, const(rotations), q])
    C.equal(tag + ": the entries", ite(rule.raises, RAISES, got.term), want.term, asg, site)
    for query in queries:
        a = eng.call(spec_env(eng, "def f():\n    return %r\n" % (list(query),))["f"], [], {})
        got = call(eng, env["look"], [rule.value, a])
        want = call(eng, env["find"], [entries, const(rotations), a])
        C.equal("%s: what %s maps to" % (tag, "".join(map(str, query))), ite(rule.raises, RAISES, got.term), want.term, asg, site)


def symbolic(C, rotations):
    """one entry, of which nothing is known"""
    eng = C.engine()
    eng.opaque = {"Network"}
    eng.exact_raises = True
    env = spec_env(eng, SPEC)
    cls = eng.lookup_export("netomaton.CTRBLRule")
    key = [P(eng, x, "int") for x in "ctrbl"]
    acts = [P(eng, "a%d" % i, "int") for i in range(5)]
    image = P(eng, "image")
    table = eng.call(spec_env(eng, "def f(c, t, r, b, l, i):\n    return {(c, t, r, b, l): i}\n")["f"], key + [image], {})
    entries = eng.call(spec_env(eng, "def f(c, t, r, b, l, i):\n    return [((c, t, r, b, l), i)]\n")["f"], key + [image], {})
    a = eng.call(spec_env(eng, "def f(a, b, c, d, e):\n    return [a, b, c, d, e]\n")["f"], acts, {})
    dim = eng.call(spec_env(eng, "def f():\n    return (3, 4)\n")["f"], [], {})
    rule = call(eng, cls, [dim, table], {"add_rotations": const(rotations)})
    got = call(eng, env["look"], [rule.value, a])
    want = call(eng, env["find"], [entries, const(rotations), a])
    base = (5, 1, 2, 3, 4)
    asg = [dict(list(zip(key, base)) + list(zip(acts, q)) + [(image, "im")]) for q in rotated(base) + [(5, 4, 3, 2, 1), (5, 2, 1, 3, 4), (1, 5, 2, 3, 4)]]
    C.equal("an entry of which nothing is known, %s" % ("rotations added" if rotations else "no rotations"), ite(rule.raises, RAISES, got.term), want.term, asg,
            site_of(eng, cls))


def check(C):
    C.group("structure", structure, C)
    for keys, in TABLES:
        for rotations, given in ((False, True), (True, True), (False, False)):
            C.group("lookups", lookups, C, keys, rotations, given)
    for rotations in (False, True):
        C.group("symbolic", symbolic, C, rotations)
    C.assumptions.append("entries of a rule table that are rotations of each other have the same image when rotations are added")
