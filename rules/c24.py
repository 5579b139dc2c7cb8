"""C24: substitution systems rewrite every neighbourhood once, in order."""
from .common import *
from . import c17

TECHNIQUE = ("value-flow analysis of the constructor and of the activity rule over bounded histories (symbolic activities and symbolic images; what "
             "is added and removed is recorded by a stand-in for the context); the records are compared with those of the documented rewriting")
LEVEL_NOTE = "Neighbourhoods of 1 to 3 nodes, up to 3 timesteps, up to 12 calls. "

SPEC = """
class Ctx:
    def __init__(self, node_label, timestep, neighbour_labels, activities):
        self.node_label = node_label
        self.timestep = timestep
        self.neighbour_labels = neighbour_labels
        self.activities = activities
        self.neighbourhood_activities = [activities[x] for x in neighbour_labels]
        self.current_activity = activities[node_label]
        self.input = None
        self.added = []
        self.removed = []

    def activity_of(self, node_label):
        return self.activities[node_label]

    def add_node(self, state, outgoing_links, nodel_label):
        self.added.append((nodel_label, state, [(k, v) for k, v in outgoing_links.items()]))
        return nodel_label

    def remove_node(self, nodel_label):
        self.removed.append(nodel_label)

def run(system, calls):
    out = []
    for timestep, node, labels, activities in calls:
        ctx = Ctx(node, timestep, labels, activities)
        r = system.activity_rule(ctx)
        out.append((ctx.removed, ctx.added, r))
    return out

def expected(table, k, n, kind, calls):
    label = n
    out = []
    before = 0
    fresh = 0
    for timestep, node, labels, activities in calls:
        if timestep != before:
            fresh = 0
        before = timestep
        added = []
        if len(labels) == k:
            key = ""
            for x in labels:
                key = key + str(activities[x])
            image = None
            for a, b in table:
                if a == key:
                    image = b
            if image is None:
                raise KeyError(key)
            for symbol in image:
                fresh = fresh + 1
                added.append((label, kind(symbol), [(label - j, {}) for j in range(min(fresh, k))]))
                label = label + 1
        out.append(([node], added, None))
    return out

def initial(system):
    return list(system.initial_conditions)

def sources(net):
    return {node: list(net.in_edges(node)) for node in net.nodes}

def string(n, k):
    return {i: [i + j for j in range(k) if i + j < n] for i in range(n)}

def untouched(rules):
    return sorted(rules)
"""

ONCE = [("A",), ("AB", "AA", "BA", "BB")]


def expr(eng, text, names=(), vals=()):
    return eng.call(spec_env(eng, "def mk(%s):\n    return %s\n" % (", ".join(names), text))["mk"], list(vals), {})


# the rules of a system: neighbourhood -> image, where a lower-case letter of an image stands for a symbol of which nothing is known
SYSTEMS = [
    ("ABA", {"A": "xy", "B": ""}, ()),
    ("AB", {"A": "xyz", "B": "u"}, ()),
    ("ABAC", {"A": "AB", "B": "xA"}, ("C",)),
    ("ABBA", {"AA": "xy", "AB": "u", "BA": "", "BB": "vwt"}, ()),
    ("ABAA", {"AAA": "x", "ABA": "yz", "BAA": "uv", "BAB": "w", "AAB": "BB"}, ()),
    ("A", {"A": "x"}, ("B", "C")),
]


def calls_for(axiom, rules, k, seed):
    """a history: in every timestep the nodes are asked in order; the activities are arbitrary ones that have images"""
    keys = sorted(rules)
    out = []
    labels = list(range(len(axiom)))
    nxt = len(axiom)
    acts = list(axiom)
    for t in (1, 2, 3):
        new = []
        for i, x in enumerate(labels):
            nb = labels[i:i + k]
            if len(nb) == k:
                key = "".join(acts[i:i + k])
                if key not in rules:
                    key = keys[(i + t + seed) % len(keys)]
                out.append((t, x, nb, dict(zip(nb, key))))
                new += list(rules[key])
            else:
                out.append((t, x, nb, {y: "A" for y in nb}))
        # what the new nodes carry is arbitrary, here: letters that occur in the keys
        letters = sorted(set("".join(keys)))
        labels = list(range(nxt, nxt + len(new)))
        nxt += len(new)
        acts = [c if c in letters else letters[(j * 5 + t + seed) % len(letters)] for j, c in enumerate(new)]
        if len(out) + len(labels) > 13 or not labels:
            break
    return out


def histories(C, axiom, rules, constants, seed):
    eng = C.engine()
    eng.opaque = {"Network"}
    eng.peel = 64
    env = spec_env(eng, SPEC)
    cls = eng.lookup_export("netomaton.SubstitutionSystem")
    site = site_of(eng, cls)
    k = len(next(iter(rules)))
    names = sorted({c for v in rules.values() for c in v if c.islower()})
    syms = [P(eng, "symbol_" + x, "str") for x in names]
    image = lambda v: "[%s]" % ", ".join(c if c.islower() else repr(c) for c in v)
    table = expr(eng, "{%s}" % ", ".join("%r: %s" % (a, image(b)) for a, b in rules.items()), names, syms)
    full = dict(rules, **{c: c for c in constants})
    entries = expr(eng, "[%s]" % ", ".join("(%r, %s)" % (a, image(b)) for a, b in full.items()), names, syms)
    args = [expr(eng, repr(axiom)), table]
    if constants:
        args.append(expr(eng, repr(list(constants))))
    system = call(eng, cls, args)
    history = calls_for(axiom, full, k, seed)
    calls = expr(eng, repr(history))
    got = call(eng, env["run"], [system.value, calls])
    kind = expr(eng, "str")
    want = call(eng, env["expected"], [entries, const(k), const(len(axiom)), kind, calls])
    asg = [{s: "s%d" % ((i * m) % 7) for i, s in enumerate(syms)} for m in (1, 2, 3)]
    tag = "axiom %s, rules %s%s%s" % (axiom, ", ".join("%s: %s" % x for x in sorted(rules.items())), ", constants " + ", ".join(constants) if constants else "",
                                      ", history %d" % seed if seed else "")
    C.equal(tag + ": what %d calls add and remove" % len(history), ite(system.raises, RAISES, got.term), want.term, asg, site)
    got = call(eng, env["initial"], [system.value])
    C.equal(tag + ": the initial conditions", ite(system.raises, RAISES, got.den), eng.den(expr(eng, repr(list(axiom)))), asg, site)
    if constants:
        got = call(eng, env["untouched"], [table])
        C.equal(tag + ": the map of rules that was given is not modified", got.den, eng.den(expr(eng, repr(sorted(rules)))), asg, site)


def numbers(C):
    """activities that are numbers, with images that are strings of digits or lists"""
    for rules in ({"0": "01", "1": "10"}, {"1": [1, 0], "0": [0]}, {"11": "0", "10": "011", "01": "1", "00": ""}):
        eng = C.engine()
        eng.opaque = {"Network"}
        eng.peel = 64
        env = spec_env(eng, SPEC)
        cls = eng.lookup_export("netomaton.SubstitutionSystem")
        k = len(next(iter(rules)))
        axiom = [1, 0, 1]
        system = call(eng, cls, [expr(eng, repr(axiom)), expr(eng, repr(rules))])
        history = [(t, x, nb, {a: int(b) for a, b in d.items()}) for t, x, nb, d in calls_for(["1", "0", "1"], {a: [str(x) for x in b] for a, b in rules.items()}, k, 0)
                   if all(b.isdigit() for b in d.values())]
        calls = expr(eng, repr(history))
        got = call(eng, env["run"], [system.value, calls])
        want = call(eng, env["expected"], [expr(eng, repr(list(rules.items()))), const(k), const(3), expr(eng, "int"), calls])
        C.equal("axiom %r, rules %r: what %d calls add and remove" % (axiom, rules, len(history)), ite(system.raises, RAISES, got.term), want.term, [{}],
                site_of(eng, cls))


def symbolic(C, k):
    """activities and images of which nothing is known"""
    eng = C.engine()
    eng.opaque = {"Network"}
    eng.peel = 64
    env = spec_env(eng, SPEC)
    cls = eng.lookup_export("netomaton.SubstitutionSystem")
    keys = ["A", "B"] if k == 1 else ["AA", "AB", "BA", "BB"] if k == 2 else ["AAA", "ABA", "BAB"]
    names = ["x%d_%d" % (i, j) for i in range(len(keys)) for j in range(2)]
    syms = [P(eng, x, "str") for x in names]
    body = ", ".join("%r: [x%d_0, x%d_1]" % (a, i, i) for i, a in enumerate(keys))
    table = expr(eng, "{%s}" % body, names, syms)
    entries = expr(eng, "[%s]" % ", ".join("(%r, [x%d_0, x%d_1])" % (a, i, i) for i, a in enumerate(keys)), names, syms)
    system = call(eng, cls, [expr(eng, repr("ABA")), table])
    acts = ["a%d" % i for i in range(5)]
    terms = [P(eng, x, "str") for x in acts]
    rows = []
    labels = [0, 1, 2]
    for i in range(3):
        nb = labels[i:i + k]
        rows.append("(1, %d, %r, {%s})" % (i, nb, ", ".join("%d: a%d" % (x, x) for x in nb)))
    rows.append("(2, 3, %r, {%s})" % (list(range(3, 3 + k)), ", ".join("%d: a%d" % (3 + x, (3 + x) % 5) for x in range(k))))
    calls = expr(eng, "[%s]" % ", ".join(rows), acts, terms)
    got = call(eng, env["run"], [system.value, calls])
    want = call(eng, env["expected"], [entries, const(k), const(3), expr(eng, "str"), calls])
    asg = []
    for m in range(8):
        asg.append(dict([(s, "s%d" % i) for i, s in enumerate(syms)] + [(a, ["A", "B"][(m >> (i % 3)) % 2 if i < 3 else (m + i) % 2]) for i, a in enumerate(terms)]))
    C.equal("activities of which nothing is known, neighbourhoods of %d" % k, ite(system.raises, RAISES, got.term), want.term, asg, site_of(eng, cls))


def networks(C, n, k):
    eng = C.engine()
    eng.opaque = {"Network"}
    env = spec_env(eng, SPEC)
    cls = eng.lookup_export("netomaton.SubstitutionSystem")
    system = call(eng, cls, [expr(eng, repr(("AB" * n)[:n])), expr(eng, "{%r: 'A'}" % ("A" * k))])
    net = call(eng, expr(eng, "lambda s: s.network"), [system.value])
    got = call(eng, env["sources"], [net.value])
    want = call(eng, env["string"], [const(n), const(k)])
    C.equal("a string of %d symbols, neighbourhoods of %d: the initial network" % (n, k), ite(OR(system.raises, net.raises), RAISES, got.den), want.den, [{}],
            site_of(eng, cls))


def rejected(C):
    for rules, constants, bad in (({"A": "B", "AB": "A"}, None, True), ({"AB": "A", "AA": "B", "A": "A"}, None, True), ({"AB": "A", "AA": "B"}, ["C"], True),
                                  ({"A": "B"}, ["CC"], True), ({"AB": "A", "AA": "B"}, None, False), ({"A": "B"}, ["C"], False), ({"A": "B"}, [], False),
                                  ({"AAA": "A", "BBB": "A", "AB": "A", "BAA": "A"}, None, True)):
        eng = C.engine()
        eng.opaque = {"Network"}
        cls = eng.lookup_export("netomaton.SubstitutionSystem")
        system = call(eng, cls, [expr(eng, "'AB'"), expr(eng, repr(rules))] + ([expr(eng, repr(constants))] if constants is not None else []))
        C.equal("rules %r, constants %r are %s" % (rules, constants, "rejected" if bad else "accepted"), ite(system.raises, RAISES, NONE),
                RAISES if bad else NONE, [{}], site_of(eng, cls))


def check(C):
    for axiom, rules, constants in SYSTEMS:
        for seed in range(4 if C.thorough else 2):
            C.group("histories", histories, C, axiom, rules, constants, seed)
    C.group("numbers", numbers, C)
    for k in (1, 2) + ((3,) if C.thorough else ()):
        C.group("symbolic", symbolic, C, k)
    for n in range(1, 9 if C.thorough else 6):
        for k in (1, 2, 3):
            C.group("networks", networks, C, n, k)
    C.group("rejected", rejected, C)
