"""C23: Turing machines perform one transition per timestep."""
from sa import terms as tm
from sa.terms import atom_of
import random
from .common import *
from .evo import uf

TECHNIQUE = ("value-flow analysis of the machines along histories of timesteps with symbolic head states and tape symbols, an "
             "uninterpreted rule table and given directions; the normal form of every tape, head state and head position is compared "
             "with that of a reference machine")
LEVEL_NOTE = "Histories are bounded (tapes of 3 to 5 cells, up to 6 timesteps; directions enumerated or symbolic). "

SPEC = """
class Row:
    def __init__(self, q):
        self.q = q
    def __contains__(self, s):
        return KNOWN(self.q, s)
    def __getitem__(self, s):
        if not KNOWN(self.q, s):
            raise KeyError(s)
        return (NEXT(self.q, s), WRITE(self.q, s), DIRECTION(self.q, s))
    def get(self, s, default=None):
        return self[s] if KNOWN(self.q, s) else default

class Table:
    def __contains__(self, q):
        return STATE(q)
    def __getitem__(self, q):
        if not STATE(q):
            raise KeyError(q)
        return Row(q)
    def get(self, q, default=None):
        return Row(q) if STATE(q) else default

class Ctx:
    def __init__(self, label, timestep, activity, labels, activities, input):
        self.node_label = label
        self.timestep = timestep
        self.current_activity = activity
        self.neighbour_labels = labels
        self.neighbourhood_activities = activities
        self.input = input

def tapes(rule, tape, visits):
    out = []
    for t, cells in visits:
        new = [None for _ in tape]
        n = len(tape)
        for c in cells:
            labels = [(c - 1) % n, c, (c + 1) % n]
            new[c] = rule(Ctx(c, t, tape[c], labels, [tape[x] for x in labels], None))
        tape = new
        out.append(tape)
    return out

def reference_tapes(state, position, tape, visits):
    out = []
    n = len(tape)
    for t, cells in visits:
        new = []
        if state is not None and not STATE(state):
            raise KeyError(state)
        symbol = tape[position]
        if not KNOWN(state, symbol):
            raise KeyError(symbol)
        for c in range(n):
            new.append(WRITE(state, symbol) if c == position else tape[c])
        d = DIRECTION(state, symbol)
        state = NEXT(state, symbol)
        position = [(position - 1) % n, position, (position + 1) % n][d]
        tape = new
        out.append(tape)
    return out

def head(tm, state_class, table, tape, state, position, terminating, limit, steps, plot):
    m = tm(tape, table, state, position, terminating, limit)
    out = []
    halted = False
    trajectory = [state_class(activities={0: m.initial_conditions[0]})]
    current = m.initial_conditions[0]
    for t in steps:
        if not halted:
            x = m.input_function(t, {0: current}, None)
            if x is None:
                halted = True
            else:
                current = m.activity_rule(Ctx(0, t, current, [0], [current], x))
                out.append((current[0], current[1]))
                trajectory.append(state_class(activities={0: current}))
    if not plot:
        return out
    return out, [[x for x in tape] for tape in m.activities_for_plotting(trajectory)[0]]

def reference_head(tape, state, position, terminating, limit, steps, plot):
    out = []
    history = [[x for x in tape]]
    halted = False
    for t in steps:
        if limit is not None and len(history) >= limit:
            halted = True
        if not halted:
            symbol = tape[position]
            if not STATE(state):
                raise KeyError(state)
            if not KNOWN(state, symbol):
                raise KeyError(symbol)
            new = [WRITE(state, symbol) if c == position else tape[c] for c in range(len(tape))]
            d = DIRECTION(state, symbol)
            state = NEXT(state, symbol)
            position = (position + d - 1) % len(tape)
            tape = new
            history.append(new)
            out.append((state, position))
            if terminating is not None and state == terminating:
                halted = True
    if not plot:
        return out
    return out, history

def neighbours(network):
    return {node: list(network.rotation_system[node]) for node in network.nodes}

def ring(n):
    return {c: [(c - 1) % n, c, (c + 1) % n] for c in range(n)}

def single(network):
    return {node: list(network.in_edges(node)) for node in network.nodes}
"""


def by_depth(q, f, k=0):
    """f of how many transitions a head state is away from the initial one"""
    if q.op == "ite":
        return ite(atom_of(q.args[0]), by_depth(q.args[1], f, k), by_depth(q.args[2], f, k))
    if q.op == "uf" and q.args[0] == "next":
        return by_depth(q.args[1][0], f, k + 1)
    return f(k)


def machine(C, directions, missing=None):
    """an engine with a rule table of which nothing is known but the directions it gives; missing: (what, after how many steps)"""
    eng = C.engine()
    eng.peel = 32
    eng.exact_raises = True
    env = {}

    def give(name, f):
        p = P(eng, "FN_" + name)
        eng.callbacks[p] = lambda eng, e, res: f(*[eng.den(a) for a in e.extra["args"]])
        env[name] = p
    give("NEXT", lambda q, s: uf(eng, "next", [q, s]))

    def write(q, s):
        x = uf(eng, "write", [q, s])
        if x.op == "uf":
            tm.NOTNONE_TERMS.add(x)
        return x
    give("WRITE", write)
    give("DIRECTION", (lambda q, s: by_depth(q, lambda k: const(directions[k % len(directions)]))) if directions else (lambda q, s: uf(eng, "direction", [q, s], "int")))
    give("KNOWN", lambda q, s: by_depth(q, lambda k: const(not (missing and missing[0] == "symbol" and k >= missing[1]))))
    give("STATE", lambda q: by_depth(q, lambda k: const(not (missing and missing[0] == "state" and k >= missing[1]))))
    env.update(spec_env(eng, SPEC, dict(env)))
    return eng, env


def values(eng):
    out = []
    for k in range(8):
        out.append({P(eng, "q"): "q", P(eng, "term"): "q" if k == 3 else "T",
                    ("uf", "next"): lambda q, s, k=k: "T" if k and q.count("r") + 1 == k else "r%s%s" % (q, s),
                    ("uf", "write"): lambda q, s, k=k: "w%d%s%s" % (k, q, s),
                    ("uf", "direction"): lambda q, s, k=k: (len(q) + len(s) + k) % 3})
        for i in range(6):
            out[-1][P(eng, "cell%d" % i)] = "c%d" % i
    return out


def cells(eng, n):
    names = ["cell%d" % i for i in range(n)]
    f = spec_env(eng, "def mk(%s):\n    return [%s]\n" % (", ".join(names), ", ".join(names)))["mk"]
    return eng.call(f, [P(eng, x) for x in names], {})


def constant(eng, x):
    return eng.call(spec_env(eng, "def mk():\n    return %r\n" % (x,))["mk"], [], {})


DIRS = {"left": [0], "right": [2], "zigzag": [2, 2, 0, 1, 0, 0], "stay": [1, 2, 1]}


def tape_centric(C, n, steps, dirs, start, order, missing=None):
    eng, env = machine(C, DIRS.get(dirs), missing)
    cls = eng.lookup_export("netomaton.TapeCentricTuringMachine")
    site = site_of(eng, cls)
    q = P(eng, "q")
    table = eng.call(env["Table"], [], {})
    m = eng.call(cls, [const(n), table, q, const(start)], {})
    rule = eng.getattr(m, "activity_rule")
    visits = constant(eng, [(t, list(range(n))[::-1] if order == "reversed" else list(range(n))) for t in range(1, steps + 1)])
    got = call(eng, env["tapes"], [rule, cells(eng, n), visits])
    want = call(eng, env["reference_tapes"], [q, const(start), cells(eng, n), visits])
    name = "tape-centric: %d cells, %d steps, head at %d, directions %s%s%s" % (n, steps, start, dirs, ", cells visited in reverse" if order else "",
                                                                               ", no entry for a %s after %d steps" % missing if missing else "")
    C.equal(name, got.term, want.term, values(eng), site)


def head_centric(C, n, steps, dirs, start, term, limit, missing=None, plot=True):
    eng, env = machine(C, DIRS.get(dirs), missing)
    cls = eng.lookup_export("netomaton.HeadCentricTuringMachine")
    site = site_of(eng, cls)
    q = P(eng, "q")
    table = eng.call(env["Table"], [], {})
    te = P(eng, "term") if term else NONE
    tm.NOTNONE_TERMS.add(P(eng, "term"))
    lim = const(limit) if limit is not None else NONE
    for i in range(n):
        tm.NOTNONE_TERMS.add(P(eng, "cell%d" % i))
    st = constant(eng, list(range(1, steps + 1)))
    tape = cells(eng, n)
    got = call(eng, env["head"], [cls, eng.lookup_export("netomaton.State"), table, tape, q, const(start), te, lim, st, const(plot)])
    want = call(eng, env["reference_head"], [cells(eng, n), q, const(start), te, lim, st, const(plot)])
    name = "head-centric%s: %d cells, up to %d steps, head at %d, directions %s%s%s%s" % (
        ", with the tapes" if plot else "", n, steps, start, dirs, ", terminating state" if term else "", ", %s timesteps at most" % limit if limit is not None else "",
        ", no entry for a %s after %d steps" % missing if missing else "")
    C.equal(name, got.term, want.term, values(eng), site)
    if plot:
        C.equal(name + ": the given tape stays as it was", eng.den(tape), eng.den(cells(eng, n)), values(eng), site)


def given(C, seed):
    """machines whose table is given, entry by entry: transitions that change nothing, falsy states and symbols, early halts"""
    r = random.Random(seed)
    states, symbols, n = ["abc", (0, 1, 2), ("a", "b")][seed % 3], [(0, 1), ("x", "", "y")][seed // 3 % 2], r.randint(1, 5)
    table = {s: {x: [s, x, 1] if r.random() < 0.3 else [r.choice(states), r.choice(symbols), r.randint(0, 2)] for x in symbols} for s in states}
    tape, start, state = [r.choice(symbols) for _ in range(n)], r.randrange(n), r.choice(states)
    term, limit, steps = [(None, 6), (states[0], 7), (states[0], None)][r.randrange(3)] + (8,)
    out, history, at, q = [], [list(tape)], start, state
    for _ in range(steps):
        if limit is not None and len(history) >= limit:
            break
        q, w, d = table[q][history[-1][at]]
        history.append(history[-1][:at] + [w] + history[-1][at + 1:])
        at = (at + d - 1) % n
        out.append((q, at))
        if term is not None and q == term:
            break
    eng, env = machine(C, None)
    cls = eng.lookup_export("netomaton.HeadCentricTuringMachine")
    got = call(eng, env["head"], [cls, eng.lookup_export("netomaton.State"), constant(eng, table), constant(eng, tape), constant(eng, state), const(start), constant(eng, term),
                                  constant(eng, limit), constant(eng, list(range(1, steps + 1))), TRUE])
    C.equal("head-centric: table %r, tape %r, head at %d in state %r, terminating state %r, timesteps %r" % (table, tape, start, state, term, limit), got.term,
            call(eng, spec_env(eng, "def mk():\n    return %r\n" % ((out, history),))["mk"], []).term, [{}], site_of(eng, cls))
    cls = eng.lookup_export("netomaton.TapeCentricTuringMachine")
    if n >= 3:
        q, at, cur, rows = state, start, list(tape), []
        for _ in range(4):
            q, w, d = table[q][cur[at]]
            cur[at] = w
            at = (at + d - 1) % n
            rows.append(list(cur))
        m = eng.call(cls, [const(n), constant(eng, table), constant(eng, state), const(start)], {})
        got = call(eng, env["tapes"], [eng.getattr(m, "activity_rule"), constant(eng, tape), constant(eng, [(t, list(range(n))) for t in range(1, 5)])])
        C.equal("tape-centric: table %r, tape %r, head at %d in state %r" % (table, tape, start, state), got.term,
                call(eng, spec_env(eng, "def mk():\n    return %r\n" % (rows,))["mk"], []).term, [{}], site_of(eng, cls))


def networks(C):
    for cls, args, spec in (("TapeCentricTuringMachine", 4, "ring"),):
        eng = C.engine()
        eng.opaque = {"Network"}
        c = eng.lookup_export("netomaton." + cls)
        n = P(eng, "n", "int")
        env = {k: P(eng, "FN_" + k) for k in ("NEXT", "WRITE", "DIRECTION", "KNOWN", "STATE")}
        env = spec_env(eng, SPEC, env)
        m = eng.call(c, [n, P(eng, "table"), P(eng, "q"), P(eng, "p")], {})
        net = call(eng, spec_env(eng, "def f(m):\n    return m.network\n")["f"], [m])
        got = call(eng, env["neighbours"], [net.value])
        want = call(eng, env["ring"], [n])
        C.equal("tape-centric: the network is a ring of n cells, each presented between its neighbours", ite(net.raises, RAISES, got.den),
                want.den, [{n: k} for k in (3, 4, 5, 7)], site_of(eng, c), steps=2000000)
    eng = C.engine()
    eng.opaque = {"Network"}
    c = eng.lookup_export("netomaton.HeadCentricTuringMachine")
    env = spec_env(eng, SPEC, {k: P(eng, "FN_" + k) for k in ("NEXT", "WRITE", "DIRECTION", "KNOWN", "STATE")})
    m = eng.call(c, [P(eng, "tape", "list"), P(eng, "table"), P(eng, "q"), P(eng, "p")], {"max_timesteps": P(eng, "mx", "int")})
    net = call(eng, spec_env(eng, "def f(m):\n    return m.network\n")["f"], [m])
    got = call(eng, env["single"], [net.value])
    C.equal("head-centric: the network has a single node", got.term, call(eng, spec_env(eng, "def f():\n    return {0: [0]}\n")["f"], []).term, [{}],
            site_of(eng, c), steps=200000)
    m = call(eng, c, [P(eng, "tape", "list"), P(eng, "table"), P(eng, "q"), P(eng, "p")])
    C.equal("head-centric: a terminating state or a number of timesteps is required", ite(m.raises, RAISES, NONE), RAISES, [{P(eng, "table"): {}, P(eng, "tape"): ["x"]}], site_of(eng, c))


def check(C):
    for a in range(3):
        for b in range(3):
            DIRS["%d %d" % (a, b)] = [a, b]
            C.group("tape-centric", tape_centric, C, 3, 3, "%d %d" % (a, b), 1, "")
    for n, steps, dirs, start in ((3, 4, "right", 0), (4, 5, "left", 1), (5, 6, "zigzag", 4), (4, 4, "stay", 0), (3, 3, "symbolic", 1)) + (
            ((6, 12, "zigzag", 5), (4, 4, "symbolic", 3)) if C.thorough else ()):
        for order in ("", "reversed"):
            if dirs != "symbolic":
                C.group("tape-centric", tape_centric, C, n, steps, dirs, start, order)
        for term, limit in ((True, None), (False, steps), (True, steps - 1), (False, 1), (False, steps + 3)):
            for plot in (False, True):
                C.group("head-centric", head_centric, C, n, steps, dirs, start, term, limit, None, plot)
    for missing in (("symbol", 0), ("symbol", 2), ("state", 1), ("state", 2)):
        C.group("tape-centric", tape_centric, C, 3, 4, "right", 0, "", missing)
        for plot in (False, True):
            C.group("head-centric", head_centric, C, 3, 4, "zigzag", 0, False, 6, missing, plot)
    for seed in range(60 if C.thorough else 18):
        C.group("given %d" % seed, given, C, seed)
    C.group("networks", networks, C)
    C.assumptions.append("a rule table is a mapping from head states to mappings from symbols to (state, symbol, direction)")
