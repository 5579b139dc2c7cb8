"""C08: memoization reuses a result only for an equal key of the same evolution, and gives what the rule gave."""
import itertools
from .evo import *

TECHNIQUE = ("interprocedural value-flow and effect analysis of evolve with memoize=True: what is stored in the table and under which key, "
             "and where a stored result is read, is compared with the result of the rule for that key; the default keys are tested for "
             "telling neighbourhoods apart")

USER = """
class UserKey:
    def to_key(self, ctx):
        return KEYOF(ctx.node_label, ctx.timestep, ctx.activities)
"""


def check(C):
    for order in ORDERS:
        for pert in (False, True):
            C.group("user's key, %s, perturbation %s" % (order, pert), user_key, C, order, pert, None)
    C.group("user's key, topology rule", user_key, C, ORDERS[0], True, "topo")
    C.group("default keys", default_keys, C)


class Memo(object):
    def __init__(self, C, order, pert, topo, T, user):
        self.w = w = World(C)
        self.eng = eng = w.eng
        self.keys = {}

        def h(eng, e, res):
            args = [eng.den(a) for a in e.extra["args"]]
            e.extra["cb"] = "rule"
            e.extra["told"] = args
            return uf(eng, "rule", [uf(eng, "key", [args[0], args[1], args[2]])] if user else [args[0], args[1]])
        eng.callbacks[w.env["OBS_rule"]] = h
        kw = dict(activity_rule=w.env["rule"], timesteps=const(T), memoize=TRUE, update_order=mk("enum", "UpdateOrder", order),
                  perturbation=w.env["pert"] if pert else NONE, topology_rule=w.env[topo] if topo else NONE)
        if user:
            env = spec_env(eng, USER, dict(w.env))
            kw["memoization_key"] = eng.call(env["UserKey"], [], {})
        self.before = set(eng.objs)
        self.n0 = len(eng.log)
        self.i = implementation(w, **kw)
        self.n1 = len(eng.log)
        self.tables = {}
        for e in eng.log[self.n0:self.n1]:
            if e.kind == "call" and e.extra.get("cb") == "rule":
                self.table_of(e)

    def table_of(self, e):
        """the table that is asked before the rule is"""
        for a in atoms(e.guard):
            if a.op == "in":
                c = a.args[1]
                while c.op in ("den", "deepcopy", "keys"):
                    c = c.args[0]
                self.tables.setdefault(c, []).append((e, a.args[0]))


def result(x):
    """the Python value of what the rule returned"""
    return ite(atom_of(mk("isinstance", x, ("numpy.generic",))), mk("plain", x), x)


def user_key(C, order, pert, topo):
    m = Memo(C, order, pert, topo, 4, True)
    eng, w = m.eng, m.w
    what = "%s%s%s" % (order, ", perturbation" if pert else "", ", topology rule" if topo else "")
    site = site_of(eng, eng.lookup_export("netomaton.evolve"))
    for t, uses in m.tables.items():
        s = uses[0][0].site
        if t.op == "obj" and t.args[0] not in m.before:
            C.proved("the table belongs to one call of evolve (%s)" % what, show(t), s)
        elif t.op == "obj" or t.op in ("attr", "param", "ext"):
            C.violated("the table belongs to one call of evolve (%s)" % what, "it is created outside of evolve: %s" % show(t), s)
        else:
            C.undecided("the table belongs to one call of evolve (%s)" % what, show(t), s)
    asg = list(memo_assignments(w))
    # what the table holds is the rule's result for the key it is stored under
    n = 0
    for e in eng.log[m.n0:m.n1]:
        if e.kind == "store" and e.tgt in m.tables:
            n += 1
            k, v = eng.den(e.key), eng.den(e.val)
            doms, g, kv = eng.close(e.loops, e.guard, mk("tuple", (k, results(m, v))))
            doms, g2, kw_ = eng.close(e.loops, e.guard, mk("tuple", (k, result(mk("uf", "rule", (k,))))))
            g = results(m, g)
            g = TRUE if any(x.op in ("in", "rd", "den") for x in subterms(g)) else g
            a, b = [plainly(mk("seq", (mk("part", tuple(results(m, d) for d in doms), g, results(m, x)),))) for x in (kv, kw_)]
            C.equal("the table holds the rule's result for the key, before any perturbation (%s) #%d" % (what, n), a, b, asg, e.site)
    # so that a result read from the table is the one the rule gives for the key
    if m.i.states is None:
        raise Unsupported("the trajectory")
    ref = plain_reference(m, order, pert, topo)
    for k, (x, y) in enumerate(zip(m.i.states, ref.states)):
        C.equal("activities of state %d are those without memoization (%s)" % (k, what), bare(plainly(results(m, x[0]))), bare(y[0]), asg, site,
                when=NOT(m.i.raises))


def results(m, t):
    """reads of the table, as the rule's results for the keys"""
    sub = {}
    for x in sorted((x for x in subterms(t) if x.op in ("rd", "item") and x.args[0] in m.tables), key=lambda x: x.size):
        k = subst(x.args[1], sub)
        sub[x] = result(mk("uf", "rule", (k,)))
    return subst(t, sub) if sub else t


def plain_reference(m, order, pert, topo):
    w = m.w
    return reference(w, [const("__timestep__")] * 3, order, pert=pert, topo=topo)


def memo_assignments(w):
    class S(object):
        pass
    s = S()
    s.w, s.ictype, s.ins, s.past, s.pasttype, s.requests = w, None, [], [], "dict", False
    for a in assignments(s):
        yield a
    # a rule whose result depends on the key alone, with keys that nodes share
    for a in assignments(s):
        a["uf", "key"] = lambda l, t, acts: (str(l) > "a", t % 2)
        a["uf", "rule"] = lambda k: NP(3 + k[1]) if k[0] else k[1]
        yield a


# ------------------------------------------------------------------------------------------ default keys

def default_keys(C):
    m = Memo(C, ORDERS[0], False, None, 2, False)
    eng, w = m.eng, m.w
    rot = is_none(mk("q", "rotation_system", w.net, ()))
    used = False
    for e in eng.log[m.n0:m.n1]:
        if e.kind != "call" or e.extra.get("cb") != "rule":
            continue
        for ordered in (False, True):
            g = simplify(e.guard, NOT(rot) if ordered else rot)
            ks = [a.args[0] for a in atoms(g) if a.op == "in"]
            name = "default key, network %s a rotation system" % ("with" if ordered else "without")
            if not ks:
                C.undecided(name, "no key is looked up", e.site)
            for k in ks:
                used = True
                separates(C, m, e, k, ordered, name, rot)
    if not used:
        C.undecided("default keys", "no key is looked up")


def separates(C, m, e, k, ordered, name, rot):
    eng, w = m.eng, m.w
    k = simplify(eng.den(k), NOT(rot) if ordered else rot)
    told = e.extra["told"]
    nb = simplify(eng.den(told[FIELDS.index("neighbourhood_activities")]), NOT(rot) if ordered else rot)
    doms, g, v = eng.close(e.loops, TRUE, mk("tuple", (told[0], k, nb)))
    if v.args[0][1] is mk("tupleof", v.args[0][2]):
        C.proved(name + ": tells neighbourhoods apart", "the key is the tuple of the neighbourhood's activities", e.site)
        return
    term = mk("seq", (mk("part", doms, TRUE, plainly(v)),))
    n = 0
    why = None
    for a in colliding(C, w, ordered):
        try:
            rows = Interp(a, None, 200000).ev(term)
        except (ident.Und, ident.Fault) as x:
            why = str(x)
            continue
        n += 1
        seen = {}
        for label, key, acts in rows:
            f = ident.freeze(dict.fromkeys(key)) if isinstance(key, ident.USet) else ident.freeze(key)
            h = tuple(acts) if ordered else tuple(sorted(acts))
            old = seen.setdefault(f, (h, label, acts))
            if old[0] != h:
                C.violated(name + ": tells neighbourhoods apart", "nodes with the neighbourhoods %r and %r have the same key %r" % (
                    old[2], acts, key), e.site)
                return
    if n:
        C.add("agree", name + ": tells neighbourhoods apart", "no two of the neighbourhoods tried (%d networks) collide: %s" % (n, show(k)[:200]), e.site)
    else:
        C.undecided(name + ": tells neighbourhoods apart", str(why), e.site)


def colliding(C, w, ordered):
    """networks in which many small neighbourhoods occur side by side"""
    shapes = [[(0, 1, 1), (1, 0, 0), (1, 1, 0), (1, 0, 1), (0, 0, 0), (1, 1, 1), (2, 0, 0), (0, 2, 0), (1, 2, 0), (0, 1, 2), (2, 1, 0)],
              [(1,), (1, 1), (1, 1, 1), (0,), (0, 0), (), (2,), (0, 1), (1, 0), (0, 1, 1, 0), (1, 0, 1, 0), (0, 0, 1, 1)],
              [(1, 10), (10, 1), (11, 0), (0, 11), (-1, 1), (0, 0), (1, -1), (2, -2)],
              [("a", "b"), ("b", "a"), ("ab", ""), ("", "ab"), ("a", "a"), ("b", "b")],
              [(1, 1, 2), (1, 2, 2), (2, 2, 1), (2, 1, 1), (1, 2, 1), (2, 1, 2)],
              list(itertools.combinations_with_replacement((0, 1, 2, 3), 4)),
              list(itertools.combinations_with_replacement((0, 1, 2), 5)),
              list(itertools.combinations_with_replacement((-1, 0, 2, 4), 3)) + [(0,) * 8, (0,) * 9, (1,) * 8, (1,) * 9 + (0,), (0,) * 9 + (1,)]]
    if ordered:
        shapes += [list(itertools.product((0, 1, 2), repeat=3)), list(itertools.product((0, 1), repeat=5))]
    for sh in shapes:
        n = NetVal()
        rotation = {}
        ic = {}
        for k, row in enumerate(sh):
            n.add_node(("node", k))
            ic["node", k] = row[0] if row else 0
        for k, row in enumerate(sh):
            rotation["node", k] = []
            for j, v in enumerate(row):
                s = ("src", k, j)
                n.add_node(s)
                ic[s] = v
                n.add_edge(s, ("node", k))
                rotation["node", k].append(s)
        for l in n.attrs:
            rotation.setdefault(l, [])
        if ordered:
            n.rot = rotation
        yield {w.net: n, w.ic: ic}
