"""
What the rules about the evolution share: the evolution is unrolled for a fixed number of timesteps over a network that
is left abstract, what each callback is told is collected from the effect log as closed forms (over all nodes), and
these are compared with those of a reference evolution.
"""
from .common import *
from sa import terms as tm
from sa.netval import NetVal

ORDERS = ("ACTIVITIES_FIRST", "TOPOLOGY_FIRST", "SYNCHRONOUS")

DRIVER = """
def rule(ctx):
    return OBS_rule(ctx.node_label, ctx.timestep, ctx.activities, ctx.neighbour_labels, ctx.neighbourhood_activities,
                    ctx.connection_states, ctx.current_activity, ctx.past_activities, ctx.input)

def requesting(ctx):
    x = OBS_rule(ctx.node_label, ctx.timestep, ctx.activities, ctx.neighbour_labels, ctx.neighbourhood_activities,
                 ctx.connection_states, ctx.current_activity, ctx.past_activities, ctx.input)
    for state, links, label in ADDED(ctx.timestep, ctx.node_label):
        ctx.add_node(state, links, label)
    for label in REMOVED(ctx.timestep, ctx.node_label):
        ctx.remove_node(label)
    return x

def topo(ctx):
    return OBS_topo(ctx.timestep, ctx.network, ctx.activities)

def growing(ctx):
    n = ctx.network
    OBS_topo(ctx.timestep, n, ctx.activities)
    n.add_edge(NEW(ctx.timestep), OLD(ctx.timestep))
    return n

def pert(ctx):
    return OBS_pert(ctx.node_label, ctx.timestep, ctx.node_activity, ctx.input)
"""

REFERENCE = """
import collections
import collections.abc
import numpy as np

def plain(x):
    if isinstance(x, np.generic):
        return np.asscalar(x)
    return x

def neighbours(net, label):
    if net.rotation_system is not None:
        return net.rotation_system[label]
    return [i for i in net.in_edges(label)]

def entry(inp, label):
    if inp == "__timestep__":
        return None
    return inp[label] if isinstance(inp, (collections.abc.Sequence, np.ndarray)) else inp

def activities(rule, pert, t, inp, S, A, past):
    out = {}
    for label in A.nodes:
        nb = neighbours(A, label)
        x = plain(rule(label, t, S, nb, [S[i] for i in nb], A.in_edges(label), S[label], past, entry(inp, label)))
        if pert is not None:
            x = plain(pert(label, t, x, entry(inp, label)))
        out[label] = x
    return out

def requested(rule, pert, t, inp, S, A, past):
    out = {}
    added = []
    removed = []
    for label in A.nodes:
        nb = neighbours(A, label)
        x = plain(rule(label, t, S, nb, [S[i] for i in nb], A.in_edges(label), S[label], past, entry(inp, label)))
        added.extend([(a, b, c) for a, b, c in ADDED(t, label)])
        gone = [y for y in REMOVED(t, label)]
        removed.extend(gone)
        if label not in gone:
            if pert is not None:
                x = plain(pert(label, t, x, entry(inp, label)))
            out[label] = x
    for label in removed:
        out.pop(label, None)
    for state, links, label in added:
        out[label] = plain(state)
    if added or removed:
        A = A.copy()
        for label in dict.fromkeys(removed):
            A.remove_node(label)
        for state, links, label in added:
            A.add_node(label, activity=plain(state))
            for target, attrs in links.items():
                A.add_edge(label, target, **attrs)
    return out, A

def run(A, S, rule, pert, topo, inputs, past, order, copy, requests):
    As = [A]
    Ss = [S]
    t = 1
    for inp in inputs:
        if order == 1:
            if requests:
                S1, A1 = requested(rule, pert, t, inp, S, A, past)
            else:
                S1 = activities(rule, pert, t, inp, S, A, past)
                A1 = A
            A1 = step(topo, t, A1, S1, copy)
        elif order == 2:
            A1 = step(topo, t, A, S, copy)
            S1 = activities(rule, pert, t, inp, S, A1, past)
        else:
            A1 = step(topo, t, A, S, copy)
            S1 = activities(rule, pert, t, inp, S, A, past)
        if past is not None:
            past = past[1:] + [S]
        A = A1
        S = S1
        As.append(A)
        Ss.append(S)
        t += 1
    return As, Ss

def step(topo, t, A, S, copy):
    if topo is None:
        return A
    if copy:
        A = A.copy()
    return topo(t, A, S)

def ref_topo(t, A, S):
    return OBS_topo(t, A, S)

def ref_growing(t, A, S):
    OBS_topo(t, A, S)
    A.add_edge(NEW(t), OLD(t))
    return A

def from_mapping(S):
    return {i: plain(v) for i, v in S.items()}

def from_sequence(S):
    return {i: plain(v) for i, v in enumerate(S)}
"""


FIELDS = ("label", "timestep", "activities", "neighbour_labels", "neighbourhood_activities", "connection_states", "current_activity",
          "past_activities", "input")
RECORD = {"rule": FIELDS, "topo": ("timestep", "network", "activities"), "pert": ("label", "timestep", "activity", "input")}
KEYS = {"rule": (0, 1), "topo": (0,), "pert": (0, 1)}


def uf(eng, name, args, ty=None):
    t = mk("uf", name, tuple(args))
    if ty:
        eng.types[t] = ty
    if name == "signal" or ty and ty.startswith("class:"):
        tm.NOTNONE_TERMS.add(t)
    return t


def plainly(t):
    """values, whatever copies were made of them"""
    m = {}
    for x in sorted((x for x in subterms(t) if x.op in ("deepcopy", "missing")), key=lambda x: x.size):
        m[x] = subst(x.args[0], m) if x.op == "deepcopy" else mk("missing", NONE, subst(x.args[1], m))
    return subst(t, m)


class World(object):
    """an engine with abstract callbacks, whose calls are collected"""

    def __init__(self, C, peel=24):
        self.C = C
        self.eng = eng = C.engine()
        eng.opaque = {"Network"}
        eng.peel = peel
        self.env = {}
        for name in RECORD:
            self.env["OBS_" + name] = self.observer(name)
        self.env["ADDED"] = self.function("added", "list")
        self.env["REMOVED"] = self.function("removed", "list")
        self.env["NEW"] = self.function("new")
        self.env["OLD"] = self.function("old")
        self.env["SIGNAL"] = self.function("signal")
        self.env["KEYOF"] = self.function("key")
        eng.typehooks.append(added_types)
        self.env.update(spec_env(eng, DRIVER, dict(self.env)))
        self.net = P(eng, "network", "class:Network")
        self.ic = P(eng, "initial", "dict")
        tm.NOTNONE_TERMS.update([self.net, self.ic])

    def observer(self, name):
        eng = self.eng
        p = P(eng, "OBS_" + name)
        tm.NOTNONE_TERMS.add(p)

        def h(eng, e, res):
            args = [contents(eng, eng.den(a)) for a in e.extra["args"]]
            e.extra["cb"] = name
            e.extra["told"] = args
            return uf(eng, name, [args[k] for k in KEYS[name]], "class:Network" if name == "topo" else None)
        eng.callbacks[p] = h
        return p

    def function(self, name, ty=None):
        eng = self.eng
        p = P(eng, "FN_" + name)

        def h(eng, e, res):
            return uf(eng, name, [eng.den(a) for a in e.extra["args"]], ty)
        eng.callbacks[p] = h
        return p

    def calls(self, name, start, end):
        """what a callback is told, in all its calls: closed forms"""
        eng = self.eng
        out = []
        for e in eng.log[start:end]:
            if e.kind == "call" and e.extra.get("cb") == name:
                told = mk("tuple", tuple(eng.version_deep(x) for x in e.extra["told"]))
                told, guard = eng.partial(told, e), eng.partial(e.guard, e)
                doms, g, v = eng.close(e.loops, guard, told)
                out.append((doms, g, v.args[0] if v.op == "tuple" else None))
        return out


def added_types(eng, t):
    if t.op in ("item", "nth") and t.args[0].op == "uf" and t.args[0].args[0] == "added":
        return "tuple"
    return None


def field(parts, name, k):
    key = KEYS[name]
    out = []
    for doms, g, told in parts:
        if told is None:
            raise Unsupported("a callback's arguments")
        v = mk("tuple", tuple(told[i] for i in key) + (told[k],))
        out.append(mk("seq", (mk("part", doms, g, v),)))
    return plainly(mk("bag", tuple(out)))


class Run(object):
    """what happens in one evolution: the calls of each callback, and the states that come out"""

    def __init__(self, w, out, ref=False):
        self.w, self.out = w, out
        self.calls = {n: w.calls(n, out.start, out.end) for n in RECORD}
        self.raises = out.raises


def lengths(eng, t):
    """lengths of objects as lengths of what they consist of"""
    m = {}
    for x in subterms(t):
        if x.op == "len" and x.args[0].op == "obj":
            m[x] = mk("len", eng.den(x.args[0]))
    return subst(t, m)


def contents(eng, t):
    """a value in which objects are replaced by what they consist of now; a read of an object that could not be
    resolved to what it consists of stays one of the object"""
    for _ in range(4):
        held = set()
        for x in subterms(t):
            if x.op in ("rd", "den", "in", "missing", "keys"):
                o = x.args[1 if x.op == "in" else 0]
                while isinstance(o, T) and o.op in ("den", "keys", "deepcopy"):
                    o = o.args[0]
                if isinstance(o, T) and o.op == "obj":
                    held.add(o)
        m = {}
        for x in subterms(t):
            if x.op == "obj" and x not in held:
                d = eng.den(x)
                if d is not x and d.op != "den":
                    m[x] = d
        if not m:
            break
        t = subst(t, m)
    return t


def listing(w, xs):
    names = {"x%d" % i: x for i, x in enumerate(xs)}
    return w.eng.eval_in("[%s]" % ", ".join(names), dict(names))


def implementation(w, **kw):
    """evolve(...) as it is in the source"""
    eng = w.eng
    f = eng.lookup_export("netomaton.evolve")
    args = {k: v for k, v in kw.items()}
    args.setdefault("initial_conditions", w.ic)
    out = call(eng, f, [w.net], args)
    r = Run(w, out)
    r.raises = lengths(eng, r.raises)
    saved = (eng.pc, eng.assume, eng.raised)
    try:
        v = out.value
        items = eng.finite(v) if v.op != "ite" else None
        r.states = None
        if items is not None:
            r.states = [(eng.getattr(s, "activities"), eng.getattr(s, "network")) for s in items]
            r.states = [(plainly(contents(eng, eng.den(a))), plainly(contents(eng, eng.den(n)))) for a, n in r.states]
    finally:
        eng.pc, eng.assume, eng.raised = saved
    return r


def reference(w, inputs, order="ACTIVITIES_FIRST", rule="OBS_rule", pert=False, topo=None, past=None, copy=True, requests=False,
              initial="from_mapping"):
    eng = w.eng
    env = spec_env(eng, REFERENCE, dict(w.env))
    o = listing(w, inputs)
    topo_f = NONE if topo is None else env["ref_" + topo]
    # the reference starts from a network of its own, as the implementation may have changed the one it was given
    net2 = P(eng, "network'", "class:Network")
    tm.NOTNONE_TERMS.add(net2)
    args = [net2, w.eng.call(env[initial], [w.ic], {}), w.env["OBS_rule"], w.env["OBS_pert"] if pert else NONE, topo_f, o,
            past if past is not None else NONE, const(ORDERS.index(order) + 1), const(copy), const(requests)]
    out = call(eng, env["run"], args)
    r = Run(w, out)
    As, Ss = out.value.args[0]
    m = {net2: w.net}
    r.states = [(plainly(subst(eng.den(s), m)), plainly(subst(eng.den(a), m))) for a, s in zip(eng.finite(As), eng.finite(Ss))]
    r.calls = {n: [(tuple(subst(d, m) for d in doms), subst(g, m), None if told is None else tuple(subst(x, m) for x in told))
                   for doms, g, told in c] for n, c in r.calls.items()}
    return r


# ------------------------------------------------------------------------------------------ scenarios

class Scenario(object):
    """one configuration of evolve: the implementation, the reference, and the values their free variables may take"""

    def __init__(self, C, order="ACTIVITIES_FIRST", topo=None, pert=False, T=4, inputs=None, rule="rule", past=None, requests=False,
                 initial="from_mapping", ictype=None, pasttype="dict", copy=True, ref_kw=None, **kw):
        self.C, self.order, self.topo, self.pert, self.T = C, order, topo, pert, T
        self.ictype, self.requests, self.pasttype = ictype, requests, pasttype
        self.w = w = World(C)
        self.what = "%s%s%s%s" % (order, ", topology rule" if topo else "", ", perturbation" if pert else "", ", node requests" if requests else "")
        if ictype:
            w.eng.types[w.ic] = ictype
        self.ins, self.past = [], []
        self.containers = [None, None]
        if inputs is not None:
            for k in range(inputs):
                p = P(w.eng, "input%d" % (k + 1))
                tm.NOTNONE_TERMS.add(p)
                self.ins.append(p)
            kw["input"] = self.containers[0] = listing(w, self.ins)
            told = self.ins
            self.T = inputs + 1
        else:
            kw["timesteps"] = const(T)
            told = [const("__timestep__")] * max(T - 1, 0)
        pp = None
        if past is not None:
            for k in range(past):
                p = P(w.eng, "past%d" % k, pasttype)
                tm.NOTNONE_TERMS.add(p)
                self.past.append(p)
            pp = listing(w, self.past)
            kw["past_conditions"] = self.containers[1] = pp
            if not past:
                pp = None
        self.n0 = len(w.eng.log)
        self.i = implementation(w, activity_rule=w.env[rule], topology_rule=w.env[topo] if topo else NONE,
                                perturbation=w.env["pert"] if pert else NONE, update_order=mk("enum", "UpdateOrder", order),
                                copy_network=const(copy), **kw)
        self.n1 = len(w.eng.log)
        rp = pp
        if pp is not None and pasttype != "dict":
            rp = listing(w, [w.eng.eval_in("{i: v for i, v in enumerate(x)}", {"x": p}) for p in self.past])
        self.r = reference(w, told, order, pert=pert, topo=topo, past=rp, requests=requests, initial=initial, copy=copy)
        self._asg = None

    def assignments(self):
        if self._asg is None:
            self._asg = list(assignments(self))
        return self._asg

    def site(self, name):
        for e in self.w.eng.log[self.n0:self.n1]:
            if e.kind == "call" and e.extra.get("cb") == name:
                return e.site
        return site_of(self.w.eng, self.w.eng.lookup_export("netomaton.evolve"))

    def fields(self, label, *names):
        """what the callbacks are told is what the reference says"""
        C = self.C
        for nf in names:
            name, f = nf.split(".")
            k = RECORD[name].index(f)
            a, b = field(self.i.calls[name], name, k), field(self.r.calls[name], name, k)
            C.equal("%s: %s (%s)" % (label, nf, self.what), bare(a), bare(b), self.assignments(), self.site(name), when=NOT(self.i.raises))

    def activities(self, label, raw=False):
        self.states_part(label, 0, raw)

    def networks(self, label):
        self.states_part(label, 1)

    def states_part(self, label, part, raw=False):
        C = self.C
        what = ("activities", "network")[part]
        site = site_of(self.w.eng, self.w.eng.lookup_export("netomaton.evolve"))
        if self.i.states is None:
            raise Unsupported("the trajectory")
        for k, (x, y) in enumerate(zip(self.i.states, self.r.states)):
            C.equal("%s: %s of state %d (%s)" % (label, what, k, self.what), bare(x[part]), bare(y[part]), self.assignments(), site,
                    when=NOT(self.i.raises))

    def length(self, label):
        C = self.C
        site = site_of(self.w.eng, self.w.eng.lookup_export("netomaton.evolve"))
        if self.i.states is None:
            raise Unsupported("the trajectory")
        a, b = len(self.i.states), len(self.r.states)
        if a == b:
            C.proved("%s: %d states (%s)" % (label, a, self.what), "the list that is returned has %d entries" % a, site)
        else:
            C.violated("%s: %d states (%s)" % (label, b, self.what), "the list that is returned has %d entries" % a, site)

    def accepted(self, label):
        self.C.equal("%s: the evolution is accepted (%s)" % (label, self.what), self.i.raises, FALSE, self.assignments(),
                     site_of(self.w.eng, self.w.eng.lookup_export("netomaton.evolve")))


def bare(t):
    """networks, whatever copies were made of them"""
    m = {}
    for x in sorted((x for x in subterms(t) if x.op == "netcopy"), key=lambda x: x.size):
        m[x] = subst(x.args[0], m)
    return subst(t, m)


def networks():
    """small networks that tell apart what can be confused"""
    a = NetVal()
    for i in range(4):
        a.add_node(i)
    for i in range(4):
        for j in ((i - 1) % 4, i, (i + 1) % 4):
            a.add_edge(j, i, weight=i * 10 + j)
    yield a
    b = NetVal()
    for n in ("q", "a", "z", "m", "b"):
        b.add_node(n, kind=n * 2)
    for i, j in (("a", "q"), ("z", "q"), ("q", "q"), ("a", "q"), ("m", "a"), ("q", "a"), ("b", "z"), ("z", "b")):
        b.add_edge(i, j, weight=ord(i) + 2 * ord(j) + len(b.inc[j].get(i, ())))
    yield b
    c = NetVal()
    for i in (3, 0, 2, 1):
        c.add_node(i)
    for i in range(4):
        for j in ((i - 1) % 4, i, (i + 1) % 4):
            c.add_edge(j, i, weight=i + j)
    c.rot = {i: [(i + 1) % 4, i, (i - 1) % 4] for i in range(4)}
    yield c
    d = NetVal()
    d.add_node("only")
    yield d
    e = NetVal()
    for n in (7, 2, 5):
        e.add_node(n)
    e.add_edge(7, 2)
    e.add_edge(5, 2)
    e.rot = {7: [], 2: [5, 7], 5: []}
    yield e
    f = NetVal(12)
    for i in range(12):
        f.add_edge((i * 5 + 1) % 12, i)
        f.add_edge((i + 11) % 12, i)
    yield f


def states_for(labels, k, np=True):
    vals = [3, 0, 1, 7, 0, 2, None, 5, 4, 6, 9, 8]
    out = {}
    for n, l in enumerate(labels):
        v = vals[(n + 2 * k) % len(vals)]
        if np and (n + k) % 3 == 1:
            v = NP(10 + n)
        out[l] = v
    return out


def uf_value(name, variant):
    def f(*a):
        s = sum(ord(c) for x in a for c in repr(x)) + variant
        if variant == 0:
            return Opaque(name, *[freeze(x) for x in a])
        if variant == 1:
            return NP(s % 7) if s % 2 else s % 5
        return [0, None, False, NP(0), "", 2.5][s % 6]
    from sa.ident import freeze
    return f


def assignments(s):
    from sa.ident import freeze
    nets = list(networks())
    for nk, net in enumerate(nets):
        labels = list(net.attrs)
        seq = s.ictype in ("list", "ndarray")
        if seq and sorted(map(repr, labels)) != sorted(repr(i) for i in range(len(labels))):
            continue
        for variant in range(4 if s.requests else 3):
            a = {s.w.net: net}
            if seq:
                v = list(states_for(sorted(labels), nk).values())
                a[s.w.ic] = Array(v) if s.ictype == "ndarray" else v
            else:
                a[s.w.ic] = states_for(labels[::-1] if variant else labels, nk + variant)
            a["uf", "rule"] = uf_value("rule", variant)
            a["uf", "pert"] = uf_value("pert", (variant + 1) % 3)
            a["uf", "key"] = uf_value("key", 0)

            def topo(t, net=net, labels=labels, variant=variant):
                r = NetVal()
                for l in (labels[::-1] if variant == 1 else labels):
                    r.add_node(l, age=t)
                for x, i in enumerate(labels):
                    for y, j in enumerate(labels):
                        if (x * 3 + y * 2 + t) % 3 == 0:
                            r.add_edge(i, j, weight=t + x - y)
                if variant == 2 and t % 2:
                    r.rot = {l: labels[::-1][:1 + t % 2] for l in labels}
                return r
            a["uf", "topo"] = topo
            a["uf", "new"] = lambda t, labels=labels: labels[t % len(labels)]
            a["uf", "old"] = lambda t, labels=labels: labels[(t + 1) % len(labels)]

            def gone(t, labels=labels, variant=variant):
                if variant == 3:
                    return []
                return [l for k, l in enumerate(labels) if (k * 2 + t) % 5 == 1] if len(labels) > 3 else []

            def added(t, label, labels=labels, variant=variant, gone=gone):
                k = labels.index(label) if label in labels else 50
                if (k + t) % 3 == 0 and k < 50:
                    stay = [l for l in labels if all(l not in gone(u) for u in (1, 2, 3))] or ["fresh%d%s" % (t, label)]
                    n = "fresh%d%s" % (t, label)
                    out = [(uf_value("new", variant)(t, label), {stay[k % len(stay)]: {"w": t}, n: {}}, n)]
                    if variant == 1:
                        out.append((NP(t), {}, "lone%d%s" % (t, label)))
                    return out
                return []

            def removed(t, label, labels=labels, variant=variant, gone=gone):
                # by the node itself, by the node after it, or by the node before it, and twice
                k = labels.index(label) if label in labels else -1
                if k < 0:
                    return []
                out = [labels[(k + (0, 1, -1, 0)[variant]) % len(labels)]]
                return out * (variant or 1) if out[0] in gone(t) else []
            a["uf", "added"] = added
            a["uf", "removed"] = removed
            for k, p in enumerate(s.ins):
                form = (k + variant) % 4
                vals = [[0, None, False, "", NP(0)][(j + k) % 5] if (j + variant) % 3 == 0 else "in%d.%r" % (k, l) for j, l in enumerate(labels)]
                ints = sorted(repr(l) for l in labels) == sorted(repr(i) for i in range(len(labels)))
                if form == 0 and ints:
                    a[p] = vals
                elif form == 1 and ints:
                    a[p] = Array(vals)
                elif form == 2 and ints:
                    a[p] = tuple(vals)
                elif form == 3 or not ints:
                    a[p] = [0, 17, Opaque("signal", k), False][(k + nk) % 4]
            for k, p in enumerate(s.past):
                v = states_for(labels, k + 5, np=False)
                if s.pasttype == "dict":
                    a[p] = v
                else:
                    v = list(v.values())
                    a[p] = Array(v) if s.pasttype == "ndarray" else v
            yield a
