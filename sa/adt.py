"""
Networks as an abstract data type: for the code that uses networks (the evolution, the topology builders, the models)
a network is an opaque value; what it becomes is the script of the operations applied to it, and what is read from it
is a query of that value.  That the operations do what their names say is decided separately, from their bodies
(C12-C16).
"""
from .terms import *

MUTATORS = {"add_edge", "add_edge_bidir", "add_node", "update_edge", "remove_node", "remove_edge"}
QUERIES = {"in_edges", "edge", "has_edge", "degree", "in_degree", "out_degree", "to_dict", "to_networkx",
           "to_adjacency_matrix", "compress"}
PROPS = {"nodes", "edges", "rotation_system"}
SETTERS = {"rotation_system"}
DICTS = {"nodes", "in_edges", "rotation_system", "to_dict"}
COPY = "copy"
STATIC = {"decompress", "from_networkx"}
SIGNATURE = {"add_edge": ("i", "j"), "add_edge_bidir": ("i", "j"), "add_node": ("node_label",), "update_edge": ("i", "j", "indices"),
             "remove_node": ("node_label",), "remove_edge": ("i", "j"), "in_edges": ("node_label",), "edge": ("i", "j"),
             "has_edge": ("i", "j"), "degree": ("node_label",), "in_degree": ("node_label",), "out_degree": ("node_label",),
             "__init__": ("n",), "to_adjacency_matrix": ("nodelist", "sum_multiedges", "weight")}


def intercepts(eng, cls, name):
    return cls in eng.opaque and (name in MUTATORS or name in QUERIES or name == COPY)


def arguments(eng, name, args, kwargs):
    """positional arguments by the documented signature, the rest as attributes"""
    sig = SIGNATURE.get(name, ())
    args = list(args)
    kw = dict(kwargs)
    star = kw.pop("**", None)
    for n in sig[len(args):]:
        if n in kw:
            args.append(kw.pop(n))
        else:
            break
    attrs = NONE
    if name in ("add_edge", "add_edge_bidir", "add_node", "update_edge"):
        if star is not None and not kw:
            attrs = freeze(eng, star)
        elif kw or star is None:
            o = eng.alloc("dict")
            if star is not None:
                eng.dict_update(o, star)
            for k, v in kw.items():
                eng.emit("store", o, const(k), v)
            attrs = eng.den(o)
    return tuple(freeze(eng, a) for a in args), attrs


def freeze(eng, a):
    return eng.den(a) if a.op == "obj" else eng.version_deep(a) if a.op in ("ite", "tuple") else a


def new(eng, o, args, kwargs):
    a, _ = arguments(eng, "__init__", args, kwargs)
    base = mk("newnet", a[0] if a else ZERO)
    eng.objs[o.args[0]]["netbase"] = base
    return o


def mutate(eng, o, name, args, kwargs):
    a, attrs = arguments(eng, name, args, kwargs)
    if name == "add_edge_bidir":
        i, j = (list(a) + [NONE, NONE])[:2]
        eng.emit("adt", o, None, None, extra={"name": "add_edge", "args": (i, j), "attrs": attrs})
        eng.emit("adt", o, None, None, extra={"name": "add_edge", "args": (j, i), "attrs": attrs})
        return NONE
    eng.emit("adt", o, None, None, extra={"name": name, "args": a, "attrs": attrs})
    return NONE


def query(eng, o, name, args=(), kwargs=None):
    a, _ = arguments(eng, name, args, kwargs or {})
    extra = tuple(mk("kw", k, eng.den(v)) for k, v in sorted((kwargs or {}).items()) if k not in SIGNATURE.get(name, ()) and k != "**")
    return lift(lambda s, *xs: q(eng, name, s, tuple(xs) + extra), state(eng, o), *a)


def q(eng, name, s, args):
    t = mk("q", name, s, args)
    if name in DICTS:
        eng.types[t] = "dict"
        if name != "rotation_system":
            eng.dictlike.add(t)
    return t


def size(eng, o):
    return lift(lambda x: mk("len", x), query(eng, o, "nodes"))


def copy(eng, o):
    base = state(eng, o)
    c = eng.cls_of(o)
    n = eng.alloc("inst", c)
    eng.objs[n.args[0]]["netbase"] = mk("netcopy", base)
    return n


def static(eng, c, name, args, kwargs):
    n = eng.alloc("inst", c.args[0])
    a = args[0] if args else kwargs.get("packed", kwargs.get("G", NONE))

    def f(x):
        if name == "decompress" and x.op == "q" and x.args[0] == "compress":
            return mk("netcopy", x.args[1])
        return mk("netfrom", name, x)
    eng.objs[n.args[0]]["netbase"] = lift(f, freeze(eng, a))
    return n


def state(eng, o, pos=None):
    """the network as a value: where it started and the script of what was done to it"""
    if o.op == "ite":
        return lift(lambda x: state(eng, x, pos), o)
    if o.op == "obj":
        base = eng.objs[o.args[0]].get("netbase")
        if base is None:
            return mk("den", o, eng.mark(o))
        outer = eng.objs[o.args[0]]["loops"]
        c = tuple(mk("idx", l) for l in outer)
        if c != o.args[1]:
            return mk("den", o, -1)
    else:
        base = o
        outer = None
    evs = []
    n = len(eng.log) if pos is None else pos
    for e in eng.by_root.get(eng.root(o), ()):
        if e.n >= n:
            break
        if e.kind == "havoc" and e.extra.get("loop") in eng.loops and eng.alias(e.tgt, o) != "no":
            return mk("den", o, e.n)
        if e.kind == "adt":
            al = eng.alias(e.tgt, o)
            if al == "no":
                continue
            if al == "may":
                return mk("den", o, e.n)
            evs.append(e)
        elif e.kind not in ("havoc", "havocattr") and eng.alias(e.tgt, o) == "must":
            if e.kind == "sattr" and isinstance(e.extra, dict) and "summary" in e.extra:
                continue
            return mk("den", o, e.n)
    if not evs:
        return base
    open_ = eng.loops
    scr = []
    base_guard = eng.objs[o.args[0]]["guard"] if o.op == "obj" else TRUE
    for e in evs:
        loops = tuple(l for l in e.loops if l not in open_)
        scr.append((loops, simplify(e.guard, AND(base_guard, e.assume)), mk("op", e.extra["name"], e.extra["args"], e.extra["attrs"])))
    # rotation systems: only the last one counts
    return build(eng, base, scr)


def build(eng, base, scr):
    """a script: operations, and loops of scripts"""
    out = []
    k = 0
    while k < len(scr):
        loops, g, op = scr[k]
        if not loops:
            out.append(mk("part", (), g, op))
            k += 1
            continue
        L = loops[0]
        j = k
        grp = []
        while j < len(scr) and scr[j][0] and scr[j][0][0] == L:
            grp.append((scr[j][0][1:], scr[j][1], scr[j][2]))
            j += 1
        inner = build(eng, None, grp)
        doms, gg, vv = eng.close([L], TRUE, inner)
        out.append(mk("part", doms, gg, vv))
        k = j
    s = mk("script", tuple(out))
    if base is None:
        return s
    return mk("net", base, s)
