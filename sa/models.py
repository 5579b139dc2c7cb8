"""
What the analysis knows about code that is not part of the package: Python's builtins and containers, and the few
functions of NumPy, msgpack, NetworkX, ... that the package uses.

Everything that isn't listed here is an unknown call: its result is an unknown value, and the call is recorded in the
effect log.
"""
import ast
from .terms import *
from . import terms as tm
from .engine import item, range_dom, ite_map, contains as term_contains, concat_str


# ---------------------------------------------------------------------------------------------- containers

def method(eng, o, name, args, kwargs):
    k = eng.kind(o) if o.op != "obj" else eng.objs[o.args[0]]["kind"]
    if o.op in ("keys", "values", "items"):
        if name in ("index", "count", "copy"):
            pass
    if eng.small:
        from . import small
        if small.is_nd(eng, o):
            r = small.method(eng, o, name, args, kwargs)
            if r is not None:
                return r
    f = METHODS.get(name)
    if f is not None:
        r = f(eng, o, k, args, kwargs)
        if r is not None:
            return r
    if k == "ndarray" or o.op == "call":
        return mk("call", "ndarray." + name, tuple([eng.den(o)] + [eng.den(a) for a in args]) + kwt(eng, kwargs))
    eng.emit("extcall", None, None, None, extra={"name": "." + name, "on": o, "args": args, "kwargs": kwargs})
    return fresh(eng, "method " + name)


def kwt(eng, kwargs):
    return tuple(mk("kw", k, eng.den(v)) for k, v in sorted(kwargs.items()))


def fresh(eng, why):
    n = eng.counters["call"]
    eng.counters["call"] += 1
    return mk("res", n, eng.cur_idx())


METHODS = {}


def meth(*names):
    def deco(f):
        for n in names:
            METHODS[n] = f
        return f
    return deco


@meth("append")
def m_append(eng, o, k, args, kwargs):
    eng.emit("append", o, None, args[0])
    return NONE


@meth("add")
def m_add(eng, o, k, args, kwargs):
    eng.emit("add", o, None, args[0])
    return NONE


@meth("appendleft")
def m_appendleft(eng, o, k, args, kwargs):
    eng.emit("insert", o, ZERO, args[0])
    return NONE


@meth("extend")
def m_extend(eng, o, k, args, kwargs):
    if o.op == "obj":
        eng.extend(o, args[0])
    else:
        eng.extend(o, args[0])
    return NONE


@meth("insert")
def m_insert(eng, o, k, args, kwargs):
    eng.emit("insert", o, args[0], args[1])
    return NONE


@meth("clear")
def m_clear(eng, o, k, args, kwargs):
    eng.emit("clear", o, None, None)
    return NONE


@meth("pop", "popleft")
def m_pop(eng, o, k, args, kwargs):
    if len(args) == 2 or k == "dict":
        key = args[0]
        inn = eng.simp(eng.contains(key, o)) if o.op == "obj" or True else None
        v = eng.lookup(o, key)
        if len(args) == 2:
            if AND(eng.pc, inn) is not FALSE:
                eng.emit("del", o, key, None, extra={"pop": True, "discard": True})
            return ite(inn, v, args[1])
        eng.emit("del", o, key, None, extra={"pop": True})
        return v
    idx = args[0] if args else None
    if o.op == "obj":
        sp = eng.straight_items(o)
        if sp is not None:
            try:
                i = -1 if idx is None else idx.args[0]
                v = sp[i]
                eng.emit("pop", o, idx, None)
                return v
            except Exception:
                pass
    v = eng.unk("pop") if o.op == "obj" else mk("popped", eng.version(o), idx if idx is not None else NONE)
    eng.emit("pop", o, idx, None)
    return v


@meth("remove")
def m_remove(eng, o, k, args, kwargs):
    eng.emit("remove", o, args[0], None)
    return NONE


@meth("discard")
def m_discard(eng, o, k, args, kwargs):
    eng.emit("remove", o, args[0], None)
    return NONE


@meth("update")
def m_update(eng, o, k, args, kwargs):
    if k == "set":
        for a in args:
            eng.extend(o, a)
        return NONE
    if k == "counter":
        return None
    for a in args:
        eng.dict_update(o, a)
    dd = kwargs.get("**")
    if dd is not None:
        eng.dict_update(o, dd)
    for n, v in kwargs.items():
        if n != "**":
            eng.emit("store", o, const(n), v)
    return NONE


@meth("setdefault")
def m_setdefault(eng, o, k, args, kwargs):
    key = args[0]
    default = args[1] if len(args) > 1 else NONE
    inn = eng.simp(eng.contains(key, o))
    old = [None]

    def absent():
        eng.setitem(o, key, default)
    eng.branch(inn, lambda: None, absent)
    return eng.getitem(o, key)


@meth("get")
def m_get(eng, o, k, args, kwargs):
    key = args[0]
    default = args[1] if len(args) > 1 else kwargs.get("default", NONE)
    inn = eng.simp(eng.contains(key, o))
    if inn is FALSE:
        return default
    pc0 = eng.pc
    eng.pc = AND(pc0, inn)
    v = eng.getitem(o, key)
    eng.pc = pc0
    return ite(inn, v, default)


def view(name):
    def f(eng, o, k, args, kwargs):
        return mk(name, o)
    return f


for _n in ("keys", "values", "items"):
    METHODS[_n] = view(_n)


@meth("copy")
def m_copy(eng, o, k, args, kwargs):
    return shallow_copy(eng, o)


def shallow_copy(eng, o):
    k = eng.kind(o) if o.op != "obj" else eng.objs[o.args[0]]["kind"]
    if k in ("list", "deque", "iter"):
        r = eng.alloc("list")
        eng.extend(r, o)
        return r
    if k == "set":
        r = eng.alloc("set")
        eng.extend(r, o)
        return r
    if k == "dict":
        r = eng.alloc("dict")
        eng.dict_update(r, o)
        return r
    if k in ("tuple", "str", "num", "none"):
        return o
    return mk("shallow", eng.version(o), eng.new_site_no())


@meth("index")
def m_index(eng, o, k, args, kwargs):
    xs = eng.finite(o) if len(args) == 1 and not kwargs and k != "str" else None
    for i, x in enumerate(xs or ()):
        c = compare("eq", x, args[0])
        if c is TRUE:
            return const(i)
        if c is not FALSE:
            break
    return mk("indexof", eng.version(o), args[0])


@meth("count")
def m_count(eng, o, k, args, kwargs):
    return lift(lambda x, y: count_of(eng, x, y), eng.version(o), args[0])


def count_of(eng, coll, x):
    if coll.op == "tuple":
        r = ZERO
        for y in coll.args[0]:
            r = add(r, ite(compare("eq", x, y), ONE, ZERO))
        return r
    if coll.op in ("keys", "values", "items"):
        return mk("count", coll, x)
    if coll.op == "seqof":
        return count_of(eng, coll.args[0], x)
    return mk("count", coll, x)


@meth("sort")
def m_sort(eng, o, k, args, kwargs):
    eng.emit("mutate", o, None, mk("kw", "sort", NONE), extra={"how": "sort"})
    return NONE


@meth("reverse")
def m_reverse(eng, o, k, args, kwargs):
    eng.emit("mutate", o, None, mk("kw", "reverse", NONE), extra={"how": "reverse"})
    return NONE


@meth("rotate")
def m_rotate(eng, o, k, args, kwargs):
    eng.emit("rotate", o, None, args[0] if args else ONE)
    return NONE


@meth("popitem")
def m_popitem(eng, o, k, args, kwargs):
    eng.emit("mutate", o, None, None, extra={"how": "popitem"})
    return fresh(eng, "popitem")


@meth("join")
def m_join(eng, o, k, args, kwargs):
    if k == "str" or o.op == "const":
        a = args[0]
        d = eng.den(a) if a.op == "obj" else eng.version(a)
        if d.op == "seq" and all(not p.args[0] and p.args[1] is TRUE for p in d.args[0]) and o.op == "const":
            r = const("")
            for n, p in enumerate(d.args[0]):
                if n:
                    r = concat_str(r, o)
                r = concat_str(r, p.args[2])
            return r
        return mk("joined", o, d)
    return None


@meth("zfill")
def m_zfill(eng, o, k, args, kwargs):
    return lift(zfilled, o, args[0])


def zfilled(x, y):
    if x.op == y.op == "const" and isinstance(x.args[0], str) and isinstance(y.args[0], int):
        return const(x.args[0].zfill(y.args[0]))
    return mk("zfill", x, y)


STRING_METHODS = ("startswith", "endswith", "lower", "upper", "strip", "lstrip", "rstrip", "replace", "capitalize", "title", "casefold", "swapcase", "isdigit")


def m_string(name):
    def f(eng, o, k, args, kwargs):
        if kwargs or not (k == "str" or (o.op == "const" and isinstance(o.args[0], str)) or o.op == "strmeth"):
            return None
        return strmeth(const(name), o, *[eng.den(a) if a.op == "obj" else a for a in args])
    return f


def strmeth(name, o, *args):
    if o.op == "ite":
        return ite_map(o, lambda x: strmeth(name, x, *args))
    if o.op == "const" and isinstance(o.args[0], str) and all(a.op == "const" for a in args):
        try:
            return const(getattr(o.args[0], name.args[0])(*[a.args[0] for a in args]))
        except Exception:
            pass
    return mk("strmeth", name, o, *args)


for _n in STRING_METHODS:
    meth(_n)(m_string(_n))
tm._builders["strmeth"] = strmeth


@meth("rjust")
def m_rjust(eng, o, k, args, kwargs):
    if len(args) > 1 and args[1] is const("0"):
        return lift(zfilled, o, args[0])
    return mk("call", "str.rjust", tuple([o] + args))


@meth("format")
def m_format(eng, o, k, args, kwargs):
    return mk("fmt", tuple([o] + [eng.den(a) for a in args] + list(kwt(eng, kwargs))))


@meth("split", "startswith", "endswith", "strip", "upper", "lower", "replace")
def m_strpure(eng, o, k, args, kwargs):
    return None


@meth("union")
def m_union(eng, o, k, args, kwargs):
    r = eng.alloc("set")
    eng.extend(r, o)
    for a in args:
        eng.extend(r, a)
    return r


@meth("tolist")
def m_tolist(eng, o, k, args, kwargs):
    return mk("call", "ndarray.tolist", (eng.den(o),))


@meth("todense", "reshape", "flatten", "astype", "ravel", "mean", "max", "min", "argmax", "item", "sum", "get_position",
      "most_common", "elements", "total")
def m_arraypure(eng, o, k, args, kwargs):
    if METHODS_SUM(eng, o, k, args, kwargs) is not None:
        return METHODS_SUM(eng, o, k, args, kwargs)
    return None


def METHODS_SUM(eng, o, k, args, kwargs):
    return None


def pure_method(name):
    string = m_string(name) if name in STRING_METHODS else None

    def f(eng, o, k, args, kwargs):
        r = string(eng, o, k, args, kwargs) if string else None
        if r is not None:
            return r
        return mk("call", "." + name, tuple([eng.den(o) if o.op == "obj" else eng.version(o)] +
                                            [eng.den(a) for a in args]) + kwt(eng, kwargs))
    return f


for _n in ("todense", "reshape", "flatten", "astype", "ravel", "mean", "max", "min", "argmax", "item", "most_common",
           "elements", "total", "split", "startswith", "endswith", "strip", "upper", "lower", "replace", "issubset",
           "isdisjoint", "intersection", "difference", "symmetric_difference", "bit_length", "isdigit"):
    METHODS[_n] = pure_method(_n)


@meth("sum")
def m_sum(eng, o, k, args, kwargs):
    if not args and not kwargs:
        return do_sum(eng, o)
    return pure_method("sum")(eng, o, k, args, kwargs)


# ---------------------------------------------------------------------------------------------- builtins

EXT = {}


def ext(*names):
    def deco(f):
        for n in names:
            EXT[n] = f
        return f
    return deco


EFFECT_ROOTS = ("random", "np.random", "numpy.random", "plt", "matplotlib", "open", "print", "webbrowser", "os", "gc",
                "shutil", "sys", "time", "tempfile", "input", "json.dump", "pickle", "subprocess", "datetime", "uuid",
                "secrets", "locale", "exec", "eval", "setattr", "delattr", "globals")
PURE_ROOTS = ("math.", "numpy.", "networkx.", "itertools.", "operator.", "collections.", "functools.", "statistics.",
              "fractions.", "string.", "json.dumps", "enum.", "abc.", "typing.", "scipy.")
PURE_NAMES = {"abs", "bin", "bool", "bytes", "chr", "complex", "divmod", "float", "format", "hash", "hex", "id", "int",
              "oct", "ord", "pow", "repr", "round", "slice", "str", "bytearray", "object", "vars", "dir", "type"}


def ext_call(eng, name, args, kwargs, node=None):
    args = [eng.simp(a) for a in args]
    f = eng.ext_override.get(name) or EXT.get(name)
    if f is not None:
        r = f(eng, args, kwargs)
        if r is not None:
            return r
    if name.split(".")[-1] in ("Exception", "ValueError", "KeyError", "TypeError", "RuntimeError", "IndexError",
                               "AssertionError", "NotImplementedError", "StopIteration", "AttributeError",
                               "NetworkXError", "ZeroDivisionError"):
        return mk("exc", mk("ext", name), *[eng.den(a) for a in args])
    for r in EFFECT_ROOTS:
        if name == r or name.startswith(r + "."):
            eng.emit("extcall", None, None, None, extra={"name": name, "args": args, "kwargs": kwargs})
            r = fresh(eng, name)
            eng.resinfo[r] = (name, [eng.den(a) if a.op == "obj" else a for a in args], kwargs)
            return r
    if name in PURE_NAMES or any(name.startswith(r) for r in PURE_ROOTS):
        if any(a.op == "star" for a in args):
            return mk("call", name, tuple(eng.den(a) for a in args) + kwt(eng, kwargs))
        return lift_pure(eng, name, [eng.den(a) if a.op == "obj" else eng.version_deep(a) for a in args], kwt(eng, kwargs))
    eng.emit("extcall", None, None, None, extra={"name": name, "args": args, "kwargs": kwargs})
    return fresh(eng, name)


def lift_pure(eng, name, args, kw):
    if not args:
        return mk("call", name, kw)
    if any(a.op == "ite" for a in args):
        return lift(lambda *xs: mk("call", name, tuple(xs) + kw), *args)
    return mk("call", name, tuple(args) + kw)


@ext("len")
def b_len(eng, args, kwargs):
    return length(size_form(eng, args[0]))


def size_form(eng, v):
    if v.op == "ite":
        return ite_map(v, lambda x: size_form(eng, x))
    c = eng.cls_of(v)
    if c in eng.opaque:
        from . import adt
        return adt.query(eng, v, "nodes")
    if c and c in eng.classes:
        ln = eng.classes[c].find(eng, "__len__")
        if ln is not None:
            n = eng.call_func(ln, [v], {})
            return mk("sized", n)
    if v.op == "obj":
        ks = eng.finite_dict(v, "keys") if eng.objs[v.args[0]]["kind"] == "dict" else None
        if ks is not None:
            return mk("tuple", tuple(ks))
        ps = eng.parts(v) if eng.objs[v.args[0]]["kind"] in ("list", "iter") else None
        if ps is not None and len(ps) > 4 and not any(p[0] for p in ps):
            return mk("seq", tuple(mk("part", (), p[1], ZERO) for p in ps))
        return eng.containers(v)
    if v.op in ("keys", "values", "items", "reversed"):
        return size_form(eng, v.args[0])
    if v.op == "range":
        return v
    return eng.version(v)


@ext("range")
def b_range(eng, args, kwargs):
    if len(args) == 1:
        return mk("range", ZERO, args[0], ONE)
    if len(args) == 2:
        return mk("range", args[0], args[1], ONE)
    return mk("range", *args)


@ext("enumerate")
def b_enumerate(eng, args, kwargs):
    st = args[1] if len(args) > 1 else kwargs.get("start", ZERO)
    return lift_coll(eng, args[0], lambda x: mk("enumerate", x, st))


def lift_coll(eng, x, f):
    return ite_map(x, f) if x.op == "ite" else f(x)


@ext("zip")
def b_zip(eng, args, kwargs):
    return mk("zip", tuple(args))


@ext("reversed")
def b_reversed(eng, args, kwargs):
    return mk("reversed", eng.version(args[0]))


@ext("sorted")
def b_sorted(eng, args, kwargs):
    if eng.small and args[0].op == "obj":
        xs = eng.finite(args[0])
        r = None if xs is None else sorted_constants(eng, xs, kwargs)
        if r is not None:
            return r
    def f(x):
        d = eng.den(x) if x.op == "obj" else eng.version(x)
        return sorted_term(eng, d, kwargs)
    return lift_coll(eng, args[0], f)


def constant_value(t):
    """the Python value of a constant (tuples of constants included), or None"""
    if t.op == "const" and isinstance(t.args[0], (int, float, str, bool)):
        return (t.args[0],)
    if t.op == "tuple":
        vs = [constant_value(x) for x in t.args[0]]
        return None if any(v is None for v in vs) else (tuple(v[0] for v in vs),)
    return None


def sorted_constants(eng, d, kwargs):
    """a sequence of constants is sorted"""
    if not isinstance(d, list):
        if d.op not in ("seq", "seqof", "tuple"):
            return None
        while d.op == "seqof":
            d = d.args[0]
    xs = d if isinstance(d, list) else eng.finite(d)
    rev = kwargs.get("reverse", FALSE)
    if xs is None or rev not in (TRUE, FALSE):
        return None
    key = kwargs.get("key")
    ks = xs if key is None or key is NONE else [eng.call(key, [x], {}) for x in xs]
    vs = [constant_value(k) for k in ks]
    if any(v is None for v in vs):
        return None
    try:
        order = sorted(range(len(xs)), key=lambda i: vs[i][0], reverse=rev is TRUE)
    except TypeError:
        return None
    return mk("seq", tuple(mk("part", (), TRUE, xs[i]) for i in order))


def sorted_term(eng, d, kwargs):
    r = sorted_constants(eng, d, kwargs)
    if r is not None:
        return r
    while d.op in ("keys", "seqof") or d.op == "sorted" and d.args[1] is NONE:
        if d.op == "sorted" and (kwargs.get("key") is not None or kwargs.get("reverse") is not None):
            break
        if d.op == "sorted":
            d = d.args[0]
            continue
        d = d.args[0]
    key = kwargs.get("key")
    kt = NONE
    if key is not None and key is not NONE:
        kt = lam(eng, key)
    rev = kwargs.get("reverse", FALSE)
    if d.op == "setof" and d.args[0].op == "seq" and len(d.args[0].args[0]) == 1:
        pass
    return mk("sorted", d, kt, truthy(rev))


def lam(eng, f, n=1):
    """a function as a value: its result on bound variables"""
    vs = [mk("bv", 900 + i) for i in range(n)]
    n0 = len(eng.log)
    r = eng.call(f, vs, {})
    return mk("lam", r)


@ext("list")
def b_list(eng, args, kwargs):
    o = eng.alloc("list")
    if args:
        eng.extend(o, args[0])
    return o


@ext("tuple")
def b_tuple(eng, args, kwargs):
    if not args:
        return mk("tuple", ())
    a = args[0]
    if a.op == "tuple":
        return a
    o = eng.alloc("tuple")
    eng.extend(o, a)
    d = eng.den(o)
    if d.op == "tuple":
        return d
    return mk("tupleof", d)


def constant_set(eng, v):
    """the elements of a set of constants, in the order Python iterates over it"""
    if v.op == "const" and isinstance(v.args[0], frozenset):
        return [const(x) for x in v.args[0]]
    if v.op == "obj" and eng.objs[v.args[0]]["kind"] == "set":
        ps = eng.parts(v)
        if ps is None or len(ps) > 400 or any(p[0] or p[1] is not TRUE for p in ps):
            return None
        xs = [hashable_constant(p[2]) for p in ps]
        return None if None in xs else [const(x) for x in set(x[0] for x in xs)]
    return None


def hashable_constant(t):
    if t.op == "const":
        return (t.args[0],) if not isinstance(t.args[0], str) else None
    if t.op == "tuple":
        xs = [hashable_constant(x) for x in t.args[0]]
        return None if None in xs else (tuple(x[0] for x in xs),)
    return None


def b_frozenset(eng, args, kwargs):
    if len(args) == 1 and not kwargs:
        xs = eng.finite(args[0])
        xs = None if xs is None else [hashable_constant(x) for x in xs]
        if xs is not None and None not in xs:
            return const(frozenset(x[0] for x in xs))
    return NotImplemented


@ext("set", "frozenset")
def b_set(eng, args, kwargs):
    o = eng.alloc("set")
    if args:
        eng.extend(o, args[0])
    return o


@ext("dict", "collections.OrderedDict")
def b_dict(eng, args, kwargs):
    o = eng.alloc("dict")
    for a in args:
        eng.dict_update(o, a)
    for k, v in kwargs.items():
        if k == "**":
            eng.dict_update(o, v)
        else:
            eng.emit("store", o, const(k), v)
    return o


@ext("collections.defaultdict")
def b_defaultdict(eng, args, kwargs):
    o = eng.alloc("dict")
    eng.objs[o.args[0]]["default"] = args[0] if args else None
    for a in args[1:]:
        eng.dict_update(o, a)
    return o


@ext("collections.deque")
def b_deque(eng, args, kwargs):
    if "maxlen" in kwargs or len(args) > 1:
        eng.unk("deque with maxlen")
        o = eng.alloc("opaque")
        return o
    o = eng.alloc("deque")
    if args:
        eng.extend(o, args[0])
    return o


@ext("collections.Counter")
def b_counter(eng, args, kwargs):
    if not args:
        return None
    d = eng.den(args[0]) if args[0].op == "obj" else eng.version(args[0])
    while d.op in ("seqof", "tupleof", "sorted"):
        d = d.args[0]
    r = mk("counter", d)
    eng.dictlike.add(r)
    eng.types[r] = "dict"
    return r


@ext("sum")
def b_sum(eng, args, kwargs):
    st = args[1] if len(args) > 1 else kwargs.get("start", ZERO)
    r = do_sum(eng, args[0])
    return add(st, r)


def collect(eng, x):
    """the elements of x as (loops, guard, value) parts"""
    o = eng.alloc("iter")
    eng.extend(o, x)
    return eng.parts(o)


def do_sum(eng, x):
    if x.op == "ite":
        return ite_map(x, lambda y: do_sum(eng, y))
    if x.op == "seqof":
        return do_sum(eng, x.args[0])
    ps = collect(eng, x)
    if ps is None:
        return eng.unk("sum")
    r = ZERO
    for loops, g, v in ps:
        if not loops:
            r = add(r, ite(g, numval(v), ZERO))
        else:
            doms, gg, vv = eng.close(loops, g, v)
            r = add(r, sum_closed(doms, gg, numval(vv)))
    return r


def numval(v):
    if v is TRUE:
        return ONE
    if v is FALSE:
        return ZERO
    if is_bool(v):
        return ite(v, ONE, ZERO)
    return v


@ext("any", "numpy.any")
def b_any(eng, args, kwargs):
    if kwargs or len(args) != 1:
        return None
    ps = collect(eng, args[0])
    if ps is None:
        return atom("truthy", eng.unk("any"))
    r = FALSE
    for loops, g, v in ps:
        c = AND(g, eng.boolean(v))
        if not loops:
            r = OR(r, c)
        else:
            doms, gg, _ = eng.close(loops, c, NONE)
            r = OR(r, exists_closed(doms, gg))
    return r


@ext("all", "numpy.all")
def b_all(eng, args, kwargs):
    if kwargs or len(args) != 1:
        return None
    ps = collect(eng, args[0])
    if ps is None:
        return atom("truthy", eng.unk("all"))
    r = FALSE
    for loops, g, v in ps:
        c = AND(g, NOT(eng.boolean(v)))
        if not loops:
            r = OR(r, c)
        else:
            doms, gg, _ = eng.close(loops, c, NONE)
            r = OR(r, exists_closed(doms, gg))
    return NOT(r)


def extremum(name):
    def f(eng, args, kwargs):
        if kwargs and set(kwargs) - {"default"}:
            return mk("call", name, tuple(eng.den(a) for a in args) + kwt(eng, {k: v for k, v in kwargs.items() if k != "key"}) +
                      ((lam(eng, kwargs["key"]),) if "key" in kwargs else ()))
        if len(args) == 1:
            fin = eng.finite(args[0])
            if fin:
                args = fin
            else:
                d = eng.den(args[0]) if args[0].op == "obj" else eng.version(args[0])
                while d.op in ("seqof", "tupleof", "sorted") and d.args[0].op != "ite":
                    d = d.args[0]
                dv = kwargs.get("default")
                if dv is not None:
                    return ite(truthy(eng.containers(args[0])), mk(name + "of", d), dv)
                return mk(name + "of", d)

        def g(x, y):
            if num_const(x) and num_const(y):
                return const(min(x.args[0], y.args[0]) if name == "min" else max(x.args[0], y.args[0]))
            if x is y:
                return x
            xs = list(x.args[0]) if x.op == name else [x]
            ys = list(y.args[0]) if y.op == name else [y]
            zs = sorted(set(xs + ys), key=lambda t: t.id)
            return zs[0] if len(zs) == 1 else mk(name, tuple(zs))
        r = args[0]
        for a in args[1:]:
            r = lift(g, r, a)
        return r
    return f


EXT["min"] = EXT["builtins.min"] = extremum("min")
EXT["max"] = EXT["builtins.max"] = extremum("max")
tm.NUMERIC_OPS.update({"min", "max", "maxof", "minof", "count", "indexof", "intbase"})


@ext("abs", "numpy.abs", "numpy.absolute", "math.fabs")
def b_abs(eng, args, kwargs):
    def f(x):
        if num_const(x):
            return const(abs(x.args[0]))
        c, p = tm._aff_parts(x)
        if p:
            ks = sorted(p, key=lambda y: y.id)
            if p[ks[0]] < 0:
                x = tm._scale(x, -1)
        elif isinstance(c, int):
            return const(abs(c))
        return mk("abs", x)
    return lift(f, args[0])


def _b_absb(x):
    return b_abs(None, [x], {})


tm._builders["abs"] = _b_absb


@ext("int")
def b_int(eng, args, kwargs):
    base = args[1] if len(args) > 1 else kwargs.get("base")
    if base is not None:
        def g(x, y):
            if x.op == "const" and y.op == "const":
                try:
                    return const(int(x.args[0], y.args[0]))
                except Exception:
                    pass
            return mk("intbase", x, y)
        return lift(g, args[0], base)
    if not args:
        return ZERO

    def f(x):
        if x.op == "const":
            try:
                return const(int(x.args[0]))
            except Exception:
                return mk("call", "int", (x,))
        if x.op in ("len", "idx", "count", "intbase") or x.op == "bv" and x.args[0] != 900:
            return x
        if x.op == "call" and x.args[0] == "int":
            return x
        return mk("call", "int", (x,))
    a = args[0]
    if is_bool(a):
        return numval(a)
    return lift(f, a)


@ext("float", "numpy.float64")
def b_float(eng, args, kwargs):
    def f(x):
        if x.op == "const":
            try:
                return const(float(x.args[0]))
            except Exception:
                pass
        if numeric(x):
            return x
        return mk("call", "float", (x,))
    return lift(f, args[0])


@ext("str", "builtins.str")
def b_str(eng, args, kwargs):
    if len(args) != 1:
        return None

    def f(x):
        if x.op == "const" and isinstance(x.args[0], (int, str, bool, float)):
            return const(str(x.args[0]))
        if eng.kind(x) == "str":
            return x
        return mk("str", x)
    return lift(f, eng.den(args[0]))


@ext("bool")
def b_bool(eng, args, kwargs):
    return eng.boolean(args[0]) if args else FALSE


@ext("repr")
def b_repr(eng, args, kwargs):
    return mk("call", "repr", (eng.den(args[0]),))


@ext("print")
def b_print(eng, args, kwargs):
    eng.emit("extcall", None, None, None, extra={"name": "print", "args": args, "kwargs": kwargs})
    return NONE


@ext("map")
def b_map(eng, args, kwargs):
    o = eng.alloc("iter")
    it = args[1] if len(args) == 2 else mk("zip", tuple(args[1:]))

    def body(x):
        xs = [x] if len(args) == 2 else [eng.nth_of(x, i) for i in range(len(args) - 1)]
        eng.emit("append", o, None, eng.call(args[0], xs, {}))
    eng.iterate(it, body, set())
    return o


@ext("filter")
def b_filter(eng, args, kwargs):
    o = eng.alloc("iter")

    def body(x):
        c = eng.boolean(x if args[0] is NONE else eng.call(args[0], [x], {}))
        eng.branch(eng.simp(c), lambda: eng.emit("append", o, None, x) and None, lambda: None)
    eng.iterate(args[1], body, set())
    return o


@ext("itertools.chain")
def b_chain(eng, args, kwargs):
    o = eng.alloc("iter")
    for a in args:
        eng.extend(o, a)
    return o


@ext("itertools.chain.from_iterable")
def b_chainfi(eng, args, kwargs):
    o = eng.alloc("iter")
    eng.iterate(args[0], lambda x: eng.extend(o, x), set())
    return o


@ext("itertools.product")
def b_product(eng, args, kwargs):
    if kwargs:
        return None
    o = eng.alloc("iter")

    def go(i, acc):
        if i == len(args):
            eng.emit("append", o, None, mk("tuple", tuple(acc)))
            return
        eng.iterate(args[i], lambda x: go(i + 1, acc + [x]), set())
    go(0, [])
    return o


@ext("functools.partial")
def b_partial(eng, args, kwargs):
    return mk("partial", args[0], tuple(args[1:]), tuple(mk("kw", k, v) for k, v in sorted(kwargs.items())))


@ext("isinstance")
def b_isinstance(eng, args, kwargs):
    names = class_names(eng, args[1])
    if names is None:
        return atom("truthy", eng.unk("isinstance"))
    return lift(lambda x: isinst(eng, x, names), args[0])


def class_names(eng, c):
    if c.op == "tuple":
        out = []
        for x in c.args[0]:
            n = class_names(eng, x)
            if n is None:
                return None
            out.extend(n)
        return tuple(sorted(set(out)))
    if c.op == "ext":
        return (c.args[0],)
    if c.op == "class":
        return ("class:" + c.args[0],)
    return None


KINDCLS = {"list": ("list", "collections.abc.Sequence", "collections.abc.Iterable", "collections.abc.MutableSequence"),
           "dict": ("dict", "collections.abc.Mapping", "collections.abc.Iterable"), "set": ("set",),
           "str": ("str", "collections.abc.Sequence", "collections.abc.Iterable"),
           "tuple": ("tuple", "collections.abc.Sequence", "collections.abc.Iterable"), "deque": ("collections.deque",),
           "ndarray": ("numpy.ndarray", "collections.abc.Iterable")}


def isinst(eng, x, names):
    k = None
    if is_array(eng, x) or (x.op == "obj" and eng.objs[x.args[0]].get("nd")):
        k = "ndarray"
    elif x.op == "obj":
        k = eng.objs[x.args[0]]["kind"]
        if k == "inst":
            c = eng.objs[x.args[0]]["cls"]
            mro = {"class:" + getattr(y, "key", y.name) for y in eng.classes[c].mro(eng)}
            return const(bool(mro & set(names)))
    elif x.op == "const":
        v = x.args[0]
        py = {"int": int, "str": str, "float": float, "bool": bool, "list": list, "dict": dict, "tuple": tuple}
        r = False
        for n in names:
            if n in py:
                r = r or isinstance(v, py[n])
            elif n == "collections.abc.Sequence":
                r = r or isinstance(v, (str, tuple))
        return const(r)
    elif x.op in ("tuple", "concat", "seq", "seqof", "dictof"):
        k = eng.kind(x)
    else:
        k = eng.type_of(x)
        if isinstance(k, str) and k.startswith("class:"):
            c = k[6:]
            mro = {"class:" + getattr(y, "key", y.name) for y in eng.classes[c].mro(eng)} if c in eng.classes else {k}
            return const(bool(mro & set(names)))
        if k == "int":
            return const("int" in names)
    if k in KINDCLS:
        return const(bool(set(KINDCLS[k]) & set(names)))
    return atom("isinstance", x, names)


@ext("callable")
def b_callable(eng, args, kwargs):
    def f(x):
        if x.op in ("func", "class", "bound", "ext", "partial"):
            return TRUE
        if x.op in ("const", "tuple") or eng.kind(x) in ("list", "dict", "str", "set"):
            return FALSE
        c = eng.cls_of(x)
        if c and c in eng.classes:
            return const(eng.classes[c].find(eng, "__call__") is not None)
        return atom("callable", x)
    return lift(f, args[0])


@ext("type")
def b_type(eng, args, kwargs):
    def f(x):
        c = eng.cls_of(x)
        if c:
            return mk("class", c)
        k = eng.kind(x)
        if k in ("list", "dict", "set", "str", "tuple"):
            return mk("ext", k)
        if x.op == "const" and type(x.args[0]) in (int, float, bool):
            return mk("ext", type(x.args[0]).__name__)
        return mk("typeof", x)
    return lift(f, args[0])


@ext("getattr")
def b_getattr(eng, args, kwargs):
    if args[1].op == "const" and isinstance(args[1].args[0], str):
        r = eng.getattr(args[0], args[1].args[0])
        if len(args) > 2 and any(x.op == "missing" for x in leaves(r)):
            r = ite_map(r, lambda x: args[2] if x.op == "missing" else x)
        return r
    return eng.unk("getattr")


@ext("setattr")
def b_setattr(eng, args, kwargs):
    if args[1].op == "const":
        eng.split(args[0], lambda x: eng.setattr(x, args[1].args[0], args[2]))
        return NONE
    return None


@ext("hasattr")
def b_hasattr(eng, args, kwargs):
    o, n = args[0], args[1]
    if n.op == "const" and o.op == "obj" and eng.cls_of(o) in eng.classes and eng.cls_of(o) not in eng.opaque:
        c = eng.classes[eng.cls_of(o)]
        if c.find(eng, n.args[0]) is not None:
            return TRUE
        r = eng.lookup(o, n.args[0], "attr")
        return ite_map(r, lambda x: FALSE if x.op == "missing" else TRUE)
    return atom("hasattr", o, n)


@ext("super")
def b_super(eng, args, kwargs):
    fr = eng.frame
    while fr is not None and (fr.func is None or fr.func.cls is None):
        fr = fr.parent
    if fr is None:
        return eng.unk("super")
    a = fr.func.node.args
    self_name = (a.posonlyargs + a.args)[0].arg
    return mk("super", fr.env[self_name], fr.func.cls)


@ext("iter")
def b_iter(eng, args, kwargs):
    if len(args) != 1:
        return None
    fin = eng.finite(args[0])
    r = mk("iterof", eng.version(args[0]) if fin is None else mk("tuple", tuple(fin)), eng.new_site_no())
    eng.iterators[r] = [loop_nest(eng), eng.pc, 0]
    return r


def loop_nest(eng):
    return [l for l in eng.loopstack if not getattr(l, "unrolled", False)]


def steps_taken(eng, a):
    """how often the iterator has been advanced, None when that isn't known; counts this one"""
    got = eng.iterators.get(a)
    if got is None:
        got = eng.iterators[a] = [loop_nest(eng), eng.pc, 0]
    n = got[2] if got[0] == loop_nest(eng) else None
    got[2] = n + 1 if n is not None and got[1] is eng.pc else None
    return n


@ext("next")
def b_next(eng, args, kwargs):
    a = args[0]
    if a.op in ("iterof", "obj"):
        n = steps_taken(eng, a)
        if n is None or n and (a.op == "obj" or a.args[0].op != "tuple"):
            return eng.unk("next")
    if a.op == "iterof":
        d = a.args[0]
        if d.op == "tuple":
            if n < len(d.args[0]):
                return d.args[0][n]
            if len(args) > 1:
                return args[1]
            eng.raise_ext("StopIteration") if hasattr(eng, "raise_ext") else None
            return eng.unk("next")
        if len(args) == 1:
            return mk("nth", d, ZERO)
        return ite(truthy(d), mk("nth", d, ZERO), args[1])
    if a.op == "obj":
        ps = eng.parts(a)
        if ps is not None and len(ps) == 1:
            loops, g, v = ps[0]
            if loops:
                doms, gg, vv = eng.close(loops, g, v)
                f = mk("first", doms, gg, vv)
                if len(args) == 1:
                    return f
                return ite(exists_closed(doms, gg), f, args[1])
    return None


@ext("round")
def b_round(eng, args, kwargs):
    return mk("call", "round", tuple(args))


@ext("pow", "math.pow")
def b_pow(eng, args, kwargs):
    if len(args) == 2:
        return binop("pow", args[0], args[1])
    return None


@ext("divmod")
def b_divmod(eng, args, kwargs):
    return mk("tuple", (binop("floordiv", args[0], args[1]), binop("mod", args[0], args[1])))


@ext("bin")
def b_bin(eng, args, kwargs):
    return lift(lambda x: const(bin(x.args[0])) if num_const(x) and isinstance(x.args[0], int) else mk("call", "bin", (x,)), args[0])


@ext("object.__init__", "object.__new__")
def b_objinit(eng, args, kwargs):
    return NONE


# ---------------------------------------------------------------------------------------------- libraries

@ext("copy.copy")
def x_copy(eng, args, kwargs):
    return ite_map(args[0], lambda o: shallow_copy(eng, o))


@ext("copy.deepcopy")
def x_deepcopy(eng, args, kwargs):
    return deep(eng, args[0])


def deep(eng, v):
    def f(x):
        if x.op == "const":
            return x
        d = eng.den(x) if x.op == "obj" else eng.version(x)
        r = mk("deepcopy", d, eng.new_site_no(), eng.cur_idx())
        k = eng.kind(x)
        if k:
            eng.types[r] = k
        return r
    return ite_map(v, f)


@ext("msgpack.packb")
def x_packb(eng, args, kwargs):
    def f(x):
        return mk("packed", eng.den(x) if x.op == "obj" else eng.version(x))
    return ite_map(args[0], f)


@ext("msgpack.unpackb")
def x_unpackb(eng, args, kwargs):
    def f(x):
        if x.op == "packed":
            return deep(eng, x.args[0])
        return mk("unpacked", x, eng.new_site_no(), eng.cur_idx())
    # packed data may be invalid, in which case unpackb raises
    eng.emit("extcall", None, None, None, extra={"name": "msgpack.unpackb", "args": args, "kwargs": kwargs})
    return ite_map(args[0], f)


@ext("numpy.asscalar")
def x_asscalar(eng, args, kwargs):
    return ite_map(args[0], lambda x: mk("plain", x))


@ext("numpy.sum")
def x_npsum(eng, args, kwargs):
    if kwargs or len(args) != 1:
        return None
    return do_sum(eng, strip_array(eng, args[0]))


def strip_array(eng, x):
    """np.array(seq) as a sequence"""
    if x.op == "call" and x.args[0] in ("numpy.array", "numpy.asarray") and x.args[1] and x.args[1][0].op in ("seq", "seqof") \
            and all(k.op == "kw" and k.args[0] == "dtype" for k in x.args[1][1:]):
        return x.args[1][0]
    if x.op == "call" and x.args[0] in ("numpy.array", "numpy.asarray") and len(x.args[1]) == 1:
        return x.args[1][0]
    return x


@ext("numpy.array", "numpy.asarray")
def x_nparray(eng, args, kwargs):
    d = eng.den(args[0]) if args[0].op == "obj" else eng.version(args[0])
    r = mk("call", "numpy.array", (d,) + kwt(eng, kwargs))
    eng.types[r] = "ndarray"
    return r


@ext("numpy.mean", "statistics.mean", "numpy.average", "statistics.fmean")
def x_npmean(eng, args, kwargs):
    if kwargs or len(args) != 1:
        return None
    a = strip_array(eng, args[0])
    d = eng.den(a) if a.op == "obj" else eng.version(a)
    ps = collect(eng, a) if a.op == "obj" or a.op in ("seq", "tuple") else None
    if ps and all(is_bool(p[2]) or all(numeric(x) or x.op == "log" for x in leaves(p[2])) for p in ps):
        n = length(d)
        if n is not ZERO:
            return div(do_sum(eng, a), n)
    return mk("call", "numpy.mean", (d,))


def elementwise(eng, fn, *xs):
    """fn applied element by element (arguments that aren't arrays are broadcast)"""
    o = eng.alloc("list")
    eng.objs[o.args[0]]["array"] = True
    arr = [x for x in xs if is_array(eng, x)]
    it = mk("zip", tuple(strip_array(eng, x) for x in arr)) if len(arr) > 1 else strip_array(eng, arr[0])

    def body(e):
        vals = [eng.nth_of(e, i) for i in range(len(arr))] if len(arr) > 1 else [e]
        k = iter(vals)
        eng.emit("append", o, None, fn(*[next(k) if is_array(eng, x) else x for x in xs]))
    eng.iterate(it, body, set())
    return o


def is_array(eng, x):
    if x.op == "call":
        return x.args[0] in ("numpy.array", "numpy.asarray")
    return x.op == "obj" and bool(eng.objs[x.args[0]].get("array"))


def np_logical(f):
    def g(eng, args, kwargs):
        if kwargs or not any(is_array(eng, a) for a in args):
            if any(a.op in ("call", "res") or eng.kind(a) == "ndarray" for a in args):
                return None
            return f(*[eng.boolean(a) for a in args])
        return elementwise(eng, lambda *v: f(*[eng.boolean(x) for x in v]), *args)
    return g


EXT["numpy.logical_and"] = np_logical(lambda a, b: AND(a, b))
EXT["numpy.logical_or"] = np_logical(lambda a, b: OR(a, b))
EXT["numpy.logical_not"] = np_logical(lambda a: NOT(a))


@ext("numpy.count_nonzero")
def x_count_nonzero(eng, args, kwargs):
    if kwargs or len(args) != 1 or not is_array(eng, args[0]):
        return None
    o = elementwise(eng, lambda v: numval(eng.boolean(v)), args[0])
    return do_sum(eng, o)


@ext("dict.fromkeys", "collections.OrderedDict.fromkeys")
def x_fromkeys(eng, args, kwargs):
    def f(x):
        d = eng.den(x) if x.op == "obj" else eng.version(x)
        if d.op == "keys":
            d = d.args[0]
        if d.op == "tuple" and not d.args[0]:
            return eng.alloc("dict")
        if d.op == "seqof":
            d = d.args[0]
        if len(args) > 1 and args[1] is not NONE:
            o = eng.alloc("dict")
            eng.iterate(x, lambda e: eng.emit("store", o, e, args[1]), set())
            return o
        r = mk("dedup", d)
        eng.dictlike.add(r)
        eng.types[r] = "dict"
        return r
    return ite_map(args[0], f)


@ext("numpy.zeros")
def x_npzeros(eng, args, kwargs):
    o = eng.alloc("ndarray")
    eng.objs[o.args[0]]["init"] = mk("call", "numpy.zeros", (eng.den(args[0]),) + kwt(eng, {k: v for k, v in kwargs.items() if k != "dtype"}))
    return o


@ext("math.log2", "numpy.log2")
def x_log2(eng, args, kwargs):
    return lift(lambda x: mk("log", x, const(2)), args[0])


@ext("math.log")
def x_log(eng, args, kwargs):
    if len(args) == 2:
        b = args[1]
        if num_const(b) and b.args[0] == 2:
            b = const(2)
        return lift(lambda x: mk("log", x, b), args[0])
    return None


@ext("numpy.log", "numpy.log10")
def x_nplog(eng, args, kwargs):
    return None


@ext("math.sqrt", "numpy.sqrt")
def x_sqrt(eng, args, kwargs):
    return binop("pow", args[0], const(0.5))


@ext("numpy.base_repr")
def x_base_repr(eng, args, kwargs):
    n = args[0]
    b = args[1] if len(args) > 1 else kwargs.get("base", const(2))
    return lift(base_repr, n, b)


def base_repr(n, b):
    if n.op == b.op == "const" and isinstance(n.args[0], int) and isinstance(b.args[0], int) and n.args[0] >= 0 and 2 <= b.args[0] <= 36:
        i, out = n.args[0], ""
        while i:
            i, d = divmod(i, b.args[0])
            out = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[d] + out
        return const(out or "0")
    return mk("base_repr", n, b)


tm._builders["zfill"] = lambda x, y: lift(zfilled, x, y)


@ext("random.seed", "numpy.random.seed")
def x_seed(eng, args, kwargs):
    return None
