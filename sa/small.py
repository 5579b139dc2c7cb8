"""
Arrays of a few cells whose shape is known: nested lists of values, on which the operations of NumPy that are used for such
arrays are carried out cell by cell.  Only in effect for engines it is installed in (install(eng)).
"""
import ast

from .terms import *

CELLS = 64


def is_nd(eng, v):
    return v.op == "obj" and eng.objs[v.args[0]].get("nd", False)


def make(eng, x):
    """an array object for nested Python lists of terms; a term for a single term"""
    if not isinstance(x, list):
        return x
    o = eng.alloc("list")
    eng.objs[o.args[0]]["nd"] = True
    for y in x:
        eng.emit("append", o, None, make(eng, y))
    return o


def read(eng, v, nested=True):
    """nested Python lists of terms, a term when it is a number, or None when it isn't known"""
    if v.op == "obj":
        if eng.objs[v.args[0]]["kind"] not in ("list", "tuple", "iter"):
            return None
        xs = eng.straight_items(v)
    elif v.op in ("tuple", "seq", "range") or v.op == "const" and isinstance(v.args[0], tuple):
        xs = eng.finite(v) if v.op != "range" or not all(num_const(a) for a in v.args) else [const(i) for i in range(*[a.args[0] for a in v.args])]
    elif numeric(v) or v.op in ("const", "param", "uf", "ite", "item", "rd"):
        return v
    else:
        return None
    if xs is None or len(xs) > CELLS:
        return None
    out = [read(eng, x) for x in xs]
    return None if any(x is None for x in out) else out


def shape(x):
    if not isinstance(x, list):
        return ()
    if not x:
        return (0,)
    s = {shape(y) for y in x}
    return None if len(s) != 1 or None in s else (len(x),) + s.pop()


def flat(x):
    if not isinstance(x, list):
        return [x]
    return [z for y in x for z in flat(y)]


def unflat(xs, dims):
    if len(dims) == 1:
        return list(xs)
    step = len(xs) // dims[0] if dims[0] else 0
    return [unflat(xs[k * step:(k + 1) * step], dims[1:]) for k in range(dims[0])]


def dims_of(eng, v):
    x = read(eng, v)
    if x is None:
        return None
    xs = x if isinstance(x, list) else [x]
    if not all(not isinstance(d, list) and num_const(d) and isinstance(d.args[0], int) for d in xs):
        return None
    return [d.args[0] for d in xs]


def size(dims):
    n = 1
    for d in dims:
        n *= d
    return n


def zeros(value):
    def f(eng, args, kwargs):
        sh = args[0] if args else kwargs.get("shape")
        fill = value if value is not None else (args[1] if len(args) > 1 else kwargs.get("fill_value"))
        dims = dims_of(eng, sh) if sh is not None else None
        if dims is None or fill is None or min(dims or [1]) < 0 or size(dims) > CELLS:
            return NotImplemented
        return make(eng, unflat([fill] * size(dims), dims))
    return f


def zeros_like(value):
    def f(eng, args, kwargs):
        x = read(eng, args[0])
        if x is None or not isinstance(x, list) or shape(x) is None:
            return NotImplemented
        fill = value if value is not None else args[1]
        return make(eng, unflat([fill] * len(flat(x)), shape(x)))
    return f


def array(eng, args, kwargs):
    if not args or set(kwargs) - {"dtype", "copy"}:
        return NotImplemented
    if args[0].op != "obj" and args[0].op not in ("tuple", "range", "const", "seq"):
        return NotImplemented
    x = read(eng, args[0])
    if x is None or not isinstance(x, list) or shape(x) is None:
        return NotImplemented
    return make(eng, x)


def arange(eng, args, kwargs):
    if kwargs or not all(num_const(a) and isinstance(a.args[0], int) for a in args):
        return NotImplemented
    r = range(*[a.args[0] for a in args])
    return make(eng, [const(i) for i in r]) if len(r) <= CELLS else NotImplemented


def identity(eng, args, kwargs):
    if len(args) != 1 or not num_const(args[0]) or args[0].args[0] ** 2 > CELLS:
        return NotImplemented
    n = args[0].args[0]
    return make(eng, [[ONE if i == j else ZERO for j in range(n)] for i in range(n)])


def mulop(eng, a, b):
    return eng.binary(ast.Mult(), a, b)


def addop(eng, a, b):
    return eng.binary(ast.Add(), a, b)


def outer(eng, args, kwargs):
    a, b = read(eng, args[0]), read(eng, args[1])
    if a is None or b is None:
        return NotImplemented
    a, b = flat(a), flat(b)
    if len(a) * len(b) > CELLS:
        return NotImplemented
    return make(eng, [[mulop(eng, x, y) for y in b] for x in a])


def product(eng, a, b):
    sa, sb = shape(a), shape(b)
    if not sa or not sb or sa[-1] != sb[0] or len(sa) > 2 or len(sb) > 2:
        return None

    def dotp(x, y):
        r = ZERO
        for u, v in zip(x, y):
            r = addop(eng, r, mulop(eng, u, v))
        return r
    cols = [[row[j] for row in b] for j in range(sb[1])] if len(sb) == 2 else None
    one = lambda row: [dotp(row, c) for c in cols] if cols is not None else dotp(row, b)
    return [one(row) for row in a] if len(sa) == 2 else one(a)


def dot(eng, args, kwargs):
    a, b = read(eng, args[0]), read(eng, args[1])
    if not isinstance(a, list) or not isinstance(b, list):
        return NotImplemented
    r = product(eng, a, b)
    return NotImplemented if r is None else make(eng, r)


def fill_diagonal(eng, args, kwargs):
    x = read(eng, args[0])
    if not is_nd(eng, args[0]) or x is None or len(shape(x) or ()) != 2:
        return NotImplemented
    rows = eng.straight_items(args[0])
    for i, r in enumerate(rows):
        if i < shape(x)[1]:
            eng.emit("store", r, const(i), args[1])
    return NONE


def concatenate(eng, args, kwargs):
    xs = read(eng, args[0])
    ax = kwargs.get("axis", args[1] if len(args) > 1 else ZERO)
    if not isinstance(xs, list):
        return NotImplemented
    if ax is NONE:
        return make(eng, flat(xs))
    if ax is ZERO and all(isinstance(x, list) for x in xs):
        return make(eng, [y for x in xs for y in x])
    return NotImplemented


def transpose(x):
    return [[row[j] for row in x] for j in range(len(x[0]))]


def total(eng, x):
    r = ZERO
    for y in flat(x):
        r = addop(eng, r, y)
    return r


def npsum(eng, args, kwargs):
    x = read(eng, args[0])
    ax = kwargs.get("axis", args[1] if len(args) > 1 else NONE)
    if not isinstance(x, list) or shape(x) is None:
        return NotImplemented
    if ax is NONE:
        return total(eng, x)
    if ax is ZERO and len(shape(x)) == 2:
        return make(eng, [total(eng, c) for c in transpose(x)])
    if ax is ONE and len(shape(x)) == 2:
        return make(eng, [total(eng, r) for r in x])
    return NotImplemented


def index(eng, x, k):
    """x[k] for nested lists, or NotImplemented"""
    ks = list(k.args[0]) if k.op == "tuple" else [k]
    return pick(x, ks)


def bound(t, n, default):
    if t is NONE:
        return default
    if not num_const(t):
        raise LookupError
    return t.args[0]


def pick(x, ks):
    if not ks:
        return x
    if not isinstance(x, list):
        raise LookupError
    k = ks[0]
    if k.op == "slice":
        s = slice(*[bound(b, len(x), None) for b in k.args])
        return [pick(y, ks[1:]) for y in x[s]]
    if not num_const(k) or not isinstance(k.args[0], int) or not -len(x) <= k.args[0] < len(x):
        raise LookupError
    return pick(x[k.args[0]], ks[1:])


def getitem(eng, o, k):
    """NotImplemented when the index isn't one that is treated here (a plain number is left to the list)"""
    if k.op == "tuple" and all(num_const(z) and isinstance(z.args[0], int) for z in k.args[0]) or k.op == "tuple" and not any(
            z.op == "slice" for z in k.args[0]):
        v = o
        for z in k.args[0]:
            v = eng.getitem(v, z)
        return v
    x = read(eng, o)
    if x is None:
        return eng.unk("array")
    try:
        return make(eng, index(eng, x, k)) if k.op in ("tuple", "slice") else NotImplemented
    except LookupError:
        return eng.unk("array index")


def setitem(eng, o, k, v):
    """stores to a cell; True when done"""
    if k.op == "tuple" and not any(z.op in ("slice", "obj") for z in k.args[0]):
        for z in k.args[0][:-1]:
            o = eng.getitem(o, z)
        eng.split(o, lambda x: eng.setitem(x, k.args[0][-1], v))
        return True
    if k.op in ("tuple", "slice", "obj") or is_nd(eng, v):
        if not scatter(eng, o, k, v):
            eng.unk("array slice store")
            eng.emit("mutate", o, None, v)
        return True
    return False


def cells(eng, o):
    """nested lists of (row, index) for the cells of an array"""
    xs = eng.straight_items(o)
    return [cells(eng, x) if is_nd(eng, x) else (o, const(i)) for i, x in enumerate(xs)]


def scatter(eng, o, k, v):
    """stores to the cells that a slice, a mask or a pair of index arrays picks"""
    x, y = read(eng, o), read(eng, v)
    if x is None or y is None or shape(x) is None:
        return False
    where = cells(eng, o)
    ks = list(k.args[0]) if k.op == "tuple" else [k]
    if len(ks) == 1 and is_nd(eng, k):
        m = read(eng, k)
        if not defined(m) or shape(m) != shape(x) or shape(y) != () or not all(is_bool(b) for b in flat(m)):
            return False
        for (r, i), b, old in zip(flat(where), flat(m), flat(x)):
            eng.emit("store", r, i, ite(b, y, old))
        return True
    if any(z.op == "obj" for z in ks):
        if len(ks) != len(shape(x)) or not all(is_nd(eng, z) for z in ks):
            return False
        ids = [read(eng, z) for z in ks]
        if any(i is None or len(shape(i) or ()) != 1 for i in ids) or len({len(i) for i in ids}) != 1:
            return False
        try:
            places = [pick(where, [i[n] for i in ids]) for n in range(len(ids[0]))]
        except LookupError:
            return False
    else:
        try:
            places = pick(where, ks)
        except LookupError:
            return False
    if isinstance(places, tuple):
        places = [places]
    dims = shape(places)
    if dims is None:
        return False
    n = len(flat(places))
    vals = [y] * n if shape(y) == () else flat(y) if shape(y) == dims else flat(y) * (n // len(y)) if len(shape(y) or ()) == 1 and dims[-1:] == shape(y) else None
    if vals is None:
        return False
    for (r, i), z in zip(flat(places), vals):
        eng.emit("store", r, i, z)
    return True


def elementwise(eng, op, a, b):
    return spread(lambda x, y: eng.binary(op, x, y), a, b)


def spread(f, a, b):
    """f of the pairs of cells, smaller shapes being repeated"""
    sa, sb = shape(a), shape(b)
    if sa is None or sb is None:
        return None
    if sa == () and sb == ():
        return f(a, b)
    if sa == sb:
        return [spread(f, x, y) for x, y in zip(a, b)]
    if len(sa) > len(sb):
        return [spread(f, x, b) for x in a]
    if len(sb) > len(sa):
        return [spread(f, a, y) for y in b]
    return [spread(f, x, y) for x, y in zip(a * (len(b) // len(a)), b * (len(a) // len(b)))] if len(sa) == len(sb) and 1 in (sa[0], sb[0]) else None


def each(eng, f, a, b):
    x, y = read(eng, a), read(eng, b)
    r = spread(f, x, y) if x is not None and y is not None else None
    return make(eng, r) if defined(r) else eng.unk("array operation")


def where(eng, args, kwargs):
    if len(args) != 3:
        return NotImplemented
    c, x, y = (read(eng, a) for a in args)
    if c is None or x is None or y is None:
        return NotImplemented
    pairs = spread(lambda u, v: mk("tuple", (u, v)), x, y)
    if not defined(pairs):
        return NotImplemented
    r = spread(lambda u, p: ite(eng.boolean(u), *p.args[0]), c, pairs)
    return make(eng, r) if defined(r) else NotImplemented


def extreme(op):
    def f(eng, args, kwargs):
        if len(args) != 2 or kwargs:
            return NotImplemented
        x, y = read(eng, args[0]), read(eng, args[1])
        r = spread(lambda u, v: ite(compare(op, u, v), u, v), x, y) if x is not None and y is not None else None
        return make(eng, r) if defined(r) else NotImplemented
    return f


def clip(eng, args, kwargs):
    if len(args) != 3 or kwargs:
        return NotImplemented
    r = args[0]
    for op, b in (("gt", args[1]), ("lt", args[2])):
        if b is not NONE:
            r = extreme(op)(eng, [r, b], {})
            if r is NotImplemented:
                return r
    return r


def sign(eng, args, kwargs):
    x = read(eng, args[0])
    if x is None:
        return NotImplemented
    r = spread(lambda u, v: ite(compare("lt", u, ZERO), const(-1), ite(compare("lt", ZERO, u), ONE, ZERO)), x, ZERO)
    return make(eng, r) if defined(r) else NotImplemented


def absolute(eng, args, kwargs):
    x = read(eng, args[0])
    if x is None:
        return NotImplemented
    r = spread(lambda u, v: ite(compare("lt", u, ZERO), eng.binary(ast.Sub(), ZERO, u), u), x, ZERO)
    return make(eng, r) if defined(r) else NotImplemented


def diag_indices(eng, args, kwargs):
    if len(args) != 1 or not num_const(args[0]):
        return NotImplemented
    xs = [const(i) for i in range(args[0].args[0])]
    return mk("tuple", (make(eng, xs), make(eng, xs)))


def defined(x):
    return x is not None and (not isinstance(x, list) or all(defined(y) for y in x))


def binary(eng, op, a, b):
    x, y = read(eng, a), read(eng, b)
    if x is None or y is None:
        return eng.unk("array operation")
    r = product(eng, x, y) if isinstance(op, ast.MatMult) else elementwise(eng, op, x, y)
    return make(eng, r) if defined(r) else eng.unk("array operation")


def inplace(eng, o, op, v):
    """o op= v for an array: every cell is stored to"""
    x, y = read(eng, o), read(eng, v)
    r = elementwise(eng, op, x, y) if x is not None and y is not None else None
    if not defined(r) or shape(r) != shape(x):
        eng.unk("array operation")
        eng.emit("mutate", o, None, v)
        return

    def put(o, r):
        for i, (c, z) in enumerate(zip(eng.straight_items(o), r)):
            if isinstance(z, list):
                put(c, z)
            else:
                eng.emit("store", o, const(i), z)
    put(o, r)


def attribute(eng, o, name):
    x = read(eng, o)
    if x is None or shape(x) is None:
        return None
    if name == "T":
        return make(eng, transpose(x)) if len(shape(x)) == 2 else o
    if name == "shape":
        return mk("tuple", tuple(const(n) for n in shape(x)))
    if name == "size":
        return const(len(flat(x)))
    if name == "flat":
        return make(eng, flat(x))
    return None


def method(eng, o, name, args, kwargs):
    x = read(eng, o)
    if x is None or shape(x) is None:
        return None
    if name == "tolist":
        def go(y):
            if not isinstance(y, list):
                return y
            l = eng.alloc("list")
            for z in y:
                eng.emit("append", l, None, go(z))
            return l
        return go(x)
    if name in ("copy", "astype"):
        return make(eng, x)
    if name in ("flatten", "ravel"):
        return make(eng, flat(x))
    if name == "reshape":
        d = dims_of(eng, args[0] if len(args) == 1 else mk("tuple", tuple(args)))
        if d is None:
            return None
        n = len(flat(x))
        if d.count(-1) == 1:
            d[d.index(-1)] = n // max(1, -size(d))
        return make(eng, unflat(flat(x), d)) if size(d) == n else None
    if name == "sum":
        r = npsum(eng, [o] + list(args), kwargs)
        return None if r is NotImplemented else r
    if name == "dot":
        r = dot(eng, [o] + list(args), kwargs)
        return None if r is NotImplemented else r
    if name == "clip":
        r = clip(eng, [o] + list(args), kwargs)
        return None if r is NotImplemented else r
    if name == "transpose" and len(shape(x)) == 2:
        return make(eng, transpose(x))
    return None


def positions(eng, args, kwargs):
    if len(args) != 1 or kwargs:
        return None
    x = read(eng, args[0])
    if x is None or not isinstance(x, list) or shape(x) is None or len(shape(x)) != 1:
        return None
    o = eng.alloc("list")
    eng.objs[o.args[0]]["array"] = True
    for i, y in enumerate(x):
        g = eng.boolean(y)
        if g is not FALSE:
            eng.branch(g, lambda: eng.emit("append", o, None, const(i)), lambda: None)
    return o


def nonzero(eng, args, kwargs):
    o = positions(eng, args, kwargs)
    return NotImplemented if o is None else mk("tuple", (o,))


def flatnonzero(eng, args, kwargs):
    o = positions(eng, args, kwargs)
    return NotImplemented if o is None else o


def frozen(eng, args, kwargs):
    from . import models
    return models.b_frozenset(eng, args, kwargs)


FUNCTIONS = {
    "numpy.zeros": zeros(ZERO), "numpy.ones": zeros(ONE), "numpy.full": zeros(None), "numpy.zeros_like": zeros_like(ZERO),
    "numpy.ones_like": zeros_like(ONE), "numpy.array": array, "numpy.asarray": array, "numpy.arange": arange, "numpy.eye": identity,
    "numpy.identity": identity, "numpy.outer": outer, "numpy.dot": dot, "numpy.matmul": dot, "numpy.fill_diagonal": fill_diagonal,
    "numpy.where": where, "numpy.maximum": extreme("gt"), "numpy.minimum": extreme("lt"), "numpy.clip": clip, "numpy.sign": sign,
    "numpy.abs": absolute, "numpy.absolute": absolute, "numpy.diag_indices": diag_indices,
    "numpy.nonzero": nonzero, "numpy.flatnonzero": flatnonzero, "frozenset": frozen,
    "numpy.concatenate": concatenate, "numpy.sum": npsum, "numpy.copy": array,
}


def install(eng):
    from . import models
    eng.small = True
    for name, f in FUNCTIONS.items():
        def h(eng, args, kwargs, f=f, name=name):
            r = f(eng, args, kwargs)
            if r is not NotImplemented:
                return r
            g = models.EXT.get(name)
            return g(eng, args, kwargs) if g else None
        eng.ext_override[name] = h
