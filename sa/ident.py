"""
Identity testing of value graphs.

When a normal form computed from the source differs from the normal form the specification requires, the difference may
still be one of notation (two equal functions with different normal forms).  Before a difference is reported, both
normal forms are interpreted under assignments of values to their free variables ("random interpretation", Gulwani and
Necula); only if some assignment separates them are they said to differ.  What is interpreted are terms; the program is
never run.  A term that contains anything the analysis did not resolve has no interpretation and decides nothing.
"""
import itertools
import math
import random
from .terms import *
from .netval import NetVal
from . import replay
from . import nd


class Und(Exception):
    """the term has no interpretation (something in it is not known)"""


class Fault(Exception):
    """the interpretation fails (an entry that isn't there, ...) under this assignment"""


class Unread(object):
    """a value of which nothing is known but that it is there"""

    def _und(self, *a):
        raise Und("unread")

    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __getitem__ = __iter__ = __len__ = __bool__ = __add__ = __sub__ = __mul__ = _und
    __hash__ = __contains__ = __radd__ = __rsub__ = __rmul__ = __call__ = _und


class NP(object):
    """stands for a NumPy scalar"""

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, NP) and o.v == self.v

    def __hash__(self):
        return hash(("NP", self.v))

    def __repr__(self):
        return "np(%r)" % (self.v,)


class Array(list):
    """stands for a NumPy array"""
    __hash__ = None


class USet(dict):
    """a set (with an order, which comparisons ignore)"""


class Stub(object):
    """an abstract object: attributes given by a dict"""

    def __init__(self, name, **kw):
        self.__dict__["_name"] = name
        self.__dict__.update(kw)

    def __repr__(self):
        return "<%s>" % self._name


class Opaque(object):
    def __init__(self, *k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, Opaque) and o.k == self.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return "%s%r" % (self.k[0], self.k[1:])


def freeze(v):
    if isinstance(v, dict):
        return ("dict", frozenset((freeze(a), freeze(b)) for a, b in v.items()))
    if isinstance(v, (list,)):
        return ("list",) + tuple(freeze(x) for x in v)
    if isinstance(v, tuple):
        return ("tuple",) + tuple(freeze(x) for x in v)
    if isinstance(v, (set, frozenset)):
        return ("set", frozenset(freeze(x) for x in v))
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, float):
        return round(v, 9)
    if isinstance(v, NetVal):
        return ("network",) + v.key()
    if isinstance(v, NP):
        return ("np", freeze(v.v))
    if isinstance(v, Opaque):
        return ("opaque",) + tuple(freeze(x) for x in v.k)
    if isinstance(v, range):
        return ("list",) + tuple(v)
    return v


class Bag(object):
    """values whose order doesn't matter"""

    def __init__(self, xs):
        self.xs = xs
        self.key = sorted(repr(freeze(x)) for x in xs)

    def __eq__(self, o):
        return isinstance(o, Bag) and self.key == o.key

    def __hash__(self):
        return hash(tuple(self.key))

    def __repr__(self):
        return repr(self.xs)

    def diff(self, o):
        mine, his = list(self.key), list(o.key)
        for k in list(mine):
            if k in his:
                his.remove(k)
                mine.remove(k)
        return mine, his


def same(a, b):
    if isinstance(a, Unread) or isinstance(b, Unread):
        raise Und("unread")
    if isinstance(a, (set, frozenset)):
        a = USet.fromkeys(a)
    if isinstance(b, (set, frozenset)):
        b = USet.fromkeys(b)
    if isinstance(a, USet) != isinstance(b, USet):
        return False
    if isinstance(a, bool) and isinstance(b, int) or isinstance(b, bool) and isinstance(a, int):
        return int(a) == int(b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a == b:
            return True
        try:
            return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
        except Exception:
            return False
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        for k in a:
            if k not in b or not same(a[k], b[k]):
                return False
        return True
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    try:
        return bool(a == b)
    except Exception:
        return a is b


NDMETHODS = {".reshape", ".flatten", ".ravel"}
PURE = {
    "len": len, "abs": abs, "min": min, "max": max, "int": int, "float": float, "str": str, "round": round, "bin": bin,
    "math.log2": math.log2, "math.log": math.log, "math.sqrt": math.sqrt, "math.floor": math.floor,
    "math.ceil": math.ceil, "ord": ord, "chr": chr, "numpy.abs": abs, "math.sin": math.sin, "math.cos": math.cos,
    "math.radians": math.radians, "numpy.floor": math.floor, "numpy.log2": math.log2, "math.fsum": math.fsum,
    "numpy.sin": math.sin, "numpy.cos": math.cos, "numpy.deg2rad": math.radians, "numpy.radians": math.radians,
    "math.pi": math.pi, "math.exp": math.exp, "math.tanh": math.tanh, "numpy.tanh": math.tanh, "repr": repr,
    "bool": bool, "divmod": divmod,
}


def _base_repr(n, b):
    digits = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"
    if b < 2 or b > 36:
        raise Fault("base")
    s, m = "", abs(n)
    while m:
        s = digits[m % b] + s
        m //= b
    s = s or "0"
    return "-" + s if n < 0 else s


CLASSES = {"dict": dict, "list": list, "str": str, "tuple": tuple, "int": int, "float": float, "set": (set, frozenset),
           "bool": bool, "frozenset": frozenset, "numpy.generic": NP, "numpy.ndarray": Array,
           "collections.abc.Sequence": (list, tuple, str), "collections.abc.Mapping": dict, "range": range,
           "numbers.Number": (int, float), "numpy.integer": NP, "numpy.floating": NP,
           "collections.abc.Iterable": (list, tuple, str, dict, set), "collections.abc.MutableMapping": dict}


_free = {}
SMALL = {"const", "bv", "ext", "class", "enum", "param", "aff", "attr"}


def free_bv(t):
    """the numbers of the bound variables that a term leaves free"""
    r = _free.get(t)
    if r is not None:
        return r
    stack = [(t, False)]
    while stack:
        x, done = stack.pop()
        if x in _free:
            continue
        if not done:
            stack.append((x, True))
            stack.extend((c, False) for c in children(x) if c not in _free)
            continue
        if x.op == "bv":
            out = frozenset((x.args[0],))
        else:
            out = frozenset().union(*[_free[c] for c in children(x)]) if children(x) else frozenset()
            own = set()
            for a in x.args:
                if isinstance(a, tuple):
                    for d in a:
                        if isinstance(d, T) and d.op == "bd":
                            own.add(d.args[1].args[0])
            if x.op in ("brkdom", "while"):
                own.add(-1)
            out = out - own
        _free[x] = out
    return _free[t]


class Interp(object):
    def __init__(self, leaves=None, hook=None, steps=60000):
        self.leaves = dict(leaves or {})
        self.hook = hook
        self.bv = {}
        self.steps = steps
        self.memo = {}

    def ev(self, t):
        self.steps -= 1
        if self.steps < 0:
            raise Und("too large")
        if t in self.leaves:
            v = self.leaves[t]
            if isinstance(v, Exception):
                raise v
            return v
        if self.hook is not None:
            r = self.hook(self, t)
            if r is not NotImplemented:
                return r
        m = getattr(self, "o_" + t.op, None)
        if m is None:
            raise Und(t.op)
        key = None
        if t.op not in SMALL:
            fv = free_bv(t)
            if all(isinstance(self.bv.get(b), int) for b in fv):
                key = (t,) + tuple((b, self.bv[b]) for b in sorted(fv))
                if key in self.memo:
                    return self.memo[key]
        try:
            r = m(t, *t.args)
            if key is not None:
                self.memo[key] = r
            return r
        except (Und, Fault):
            raise
        except RecursionError:
            raise Und("depth")
        except Exception as e:
            raise Fault("%s in %s: %s" % (type(e).__name__, t.op, e))

    # leaves
    def o_const(self, t, v):
        return v

    def o_enum(self, t, c, n):
        return Opaque("enum", c, n)

    def o_class(self, t, c):
        return Opaque("class", c)

    def o_ext(self, t, n):
        if n == "math.pi" or n == "numpy.pi":
            return math.pi
        return Opaque("ext", n)

    def o_bv(self, t, n):
        if n in self.bv:
            return self.bv[n]
        raise Und("free bound variable")

    def o_exc(self, t, c, *a):
        return Opaque("exc", c.args[0] if c.args else "?")

    # conditions
    def o_ite(self, t, a, hi, lo):
        while True:
            try:
                c = self.ev(a)
            except Fault:
                # the test may make no sense where another test, further down, decides that it doesn't matter
                x = self.ev(hi)
                if not same(x, self.ev(lo)):
                    raise
                return x
            t = hi if c else lo
            if t.op != "ite" or t in self.leaves:
                return self.ev(t)
            a, hi, lo = t.args

    def o_le(self, t, lf, b):
        return self.num(self.ev(lf)) <= b

    def num(self, v):
        if isinstance(v, (int, float)):
            return v
        raise Fault("not a number")

    def o_eq(self, t, a, b):
        return same(self.ev(a), self.ev(b))

    def o_isnone(self, t, a):
        return self.ev(a) is None

    def o_truthy(self, t, a):
        v = self.ev(a)
        if isinstance(v, (Stub, Opaque)):
            if isinstance(v, Stub) and "__len__" in v.__dict__:
                return v.__dict__["__len__"] > 0
            return True
        if isinstance(v, Array):
            raise Und("truth of an array")
        return bool(v)

    def o_nonempty(self, t, d):
        return len(self.domain(d)) > 0

    def o_in(self, t, k, c):
        c = self.ev(c)
        k = self.ev(k)
        if isinstance(c, (dict, set, frozenset)):
            try:
                return k in c
            except TypeError:
                raise Fault("unhashable")
        return any(same(k, x) for x in c)

    def o_inv(self, t, k, c, v):
        k = self.ev(k)
        return any(same(k, x) for x in self.ev(c))

    def o_isinstance(self, t, x, names):
        v = self.ev(x)
        for n in names:
            c = CLASSES.get(n)
            if c is None:
                if n.startswith("class:"):
                    if isinstance(v, Stub) and v.__dict__.get("_cls") is not None:
                        if v.__dict__["_cls"] == n[6:]:
                            return True
                        continue
                    continue
                raise Und("isinstance " + n)
            if isinstance(v, Array) and n in ("list", "collections.abc.Sequence", "collections.abc.Iterable"):
                continue
            if isinstance(v, c):
                return True
        return False

    def o_callable(self, t, x):
        v = self.ev(x)
        return isinstance(v, Stub) and bool(v.__dict__.get("_callable"))

    def o_hasattr(self, t, x, n):
        v = self.ev(x)
        if isinstance(v, Stub):
            return self.ev(n) in v.__dict__
        raise Und("hasattr")

    # arithmetic
    def o_aff(self, t, c, ks, vs):
        r = c
        for k, v in zip(ks, vs):
            r = r + v * self.num(self.ev(k))
        return r

    def o_mul(self, t, fs):
        r = 1
        for f in fs:
            r = r * self.num(self.ev(f))
        return r

    def o_div(self, t, a, b):
        return self.num(self.ev(a)) / self.num(self.ev(b))

    def o_mod(self, t, a, b):
        return self.ev(a) % self.ev(b)

    def o_floordiv(self, t, a, b):
        return self.num(self.ev(a)) // self.num(self.ev(b))

    def o_pow(self, t, a, b):
        a, b = self.ev(a), self.ev(b)
        if abs(b) > 4096:
            raise Und("pow")
        return a ** b

    def o_band(self, t, a, b):
        return self.ev(a) & self.ev(b)

    def o_bor(self, t, a, b):
        return self.ev(a) | self.ev(b)

    def o_bxor(self, t, a, b):
        return self.ev(a) ^ self.ev(b)

    def o_shr(self, t, a, b):
        return self.ev(a) >> self.ev(b)

    def o_shl(self, t, a, b):
        b = self.ev(b)
        if b > 4096:
            raise Und("shl")
        return self.ev(a) << b

    def o_invert(self, t, a):
        return ~self.ev(a)

    def o_abs(self, t, a):
        return abs(self.num(self.ev(a)))

    def o_log(self, t, a, b):
        b = self.ev(b)
        if b == 2:
            return math.log2(self.ev(a))
        return math.log(self.ev(a), b)

    def o_min(self, t, xs):
        return min(self.ev(x) for x in xs)

    def o_max(self, t, xs):
        return max(self.ev(x) for x in xs)

    def o_minof(self, t, x):
        return min(self.ev(x))

    def o_maxof(self, t, x):
        return max(self.ev(x))

    def o_intbase(self, t, a, b):
        return int(self.ev(a), self.ev(b))

    def o_base_repr(self, t, a, b):
        return _base_repr(self.ev(a), self.ev(b))

    # strings
    def o_concatstr(self, t, *parts):
        ps = []
        for p in parts:
            if isinstance(p, tuple):
                ps.extend(p)
            else:
                ps.append(p)
        out = ""
        for p in ps:
            v = self.ev(p)
            if not isinstance(v, str):
                raise Fault("not a string")
            out += v
        return out

    def o_str(self, t, a):
        v = self.ev(a)
        if isinstance(v, (Stub, Opaque, set, frozenset, dict)):
            raise Und("str")
        return str(v)

    def o_fmt(self, t, *a):
        return Opaque("fmt", tuple(freeze(self.ev(x)) for x in (a[0] if len(a) == 1 and isinstance(a[0], tuple) else a)))

    def o_joined(self, t, s, xs):
        return self.ev(s).join(self.ev(xs))

    def o_strmeth(self, t, name, s, *args):
        v = self.ev(s)
        if not isinstance(v, str):
            raise Und("str")
        return getattr(v, name.args[0])(*[self.ev(a) for a in args])

    def o_zfill(self, t, s, n):
        return self.ev(s).zfill(self.ev(n))

    # containers
    def o_attr(self, t, o, n):
        v = self.ev(o)
        if isinstance(v, Stub):
            if n in v.__dict__:
                r = v.__dict__[n]
                if isinstance(r, Exception):
                    raise r
                return r
            raise Und("attribute " + n)
        raise Und("attribute " + n)

    def o_item(self, t, o, k):
        v, k = self.ev(o), self.ev(k)
        if isinstance(v, (Stub, Opaque)) or v is None:
            raise Und("item")
        if isinstance(v, (set, frozenset)):
            raise Fault("item of a set")
        if isinstance(v, Array) and isinstance(k, tuple):
            return nd.get(v, k, Array, Fault)
        return v[k]

    def o_slice(self, t, a, b, c):
        return slice(self.ev(a), self.ev(b), self.ev(c))

    def o_nth(self, t, o, k):
        v, k = self.ev(o), self.ev(k)
        if isinstance(v, (Stub, Opaque)) or v is None:
            raise Und("nth")
        if isinstance(v, (dict, set, frozenset)):
            v = list(v)
        return v[k]

    def o_tuple(self, t, xs):
        return tuple(self.ev(x) for x in xs)

    def o_tupleof(self, t, x):
        return tuple(self.ev(x))

    def o_seqof(self, t, x):
        return list(self.coll(self.ev(x)))

    def o_missing(self, t, x, k):
        raise Fault("KeyError in item")

    def o_unread(self, t):
        return Unread()

    def o_den(self, t, x, n=None):
        if x.op == "obj" or n is not None:
            raise Und("den")
        return self.ev(x)

    def coll(self, v):
        if isinstance(v, (Stub, Opaque)) or v is None or isinstance(v, (int, float)):
            raise Fault("not a collection")
        return v

    def o_setof(self, t, x):
        return USet.fromkeys(self.coll(self.ev(x)))

    def o_dedup(self, t, x):
        return USet.fromkeys(self.coll(self.ev(x)))

    def o_setop(self, t, how, a, b):
        a, b = self.coll(self.ev(a)), self.coll(self.ev(b))
        return USet.fromkeys(x for x in a if (x in b) == (how == "BitAnd"))

    def o_setlit(self, t, xs):
        return USet.fromkeys(self.ev(x) for x in xs)

    def o_len(self, t, x):
        v = self.ev(x)
        if isinstance(v, Stub):
            if "__len__" in v.__dict__:
                return v.__dict__["__len__"]
            raise Und("len")
        return len(v)

    def o_sized(self, t, n):
        return range(self.ev(n))

    def o_range(self, t, a, b, c):
        return range(self.ev(a), self.ev(b), self.ev(c))

    def o_keys(self, t, x):
        return list(self.ev(x).keys())

    def o_values(self, t, x):
        return list(self.ev(x).values())

    def o_items(self, t, x):
        return list(self.ev(x).items())

    def o_reversed(self, t, x):
        return list(self.coll(self.ev(x)))[::-1]

    def o_enumerate(self, t, x, s):
        return list(enumerate(self.coll(self.ev(x)), self.ev(s)))

    def o_zip(self, t, xs):
        return list(zip(*[self.coll(self.ev(x)) for x in xs]))

    def o_sliced(self, t, x, a, b, c):
        v = self.ev(x)
        if isinstance(v, dict):
            raise Fault("slice")
        r = v[slice(self.ev(a), self.ev(b), self.ev(c))]
        return list(r) if isinstance(r, range) else r

    def o_without(self, t, x, y):
        """a list after the removal of the first y"""
        v = list(self.ev(x))
        v.remove(self.ev(y))
        return v

    def o_repeat(self, t, x, n):
        return list(self.ev(x)) * self.ev(n)

    def o_sorted(self, t, x, key, rev):
        xs = list(self.coll(self.ev(x)))
        r = bool(self.ev(rev))
        if key is NONE:
            return sorted(xs, reverse=r)
        body = key.args[0]

        def f(v):
            old = self.bv.get(900)
            self.bv[900] = v
            try:
                return self.ev(body)
            finally:
                if old is None:
                    self.bv.pop(900, None)
                else:
                    self.bv[900] = old
        return sorted(xs, key=f, reverse=r)

    def o_counter(self, t, x):
        r = {}
        for v in self.coll(self.ev(x)):
            r[v] = r.get(v, 0) + 1
        return r

    def o_count(self, t, x, v):
        v = self.ev(v)
        return sum(1 for y in self.coll(self.ev(x)) if same(y, v))

    def o_indexof(self, t, x, v):
        v = self.ev(v)
        for i, y in enumerate(self.coll(self.ev(x))):
            if same(y, v):
                return i
        raise Fault("index")

    def o_plain(self, t, x):
        v = self.ev(x)
        return v.v if isinstance(v, NP) else v

    def o_deepcopy(self, t, x, *a):
        return self.ev(x)

    def o_npfree(self, t, x):
        def free(v, seen=()):
            if isinstance(v, NP):
                return False
            if isinstance(v, dict):
                return all(free(a) and free(b) for a, b in v.items())
            if isinstance(v, (list, tuple)):
                return all(free(a) for a in v)
            if isinstance(v, Bag):
                return all(free(a) for a in v.xs)
            return True
        return free(self.ev(x))

    def o_packed(self, t, x):
        return Opaque("packed", freeze(self.ev(x)))

    def o_call(self, t, name, args):
        f = PURE.get(name)
        if name.startswith("numpy.") or name.startswith("ndarray.") or name in NDMETHODS:
            r = self.numpy(name, args)
            if r is not None:
                return r
        if any(not isinstance(a, T) or a.op in ("kw", "star") for a in args):
            raise Und("call " + name)
        if name == "numpy.mean":
            xs = list(self.ev(args[0]))
            return sum(xs) / len(xs)
        if f is None:
            raise Und("call " + name)
        r = f(*[self.ev(a) for a in args])
        return r

    def numpy(self, name, args):
        kw = {a.args[0]: a.args[1] for a in args if isinstance(a, T) and a.op == "kw"}
        args = [a for a in args if isinstance(a, T) and a.op not in ("kw", "star")]
        kw.pop("dtype", None)
        if name in ("numpy.array", "numpy.asarray"):
            return nd.array(self.ev(args[0]), Array)
        if name == "ndarray.tolist":
            return nd.tolist(self.ev(args[0]))
        if name == "numpy.arange" and not kw:
            return Array(range(*[self.ev(a) for a in args]))
        if name in ("numpy.zeros", "numpy.ones"):
            return nd.zeros(self.ev(args[0] if args else kw["shape"]), Array, 0 if name == "numpy.zeros" else 1)
        if name in (".reshape", "numpy.reshape") and not kw:
            d = [self.ev(a) for a in args[1:]]
            return nd.reshape(nd.flat(self.ev(args[0])), d[0] if len(d) == 1 and isinstance(d[0], (tuple, list)) else d, Array, Fault)
        if name in (".flatten", ".ravel", "numpy.ravel") and not kw:
            return Array(nd.flat(self.ev(args[0])))
        if name == "numpy.concatenate":
            xs = self.ev(args[0])
            if "axis" in kw and self.ev(kw["axis"]) is None:
                return Array(y for x in xs for y in nd.flat(x))
            if not kw:
                return Array(y for x in xs for y in x)
        return None

    # networks
    def o_newnet(self, t, n):
        return NetVal(self.ev(n))

    def o_netcopy(self, t, x):
        return self.net(x).copy()

    def net(self, x):
        v = self.ev(x)
        if not isinstance(v, NetVal):
            raise Und("not a network")
        return v

    def o_net(self, t, base, script):
        n = self.net(base).copy()
        self.play(n, script)
        return n

    def play(self, n, script):
        for p in script.args[0]:
            doms, g, op = p.args
            for _ in self.binder(doms, ()):
                if self.ev(g):
                    if op.op == "script":
                        self.play(n, op)
                        continue
                    name, args, attrs = op.args
                    a = [self.ev(x) for x in args]
                    kw = self.ev(attrs) if attrs is not NONE else {}
                    if name == "rotation_system":
                        n.rot = a[0]
                        continue
                    getattr(n, name)(*a, **{str(k): v for k, v in kw.items()})

    def o_replay(self, t, base, script):
        v = self.ev(base)
        box = dict(v) if isinstance(v, dict) else list(self.coll(v))
        replay.play(self, box, script)
        return box

    def o_q(self, t, name, s, args):
        n = self.net(s)
        f = getattr(n, name, None)
        if f is None:
            raise Und("network " + name)
        a = [self.ev(x) for x in args]
        return f(*a)

    def o_uf(self, t, name, args):
        f = self.leaves.get(("uf", name))
        a = [self.ev(x) for x in args]
        if f is None:
            return Opaque(name, *[freeze(x) for x in a])
        return f(*a)

    def o_bag(self, t, xs):
        return Bag([v for x in xs for v in self.ev(x)])

    # binders
    def domain(self, d):
        """the values of the index"""
        while d.op == "ite":
            d = d.args[1] if self.ev(d.args[0]) else d.args[2]
        if d.op == "dom":
            return range(len(self.coll2(self.ev(d.args[0]))))
        if d.op == "range":
            n = self.ev(d.args[1])
            if d.args[0] is ZERO and d.args[2] is ONE:
                return range(int(n)) if isinstance(n, int) else self.fault("range")
            return range(len(range(self.ev(d.args[0]), n, self.ev(d.args[2]))))
        if d.op == "zipdom":
            return range(min(len(self.domain(x)) for x in d.args[0]))
        if d.op == "prefix":
            n = self.ev(d.args[1])
            return [i for i in self.domain(d.args[0]) if i < n]
        if d.op == "brkdom":
            inner = self.domain(d.args[0])
            old = self.bv.get(-1)
            out = []
            try:
                for i in inner:
                    self.bv[-1] = i
                    out.append(i)
                    if self.ev(d.args[1]):
                        break
            finally:
                if old is None:
                    self.bv.pop(-1, None)
                else:
                    self.bv[-1] = old
            return out
        raise Und("domain " + d.op)

    def fault(self, m):
        raise Fault(m)

    def coll2(self, v):
        if isinstance(v, (Stub, Opaque, NetVal)) or v is None or isinstance(v, (int, float)):
            raise Fault("not iterable")
        return v

    def possible(self, g, own):
        """can the guard still hold, given the variables that are bound?"""
        if g is FALSE or g is ZERO:
            return False
        if g.op != "ite":
            return True
        if free_bv(g.args[0]) & own:
            return self.possible(g.args[1], own) or self.possible(g.args[2], own)
        return self.possible(g.args[1] if self.ev(g.args[0]) else g.args[2], own)

    def binder(self, doms, parts):
        """iterate over the nest of domains, yielding with the bound variables set"""
        def go(k):
            if k == len(doms):
                yield
                return
            d = doms[k]
            while d.op == "ite":
                d = d.args[1] if self.ev(d.args[0]) else d.args[2]
            b = d.args[1].args[0]
            missing = object()
            old = self.bv.get(b, missing)
            try:
                try:
                    dom = self.domain(d.args[0])
                except Fault:
                    # a domain that isn't entered need not make sense
                    own = {x.args[1].args[0] for x in doms[k:] if x.op == "bd"}
                    if len(parts) > 1 and not self.possible(parts[0], own):
                        return
                    raise
                for i in dom:
                    self.steps -= 1
                    if self.steps < 0:
                        raise Und("too large")
                    self.bv[b] = i
                    for _ in go(k + 1):
                        yield
            finally:
                if old is missing:
                    self.bv.pop(b, None)
                else:
                    self.bv[b] = old
        return go(0)

    def o_sum(self, t, doms, v):
        r = 0
        for _ in self.binder(doms, [v, v]):
            x = self.ev(v)
            r = r + (self.num(x) if not isinstance(x, bool) else int(x))
        return r

    def o_exists(self, t, doms, g):
        r = False
        for _ in self.binder(doms, [g, g]):
            if self.ev(g):
                r = True
        return r

    def o_first(self, t, doms, g, v):
        out = []
        for _ in self.binder(doms, [g, v]):
            if not out and self.ev(g):
                out.append(self.ev(v))
        if not out:
            raise Fault("first of nothing")
        return out[0]

    def o_last(self, t, doms, g, v):
        out = []
        for _ in self.binder(doms, [g, v]):
            if self.ev(g):
                out = [self.ev(v)]
        if not out:
            raise Fault("last of nothing")
        return out[0]

    def o_seq(self, t, parts):
        out = []
        for p in parts:
            doms, g, v = p.args
            for _ in self.binder(doms, [g, v]):
                if self.ev(g):
                    out.append(self.ev(v))
        return out

    def o_dictof(self, t, parts):
        out = {}
        for p in parts:
            doms, g, kv = p.args
            for _ in self.binder(doms, [g, kv]):
                if self.ev(g):
                    kind, pair = kv.args
                    k, v = pair.args[0]
                    if kind == "store":
                        out[self.ev(k)] = Unread() if v.op == "obj" else self.ev(v)
                    elif kind == "dictupdate":
                        out.update(self.ev(v))
                    elif kind == "discard":
                        out.pop(self.ev(k), None)
                    elif kind == "del":
                        del out[self.ev(k)]
                    else:
                        raise Und("dict " + kind)
        return out


def free_leaves(t, known):
    """the variables of a term that an assignment has to give a value to"""
    out = set()
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x in seen or x in known:
            continue
        seen.add(x)
        if x.op in ("param", "mu", "out", "idx", "res", "obj", "rd", "unk", "missing"):
            out.add(x)
        stack.extend(children(x))
    return out


# what a call that is rejected gives; failing because of what the failing operation was given is rejecting it, too
REJECTED = ("<rejected>",)

FAULTS = ("IndexError in item", "IndexError in nth", "KeyError in item", "KeyError in net", "ValueError in call", "ValueError in intbase", "ZeroDivisionError in div",
          "negative pad width")


class Failure(object):
    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "<fails: %s>" % self.why


def alpha(t):
    """bound variables numbered by the depth of their binder"""
    memo = {}

    def leaf_bv(d):
        while d.op == "ite":
            d = d.args[1]
        return d.args[1]

    def go_dom(d, env, level):
        if d.op == "ite":
            return rebuild("ite", [go(d.args[0], env, level), go_dom(d.args[1], env, level), go_dom(d.args[2], env, level)])
        return mk("bd", go(d.args[0], env, level), mk("bv", level))

    def go(x, env, level):
        if x.op == "bv":
            return env.get(x, x)
        if not x.args or x.op == "const":
            return x
        fv = free_bv(x)
        key = (x, level, tuple(sorted((b.args[0], v.args[0]) for b, v in env.items() if b.args[0] in fv)))
        r = memo.get(key)
        if r is not None:
            return r
        binders = [a for a in x.args if isinstance(a, tuple) and a and all(isinstance(d, T) and (d.op == "bd" or d.op == "ite" and leaf_is_bd(d)) for d in a)]
        na = []
        e2, l2 = env, level
        if binders:
            e2 = dict(env)
            ds = []
            for d in binders[0]:
                ds.append(go_dom(d, e2, l2))
                e2[leaf_bv(d)] = mk("bv", l2)
                l2 += 1
        for a in x.args:
            if binders and a is binders[0]:
                na.append(tuple(ds))
            elif isinstance(a, T):
                na.append(go(a, e2, l2))
            elif isinstance(a, tuple):
                na.append(tuple(go(y, e2, l2) if isinstance(y, T) else y for y in a))
            else:
                na.append(a)
        r = memo[key] = rebuild(x.op, na)
        return r

    def leaf_is_bd(d):
        while d.op == "ite":
            d = d.args[1]
        return d.op == "bd"
    try:
        return go(t, {}, 0)
    except RecursionError:
        return t


def separate(impl, spec, assignments, hook=None, steps=60000, when=None):
    """
    'same', 'differ' (with the separating assignment and the two values), 'agree' (no assignment separates them), or
    'unknown' (no interpretation)
    """
    if impl is spec or alpha(impl) is alpha(spec):
        return "same", None
    n = 0
    why = None
    for a in assignments:
        try:
            if when is not None and not Interp(a, hook, steps).ev(when):
                continue
            s = Interp(a, hook, steps).ev(spec)
        except Fault:
            continue
        except Und as e:
            why = "specification: %s" % e
            continue
        except RecursionError:
            continue
        try:
            i = Interp(a, hook, steps).ev(impl)
        except Und as e:
            why = str(e)
            continue
        except Fault as e:
            if e.args and e.args[0].startswith(FAULTS) and s == REJECTED:
                n += 1
                continue
            if e.args and e.args[0].startswith(FAULTS):
                return "differ", (a, Failure(e.args[0]), s)
            why = str(e)
            continue
        except RecursionError:
            continue
        try:
            equal = same(i, s)
        except Und as e:
            why = str(e)
            continue
        n += 1
        if not equal:
            return "differ", (a, i, s)
    if n:
        return "agree", n
    return "unknown", why
