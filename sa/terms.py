"""
Hash-consed value terms.

A term is (op, args).  Conditional values are kept in a canonical form: a multi-terminal decision diagram
('ite', atom, hi, lo) whose atoms occur in one global order, so that two expressions that branch in different ways but
select the same values under the same conditions are the same term.  Booleans are decision diagrams over the terminals
True and False.  Sums are kept in affine normal form.  No solver is involved: everything here is rewriting to a normal
form at construction time.
"""


class T(object):
    __slots__ = ("op", "args", "id", "unk", "size", "loops")

    def __repr__(self):
        return show(self)


_table = {}
_last = [0]


def mk(op, *args):
    k = (op,) + tuple((a if isinstance(a, T) else (type(a), a)) for a in args)
    t = _table.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = _last[0]
        _last[0] += 1
        t.unk = op in ("unk", "rd", "missing") or any(isinstance(a, T) and a.unk for a in args) or \
            any(isinstance(a, tuple) and any(isinstance(b, T) and b.unk for b in a) for a in args)
        s = 1
        loops = frozenset([args[0]]) if op == "idx" else frozenset()
        for a in args:
            if isinstance(a, T):
                s += a.size
                loops |= a.loops
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, T):
                        s += b.size
                        loops |= b.loops
        t.size = s
        t.loops = loops
        _table[k] = t
    return t


def const(v):
    return mk("const", v)


TRUE = const(True)
FALSE = const(False)
NONE = const(None)
ZERO = const(0)
ONE = const(1)


def is_const(t):
    return t.op == "const"


def children(t):
    for a in t.args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            for b in a:
                if isinstance(b, T):
                    yield b


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        stack.extend(children(x))
    return seen


# ---------------------------------------------------------------------------------------------- decision diagrams

def top(t):
    return t.args[0] if t.op == "ite" else None


def _rank(atom):
    return atom.id


_ite_memo = {}


def implied(a, val, b):
    """what atom b must be, when atom a has truth value val (None: not determined)"""
    if a is b:
        return val
    if a.op == "le" and b.op == "le" and a.args[0] is b.args[0]:
        if val and b.args[1] >= a.args[1]:
            return True
        if not val and b.args[1] <= a.args[1]:
            return False
        return None
    ax = a.args[0] if a.args and isinstance(a.args[0], T) else None
    bx = b.args[0] if b.args and isinstance(b.args[0], T) else None
    if ax is None or bx is None:
        return None
    if a.op == "in" and b.op == "truthy" and val and a.args[1] is bx:
        return True
    if a.op == "truthy" and b.op == "in" and not val and b.args[1] is ax:
        return False
    if a.op == "eq" and b.op == "eq":
        if val and a.args[0] is b.args[0] and is_const(a.args[1]) and is_const(b.args[1]):
            return False
        return None
    if ax is not bx:
        return None
    if a.op == "isnone":
        if val:
            if b.op in ("truthy", "isinstance", "callable"):
                return False
            if b.op == "eq" and is_const(b.args[1]) and b.args[1] is not NONE:
                return False
        return None
    if a.op == "truthy":
        if val:
            if b.op == "isnone":
                return False
            if b.op == "eq" and is_const(b.args[1]) and not b.args[1].args[0]:
                return False
        else:
            if b.op == "eq" and is_const(b.args[1]) and b.args[1].args[0]:
                return False
        return None
    if a.op == "eq" and is_const(a.args[1]) and val:
        c = a.args[1].args[0]
        if b.op == "isnone":
            return c is None
        if b.op == "truthy":
            return bool(c)
        if b.op == "le" and isinstance(c, (int, float)):
            return c <= b.args[1]
        return None
    if a.op == "le" and b.op == "eq" and is_const(b.args[1]) and isinstance(b.args[1].args[0], (int, float)):
        c = b.args[1].args[0]
        if val and c > a.args[1]:
            return False
        if not val and c <= a.args[1]:
            return False
        return None
    if a.op in ("isinstance", "callable") and val and b.op == "isnone":
        return False
    if a.op == "isinstance" and b.op == "isinstance":
        sa, sb = set(a.args[1]), set(b.args[1])
        if val and sa <= sb:
            return True
        if not val and sb <= sa:
            return False
    return None


_restr_memo = {}


def restrict(t, atom, val):
    """t, given that atom has truth value val"""
    if t.op != "ite":
        return t
    k = (t, atom, val)
    r = _restr_memo.get(k)
    if r is None:
        a, hi, lo = t.args
        v = implied(atom, val, a)
        if v is True:
            r = restrict(hi, atom, val)
        elif v is False:
            r = restrict(lo, atom, val)
        else:
            h, l = restrict(hi, atom, val), restrict(lo, atom, val)
            r = t if (h is hi and l is lo) else _node(a, h, l)
        _restr_memo[k] = r
    return r


def _node(atom, hi, lo):
    if hi is lo:
        return hi
    hi = restrict(hi, atom, True)
    lo = restrict(lo, atom, False)
    if hi is lo:
        return hi
    if restrict(lo, atom, True) is hi:
        return lo
    if restrict(hi, atom, False) is lo:
        return hi
    return mk("ite", atom, hi, lo)


def _min_top(*ts):
    best = None
    for t in ts:
        if t.op == "ite":
            a = t.args[0]
            if best is None or _rank(a) < _rank(best):
                best = a
    return best


def _cof(t, atom, val):
    if t.op == "ite" and t.args[0] is atom:
        return t.args[1] if val else t.args[2]
    return t


def ite(c, a, b):
    """if c then a else b, where c is a boolean diagram"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    k = (c, a, b)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    if c.op != "ite":
        raise ValueError("not a boolean: %r" % (c,))
    v = _min_top(c, a, b)
    hi = ite(_cof(c, v, True), _cof(a, v, True), _cof(b, v, True))
    lo = ite(_cof(c, v, False), _cof(a, v, False), _cof(b, v, False))
    r = _node(v, hi, lo)
    _ite_memo[k] = r
    return r


def atom(op, *args):
    a = mk(op, *args)
    return mk("ite", a, TRUE, FALSE)


def is_bool(t):
    if t is TRUE or t is FALSE:
        return True
    if t.op != "ite":
        return False
    for x in leaves(t):
        if x is not TRUE and x is not FALSE:
            return False
    return True


def leaves(t):
    out = []
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            stack.append(x.args[2])
            stack.append(x.args[1])
        else:
            out.append(x)
    return out


def atoms(t):
    out = set()
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            out.add(x.args[0])
            stack.append(x.args[1])
            stack.append(x.args[2])
    return out


def NOT(a):
    return ite(a, FALSE, TRUE)


def AND(*xs):
    r = TRUE
    for x in xs:
        r = ite(r, x, FALSE)
    return r


def OR(*xs):
    r = FALSE
    for x in xs:
        r = ite(r, TRUE, x)
    return r


def implies(a, b):
    return ite(a, b, TRUE) is TRUE


_simp_memo = {}


def simplify(t, pc):
    """t, given that pc holds (generalised cofactor of the diagram with respect to pc)"""
    if t.op != "ite" or pc is TRUE or pc is FALSE:
        return t
    k = (t, pc)
    r = _simp_memo.get(k)
    if r is not None:
        return r
    a = pc.args[0]
    ta = t.args[0]
    if _rank(a) <= _rank(ta):
        hi, lo = pc.args[1], pc.args[2]
        if lo is FALSE:
            r = simplify(restrict(t, a, True), hi)
        elif hi is FALSE:
            r = simplify(restrict(t, a, False), lo)
        elif a is ta:
            r = _node(a, simplify(t.args[1], hi), simplify(t.args[2], lo))
        else:
            # a does not occur in t at the top: both possibilities of pc
            r1, r2 = simplify(t, hi), simplify(t, lo)
            r = r1 if r1 is r2 else simplify(t, OR(hi, lo))
    else:
        h = simplify(t.args[1], simplify_pc(pc, ta, True))
        l = simplify(t.args[2], simplify_pc(pc, ta, False))
        p1, p0 = restrict(pc, ta, True), restrict(pc, ta, False)
        if p1 is FALSE:
            r = l
        elif p0 is FALSE:
            r = h
        else:
            r = _node(ta, h, l)
    _simp_memo[k] = r
    return r


def simplify_pc(pc, a, v):
    return restrict(pc, a, v)


MAXLEAVES = 40


def lift(fn, *args):
    """fn applied to values that may be conditional: the conditions are moved outside"""
    v = _min_top(*args)
    if v is None:
        return fn(*args)
    n = 1
    for a in args:
        if a.op == "ite":
            n *= max(1, len(leaves(a)))
    if n > MAXLEAVES:
        return mk("unk", "large", fn.__name__ if hasattr(fn, "__name__") else "fn", *args)
    return _lift(fn, args, {})


def _lift(fn, args, memo):
    r = memo.get(args)
    if r is not None:
        return r
    v = _min_top(*args)
    if v is None:
        r = fn(*args)
    else:
        hi = _lift(fn, tuple(restrict(_cof(a, v, True), v, True) for a in args), memo)
        lo = _lift(fn, tuple(restrict(_cof(a, v, False), v, False) for a in args), memo)
        r = ite(atom_of(v), hi, lo)
    memo[args] = r
    return r


def atom_of(a):
    return mk("ite", a, TRUE, FALSE)


# ---------------------------------------------------------------------------------------------- substitution

def subst(t, m, memo=None):
    """replace terms by terms, rebuilding normal forms"""
    if not m:
        return t
    if memo is None:
        memo = {}
    return _subst(t, m, memo)


def _subst(t, m, memo):
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    if not t.args or t.op == "const":
        return t
    ch = False
    na = []
    for a in t.args:
        if isinstance(a, T):
            b = _subst(a, m, memo)
            ch = ch or b is not a
            na.append(b)
        elif isinstance(a, tuple) and any(isinstance(x, T) for x in a):
            b = tuple(_subst(x, m, memo) if isinstance(x, T) else x for x in a)
            ch = ch or any(x is not y for x, y in zip(a, b))
            na.append(b)
        else:
            na.append(a)
    r = rebuild(t.op, na) if ch else t
    memo[t] = r
    return r


_builders = {}


def builder(op):
    def deco(f):
        _builders[op] = f
        return f
    return deco


def rebuild(op, args):
    f = _builders.get(op)
    if f is not None:
        return f(*args)
    # an argument that became conditional is lifted
    if any(isinstance(a, T) and a.op == "ite" for a in args) and op not in NOLIFT:
        ts = [a for a in args if isinstance(a, T)]

        def fn(*xs):
            it = iter(xs)
            return mk(op, *[next(it) if isinstance(a, T) else a for a in args])
        return lift(fn, *ts)
    return mk(op, *args)


NOLIFT = {"sum", "exists", "first", "last", "seq", "part", "dictof", "den", "loopout", "unk", "while", "bag", "net", "script", "bd",
          "op", "kv"}


@builder("ite")
def _b_ite(a, hi, lo):
    c = a if is_bool(a) else atom_of(a)
    return ite(c, hi, lo)


# ---------------------------------------------------------------------------------------------- arithmetic

def num_const(t):
    return t.op == "const" and isinstance(t.args[0], (int, float)) and not isinstance(t.args[0], bool)


def _aff_parts(t):
    """(constant, {term: coefficient})"""
    if t.op == "const" and isinstance(t.args[0], bool):
        return int(t.args[0]), {}
    if num_const(t):
        return t.args[0], {}
    if t.op == "aff":
        return t.args[0], dict(zip(t.args[1], t.args[2]))
    return 0, {t: 1}


def _mk_aff(c, parts):
    parts = {k: v for k, v in parts.items() if v != 0}
    if not parts:
        return const(c)
    if c == 0 and len(parts) == 1:
        (k, v), = parts.items()
        if v == 1:
            return k
    ks = sorted(parts, key=lambda x: x.id)
    return mk("aff", c, tuple(ks), tuple(parts[k] for k in ks))


def _add(a, b):
    c1, p1 = _aff_parts(a)
    c2, p2 = _aff_parts(b)
    p = dict(p1)
    for k, v in p2.items():
        p[k] = p.get(k, 0) + v
    return _mk_aff(c1 + c2, p)


def _scale(a, n):
    c, p = _aff_parts(a)
    return _mk_aff(c * n, {k: v * n for k, v in p.items()})


def add(a, b):
    return lift(_add, a, b)


def sub(a, b):
    return lift(lambda x, y: _add(x, _scale(y, -1)), a, b)


def neg(a):
    return lift(lambda x: _scale(x, -1), a)


def _mul(a, b):
    if num_const(a) or (a.op == "const" and isinstance(a.args[0], bool)):
        return _scale(b, a.args[0])
    if num_const(b) or (b.op == "const" and isinstance(b.args[0], bool)):
        return _scale(a, b.args[0])
    # distribute over sums
    if a.op == "aff" or b.op == "aff":
        ca, pa = _aff_parts(a)
        cb, pb = _aff_parts(b)
        if len(pa) * len(pb) <= 16:
            r = const(ca * cb)
            for k, v in pa.items():
                r = _add(r, _scale(k, v * cb))
            for k, v in pb.items():
                r = _add(r, _scale(k, v * ca))
            for k1, v1 in pa.items():
                for k2, v2 in pb.items():
                    r = _add(r, _scale(_mul(k1, k2), v1 * v2))
            return r
    fa = list(a.args[0]) if a.op == "mul" else [a]
    fb = list(b.args[0]) if b.op == "mul" else [b]
    return mk("mul", tuple(sorted(fa + fb, key=lambda x: x.id)))


def mul(a, b):
    return lift(_mul, a, b)


@builder("aff")
def _b_aff(c, ks, vs):
    r = const(c)
    for k, v in zip(ks, vs):
        r = add(r, mul(k, const(v)))
    return r


@builder("mul")
def _b_mul(fs):
    r = ONE
    for f in fs:
        r = mul(r, f)
    return r


def _div(a, b):
    if num_const(a) and num_const(b) and b.args[0] != 0:
        return const(a.args[0] / b.args[0])
    if num_const(b) and b.args[0] == 1:
        return a
    return mk("div", a, b)


def div(a, b):
    return lift(_div, a, b)


def binop(name, a, b):
    def f(x, y):
        if x.op == "const" and y.op == "const":
            try:
                u, v = x.args[0], y.args[0]
                if name == "mod":
                    return const(u % v)
                if name == "floordiv":
                    return const(u // v)
                if name == "pow" and abs(v) < 64:
                    return const(u ** v)
                if name == "shl" and v < 64:
                    return const(u << v)
                if name == "shr":
                    return const(u >> v)
                if name == "band":
                    return const(u & v)
                if name == "bor":
                    return const(u | v)
                if name == "bxor":
                    return const(u ^ v)
            except Exception:
                pass
        if name == "pow" and num_const(y) and y.args[0] == 2:
            return _mul(x, x)
        if name == "pow" and num_const(y) and y.args[0] == 1:
            return x
        if name == "shl" and x is ONE:
            return mk("pow", const(2), y)
        if name == "shl":
            return _mul(x, binop("pow", const(2), y))
        if name == "mod":
            # (x + k*y) mod y == x mod y
            if y.op != "const":
                c, p = _aff_parts(x)
                if y in p:
                    p = dict(p)
                    del p[y]
                    return binop("mod", _mk_aff(c, p), y)
            elif num_const(y) and isinstance(y.args[0], int) and y.args[0] > 0:
                c, p = _aff_parts(x)
                n = y.args[0]
                if isinstance(c, int) and all(isinstance(v, int) for v in p.values()) and \
                        (c % n != c or any(v % n != v for v in p.values())):
                    return binop("mod", _mk_aff(c % n, {k: v % n for k, v in p.items()}), y)
            # ((a mod y) + b) mod y == (a + b) mod y
            c, p = _aff_parts(x)
            for k, v in p.items():
                if k.op == "mod" and k.args[1] is y and isinstance(v, int):
                    q = dict(p)
                    del q[k]
                    return binop("mod", _add(_mk_aff(c, q), _scale(k.args[0], v)), y)
        if name in ("bxor", "band", "bor") and x.id > y.id:
            x, y = y, x
        return mk(name, x, y)
    return lift(f, a, b)


for _n in ("mod", "floordiv", "pow", "bxor", "band", "bor", "shr", "shl"):
    def _f(a, b, _n=_n):
        return binop(_n, a, b)
    _builders[_n] = _f
_builders["div"] = div

NUMERIC_OPS = {"aff", "mul", "div", "sum", "len", "idx", "mod", "floordiv", "pow", "bv", "abs"}


def numeric(t):
    return num_const(t) or t.op in NUMERIC_OPS


def compare(op, a, b):
    """a boolean diagram for the comparison; op in lt le gt ge eq ne"""
    if op == "gt":
        return compare("lt", b, a)
    if op == "ge":
        return compare("le", b, a)
    if op == "ne":
        return NOT(compare("eq", a, b))
    return lift(lambda x, y: _compare(op, x, y), a, b)


REALS = set()           # terms that need not be integers


def real(t):
    """may t be a number that isn't an integer (what nothing is known of counts as an integer)"""
    if t in REALS or t.op == "div" or t.op == "const" and isinstance(t.args[0], float) and t.args[0] != int(t.args[0] if abs(t.args[0]) < 1e300 else 0):
        return True
    if t.op == "aff":
        return any(real(k) for k in t.args[1]) or not isinstance(t.args[0], int) or not all(isinstance(v, int) for v in t.args[2])
    if t.op == "mul":
        return any(real(k) for k in t.args[0])
    if t.op in ("mod", "abs", "floordiv", "max", "min"):
        return any(real(k) for k in t.args if isinstance(k, T)) or any(real(k) for a in t.args if isinstance(a, tuple) for k in a if isinstance(k, T))
    if t.op == "pow":
        return real(t.args[0]) or real(t.args[1])
    if t.op == "call":
        return t.args[0] == "float" or str(t.args[0]).startswith(("math.", "numpy.log", "numpy.exp", "numpy.sqrt", "numpy.mean", "random."))
    return False


def _le0_real(c, p, ks, lead):
    g = abs(lead)
    pos = lead > 0
    lf = _mk_aff(0, {k: _q(v if pos else -v, g) for k, v in p.items()})
    b = _q(-c if pos else c, g)
    if isinstance(b, float) and b == int(b):
        b = int(b)
    # lf <= b, or lf >= b
    return atom("le", lf, b) if pos else NOT(AND(atom("le", lf, b), NOT(atom("eq", lf, const(b)))))


def _le0(t):
    """t <= 0"""
    c, p = _aff_parts(t)
    if not p:
        return TRUE if c <= 0 else FALSE
    ks = sorted(p, key=lambda x: x.id)
    lead = p[ks[0]]
    if not isinstance(c, int) or not all(isinstance(v, int) for v in p.values()) or any(real(k) for k in p):
        return _le0_real(c, p, ks, lead)
    if not isinstance(c, int) or not all(isinstance(v, int) for v in p.values()):
        g = abs(lead)
    else:
        from math import gcd
        g = 0
        for v in p.values():
            g = gcd(g, abs(v))
    if lead > 0:
        lf = _mk_aff(0, {k: _q(v, g) for k, v in p.items()})
        # lf <= -c/g
        bound = (-c) // g if isinstance(c, int) and isinstance(g, int) else -c / g
        return atom("le", lf, bound)
    lf = _mk_aff(0, {k: _q(-v, g) for k, v in p.items()})
    # -g*lf + c <= 0  <=>  lf >= c/g  <=> not lf <= ceil(c/g) - 1
    bound = -((-c) // g) - 1 if isinstance(c, int) and isinstance(g, int) else c / g - 1
    return NOT(atom("le", lf, bound))


def _q(v, g):
    if isinstance(v, int) and isinstance(g, int) and v % g == 0:
        return v // g
    return v / g


_MUTUAL = ("const", "enum", "func", "class", "str")


def _compare(op, a, b):
    if a.op == "const" and b.op == "const":
        u, v = a.args[0], b.args[0]
        try:
            return const({"lt": lambda: u < v, "le": lambda: u <= v, "eq": lambda: u == v}[op]())
        except TypeError:
            return mk("unk", "cmp", a, b)
    if op in ("lt", "le"):
        if a is b:
            return TRUE if op == "le" else FALSE
        if op == "lt" and (real(a) or real(b)):
            return NOT(_le0(_add(b, _scale(a, -1))))
        d = _add(a, _scale(b, -1))
        if op == "lt":
            d = _add(d, ONE)
        return _le0(d)
    # equality
    if a is b:
        return TRUE
    if a.op == "const" and a.args[0] is None or b.op == "const" and b.args[0] is None:
        x = b if (a.op == "const" and a.args[0] is None) else a
        return is_none(x)
    if a.op in ("enum", "class", "func", "obj", "const") and b.op in ("enum", "class", "func", "const") and \
            a.op != "obj":
        return FALSE
    if a.op == "tuple" and b.op == "tuple":
        if len(a.args[0]) != len(b.args[0]):
            return FALSE
        r = TRUE
        for x, y in zip(a.args[0], b.args[0]):
            r = AND(r, compare("eq", x, y))
        return r
    if (numeric(a) or numeric(b)) and not (b.op == "const" and not num_const(b)) \
            and not (a.op == "const" and not num_const(a)):
        d = _add(a, _scale(b, -1))
        c, p = _aff_parts(d)
        if not p:
            return const(c == 0)
        if len(p) == 1:
            (k, v), = p.items()
            if not numeric(k) and isinstance(c, int) and isinstance(v, int) and c % v == 0:
                return atom("eq", k, const(-c // v))
            if not numeric(k) and not isinstance(c, int):
                return atom("eq", k, const(-c / v))
        if all(numeric(k) for k in p) and isinstance(c, int) and not real(d):
            return AND(_le0(d), NOT(_le0(_add(d, ONE))))
        # L == c, canonical sign
        ks = sorted(p, key=lambda x: x.id)
        if p[ks[0]] < 0:
            p = {k: -v for k, v in p.items()}
            c = -c
        return atom("eq", _mk_aff(0, p), const(-c))
    if a.op == "const" or (b.op != "const" and a.id > b.id):
        a, b = b, a
    return atom("eq", a, b)


@builder("le")
def _b_le(lf, bound):
    return lift(lambda x: _le0(_add(x, const(-bound))), lf)


@builder("eq")
def _b_eq(a, b):
    return compare("eq", a, b)


def is_none(t):
    def f(x):
        if x is NONE:
            return TRUE
        if x.op in NOTNONE or (x.op == "const") or x in NOTNONE_TERMS or x.op == "q" and x.args[0] in NOTNONE_QUERIES:
            return FALSE
        return atom("isnone", x)
    return lift(f, t)


NOTNONE = {"obj", "packed", "dictof", "seqof", "tuple", "func", "class", "enum", "aff", "mul", "div", "len", "sum", "idx", "concat", "fmt", "seq",
           "deepcopy", "den", "dictof", "ext", "bound", "module", "mod", "pow", "floordiv", "bv", "str", "seqof",
           "sorted", "setof", "partial", "net", "newnet", "netcopy", "netfrom"}
NOTNONE_TERMS = set()
NOTNONE_QUERIES = {"nodes", "edges", "in_edges", "edge", "to_dict", "has_edge", "degree", "in_degree", "out_degree", "to_networkx", "to_adjacency_matrix",
                   "compress"}


@builder("isnone")
def _b_isnone(x):
    return is_none(x)


def truthy(t):
    if is_bool(t):
        return t

    def f(x):
        if x.op == "const":
            return const(bool(x.args[0]))
        if x.op in ("func", "class", "enum", "bound", "module", "ext", "partial"):
            return TRUE
        if x.op == "tuple":
            return const(len(x.args[0]) > 0)
        if x.op == "len":
            return truthy(x.args[0])
        if x.op in ("seq",):
            return seq_nonempty(x)
        if x.op in ("aff", "sum", "mod"):
            return NOT(compare("eq", x, ZERO))
        if x.op in ("den", "seqof", "sorted", "setof", "listof", "dedup") and isinstance(x.args[0], T):
            return truthy(x.args[0])
        return atom("truthy", x)
    return lift(f, t)


def seq_nonempty(x):
    r = FALSE
    for p in x.args[0]:
        doms, g, v = p.args
        if not doms:
            r = OR(r, g)
        else:
            r = OR(r, exists_closed(doms, g))
    return r


def exists_closed(doms, g):
    if g is FALSE:
        return FALSE
    if g is TRUE and len(doms) == 1 and doms[0].args[0].op == "dom":
        return truthy(doms[0].args[0].args[0])
    return atom("exists", doms, g)


@builder("exists")
def _b_exists(doms, g):
    return exists_closed(doms, g)


@builder("truthy")
def _b_truthy(x):
    return truthy(x)


@builder("isinstance")
def _b_isinst(x, names):
    return lift(lambda y: atom("isinstance", y, names), x)


@builder("callable")
def _b_callable(x):
    return lift(lambda y: TRUE if y.op in ("func", "class", "bound", "ext") else atom("callable", y), x)


@builder("in")
def _b_in(k, c):
    return lift(lambda a, b: atom("in", a, b), k, c)


@builder("inv")
def _b_inv(k, c, v):
    return atom("inv", k, c, v)


@builder("raised")
def _b_raised(*a):
    return atom("raised", *a)


def length(t):
    def f(x):
        if x.op == "tuple":
            return const(len(x.args[0]))
        if x.op == "const" and isinstance(x.args[0], (str, tuple)):
            return const(len(x.args[0]))
        if x.op == "seq":
            r = ZERO
            for p in x.args[0]:
                doms, g, v = p.args
                if not doms:
                    r = add(r, ite(g, ONE, ZERO))
                else:
                    r = add(r, sum_closed(doms, g, ONE))
            return r
        if x.op in ("seqof", "listof", "sorted", "keys", "den", "reversed"):
            return length(x.args[0])
        if x.op == "setof" and x.args[0].op == "seq" and all(not p.args[0] and p.args[1] is TRUE and p.args[2].op == "const" for p in x.args[0].args[0]):
            return const(len({p.args[2].args[0] for p in x.args[0].args[0]}))
        return mk("len", x)
    return lift(f, t)


_builders["len"] = length


def sum_closed(doms, g, v):
    """sum over the nest of domains of v, where g; v and g are closed over bv's"""
    if g is FALSE or v is ZERO:
        return ZERO
    # move the guard into the value
    v = ite(g, v, ZERO)
    if v.op == "const" and len(doms) == 1 and num_const(v):
        d = doms[0].args[0]
        n = None
        if d.op == "dom":
            n = length(d.args[0])
        elif d.op == "range":
            n = sub(d.args[1], d.args[0]) if d.args[2] is ONE else None
        if n is not None:
            return mul(n, v)
    return mk("sum", doms, v)


@builder("sum")
def _b_sum(doms, v):
    return sum_closed(doms, TRUE, v)


# ---------------------------------------------------------------------------------------------- printing

def show(t, depth=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth + 1) for x in t) + ")"
        return repr(t) if not isinstance(t, str) else t
    if depth > 14:
        return "..."
    d = depth + 1
    o, a = t.op, t.args
    if o == "const":
        return repr(a[0])
    if o == "param":
        return a[0]
    if o == "attr":
        return "%s.%s" % (show(a[0], d), a[1])
    if o == "item":
        return "%s[%s]" % (show(a[0], d), show(a[1], d))
    if o == "ite":
        if t.args[1] is TRUE and t.args[2] is FALSE:
            return show(a[0], d)
        if t.args[1] is FALSE and t.args[2] is TRUE:
            return "not " + show(a[0], d)
        return "{%s ? %s : %s}" % (show(a[0], d), show(a[1], d), show(a[2], d))
    if o == "aff":
        s = " + ".join(("%s*%s" % (c, show(x, d)) if c != 1 else show(x, d)) for x, c in zip(a[1], a[2]))
        return "(%s%s)" % (s, " + %s" % a[0] if a[0] else "")
    if o == "mul":
        return "*".join(show(x, d) for x in a[0])
    if o == "le":
        return "%s<=%s" % (show(a[0], d), a[1])
    if o == "eq":
        return "%s==%s" % (show(a[0], d), show(a[1], d))
    if o == "isnone":
        return "%s is None" % show(a[0], d)
    if o == "truthy":
        return "bool(%s)" % show(a[0], d)
    if o == "idx":
        return "i%s" % a[0]
    if o == "bv":
        return "b%s" % a[0]
    if o == "obj":
        return "obj%s%s" % (a[0], "[%s]" % ",".join(show(x, d) for x in a[1]) if a[1] else "")
    if o == "nth":
        return "%s<%s>" % (show(a[0], d), show(a[1], d))
    if o == "tuple":
        return "(" + ", ".join(show(x, d) for x in a[0]) + ",)"
    return "%s(%s)" % (o, ", ".join(show(x, d) for x in a))


_base = []


def forget():
    """drop the values of the analyses so far, to have the memory back"""
    if not _base:
        return
    _table.clear()
    _table.update(_base[0])
    for m in (_ite_memo, _restr_memo, _simp_memo):
        m.clear()
    NOTNONE_TERMS.intersection_update(_base[1])
    REALS.intersection_update(_base[2])


def remember():
    if not _base:
        _base.extend([dict(_table), set(NOTNONE_TERMS), set(REALS)])
