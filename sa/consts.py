"""
Which calls a function can reach, given what is known of some of its arguments: constants are propagated through the
statements (helpers and callbacks included), tests that are not decided are followed both ways.
"""
import ast

UNKNOWN = ("unknown",)


class Const(object):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


NOTNONE = ("not None",)
ARITH = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b, ast.Mod: lambda a, b: a % b,
         ast.BitAnd: lambda a, b: a & b, ast.BitOr: lambda a, b: a | b, ast.BitXor: lambda a, b: a ^ b, ast.FloorDiv: lambda a, b: a // b}


def truth(v):
    if isinstance(v, Const):
        return bool(v.v)
    return None


class Reach(object):
    """walks a function; visit(name, node, args, kwargs, sure) is called for every call that may be reached"""

    def __init__(self, pkg, visit, depth=8):
        self.pkg, self.visit, self.depth = pkg, visit, depth
        self.active = []
        self.sure = True

    def run(self, fn, env):
        key = (fn.qual, tuple(sorted((k, repr(v.v) if isinstance(v, Const) else str(v)) for k, v in env.items() if k in fn.params + fn.kwonly)))
        if key in self.active or len(self.active) > self.depth:
            return UNKNOWN
        self.active.append(key)
        saved = getattr(self, "fn", None)
        self.fn = fn
        w = Walk(self, fn, env)
        try:
            if isinstance(fn.node, ast.Lambda):
                return w.ex(fn.node.body)
            w.block(fn.node.body)
            for g in w.inner:                   # callbacks may be called later on
                old = self.sure
                self.sure = False
                self.run(g, dict(w.env))
                self.sure = old
        finally:
            self.active.pop()
            self.fn = saved
        return w.ret if w.ret is not None else Const(None)


class Walk(object):
    def __init__(self, R, fn, env):
        self.R, self.fn, self.env = R, fn, dict(env)
        self.inner = []
        self.ret = None

    def block(self, body):
        """returns True if the end isn't reached"""
        for s in body:
            if self.stmt(s):
                return True
        return False

    def stmt(self, s):
        if isinstance(s, ast.If):
            t = truth(self.ex(s.test))
            if t is True:
                return self.block(s.body)
            if t is False:
                return self.block(s.orelse)
            old = self.R.sure
            self.R.sure = False
            e0 = dict(self.env)
            a = self.block(s.body)
            e1 = self.env
            self.env = dict(e0)
            b = self.block(s.orelse)
            self.R.sure = old
            if a and b:
                return True
            if a:
                return False
            if b:
                self.env = e1
                return False
            self.env = {k: e1[k] if k in e1 and k in self.env and same(e1[k], self.env[k]) else UNKNOWN for k in set(e1) | set(self.env)}
            return False
        if isinstance(s, ast.Return):
            v = self.ex(s.value) if s.value is not None else Const(None)
            self.ret = v if self.ret is None or same(self.ret, v) else UNKNOWN
            return True
        if isinstance(s, ast.Raise):
            if s.exc is not None:
                self.ex(s.exc)
            return True
        if isinstance(s, (ast.Continue, ast.Break)):
            return True
        if isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                self.ex(s.iter)
                self.forget(s.target)
            assigned = {n.id for x in s.body for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            for n in assigned:
                self.env[n] = UNKNOWN
            if isinstance(s, ast.While):
                if truth(self.ex(s.test)) is False:
                    return self.block(s.orelse)
            old = self.R.sure
            self.R.sure = False
            self.block(s.body)
            for n in assigned:
                self.env[n] = UNKNOWN
            self.block(s.orelse)
            self.R.sure = old
            return False
        if isinstance(s, ast.Try):
            old = self.R.sure
            self.block(s.body)
            self.R.sure = False
            for h in s.handlers:
                self.block(h.body)
            self.R.sure = old
            self.block(s.orelse)
            return self.block(s.finalbody)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.ex(i.context_expr)
                if i.optional_vars is not None:
                    self.forget(i.optional_vars)
            return self.block(s.body)
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            g = self.fn.nested.get(s)
            if g is not None:
                self.inner.append(g)
                self.env[s.name] = ("fn", g)
            return False
        if isinstance(s, ast.Assign):
            v = self.ex(s.value)
            for t in s.targets:
                self.bind(t, v)
            return False
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ex(s.value))
            return False
        if isinstance(s, ast.AugAssign):
            self.ex(s.value)
            self.forget(s.target)
            return False
        if isinstance(s, ast.Assert):
            self.ex(s.test)
            return False
        for n in ast.iter_child_nodes(s):
            if isinstance(n, ast.expr):
                self.ex(n)
        return False

    def forget(self, t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.env[n.id] = UNKNOWN
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
                self.env[n.value.id + "." + n.attr] = UNKNOWN

    def bind(self, t, v):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
            self.env[t.value.id + "." + t.attr] = v
        elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, tuple) and v[0] == "tuple" and len(v[1]) == len(t.elts):
            for x, y in zip(t.elts, v[1]):
                self.bind(x, y)
        else:
            self.forget(t)

    def ex(self, e):
        if isinstance(e, ast.Constant):
            return Const(e.value)
        if isinstance(e, ast.Name):
            return self.env.get(e.id, UNKNOWN)
        if isinstance(e, ast.Attribute):
            k = (e.value.id + "." + e.attr) if isinstance(e.value, ast.Name) else None
            if k in self.env:
                return self.env[k]
            self.ex(e.value)
            return UNKNOWN
        if isinstance(e, ast.UnaryOp):
            v = self.ex(e.operand)
            if isinstance(e.op, ast.Not):
                t = truth(v)
                return UNKNOWN if t is None else Const(not t)
            return UNKNOWN
        if isinstance(e, ast.BinOp):
            a, b = self.ex(e.left), self.ex(e.right)
            if isinstance(a, Const) and isinstance(b, Const) and type(e.op) in ARITH:
                try:
                    return Const(ARITH[type(e.op)](a.v, b.v))
                except Exception:
                    return UNKNOWN
            return UNKNOWN
        if isinstance(e, ast.BoolOp):
            v = UNKNOWN
            unsure = False
            for x in e.values:
                old = self.R.sure
                if unsure:
                    self.R.sure = False
                v = self.ex(x)
                self.R.sure = old
                t = truth(v)
                if t is (not isinstance(e.op, ast.And)):
                    # the value decides, whatever the ones before it were (their truth was undecided)
                    return v if not unsure else (v if False else Const(t) if isinstance(v, Const) and isinstance(v.v, bool) else UNKNOWN)
                if t is None:
                    unsure = True
            return UNKNOWN if unsure else v
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = self.ex(e.left), self.ex(e.comparators[0])
            op = e.ops[0]
            if isinstance(b, Const) and b.v is None and isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                if isinstance(a, Const):
                    return Const((a.v is None) == isinstance(op, (ast.Is, ast.Eq)))
                if a is NOTNONE:
                    return Const(isinstance(op, (ast.IsNot, ast.NotEq)))
                return UNKNOWN
            if isinstance(a, Const) and isinstance(b, Const):
                try:
                    r = {ast.Eq: lambda: a.v == b.v, ast.NotEq: lambda: a.v != b.v, ast.Lt: lambda: a.v < b.v, ast.LtE: lambda: a.v <= b.v,
                         ast.Gt: lambda: a.v > b.v, ast.GtE: lambda: a.v >= b.v, ast.Is: lambda: a.v is b.v,
                         ast.IsNot: lambda: a.v is not b.v, ast.In: lambda: a.v in b.v, ast.NotIn: lambda: a.v not in b.v}[type(op)]()
                    return Const(bool(r))
                except Exception:
                    return UNKNOWN
            return UNKNOWN
        if isinstance(e, ast.IfExp):
            t = truth(self.ex(e.test))
            if t is True:
                return self.ex(e.body)
            if t is False:
                return self.ex(e.orelse)
            old = self.R.sure
            self.R.sure = False
            a, b = self.ex(e.body), self.ex(e.orelse)
            self.R.sure = old
            return a if same(a, b) else UNKNOWN
        if isinstance(e, ast.Tuple):
            return ("tuple", [self.ex(x) for x in e.elts])
        if isinstance(e, ast.Lambda):
            g = self.fn.nested.get(e)
            if g is not None:
                self.inner.append(g)
                return ("fn", g)
            return UNKNOWN
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            saved = dict(self.env)
            old = self.R.sure
            for g in e.generators:
                self.ex(g.iter)
                self.forget(g.target)
                self.R.sure = False
                for c in g.ifs:
                    self.ex(c)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.ex(x)
            self.R.sure = old
            self.env = saved
            return UNKNOWN
        if isinstance(e, ast.NamedExpr):
            v = self.ex(e.value)
            self.bind(e.target, v)
            return v
        if isinstance(e, ast.Call):
            return self.call(e)
        for n in ast.iter_child_nodes(e):
            if isinstance(n, ast.expr):
                self.ex(n)
        return UNKNOWN

    def call(self, e):
        args = [self.ex(a) for a in e.args]
        kws = {k.arg: self.ex(k.value) for k in e.keywords}
        f = e.func
        m = self.fn.mod
        from .package import Fn, Cls
        t = None
        name = None
        if isinstance(f, ast.Name):
            v = self.env.get(f.id)
            if isinstance(v, tuple) and v[0] == "fn":
                t = v[1]
            elif f.id not in self.env:
                t = self.R.pkg.resolve_static(m, f)
                name = self.R.pkg.dotted(m, f)
        elif isinstance(f, ast.Attribute):
            b = f
            while isinstance(b, ast.Attribute):
                b = b.value
            if isinstance(b, ast.Name) and b.id not in self.env and (b.id in m.imports or b.id in m.classes):
                name = self.R.pkg.dotted(m, f)
                t = self.R.pkg.by_dotted(name)
            else:
                self.ex(f.value)
                name = "." + f.attr
                c = self.cls()
                if isinstance(f.value, ast.Name) and c is not None and f.value.id == self.me():
                    g = self.R.pkg.method(c, f.attr)
                    if g is not None:
                        t = g
                        args = args if g.static else [UNKNOWN] + args
                elif isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super" and c is not None:
                    for k in c.bases:
                        g = self.R.pkg.method(k, f.attr)
                        if g is not None:
                            t = g
                            args = [UNKNOWN] + args
                            break
        if isinstance(t, Cls):
            g = self.R.pkg.method(t, "__init__")
            if g is None:
                return NOTNONE
            t, args, name = g, [UNKNOWN] + args, None
            self.enter(t, args, kws, e)
            return NOTNONE
        if isinstance(t, Fn):
            return self.enter(t, args, kws, e)
        if name:
            self.R.visit(name, e, args, kws, self.R.sure, self.fn, self)
        if name in ("bool", "int", "str") and len(args) == 1 and isinstance(args[0], Const):
            try:
                return Const({"bool": bool, "int": int, "str": str}[name](args[0].v))
            except Exception:
                return UNKNOWN
        return UNKNOWN

    def cls(self):
        f = self.fn
        while f is not None:
            if f.cls is not None:
                return f.cls
            f = f.parent
        return None

    def me(self):
        f = self.fn
        while f.parent is not None:
            f = f.parent
        return f.params[0] if f.params else None

    def enter(self, g, args, kws, e):
        env = {}
        if g.parent is not None:
            env.update(self.env)
        for p in g.params + g.kwonly:
            env[p] = UNKNOWN
            if p in g.defaults:
                d = g.defaults[p]
                env[p] = Const(d.value) if isinstance(d, ast.Constant) else NOTNONE
        if any(isinstance(a, ast.Starred) for a in e.args) or None in kws:
            for p in g.params + g.kwonly:
                env[p] = UNKNOWN
        else:
            for p, a in zip(g.params, args):
                env[p] = a
        for k, a in kws.items():
            if k in g.params or k in g.kwonly:
                env[k] = a
        for p in (g.vararg, g.kwarg):
            if p:
                env[p] = UNKNOWN
        return self.R.run(g, env)


def same(a, b):
    if a is b:
        return True
    return isinstance(a, Const) and isinstance(b, Const) and type(a.v) is type(b.v) and a.v == b.v
