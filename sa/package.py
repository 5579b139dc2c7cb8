"""
A package-wide, interprocedural analysis of which objects a function may modify, hand out or depend on.

Every value is described by the objects it may be (a part of): origins (root, fresh, level), where fresh is the number of
newly created containers around it and level how far inside of the root it is.  Roots are parameters, module variables, class
attributes and default values.  The analysis is flow-sensitive in local variables, joins branches, and summarises calls
within the package.  Where it knows nothing (results of unknown calls), it assumes nothing: it reports only modifications it
can follow from a root to the statement that makes them.
"""
import ast
import os

MUTATORS = {"append", "extend", "insert", "remove", "pop", "popitem", "clear", "update", "setdefault", "sort", "reverse", "add", "discard",
            "fill", "put", "itemset", "resize", "appendleft", "extendleft", "popleft", "difference_update", "intersection_update",
            "symmetric_difference_update", "setflags", "partition", "subtract", "move_to_end", "__setitem__", "__delitem__", "setfield",
            "add_edges_from", "add_nodes_from", "remove_nodes_from", "remove_edges_from", "add_weighted_edges_from"}
NEUTRAL = {"update", "remove", "pop", "add", "insert", "put"}
EXT_MUTATE = {"numpy.random.shuffle": 0, "random.shuffle": 0, "numpy.fill_diagonal": 0, "numpy.put": 0, "numpy.place": 0, "numpy.copyto": 0,
              "numpy.putmask": 0, "heapq.heapify": 0, "heapq.heappush": 0, "heapq.heappop": 0, "bisect.insort": 0,
              "bisect.insort_left": 0, "bisect.insort_right": 0, "setattr": 0, "delattr": 0, "numpy.add.at": 0, "numpy.subtract.at": 0,
              "networkx.set_node_attributes": 0, "networkx.set_edge_attributes": 0, "numpy.random.Generator.shuffle": 0,
              "operator.setitem": 0, "operator.delitem": 0, "operator.iadd": 0, "numpy.put_along_axis": 0}
SHALLOW = {"list", "tuple", "set", "frozenset", "dict", "sorted", "copy.copy", "reversed", "map", "filter", "collections.deque",
           "collections.Counter", "collections.OrderedDict", "itertools.chain", "itertools.islice", "itertools.cycle", "iter",
           "itertools.takewhile", "itertools.dropwhile", "itertools.chain.from_iterable", "collections.defaultdict"}
PAIRS = {"enumerate", "zip", "itertools.product", "itertools.combinations", "itertools.permutations", "itertools.zip_longest"}
ALIAS = {"numpy.asarray", "numpy.ravel", "numpy.reshape", "numpy.squeeze", "numpy.transpose", "numpy.atleast_1d", "numpy.atleast_2d",
         "numpy.atleast_3d", "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.swapaxes", "numpy.moveaxis", "numpy.diagonal",
         "numpy.broadcast_to", "numpy.flip", "numpy.fliplr", "numpy.flipud", "numpy.expand_dims", "numpy.split", "numpy.rot90", "next",
         "min", "max", "numpy.asmatrix"}
ALIAS_METHODS = {"reshape", "ravel", "view", "transpose", "squeeze", "swapaxes", "diagonal"}
PART_METHODS = {"get", "pop", "setdefault", "popleft", "__getitem__"}
FRESH = frozenset()
CAP = 4


def shallow(o):
    r, d, l = o
    return (r, d, l) if d else (r, 1, min(l + 1, CAP))


def inside(o):
    r, d, l = o
    return (r, d - 1, l) if d else (r, 0, min(l + 1, CAP))


class Val(object):
    __slots__ = ("o", "kind", "fn", "items")

    def __init__(self, o=FRESH, kind=None, fn=None, items=None):
        self.o, self.kind, self.fn, self.items = frozenset(o), kind, fn, items

    def join(self, other):
        items = None
        if self.items and other.items and len(self.items) == len(other.items):
            items = [a.join(b) for a, b in zip(self.items, other.items)]
        return Val(self.o | other.o, self.kind if self.kind == other.kind else None, self.fn if self.fn is other.fn else None, items)

    def same(self, other):
        return self.o == other.o and self.kind == other.kind and self.fn is other.fn


NOTHING = Val()


class Fn(object):
    def __init__(self, pkg, mod, node, qual, cls, parent):
        self.pkg, self.mod, self.node, self.qual, self.cls, self.parent = pkg, mod, node, qual, cls, parent
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.ret = FRESH
        self.retkind = None
        self.nested = {}
        self.env = {}
        self.calls = set()          # functions of the package it calls, and external names
        self.callsites = []         # (name or Fn, node)
        n = len(a.defaults)
        self.defaults = dict(zip(self.params[len(self.params) - n:], a.defaults)) if n else {}
        self.defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        self.static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in getattr(node, "decorator_list", ()))
        self.property = any(isinstance(d, ast.Name) and d.id == "property" or isinstance(d, ast.Attribute) and d.attr in ("setter", "getter")
                            for d in getattr(node, "decorator_list", ()))

    @property
    def name(self):
        return self.qual.split(".")[-1]

    def __repr__(self):
        return self.qual


class Cls(object):
    def __init__(self, mod, node, qual):
        self.mod, self.node, self.qual = mod, node, qual
        self.name = node.name
        self.methods = {}
        self.attrs = {}             # class-level: name -> value node
        self.inst = {}              # instance attributes: name -> origins
        self.instfn = {}
        self.bases = []


class Module(object):
    def __init__(self, name, path, rel, tree):
        self.name, self.path, self.rel, self.tree = name, path, rel, tree
        self.imports = {}           # local name -> dotted name
        self.globals = {}           # name -> [value nodes]
        self.functions, self.classes = {}, {}


class Event(object):
    """a modification: root, level, where, how, via"""

    def __init__(self, root, level, site, how, fn, via=()):
        self.root, self.level, self.site, self.how, self.fn, self.via = root, level, site, how, fn, via

    def key(self):
        return (self.root, self.level, self.site[:2], self.fn.qual)


def mutable_expr(e):
    """a value that can be modified, or that differs from evaluation to evaluation"""
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        n = e.func.id if isinstance(e.func, ast.Name) else e.func.attr if isinstance(e.func, ast.Attribute) else ""
        return n not in ("tuple", "frozenset", "int", "float", "str", "bool", "complex", "bytes", "len", "abs", "min", "max", "sum", "round",
                         "object", "namedtuple", "TypeVar", "getLogger", "compile", "sqrt", "log", "exp")
    if isinstance(e, ast.BinOp):
        return mutable_expr(e.left) or mutable_expr(e.right)
    if isinstance(e, ast.IfExp):
        return mutable_expr(e.body) or mutable_expr(e.orelse)
    return False


class Package(object):
    def __init__(self, repo, package="netomaton"):
        self.repo, self.package = repo, package
        self.modules = {}
        self.fns = {}
        self.classes = {}
        self.events = {}
        self.escapes = {}
        self.load()
        for _ in range(8):
            n = (len(self.events), sum(len(f.ret) for f in self.fns.values()), sum(len(v) for c in self.classes.values() for v in c.inst.values()),
                 len(self.escapes), sum(len(f.calls) for f in self.fns.values()))
            for f in list(self.fns.values()):
                if f.parent is None:
                    self.analyse(f)
            for m in self.modules.values():
                self.module_level(m)
            if n == (len(self.events), sum(len(f.ret) for f in self.fns.values()), sum(len(v) for c in self.classes.values() for v in c.inst.values()),
                     len(self.escapes), sum(len(f.calls) for f in self.fns.values())):
                break

    # ---------------------------------------------------------------------------------- loading

    def load(self):
        root = os.path.join(self.repo, self.package)
        for d, _, files in sorted(os.walk(root)):
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.repo)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[:-9]
                with open(p) as h:
                    tree = ast.parse(h.read(), p)
                self.modules[name] = Module(name, p, rel, tree)
        for m in self.modules.values():
            pk = m.name.split(".") if m.path.endswith("__init__.py") else m.name.split(".")[:-1]
            for node in ast.walk(m.tree):
                if isinstance(node, ast.Import):
                    for a in node.names:
                        m.imports[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
                elif isinstance(node, ast.ImportFrom):
                    base = (".".join(pk[:len(pk) - node.level + 1]) if node.level else "")
                    full = ".".join(x for x in (base, node.module or "") if x)
                    for a in node.names:
                        m.imports[a.asname or a.name] = full + "." + a.name
            for node in m.tree.body:
                self.declare(m, node)
        for c in self.classes.values():
            for b in c.node.bases:
                t = self.resolve_static(c.mod, b)
                if isinstance(t, Cls):
                    c.bases.append(t)

    def declare(self, m, node):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f = self.function(m, node, m.name + "." + node.name, None, None)
            m.functions[node.name] = f
        elif isinstance(node, ast.ClassDef):
            c = Cls(m, node, m.name + "." + node.name)
            m.classes[node.name] = c
            self.classes[c.qual] = c
            for x in node.body:
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    q = c.qual + "." + x.name
                    while q in self.fns:
                        q += "'"
                    f = self.function(m, x, q, c, None)
                    c.methods.setdefault(x.name, f)
                elif isinstance(x, ast.Assign):
                    for t in x.targets:
                        if isinstance(t, ast.Name):
                            c.attrs[t.id] = x.value
                elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and x.value is not None:
                    c.attrs[x.target.id] = x.value
        elif isinstance(node, ast.Assign):
            for t in node.targets:
                for n in ast.walk(t):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        m.globals.setdefault(n.id, []).append(node.value)
        elif isinstance(node, (ast.AnnAssign, ast.AugAssign)):
            if isinstance(node.target, ast.Name) and node.value is not None:
                m.globals.setdefault(node.target.id, []).append(node.value)
        elif isinstance(node, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
            for n in ast.iter_child_nodes(node):
                if isinstance(n, ast.stmt):
                    self.declare(m, n)
                elif isinstance(n, ast.ExceptHandler):
                    for k in n.body:
                        self.declare(m, k)

    def function(self, m, node, qual, cls, parent):
        f = Fn(self, m, node, qual, cls, parent)
        self.fns[qual] = f
        return f

    def dotted(self, m, e):
        """the dotted name an expression refers to, through imports"""
        if isinstance(e, ast.Name):
            return m.imports.get(e.id, e.id)
        if isinstance(e, ast.Attribute):
            b = self.dotted(m, e.value)
            return b + "." + e.attr if b else None
        return None

    def by_dotted(self, name, depth=0):
        """the function, class or module variable of the package with this dotted name"""
        if name is None or depth > 6:
            return None
        if name in self.fns:
            return self.fns[name]
        if name in self.classes:
            return self.classes[name]
        if name in self.modules:
            return self.modules[name]
        if "." not in name:
            return None
        base, last = name.rsplit(".", 1)
        m = self.by_dotted(base, depth + 1) if base not in self.modules else self.modules[base]
        if isinstance(m, Module):
            if last in m.imports:
                return self.by_dotted(m.imports[last], depth + 1)
            if last in m.globals:
                return ("global", m.name, last)
        if isinstance(m, Cls):
            return self.method(m, last)
        return None

    def resolve_static(self, m, e):
        if isinstance(e, ast.Name):
            if e.id in m.functions:
                return m.functions[e.id]
            if e.id in m.classes:
                return m.classes[e.id]
        n = self.dotted(m, e)
        return self.by_dotted(n) if n else None

    def method(self, c, name, seen=()):
        if name in c.methods:
            return c.methods[name]
        for b in c.bases:
            if b not in seen:
                r = self.method(b, name, seen + (c,))
                if r is not None:
                    return r
        return None

    def mro(self, c):
        out = [c]
        for b in c.bases:
            for x in self.mro(b):
                if x not in out:
                    out.append(x)
        return out

    # ---------------------------------------------------------------------------------- analysis

    def analyse(self, f, outer=None):
        env = dict(outer or {})
        for i, p in enumerate(f.params + f.kwonly):
            o = {(("param", f.qual, p), 0, 0)}
            if p in f.defaults and mutable_expr(f.defaults[p]):
                o.add((("default", f.qual, p), 0, 0))
            env[p] = Val(o)
        for p in (f.vararg, f.kwarg):
            if p:
                env[p] = Val({(("param", f.qual, p), 1, 1)}, "list" if p == f.vararg else "dict")
        a = Analysis(self, f, env)
        if isinstance(f.node, ast.Lambda):
            v = a.ex(f.node.body)
            a.returned(v, f.node.body)
        else:
            a.block(f.node.body)
        f.env = a.env
        for g, env2 in a.inner:
            e = {k: v for k, v in a.env.items() if not k.startswith("self.")}
            self.analyse(g, e)

    def module_level(self, m):
        if not hasattr(m, "fn"):
            node = ast.parse("def _module_(): pass").body[0]
            m.fn = Fn(self, m, node, m.name + ".<module>", None, None)
        a = Analysis(self, m.fn, {}, True)
        for s in m.tree.body:
            if not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
                a.stmt(s)
        for g, _ in a.inner:
            self.analyse(g, {})

    def modify(self, v, level_inside, fn, node, how, via=()):
        """the value v (or a part of it, at level_inside) is modified"""
        site = (fn.mod.rel, getattr(node, "lineno", 0), fn.name)
        for r, d, l in v.o:
            if level_inside < d:
                continue
            e = Event(r, min(l + level_inside - d, CAP), site, how, fn, via)
            self.events.setdefault(e.key(), e)

    def events_of(self, root):
        return [e for e in self.events.values() if e.root == root]

    def mutates_self(self, name):
        """a method of this name of a class of the package that modifies the object it is called on"""
        for c in self.classes.values():
            f = c.methods.get(name)
            if f is not None and not f.static and f.params:
                ev = self.events_of(("param", f.qual, f.params[0]))
                if ev:
                    return f, ev[0]
        return None

    def site(self, f, node):
        return (f.mod.rel, getattr(node, "lineno", f.node.lineno if hasattr(f.node, "lineno") else 0), f.name)


class Analysis(object):
    def __init__(self, pkg, f, env, module=False):
        self.pkg, self.f, self.env, self.module = pkg, f, env, module
        self.inner = []
        self.globals_declared = set()
        self.evidence = None

    # ---- statements

    def block(self, body):
        for s in body:
            self.stmt(s)

    def joined(self, *envs):
        out = {}
        for k in set().union(*envs):
            if k.startswith("self.") and not all(k in e for e in envs):
                continue                # in one of the branches it is what it was before
            vs = [e[k] for e in envs if k in e]
            v = vs[0]
            for w in vs[1:]:
                v = v.join(w)
            out[k] = v
        return out

    def stmt(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m:
            return m(s)
        for n in ast.iter_child_nodes(s):
            if isinstance(n, ast.expr):
                self.ex(n)

    def s_FunctionDef(self, s):
        g = self.f.nested.get(s)
        if g is None:
            q = self.f.qual + "." + s.name
            while q in self.pkg.fns:
                q += "'"
            g = self.pkg.function(self.f.mod, s, q, None, self.f)
            self.f.nested[s] = g
        for d in s.decorator_list:
            self.ex(d)
        for d in list(s.args.defaults) + [x for x in s.args.kw_defaults if x is not None]:
            self.ex(d)
        self.inner.append((g, None))
        self.env[s.name] = Val(fn=g)

    def s_Assign(self, s):
        v = self.ex(s.value)
        for t in s.targets:
            self.assign(t, v, s)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ex(s.value), s)

    def assign(self, t, v, s):
        if isinstance(t, ast.Name):
            if t.id in self.globals_declared:
                self.hidden(("global", self.f.mod.name, t.id), s, "assigned")
                return
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, Val({shallow(o) for o in v.o}), s)
                elif v.items and len(v.items) == len(t.elts):
                    self.assign(x, v.items[i], s)
                else:
                    self.assign(x, Val({inside(o) for o in v.o}), s)
        elif isinstance(t, ast.Subscript):
            b = self.ex(t.value)
            self.ex(t.slice)
            self.pkg.modify(b, 0, self.f, s, "an element is assigned")
            self.put(t.value, v)
        elif isinstance(t, ast.Attribute):
            self.store_attr(t, v, s)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, s)

    def put(self, target, v):
        """v is now in the container that target names"""
        if isinstance(target, ast.Name) and target.id in self.env and v.o:
            o = self.env[target.id]
            self.env[target.id] = Val(o.o | {(r, min(d + 1, CAP), l) for r, d, l in v.o}, o.kind, o.fn)

    def store_attr(self, t, v, s):
        if self.is_self(t.value):
            c = self.f_class()
            c.inst.setdefault(t.attr, set()).update(v.o)
            self.env["self." + t.attr] = v
            if v.fn is not None:
                c.instfn.setdefault(t.attr, set()).add(v.fn)
            b = self.env.get(t.value.id)
            self.pkg.modify(b, 0, self.f, s, "attribute %s is assigned" % t.attr)
            return
        target = self.pkg.resolve_static(self.f.mod, t.value) if not (isinstance(t.value, ast.Name) and t.value.id in self.env) else None
        if isinstance(target, Cls):
            self.hidden(("classattr", target.qual, t.attr), s, "assigned")
            return
        if isinstance(target, Fn):
            self.hidden(("attribute of function", target.qual, t.attr), s, "assigned")
            return
        if isinstance(target, Module):
            self.hidden(("global", target.name, t.attr), s, "assigned")
            return
        if isinstance(t.value, ast.Name) and t.value.id not in self.env and t.value.id in self.f.mod.imports:
            self.hidden(("attribute of module", self.f.mod.imports[t.value.id], t.attr), s, "assigned")
            return
        if self.is_class_of_self(t.value):
            self.hidden(("classattr", self.f_class().qual, t.attr), s, "assigned")
            return
        b = self.ex(t.value)
        self.pkg.modify(b, 0, self.f, s, "attribute %s is assigned" % t.attr)

    def hidden(self, root, s, how):
        if self.module:
            return
        self.pkg.modify(Val({(root, 0, 0)}), 0, self.f, s, how)

    def is_class_of_self(self, e):
        """self.__class__, type(self), cls"""
        if isinstance(e, ast.Attribute) and e.attr == "__class__":
            return self.f_class() is not None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "type" and len(e.args) == 1:
            return self.is_self(e.args[0])
        if isinstance(e, ast.Name) and e.id == "cls" and self.f_class() is not None:
            return True
        return False

    def f_class(self):
        f = self.f
        while f is not None:
            if f.cls is not None:
                return f.cls
            f = f.parent
        return None

    def is_self(self, e):
        if not isinstance(e, ast.Name):
            return False
        f = self.f
        while f.parent is not None:
            if e.id in f.params:
                return False
            f = f.parent
        return f.cls is not None and not f.static and f.params and e.id == f.params[0]

    def s_AugAssign(self, s):
        v = self.ex(s.value)
        t = s.target
        if isinstance(t, ast.Name):
            if t.id in self.globals_declared:
                self.hidden(("global", self.f.mod.name, t.id), s, "assigned")
                return
            old = self.lookup(t)
            if v.kind in ("list", "dict", "set", "ndarray") or old.kind in ("list", "dict", "set", "ndarray") or self.container(t.id):
                if old.kind not in ("num", "str"):
                    self.pkg.modify(old, 0, self.f, s, "modified in place (augmented assignment)")
        elif isinstance(t, ast.Subscript):
            b = self.ex(t.value)
            self.ex(t.slice)
            self.pkg.modify(b, 0, self.f, s, "an element is assigned")
        elif isinstance(t, ast.Attribute):
            if v.kind in ("list", "dict", "set", "ndarray"):
                self.pkg.modify(self.ex(t), 0, self.f, s, "modified in place (augmented assignment)")
            self.store_attr(t, Val(), s)

    def container(self, name):
        """is the variable used like a collection in this function?"""
        if self.evidence is None:
            self.evidence = set()
            for n in ast.walk(self.f.node):
                if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name):
                    self.evidence.add(n.value.id)
                elif isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.iter, ast.Name):
                    self.evidence.add(n.iter.id)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("len", "list", "sorted", "enumerate", "set") \
                        and n.args and isinstance(n.args[0], ast.Name):
                    self.evidence.add(n.args[0].id)
                elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.attr in ("shape", "reshape", "size", "flatten", "tolist"):
                    self.evidence.add(n.value.id)
        return name in self.evidence

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                self.pkg.modify(self.ex(t.value), 0, self.f, s, "an element is deleted")
            elif isinstance(t, ast.Attribute):
                self.store_attr(t, Val(), s)
            elif isinstance(t, ast.Name):
                self.env.pop(t.id, None)

    def s_Global(self, s):
        self.globals_declared |= set(s.names)

    def s_Nonlocal(self, s):
        pass

    def s_Return(self, s):
        if s.value is not None:
            self.returned(self.ex(s.value), s)

    def returned(self, v, s):
        self.f.ret = self.f.ret | v.o
        if v.kind:
            self.f.retkind = v.kind
        for r, d, l in v.o:
            if d == 0 and r[0] in ("default", "global", "classattr") and not self.module:
                self.pkg.escapes.setdefault((r, self.f.qual), (r, l, self.pkg.site(self.f, s), self.f))

    def s_If(self, s):
        self.ex(s.test)
        before = dict(self.env)
        self.block(s.body)
        a = self.env
        self.env = before
        self.block(s.orelse)
        ends_a = self.ends(s.body)
        ends_b = self.ends(s.orelse)
        if ends_a and not ends_b:
            return
        if ends_b and not ends_a:
            self.env = a
            return
        self.env = self.joined(a, self.env)

    def ends(self, body):
        return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))

    def s_For(self, s):
        it = self.ex(s.iter)
        el = self.elements(it)
        before = dict(self.env)
        for _ in range(2):
            self.assign(s.target, el, s)
            self.block(s.body)
            self.env = self.joined(before, self.env)
        self.block(s.orelse)

    def elements(self, it):
        if it.items and it.kind == "pairs":
            return Val({inside(o) for o in it.o}, None, None, it.items)
        if it.items:
            v = it.items[0]
            for w in it.items[1:]:
                v = v.join(w)
            return v
        return Val({inside(o) for o in it.o})

    def s_While(self, s):
        before = dict(self.env)
        for _ in range(2):
            self.ex(s.test)
            self.block(s.body)
            self.env = self.joined(before, self.env)
        self.block(s.orelse)

    def s_With(self, s):
        for i in s.items:
            v = self.ex(i.context_expr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, s)
        self.block(s.body)

    def s_Try(self, s):
        before = dict(self.env)
        self.block(s.body)
        mid = self.joined(before, self.env)
        outs = [dict(self.env)]
        for h in s.handlers:
            self.env = dict(mid)
            self.block(h.body)
            outs.append(self.env)
        self.env = self.joined(*outs)
        self.block(s.orelse)
        self.block(s.finalbody)

    def s_Expr(self, s):
        self.ex(s.value)

    # ---- expressions

    def lookup(self, e):
        if e.id in self.env and e.id not in self.globals_declared:
            return self.env[e.id]
        m = self.f.mod
        if e.id in m.globals:
            if any(mutable_expr(x) for x in m.globals[e.id]):
                return Val({(("global", m.name, e.id), 0, 0)})
            return NOTHING
        t = self.pkg.resolve_static(m, e)
        if isinstance(t, (Fn, Cls)):
            return Val(fn=t)
        if isinstance(t, tuple):
            mod = self.pkg.modules[t[1]]
            if any(mutable_expr(x) for x in mod.globals[t[2]]):
                return Val({(t, 0, 0)})
        return NOTHING

    def ex(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m:
            return m(e)
        for n in ast.iter_child_nodes(e):
            if isinstance(n, ast.expr):
                self.ex(n)
        return NOTHING

    def e_Name(self, e):
        return self.lookup(e)

    def e_Constant(self, e):
        return Val((), "str" if isinstance(e.value, str) else "num" if isinstance(e.value, (int, float)) else None)

    def e_Lambda(self, e):
        g = self.f.nested.get(e)
        if g is None:
            q = "%s.<lambda:%d:%d>" % (self.f.qual, e.lineno, e.col_offset)
            g = self.pkg.function(self.f.mod, e, q, None, self.f)
            self.f.nested[e] = g
        self.inner.append((g, None))
        return Val(fn=g)

    def e_Attribute(self, e):
        if self.is_self(e.value):
            return self.self_attr(e)
        if not (isinstance(e.value, ast.Name) and e.value.id in self.env):
            t = self.pkg.resolve_static(self.f.mod, e)
            if isinstance(t, (Fn, Cls)):
                return Val(fn=t)
            if isinstance(t, tuple):
                mod = self.pkg.modules[t[1]]
                if any(mutable_expr(x) for x in mod.globals[t[2]]):
                    return Val({(t, 0, 0)})
                return NOTHING
            c = self.pkg.resolve_static(self.f.mod, e.value)
            if isinstance(c, Cls):
                for k in self.pkg.mro(c):
                    if e.attr in k.attrs:
                        return Val({(("classattr", k.qual, e.attr), 0, 0)}) if mutable_expr(k.attrs[e.attr]) else NOTHING
        if self.is_class_of_self(e.value):
            for k in self.pkg.mro(self.f_class()):
                if e.attr in k.attrs and mutable_expr(k.attrs[e.attr]):
                    return Val({(("classattr", k.qual, e.attr), 0, 0)})
        b = self.ex(e.value)
        if e.attr in ("T", "flat", "real"):
            return Val(b.o, "ndarray")
        return Val({inside(o) for o in b.o})

    def self_attr(self, e):
        c = self.f_class()
        if "self." + e.attr in self.env:
            v = self.env["self." + e.attr]
            return Val(v.o | {inside(x) for x in self.env.get(e.value.id, NOTHING).o}, v.kind, v.fn)
        o = {inside(x) for x in self.env.get(e.value.id, NOTHING).o}
        fns = set()
        assigned = False
        related = [k for k in self.pkg.classes.values() if c in self.pkg.mro(k)] + self.pkg.mro(c)
        for k in dict.fromkeys(related):
            if e.attr in k.inst:
                assigned = True
                o |= set(k.inst[e.attr])
            fns |= k.instfn.get(e.attr, set())
        if not assigned:
            for k in self.pkg.mro(c):
                if e.attr in k.attrs:
                    if mutable_expr(k.attrs[e.attr]):
                        o.add((("classattr", k.qual, e.attr), 0, 0))
                    break
        mth = self.pkg.method(c, e.attr)
        if mth is not None and not assigned:
            if mth.property:
                return Val(o | set(self.bind_ret(mth, [self.env.get(e.value.id, NOTHING)], {})))
            return Val(fn=mth)
        return Val(o, None, next(iter(fns)) if len(fns) == 1 else None)

    def e_Subscript(self, e):
        b = self.ex(e.value)
        self.ex(e.slice)
        if isinstance(e.slice, ast.Slice):
            if b.kind == "ndarray":
                return b
            return Val({shallow(o) for o in b.o}, b.kind)
        if isinstance(e.slice, ast.Tuple) and any(isinstance(x, ast.Slice) for x in e.slice.elts):
            return Val(b.o, "ndarray")      # only an array takes such an index
        if b.items and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and b.kind != "pairs" \
                and -len(b.items) <= e.slice.value < len(b.items):
            return b.items[e.slice.value]
        return Val({inside(o) for o in b.o}, "ndarray" if b.kind == "ndarray" else None)

    def e_Starred(self, e):
        return self.ex(e.value)

    def display(self, elts, kind):
        vs = []
        o = set()
        starred = False
        for x in elts:
            v = self.ex(x)
            if isinstance(x, ast.Starred):
                starred = True
                o |= {shallow(z) for z in v.o}
            else:
                vs.append(v)
                o |= {(r, min(d + 1, CAP), l) for r, d, l in v.o}
        return Val(o, kind, None, None if starred else vs)

    def e_List(self, e):
        return self.display(e.elts, "list")

    def e_Tuple(self, e):
        return self.display(e.elts, "tuple")

    def e_Set(self, e):
        return self.display(e.elts, "set")

    def e_Dict(self, e):
        o = set()
        for k, v in zip(e.keys, e.values):
            if k is not None:
                self.ex(k)
                o |= {(r, min(d + 1, CAP), l) for r, d, l in self.ex(v).o}
            else:
                o |= {shallow(z) for z in self.ex(v).o}
        return Val(o, "dict")

    def comp(self, e, elts, kind):
        saved = dict(self.env)
        for g in e.generators:
            self.assign(g.target, self.elements(self.ex(g.iter)), e)
            for c in g.ifs:
                self.ex(c)
        o = set()
        for x in elts:
            o |= {(r, min(d + 1, CAP), l) for r, d, l in self.ex(x).o}
        self.env = saved
        return Val(o, kind)

    def e_ListComp(self, e):
        return self.comp(e, [e.elt], "list")

    def e_SetComp(self, e):
        return self.comp(e, [e.elt], "set")

    def e_GeneratorExp(self, e):
        return self.comp(e, [e.elt], "list")

    def e_DictComp(self, e):
        return self.comp(e, [e.key, e.value], "dict")

    def e_IfExp(self, e):
        self.ex(e.test)
        return self.ex(e.body).join(self.ex(e.orelse))

    def e_BoolOp(self, e):
        v = self.ex(e.values[0])
        for x in e.values[1:]:
            v = v.join(self.ex(x))
        return v

    def e_BinOp(self, e):
        a, b = self.ex(e.left), self.ex(e.right)
        kinds = {a.kind, b.kind}
        kind = "ndarray" if "ndarray" in kinds else "list" if "list" in kinds else "num" if kinds == {"num"} else None
        if kind == "ndarray" or not isinstance(e.op, (ast.Add, ast.Mult, ast.BitOr)):
            return Val((), kind)
        return Val({shallow(o) for o in a.o | b.o}, kind)

    def e_NamedExpr(self, e):
        v = self.ex(e.value)
        self.assign(e.target, v, e)
        return v

    def e_Yield(self, e):
        if e.value is not None:
            v = self.ex(e.value)
            self.f.ret = self.f.ret | frozenset((r, min(d + 1, CAP), l) for r, d, l in v.o)
        return NOTHING

    # ---- calls

    def e_Call(self, e):
        args = [self.ex(a) for a in e.args]
        kws = {k.arg: self.ex(k.value) for k in e.keywords}
        starred = any(isinstance(a, ast.Starred) for a in e.args)
        f = e.func
        # super().m(...)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
            c = self.f_class()
            for b in (c.bases if c else ()):
                g = self.pkg.method(b, f.attr)
                if g is not None:
                    me = self.env.get(self.self_name(), NOTHING)
                    return self.call_fn(g, [me] + args, kws, e, starred)
            return NOTHING
        if isinstance(f, ast.Attribute):
            dotted = self.pkg.dotted(self.f.mod, f) if self.external(f) else None
            if dotted is not None:
                t = self.pkg.by_dotted(dotted)
                if isinstance(t, (Fn, Cls)):
                    return self.call_any(t, args, kws, e, starred)
                return self.ext(dotted, args, kws, e)
            if self.is_self(f.value):
                v = self.self_attr(f)
                if v.fn is not None:
                    me = [self.env.get(f.value.id, NOTHING)] if isinstance(v.fn, Fn) and v.fn.cls is not None and not v.fn.static else []
                    r = self.call_any(v.fn, me + args, kws, e, starred)
                    for k in [k for k in self.env if k.startswith("self.")]:
                        del self.env[k]
                    return r
            return self.method_call(f, args, kws, e)
        v = self.ex(f)
        if v.fn is not None:
            return self.call_any(v.fn, args, kws, e, starred)
        if isinstance(f, ast.Name) and f.id not in self.env:
            return self.ext(self.pkg.dotted(self.f.mod, f), args, kws, e)
        return NOTHING

    def self_name(self):
        f = self.f
        while f.parent is not None:
            f = f.parent
        return f.params[0] if f.params else "self"

    def external(self, f):
        """is this attribute chain rooted in an imported (not local) name?"""
        b = f
        while isinstance(b, ast.Attribute):
            b = b.value
        return isinstance(b, ast.Name) and b.id not in self.env and (b.id in self.f.mod.imports or b.id in self.f.mod.classes)

    def call_any(self, t, args, kws, e, starred=False):
        if isinstance(t, Cls):
            g = self.pkg.method(t, "__init__")
            self.f.calls.add(t.qual)
            if g is not None:
                self.call_fn(g, [NOTHING] + args, kws, e, starred)
            return Val()
        return self.call_fn(t, args, kws, e, starred)

    def call_fn(self, g, args, kws, e, starred=False):
        self.f.calls.add(g.qual)
        bound = self.bind(g, args, kws, starred)
        for p, v in bound.items():
            if not v.o:
                continue
            root = ("param", g.qual, p)
            for ev in self.pkg.events_of(root):
                if len(ev.via) > 6:
                    continue
                self.pkg.modify(v, ev.level, self.f, e, ev.how + " in " + ev.fn.name + " (%s:%d)" % ev.site[:2], ev.via + (g.qual,))
        # closures the callee creates keep what they are given
        ret = self.bind_ret(g, args, kws, starred)
        return Val(ret, g.retkind)

    def bind(self, g, args, kws, starred=False):
        out = {}
        if starred:
            o = set()
            for a in args:
                o |= {x for x in a.o}
            return {p: Val({inside(x) for x in o} | o) for p in g.params} if False else {}
        for i, a in enumerate(args):
            if i < len(g.params):
                out[g.params[i]] = a
            elif g.vararg:
                old = out.get(g.vararg, Val())
                out[g.vararg] = Val(old.o | {(r, min(d + 1, CAP), l) for r, d, l in a.o})
        for k, a in kws.items():
            if k in g.params or k in g.kwonly:
                out[k] = a
            elif g.kwarg and k is not None:
                old = out.get(g.kwarg, Val())
                out[g.kwarg] = Val(old.o | {(r, min(d + 1, CAP), l) for r, d, l in a.o})
        return out

    def bind_ret(self, g, args, kws, starred=False):
        bound = self.bind(g, args, kws, starred)
        out = set()
        for r, d, l in g.ret:
            if r[0] == "param" and r[1] == g.qual:
                for r2, d2, l2 in bound.get(r[2], NOTHING).o:
                    out.add((r2, min(d + max(0, d2 - l), CAP), min(l2 + max(0, l - d2), CAP)))
            else:
                out.add((r, d, l))
        return out

    def ext(self, name, args, kws, e):
        self.f.calls.add("ext:" + name)
        self.f.callsites.append((name, e))
        a = args[0] if args else NOTHING
        if name in EXT_MUTATE and args:
            self.pkg.modify(a, 0, self.f, e, "modified by %s" % name)
        if "out" in kws:
            self.pkg.modify(kws["out"], 0, self.f, e, "modified by %s(out=...)" % name)
        if name in SHALLOW:
            src = args[1:] if name in ("map", "filter") else args
            o = set()
            for x in src:
                o |= {shallow(z) for z in x.o}
            if name == "map" and args and args[0].fn is not None and isinstance(args[0].fn, Fn):
                els = [self.elements(x) for x in src]
                return Val({(r, min(d + 1, CAP), l) for r, d, l in self.call_fn(args[0].fn, els, {}, e).o}, "list")
            return Val(o, "list" if name in ("list", "sorted") else name if name in ("set", "dict") else None)
        if name in PAIRS:
            o = set()
            for x in args:
                o |= {(r, min(d + 1, CAP), l) for r, d, l in (shallow(z) for z in x.o)}
            items = None
            if name == "enumerate":
                items = [Val((), "num"), self.elements(a)]
            elif name == "zip":
                items = [self.elements(x) for x in args]
            return Val(o, "pairs", None, items)
        if name in ALIAS:
            o = set()
            for x in args if name in ("min", "max") else args[:1]:
                o |= {inside(z) for z in x.o} if name in ("min", "max", "next") and (len(args) == 1 or name == "next") else x.o
            return Val(o, "ndarray" if name.startswith("numpy.") else None)
        if name == "numpy.array" and "copy" in kws:
            return Val(a.o, "ndarray")
        if name.startswith("numpy."):
            return Val((), "ndarray")
        if name in ("int", "float", "len", "abs", "sum", "round", "ord"):
            return Val((), "num")
        if name == "str":
            return Val((), "str")
        if name == "functools.partial" and args and args[0].fn is not None:
            return Val(fn=args[0].fn)
        return NOTHING

    def method_call(self, f, args, kws, e):
        b = self.ex(f.value)
        n = f.attr
        self.f.calls.add("meth:" + n)
        self.f.callsites.append(("." + n, e))
        if b.fn is not None and isinstance(b.fn, Cls):
            g = self.pkg.method(b.fn, n)
            if g is not None:
                return self.call_fn(g, args, kws, e)
        if n in MUTATORS and not (n in ("update", "add") and b.kind in ("num", "str")):
            self.pkg.modify(b, 0, self.f, e, ".%s()" % n)
            if n in ("append", "add", "insert", "appendleft", "setdefault") and args:
                self.put(f.value, args[-1])
            elif n in ("extend", "update") and args:
                for x in args:
                    self.put(f.value, Val({inside(o) for o in x.o}))
        elif b.o and n not in MUTATORS:
            m = self.pkg.mutates_self(n)
            if m is not None and not all(r[0] == "param" and r[2] == "ctx" and l == 0 for r, d, l in b.o):
                self.pkg.modify(b, 0, self.f, e, ".%s()" % n)
        if "out" in kws:
            self.pkg.modify(kws["out"], 0, self.f, e, "modified by .%s(out=...)" % n)
        if n == "copy":
            return Val({shallow(o) for o in b.o}, b.kind)
        if n in ALIAS_METHODS:
            return Val(b.o, "ndarray")
        if n in PART_METHODS:
            o = {inside(x) for x in b.o}
            for x in args[1:]:
                o |= x.o
            return Val(o)
        if n in ("values", "nodes"):
            return Val({shallow(o) for o in b.o})
        if n == "items":
            return Val({(r, min(d + 1, CAP), l) for r, d, l in (shallow(o) for o in b.o)}, "pairs", None, [Val(), Val({inside(o) for o in b.o})])
        if n in ("astype", "flatten"):
            return Val((), "ndarray")
        if n == "tolist":
            return Val((), "list")
        if n in ("join", "format", "strip", "lower"):
            return Val((), "str")
        if n in ("split",):
            return Val((), "list")
        # a method of the package that returns a part of the object
        fs = [c.methods[n] for c in self.pkg.classes.values() if n in c.methods]
        if len(fs) == 1 and b.o and not fs[0].static:
            return Val(self.bind_ret(fs[0], [b] + args, kws))
        return NOTHING
