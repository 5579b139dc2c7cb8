"""
Interprocedural value-flow analysis of the netomaton package, from source.

The package is never imported or run.  An entry point is analysed on symbolic arguments; calls to functions, methods,
properties, closures and generators of the package are followed into their bodies; branches are merged where they join
(into canonical conditional values, see terms.py); a loop body is analysed once, for a generic iteration, after a first
pass that finds what the loop carries from one iteration to the next.  The result is
  - the value that flows to each program point of interest, as a term over the entry point's inputs, and
  - a log of effects (writes to containers and attributes, calls of unknown code, raised exceptions), each with the
    condition under which it happens, the loops it happens in and its source location.
Constructs that the analysis does not model yield 'unk' terms, which no rule ever treats as evidence of a violation.
"""
import ast
import copy
import os
import sys
import warnings
from .terms import *
from . import adt
from . import replay
from . import small
from . import terms as tm

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class AnalysisError(Exception):
    """an anchor (a public entry point) does not exist any more"""


class Ev(object):
    __slots__ = ("n", "kind", "tgt", "key", "val", "guard", "loops", "site", "extra", "assume")

    def __repr__(self):
        return "<%d %s %s[%s] = %s if %s in %s at %s>" % (
            self.n, self.kind, show(self.tgt) if self.tgt is not None else None,
            show(self.key) if isinstance(self.key, T) else self.key,
            show(self.val) if isinstance(self.val, T) else self.val, show(self.guard), self.loops, self.site_str())

    def site_str(self):
        return "%s:%d (%s)" % self.site if self.site else "?"


class Func(object):
    def __init__(self, fid, node, module, frame, cls, name):
        self.fid, self.node, self.module, self.frame, self.cls, self.name = fid, node, module, frame, cls, name
        self.defaults = []
        self.kw_defaults = {}
        self.decorators = []
        self.is_gen = False


class Cls(object):
    def __init__(self, name, module, node):
        self.name, self.module, self.node = name, module, node
        self.bases = []
        self.attrs = {}
        self.is_enum = False

    def mro(self, eng):
        out = [self]
        for b in self.bases:
            if b.op == "class" and b.args[0] in eng.classes:
                out.extend(eng.classes[b.args[0]].mro(eng))
        return out

    def find(self, eng, name):
        for c in self.mro(eng):
            if name in c.attrs:
                return c.attrs[name]
        return None


class Frame(object):
    def __init__(self, func, module, parent=None):
        self.func = func
        self.module = module
        self.env = {}
        self.parent = parent
        self.returns = []
        self.globals_decl = set()
        self.nonlocal_decl = set()
        self.yields = None
        self.loop_base = 0
        self.ls_base = 0
        self.loop_returns = []
        self.cls = None
        self.entry_pc = TRUE


class Loop(object):
    def __init__(self, lid, dom, nest, site):
        self.lid, self.dom, self.nest, self.site = lid, dom, nest, site
        self.brk = FALSE
        self.mu = {}      # name -> (init, next)
        self.breaks = []  # (pc, env)
        self.conts = []
        self.rets = []


class Module(object):
    def __init__(self, name, path, tree, source):
        self.name, self.path, self.tree, self.source = name, path, tree, source
        self.frame = None
        self.state = 0


MAXDEPTH = 30


def may_be_negative(k):
    """an index that is computed with a subtraction (or from a negative number) may count from the end"""
    if k.op in ("idx", "bv", "len", "mod", "abs"):
        return False
    if k.op == "const":
        return isinstance(k.args[0], (int, float)) and k.args[0] < 0
    if k.op == "ite":
        return may_be_negative(k.args[1]) or may_be_negative(k.args[2])
    if k.op == "aff":
        return k.args[0] < 0 or any(c < 0 for c in k.args[2]) or any(may_be_negative(x) for x in k.args[1])
    if k.op in ("item", "nth", "mul", "floordiv", "call", "min", "max", "tuple", "seq", "part"):
        seen = set()
        stack = list(k.args)
        while stack:
            x = stack.pop()
            if isinstance(x, tuple):
                stack.extend(x)
            elif isinstance(x, T) and x not in seen:
                seen.add(x)
                if x.op == "const" and isinstance(x.args[0], (int, float)) and x.args[0] < 0 and k.op != "item":
                    return True
                if x.op == "aff" and (x.args[0] < 0 or any(c < 0 for c in x.args[2])):
                    return True
                if x.op in ("mod", "abs", "len"):
                    continue
                stack.extend(x.args)
    return False


def paths_to(t, g):
    """the leaves of t with the conditions under which t is each"""
    if t.op != "ite":
        return [(t, g)]
    c = atom_of(t.args[0])
    out = {}
    for x, h in paths_to(t.args[1], AND(g, c)) + paths_to(t.args[2], AND(g, NOT(c))):
        out[x] = OR(out[x], h) if x in out else h
    return list(out.items())


class Engine(object):
    def __init__(self, repo, package="netomaton"):
        self.repo = repo
        self.package = package
        self.modules = {}
        self.funcs = {}
        self.classes = {}
        self.types = {}
        self.resinfo = {}
        self.typehooks = []
        self.resolve_res_type = {}
        self.objs = {}
        self.loc = {}
        self.log = []
        self.by_root = {}
        self.loopinfo = {}
        self.counters = {"obj": 0, "loop": 0, "call": 0, "func": 0, "unk": 0, "site": 0}
        self.pc = TRUE
        self.assume = TRUE
        self.raised = FALSE
        self.unsound = []
        self.trys = 0
        self.loops = ()
        self.loopstack = []
        self.stack = []
        self.frame = None
        self.site = None
        self.notes = []
        self.analysed = set()
        self.callsites = 0
        self.callbacks = {}
        self.ext_override = {}      # library functions that a rule interprets in its own way
        self.steps = 0
        self.maxsteps = 400000
        self.dictlike = set()
        self.reloc_src = {}
        self.opaque_classes = set()
        self.opaque = set()
        # the analysed code raises nothing but what its raise statements say: a handler runs exactly when one of them does
        self.exact_raises = False
        self.iterators = {}
        self.small = False          # arrays of a few cells are followed cell by cell (small.py)
        self.notnone = set()
        self.unroll, self.unroll_range = 12, 6      # how long the sequences and ranges are that loops go through element by element
        self.peel_unknown = 0       # this many rounds of a while loop are followed whatever its condition is; what takes longer is left out (cut)
        self.cut = FALSE
        self.peel = 0
        self.abstract_props = set()
        self.truthy_types = set()
        self._load()

    # ------------------------------------------------------------------------------------------ loading

    def _load(self):
        root = os.path.join(self.repo, self.package)
        if not os.path.isdir(root):
            raise AnalysisError("no package %s in %s" % (self.package, self.repo))
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.repo)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[:-len(".__init__")]
                with open(p, encoding="utf-8") as fh:
                    src = fh.read()
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    tree = ast.parse(src, p)
                self.modules[name] = Module(name, rel, tree, src)
        for m in list(self.modules):
            self._exec_module(m)

    def _exec_module(self, name):
        m = self.modules[name]
        if m.state:
            return m
        m.state = 1
        fr = Frame(None, m)
        m.frame = fr
        fr.env["__name__"] = const(name)
        saved = (self.frame, self.pc, self.assume, self.raised, self.loops, self.loopstack, self.site)
        self.frame, self.pc, self.assume, self.raised, self.loops, self.loopstack = fr, TRUE, TRUE, FALSE, (), []
        try:
            self.block(m.tree.body)
        finally:
            self.frame, self.pc, self.assume, self.raised, self.loops, self.loopstack, self.site = saved
        m.state = 2
        return m

    def lookup_export(self, dotted):
        """the value of e.g. 'netomaton.evolution.evolve' or 'netomaton.evolve'"""
        parts = dotted.split(".")
        for i in range(len(parts), 0, -1):
            mod = ".".join(parts[:i])
            if mod in self.modules:
                v = mk("module", mod)
                for p in parts[i:]:
                    v = self.getattr(v, p)
                    if v is None or v.op in ("unk", "missing", "ext"):
                        raise AnalysisError("%s does not exist" % dotted)
                return v
        raise AnalysisError("%s does not exist" % dotted)

    # ------------------------------------------------------------------------------------------ bookkeeping

    def unk(self, why):
        self.counters["unk"] += 1
        self.notes.append((why, self.site))
        return mk("unk", why, self.counters["unk"])

    def full_pc(self):
        return AND(self.pc, self.assume)

    def simp(self, v):
        if v.op != "ite":
            return v
        return simplify(v, self.full_pc())

    def root(self, t):
        while t.op in ("item", "attr", "nth"):
            t = t.args[0]
        if t.op == "obj":
            return ("obj", t.args[0])
        return t

    def emit(self, kind, tgt=None, key=None, val=None, extra=None):
        e = Ev()
        e.n = len(self.log)
        e.kind, e.tgt, e.key, e.val = kind, tgt, key, val
        e.guard = self.pc
        e.assume = self.assume
        e.loops = self.loops
        e.site = self.site
        e.extra = extra
        self.log.append(e)
        if tgt is not None and kind not in ("havoc", "havocattr") and e.tgt.op != "obj":
            r = tgt
            while r.op in ("item", "attr", "nth"):
                r = r.args[0]
            if r.op in ("seq", "seqof", "sliced", "sorted", "dictof", "first", "rd"):
                self.unsound.append(e)
            elif self.maybe_instance(tgt):
                self.unsound.append(e)
        if tgt is not None:
            self.by_root.setdefault(self.root(tgt), []).append(e)
        return e

    def maybe_instance(self, t):
        """may this element of a list be one of the instances that were put there?"""
        while t.op in ("item", "nth", "attr"):
            t = t.args[0]
            p = t.args[0] if t.op == "den" else t
            if p.op in ("item", "nth", "attr", "param", "obj") and any(
                    o.kind in ("append", "insert") and isinstance(o.val, T) and any(x.op == "obj" for x in leaves(o.val))
                    and self.alias(o.tgt, p) != "no" for o in self.by_root.get(self.root(p), ())):
                return True
        return False

    def truncate(self, n):
        while len(self.log) > n:
            e = self.log.pop()
            if e.tgt is not None:
                l = self.by_root[self.root(e.tgt)]
                assert l[-1] is e
                l.pop()

    def cur_idx(self):
        return tuple(mk("idx", l) for l in self.loops)

    def alloc(self, kind, cls=None):
        n = self.counters["obj"]
        self.counters["obj"] += 1
        t = mk("obj", n, self.cur_idx())
        self.objs[n] = {"kind": kind, "cls": cls, "site": self.site, "loops": self.loops, "pos": len(self.log),
                        "guard": self.pc}
        return t

    def kind(self, t):
        """what sort of value a term is, as far as known"""
        if t.op == "obj":
            m = self.objs[t.args[0]]
            return m["kind"]
        if t.op == "const":
            v = t.args[0]
            if isinstance(v, str):
                return "str"
            if isinstance(v, bool):
                return "bool"
            if isinstance(v, (int, float)):
                return "num"
            return "none" if v is None else "const"
        if t.op in NUMERIC_OPS:
            return "num"
        if t.op in ("concatstr", "fmt", "str", "joined"):
            return "str"
        if t.op in ("concat", "seq", "seqof", "sorted", "den", "slice"):
            return "list"
        if t.op == "tuple":
            return "tuple"
        if t.op == "dictof":
            return "dict"
        if t.op in ("func", "class", "bound", "ext", "module", "enum", "partial"):
            return t.op
        ty = self.type_of(t)
        if ty:
            return ty
        return None

    def type_of(self, t):
        ty = self.types.get(t)
        if ty is not None:
            return ty
        for h in self.typehooks:
            ty = h(self, t)
            if ty is not None:
                self.types[t] = ty
                return ty
        return None

    def cls_of(self, t):
        if t.op == "obj":
            return self.objs[t.args[0]]["cls"]
        ty = self.type_of(t)
        if isinstance(ty, str) and ty.startswith("class:"):
            return ty[6:]
        if t.op == "mu":
            pass
        return None

    # ------------------------------------------------------------------------------------------ aliasing and lookup

    def key_alias(self, a, b):
        if a is b:
            return "must"
        if not isinstance(a, T) or not isinstance(b, T):
            return "must" if a == b else "no"
        if a.op == "const" and b.op == "const":
            return "no"
        if a.op in ("enum", "const", "class") and b.op in ("enum", "const", "class"):
            return "no"
        if (a.op == "const" and isinstance(a.args[0], str) and numeric(b)) or \
                (b.op == "const" and isinstance(b.args[0], str) and numeric(a)):
            return "no"
        if a.op == "tuple" and b.op == "tuple":
            if len(a.args[0]) != len(b.args[0]):
                return "no"
            rs = [self.key_alias(x, y) for x, y in zip(a.args[0], b.args[0])]
            if "no" in rs:
                return "no"
            return "must" if all(r == "must" for r in rs) else "may"
        if a.op == "tuple" and numeric(b) or b.op == "tuple" and numeric(a):
            return "no"
        if numeric(a) and numeric(b) and a.op != "ite" and b.op != "ite":
            d = sub(a, b)
            if num_const(d):
                return "must" if d.args[0] == 0 else "no"
        if a.op == "ite" or b.op == "ite":
            rs = {self.key_alias(x, y) for x in leaves(a) for y in leaves(b)}
            if rs == {"no"}:
                return "no"
        return "may"

    def steps_of(self, t):
        s = []
        while t.op in ("item", "attr", "nth"):
            s.append((t.op, t.args[1]))
            t = t.args[0]
        s.reverse()
        return t, s

    def alias(self, a, b):
        if a is b:
            return "must"
        if a.op == "obj" and b.op == "obj":
            if a.args[0] != b.args[0]:
                return "no"
            rs = [self.key_alias(x, y) for x, y in zip(a.args[1], b.args[1])]
            return "no" if "no" in rs else "may"
        ra, sa = self.steps_of(a)
        rb, sb = self.steps_of(b)
        if ra.op == "obj" and rb.op == "obj" and ra.args[0] != rb.args[0]:
            return "no"
        if ra is not rb:
            return "no" if not self.roots_may_alias(ra, rb) else ("may" if len(sa) == len(sb) else "no")
        if len(sa) != len(sb):
            return "no"
        res = "must"
        for (o1, k1), (o2, k2) in zip(sa, sb):
            if o1 == "attr" or o2 == "attr":
                if o1 != o2 or k1 != k2:
                    return "no"
                continue
            r = self.key_alias(k1, k2)
            if o1 != o2 and r == "must":
                r = "may"
            if r == "no":
                return "no"
            if r == "may":
                res = "may"
        return res

    def mu_sources(self, t, seen=None):
        """the objects a loop-carried variable may refer to"""
        if seen is None:
            seen = set()
        if t in seen:
            return set()
        seen.add(t)
        if t.op == "ite":
            out = set()
            for l in leaves(t):
                out |= self.mu_sources(l, seen)
            return out
        if t.op in ("mu", "out"):
            info = self.loopinfo.get(t.args[0])
            p = info.mu.get(t.args[1]) if info else None
            out = {t}
            if p:
                for x in p:
                    if x is not None:
                        out |= self.mu_sources(x, seen)
            return out
        return {t}

    def roots_may_alias(self, a, b):
        if a.op in ("mu", "out") or b.op in ("mu", "out"):
            sa, sb = self.mu_sources(a), self.mu_sources(b)
            for x in sa:
                for y in sb:
                    if x is y:
                        # the instance allocated in an earlier iteration is not the current one
                        if x.op == "obj":
                            la = [l for l in (a.args[0] if a.op == "mu" else None, b.args[0] if b.op == "mu" else None) if l is not None]
                            if any(l in self.objs[x.args[0]]["loops"] for l in la) and (a is x or b is x):
                                continue
                        return True
            return False
        return False

    def unify_loop(self, pat, q, L):
        """the value of idx(L) for which the term pat is q, if that can be read off"""
        i = mk("idx", L)
        if pat is i:
            return q
        if pat.op == "nth" and pat.args[1] is i and q.op == "nth" and q.args[0] is pat.args[0]:
            return q.args[1]
        if pat.op == "aff" and i in pat.args[1]:
            k = dict(zip(pat.args[1], pat.args[2]))
            if k[i] == 1:
                rest = sub(pat, i)
                if L not in rest.loops:
                    r = sub(q, rest)
                    return r
        return None

    def lookup(self, tgt, key, step="item", pos=None, missing=None):
        """
        The value of tgt[key] (or tgt.key) at the given position of the log: a conditional value over the writes that
        may have happened.  missing: value when nothing was stored (default: symbolic read of the initial content).
        """
        if pos is None:
            pos = len(self.log)
        r = self._lookup(tgt, key, step, pos, self.full_pc(), missing, 0)
        return self.simp(r)

    def _lookup(self, tgt, key, step, pos, pc, missing, depth):
        if depth > 40:
            return self.unk("lookup depth")
        kinds = ("sattr", "havocattr") if step == "attr" else ("store", "del", "havoc", "append", "insert", "clear", "mutate",
                                                               "pop", "remove", "update", "ucontent")
        evs = self.by_root.get(self.root(tgt), ())
        parent, pkey = None, None
        if tgt.op == "item":
            parent, pkey = tgt.args
        base = tgt
        for e in reversed(evs):
            if e.n >= pos:
                continue
            # the container itself was put in place by a store into its parent: look inside what was stored
            if parent is not None and e.kind == "store" and e.tgt is parent and e.key is pkey and isinstance(e.val, T) \
                    and (e.val.op == "obj" or e.extra == "reloc"):
                g = self.event_guard(e)
                if g is not None and g is not FALSE:
                    src = self.reloc_src.get(e.n, e.val)
                    if src.op == "obj":
                        inner = self._lookup(src, key, step, pos, AND(pc, g), missing, depth + 1)
                        if implies(pc, g):
                            return inner
                        rest = self._lookup(tgt, key, step, e.n, AND(pc, NOT(g)), missing, depth + 1)
                        return ite(g, inner, rest)
            if e.kind not in kinds:
                continue
            al = self.alias(e.tgt, tgt)
            if al == "no":
                continue
            if e.kind in ("havoc", "havocattr"):
                if e.extra["loop"] not in self.loops:
                    continue
                if e.key is None:
                    if self.havoc_irrelevant(e, tgt, key):
                        continue
                    return mk("rd", tgt, key if isinstance(key, T) else const(key), e.n)
                ka = self.key_alias(e.key, key)
                if ka == "must" and al == "must":
                    return e.val
                if ka == "no":
                    continue
                return mk("rd", tgt, key if isinstance(key, T) else const(key), e.n)
            if e.kind in ("append", "insert", "clear", "mutate", "pop", "remove", "update", "ucontent"):
                r = self._list_lookup(tgt, key, e, pos, pc, depth)
                if r is not None:
                    return r
                if e.kind == "append" and key is const(-1) and e.loops == self.loops[:len(e.loops)]:
                    g = TRUE if al == "must" else self.same_place(e.tgt, ZERO, tgt, ZERO)
                    if g is not None:
                        g = simplify(AND(g, e.guard), pc)
                        if g is FALSE:
                            continue
                        if g is TRUE:
                            return e.val
                        return ite(g, e.val, self._lookup(tgt, key, step, e.n, AND(pc, NOT(g)), missing, depth + 1))
                return mk("rd", tgt, key if isinstance(key, T) else const(key), e.n)
            ka = self.key_alias(e.key, key)
            inloop = e.loops != self.loops[:len(e.loops)]
            if inloop:
                r = self._finished(e, tgt, key, al)
                if r is None:
                    continue
                if r == "may":
                    r = self._loop_read(e, tgt, key, pos, pc, missing, depth)
                    if isinstance(r, T):
                        return r
                if r == "may":
                    return mk("rd", tgt, key if isinstance(key, T) else const(key), e.n)
                g, v = r
            else:
                if ka == "no":
                    continue
                g = e.guard
                v = e.val
                if ka == "may" or al == "may":
                    if e.guard is FALSE or implies(AND(pc, e.guard), FALSE):
                        continue
                    c = self.same_place(e.tgt, e.key, tgt, key)
                    if c is None:
                        return mk("rd", tgt, key if isinstance(key, T) else const(key), e.n)
                    g = AND(g, c)
            if e.kind == "del":
                v = mk("missing", tgt, key if isinstance(key, T) else const(key)) if missing is None else missing
            g = simplify(g, pc)
            if g is FALSE:
                continue
            if g is TRUE:
                return v
            rest = self._lookup(tgt, key, step, e.n, AND(pc, NOT(g)), missing, depth + 1)
            return ite(g, v, rest)
        return self._initial(base, key, step, missing)

    def same_place(self, t1, k1, t2, k2):
        """the condition under which two places of tree-shaped data are the same one, or None"""
        r1, s1 = self.steps_of(t1)
        r2, s2 = self.steps_of(t2)
        c = TRUE
        if r1 is not r2:
            if r1.op == "obj" and r2.op == "obj" and r1.args[0] == r2.args[0]:
                for x, y in zip(r1.args[1], r2.args[1]):
                    c = AND(c, compare("eq", x, y))
            else:
                return None
        if len(s1) != len(s2):
            return FALSE
        holders = []
        t = t1
        while t.op in ("item", "attr", "nth"):
            t = t.args[0]
            holders.append(t)
        holders = holders[::-1] + [t1]
        for h, (o1, x), (o2, y) in zip(holders, list(s1) + [("item", k1)], list(s2) + [("item", k2)]):
            if not isinstance(x, T):
                x = const(x)
            if not isinstance(y, T):
                y = const(y)
            if o1 != o2:
                if "attr" in (o1, o2) or self.type_of(h) != "list" or \
                        any(z.op == "const" and not (isinstance(z.args[0], int) and z.args[0] >= 0) for z in (x, y)):
                    return None
            if o1 == "attr":
                if x is not y:
                    return FALSE
                continue
            if any(z.op in ("rd", "unk", "missing") for z in (x, y)):
                return None
            c = AND(c, compare("eq", x, y))
        return c

    def havoc_irrelevant(self, e, tgt, key):
        ks = e.extra.get("keys")
        L = e.extra["loop"]
        if not ks or not isinstance(key, T):
            return False
        i = mk("idx", L)
        for k in ks:
            if k is None:
                return False
            if k is key and self.injective(k, i):
                continue
            if self.key_alias(k, key) == "no" and self.key_alias(subst(k, {i: mk("idx", L + 10 ** 6)}), key) == "no":
                continue
            return False
        return True

    def injective(self, k, i):
        if k is i:
            return True
        if k.op == "nth" and k.args[1] is i and self.is_dictlike(k.args[0]):
            return True
        if k.op == "aff" and i in k.args[1] and all(x is i or i.args[0] not in x.loops for x in k.args[1]):
            return True
        return False

    def is_dictlike(self, x):
        if x in self.dictlike:
            return True
        k = self.kind(x)
        return k in ("dict", "set", "keys")

    def event_guard(self, e):
        if e.loops == self.loops[:len(e.loops)]:
            return e.guard
        return None

    def _finished(self, e, tgt, key, al):
        """an event of a loop that is over: (guard, value) as seen now, None when irrelevant, 'may' when unknown"""
        done = [l for l in e.loops if l not in self.loops]
        if not done or not isinstance(key, T):
            done = done or list(e.loops)
        k, v, g = e.key, e.val, e.guard
        if not isinstance(k, T):
            k = const(k)
        qk = key if isinstance(key, T) else const(key)
        tl = e.tgt.loops & set(done)
        m = {}
        for L in reversed(done):
            if L in k.loops:
                s = self.unify_loop(k, qk, L)
                if s is None and k.op == "nth" and k.args[1] is mk("idx", L):
                    # stored for every element of a collection: present exactly for its elements
                    X = k.args[0]
                    if isinstance(v, T):
                        ph = mk("bv", 10 ** 6)
                        v2, g2 = subst(v, {k: ph}), subst(g, {k: ph})
                        if L not in v2.loops and L not in g2.loops and len(done) == 1 and not tl:
                            return AND(self.contains(qk, X), subst(g2, {ph: qk})), subst(v2, {ph: qk})
                    return "may"
                if s is None:
                    if self.key_alias(k, qk) == "no" and self.key_alias(subst(k, {mk("idx", L): mk("idx", 10 ** 7)}), qk) == "no":
                        return None
                    return "may"
                m[mk("idx", L)] = s
                k = subst(k, {mk("idx", L): s})
        rng = TRUE
        for i, s in m.items():
            d = self.loopinfo[i.args[0]].dom
            rng = AND(rng, self.in_domain(s, d))
        if m:
            v = subst(v, m) if isinstance(v, T) else v
            g = subst(g, m)
        left = [l for l in done if (isinstance(v, T) and l in v.loops)]
        t2 = subst(e.tgt, m) if m else e.tgt
        if t2 is not tgt:
            a = self.alias(t2, tgt)
            if a == "no":
                return None
            if a == "may":
                if t2.loops & set(done):
                    # which object was written depends on the finished loop: solve for it
                    if t2.op == "obj" and tgt.op == "obj" and t2.args[0] == tgt.args[0]:
                        mm = {}
                        for x, y in zip(t2.args[1], tgt.args[1]):
                            if x.op == "idx" and x.args[0] in done:
                                mm[x] = y
                        if mm:
                            if isinstance(v, T):
                                v = subst(v, mm)
                            g = subst(g, mm)
                            k = subst(k, mm)
                            for i, s in mm.items():
                                rng = AND(rng, self.in_domain(s, self.loopinfo[i.args[0]].dom))
                            left = [l for l in done if isinstance(v, T) and l in v.loops]
                            t2 = subst(t2, mm)
                            if t2 is not tgt:
                                return "may"
                        else:
                            return "may"
                    else:
                        return "may"
                else:
                    return "may"
        if left:
            return "may"
        ka = self.key_alias(k, qk)
        if ka == "no":
            return None
        if ka == "may":
            return "may"
        gl = [l for l in done if l in g.loops]
        if gl:
            doms, gg, _ = self.close(gl, g, NONE)
            g = exists_closed(doms, gg)
        else:
            rest = [l for l in done if mk("idx", l) not in m]
            for l in rest:
                d = self.loopinfo[l].dom
                g = AND(g, self.dom_nonempty(d))
        return AND(g, rng), v

    def match_event(self, e, tgt, key):
        """
        (substitution, condition, value, remaining loops) for a write of a finished loop to be a write to tgt[key], or None
        """
        done = [l for l in e.loops if l not in self.loops]
        k = e.key if isinstance(e.key, T) else const(e.key)
        qk = key if isinstance(key, T) else const(key)
        m = {}

        def unify(pat, q):
            if pat.op == "idx" and pat.args[0] in done and pat not in m and not (q.loops & set(done)):
                m[pat] = q
            elif pat.op == "tuple" and q.op == "tuple" and len(pat.args[0]) == len(q.args[0]):
                for x, y in zip(pat.args[0], q.args[0]):
                    unify(x, y)
            elif pat.op == "nth" and q.op == "nth" and pat.args[0] is q.args[0]:
                unify(pat.args[1], q.args[1])
        unify(k, qk)
        r1, s1 = self.steps_of(e.tgt)
        r2, s2 = self.steps_of(tgt)
        if r1.op == "obj" and r2.op == "obj" and r1.args[0] == r2.args[0]:
            for x, y in zip(r1.args[1], r2.args[1]):
                unify(x, y)
        for (o1, x), (o2, y) in zip(s1, s2):
            if isinstance(x, T) and isinstance(y, T):
                unify(x, y)
        rng = TRUE
        for i, q in m.items():
            d = self.loopinfo[i.args[0]].dom
            if self.loopinfo[i.args[0]].brk is not FALSE:
                return None
            if d.op not in ("range", "dom") or (d.op == "range" and (d.args[0] is not ZERO or d.args[2] is not ONE)):
                return None
            rng = AND(rng, self.in_domain(q, subst(d, m)))
        c = self.same_place(subst(e.tgt, m), subst(k, m), tgt, qk)
        if c is None:
            return None
        rest = [l for l in done if mk("idx", l) not in m]
        v = subst(e.val, m) if isinstance(e.val, T) else const(e.val)
        return m, AND(rng, c, subst(e.guard, m)), v, rest

    def close_sub(self, loops, g, v, m):
        """close over loops whose domains may mention indices that m has replaced"""
        doms = []
        for l in loops:
            d = subst(self.loopinfo[l].dom, m)
            b = self.loopinfo[l].brk
            if b is not FALSE:
                d = mk("brkdom", d, subst(subst(b, m), {mk("idx", l): mk("bv", -1)}))
            doms.append(d)
        h = 0
        for t in [g, v] + doms:
            for x in subterms(t):
                if x.op == "bv" and x.args[0] >= 0:
                    h = max(h, x.args[0] + 1)
        mm = {mk("idx", l): mk("bv", h + (len(loops) - 1 - k)) for k, l in enumerate(loops)}
        return tuple(mk("bd", subst(d, mm), mm[mk("idx", l)]) for l, d in zip(loops, doms)), subst(g, mm), subst(v, mm)

    def _loop_read(self, e, tgt, key, pos, pc, missing, depth):
        """tgt[key] as left by a loop that is over: the value of the last iteration that wrote it"""
        r = self.match_event(e, tgt, key)
        if r is None:
            return "may"
        m, c, v, rest = r
        c = simplify(c, pc)
        if c is FALSE:
            return self._lookup(tgt, key, "item", e.n, pc, missing, depth + 1)
        done = [l for l in e.loops if l not in self.loops]
        rds = {x for x in subterms(v) if x.op == "rd"}
        if rds:
            return self._accumulated(e, tgt, key, pos, pc, missing, depth, m, c, v, rest, rds)
        doms, gg, vv = self.close_sub(rest, c, v, m)
        if rest:
            ex = exists_closed(doms, gg)
            val = v if not (v.loops & set(rest)) else mk("last", doms, gg, vv)
        else:
            ex, val = c, v
        others = self._interleaved(e, tgt, key, pos, pc)
        if others is None:
            return "may"
        rest_v = self._lookup(tgt, key, "item", e.n, AND(pc, NOT(ex)), missing, depth + 1)
        return ite(ex, val, rest_v)

    def _interleaved(self, e, tgt, key, pos, pc, accept=()):
        """no other write of the same loops may hit the same place (else the last write isn't that of e)"""
        done = {l for l in e.loops if l not in self.loops}
        for o in self.by_root.get(self.root(tgt), ()):
            if o is e or o.n >= pos or not (set(o.loops) & done) or o.kind in ("havoc", "havocattr", "sattr"):
                continue
            if self.alias(o.tgt, tgt) == "no" or o in accept:
                continue
            if o.kind not in ("store",):
                return None
            r = self.match_event(o, tgt, key)
            r2 = self.match_event(e, tgt, key)
            if r is None or r2 is None:
                return None
            if simplify(AND(r[1], r2[1]), pc) is FALSE:
                continue
            if simplify(r[1], pc) is FALSE:
                continue
            if r[2] is r2[2] and not (r[2].loops & done):
                continue        # the same constant
            return None
        return True

    def _accumulated(self, e, tgt, key, pos, pc, missing, depth, m, c, v, rest, rds):
        """tgt[key] += delta in a loop that is over: the initial value and the sum of what was added"""
        done = [l for l in e.loops if l not in self.loops]
        evs = [o for o in self.by_root.get(self.root(tgt), ()) if o.n < pos and set(o.loops) & set(done) and
               o.kind not in ("havoc", "havocattr", "sattr") and self.alias(o.tgt, tgt) != "no"]
        start = min(o.n for o in evs)
        hav = [o for o in self.by_root.get(self.root(tgt), ()) if o.kind == "havoc" and o.extra.get("loop") in done]
        if hav:
            start = min(start, min(o.n for o in hav))
        total = None
        for o in evs:
            if o.kind != "store":
                return "may"
            r = self.match_event(o, tgt, key)
            if r is None:
                return "may"
            m2, c2, v2, rest2 = r
            c2 = simplify(c2, pc)
            if c2 is FALSE:
                continue
            own = [x for x in subterms(v2) if x.op == "rd"]
            k2 = subst(o.key, m2) if isinstance(o.key, T) else const(o.key)
            t2 = subst(o.tgt, m2)
            if len(own) != 1 or own[0].args[0] is not t2 or own[0].args[1] is not k2 or self.log[own[0].args[2]].kind != "havoc":
                return "may"
            d = sub(v2, own[0])
            if own[0] in subterms(d):
                return "may"
            doms, gg, vv = self.close_sub(rest2, c2, d, m2)
            part = tm.sum_closed(doms, gg, vv) if rest2 else ite(c2, d, ZERO)
            total = part if total is None else add(total, part)
        if total is None:
            return self._lookup(tgt, key, "item", start, pc, missing, depth + 1)
        init = self._lookup(tgt, key, "item", start, pc, missing, depth + 1)
        return add(init, total)

    def dom_nonempty(self, d):
        if d.op == "dom":
            return truthy(d.args[0])
        if d.op == "range" and d.args[2] is ONE:
            return compare("lt", d.args[0], d.args[1])
        return atom("nonempty", d)

    def in_domain(self, s, d):
        if s.op == "idx":
            d2 = self.loopinfo[s.args[0]].dom if s.args[0] in self.loopinfo else None
            if d2 is d:
                return TRUE
        if d.op == "range" and d.args[0] is ZERO:
            r = AND(compare("le", ZERO, s), compare("lt", s, d.args[1]))
            return r
        if d.op == "dom":
            n = length(d.args[0])
            return AND(compare("le", ZERO, s) if s.op != "idx" else TRUE, compare("lt", s, n))
        return TRUE

    def _list_lookup(self, tgt, key, e, pos, pc, depth):
        """element of a local list, when it was built in a way that determines its position"""
        if tgt.op != "obj" or self.objs[tgt.args[0]]["kind"] not in ("list", "tuple", "deque"):
            return None
        if not isinstance(key, T):
            return None
        sp = self.straight_items(tgt, pos)
        if sp is not None and num_const(key) and isinstance(key.args[0], int):
            k = key.args[0]
            if -len(sp) <= k < len(sp):
                return sp[k]
            return mk("missing", tgt, key)
        # one loop over a domain, one unconditional append per iteration: the k-th element is that of iteration k
        parts = self.parts(tgt, pos)
        if parts is not None and len(parts) == 1:
            loops, g, v = parts[0]
            if len(loops) == 1 and g is TRUE:
                L = loops[0]
                if self.loopinfo[L].brk is FALSE:
                    later = [x for x in self.by_root.get(self.root(tgt), ()) if x.n < pos and x.tgt is tgt and
                             x.kind == "store"]
                    if not later:
                        return self.at_index(v, mk("idx", L), key, self.loopinfo[L].dom, AND(pc, self.full_pc()))
        return None

    def at_index(self, v, i, key, dom, pc):
        """v, which is what a sequence has at every index i of the domain, at an index that may count from the end, or None"""
        if not may_be_negative(key):
            return subst(v, {i: key})
        below = simplify(compare("lt", key, ZERO), pc)
        if below is FALSE:
            return subst(v, {i: key})
        n = self.dom_len(dom)
        if n is None:
            return None
        return ite(below, subst(v, {i: add(n, key)}), subst(v, {i: key}))

    def dom_len(self, d):
        if d.op == "dom":
            return length(d.args[0])
        if d.op == "range" and d.args[2] is ONE:
            return sub(d.args[1], d.args[0])
        return None

    def straight_items(self, tgt, pos=None):
        """the items of a local list that was built by unconditional appends outside of (finished) loops, or None"""
        if pos is None:
            pos = len(self.log)
        m = self.objs[tgt.args[0]]
        items = []
        for e in self.by_root.get(self.root(tgt), ()):
            if e.n >= pos:
                break
            if e.tgt is not tgt:
                if e.tgt.op == "obj":
                    return None
                continue
            if e.loops != m["loops"][:len(e.loops)] or len(e.loops) != len(m["loops"]):
                if e.kind in ("havoc",):
                    continue
                return None
            if e.guard is not m["guard"] and not implies(AND(m["guard"], e.assume), e.guard):
                return None
            if e.kind == "append":
                items.append(e.val)
            elif e.kind == "insert" and e.key is ZERO:
                items.insert(0, e.val)
            elif e.kind == "insert" and num_const(e.key) and 0 <= e.key.args[0] <= len(items):
                items.insert(e.key.args[0], e.val)
            elif e.kind == "store" and num_const(e.key) and isinstance(e.key.args[0], int) and \
                    -len(items) <= e.key.args[0] < len(items):
                items[e.key.args[0]] = e.val
            elif e.kind == "pop" and e.key is not None and num_const(e.key) and isinstance(e.key.args[0], int) and \
                    -len(items) <= e.key.args[0] < len(items):
                items.pop(e.key.args[0])
            elif e.kind == "pop" and e.key is None and items:
                items.pop()
            elif e.kind == "clear":
                items = []
            elif e.kind == "remove" and m["kind"] == "list":
                for i, x in enumerate(items):
                    r = self.key_alias(x, e.key)
                    if r != "no":
                        break
                else:
                    return None
                if r != "must":
                    return None
                items.pop(i)
            elif e.kind in ("sattr",):
                pass
            else:
                return None
        return items

    def parts(self, tgt, pos=None, deep=False):
        """
        the content of a local list, set or iterator as a list of (loops, guard, value): for every iteration of the
        loops in which the guard holds, the value; None if the content isn't known in that form
        """
        if pos is None:
            pos = len(self.log)
        m = self.objs[tgt.args[0]]
        base = len(m["loops"])
        out = []
        for e in self.by_root.get(self.root(tgt), ()):
            if e.n >= pos:
                break
            if e.tgt is not tgt:
                if e.tgt.op == "obj" and self.alias(e.tgt, tgt) == "no":
                    continue
                if e.tgt.op != "obj":
                    continue
                return None
            if e.kind in ("append", "add"):
                out.append((e.loops[base:], simplify(e.guard, AND(m["guard"], e.assume)), e.val))
            elif e.kind == "havoc":
                if e.extra["loop"] in self.loops:
                    return None
            elif e.kind in ("sattr",):
                pass
            elif e.kind == "clear" and e.guard is m["guard"]:
                out = []
            else:
                sp = self.straight_items(tgt, pos)
                if sp is not None:
                    return [((), TRUE, v) for v in sp]
                return None
        # loops that were still open when the append happened and still are open are not binders of the content
        res = []
        for loops, g, v in out:
            inner = tuple(l for l in loops if l not in self.loops)
            if len(inner) != len(loops) and loops[:len(loops) - len(inner)] and not all(l in self.loops for l in loops[:len(loops) - len(inner)]):
                return None
            if len(inner) != len(loops):
                return None
            res.append((loops, g, v))
        return res

    def dict_parts(self, tgt, pos=None):
        if pos is None:
            pos = len(self.log)
        m = self.objs[tgt.args[0]]
        base = len(m["loops"])
        out = []
        for e in self.by_root.get(self.root(tgt), ()):
            if e.n >= pos:
                break
            if e.tgt is not tgt:
                if e.tgt.op == "obj" and self.alias(e.tgt, tgt) == "no":
                    continue
                if e.tgt.op != "obj":
                    continue
                return None
            if e.kind in ("store", "del", "dictupdate"):
                kind = "discard" if e.kind == "del" and (e.extra or {}).get("discard") else e.kind
                out.append((kind, e.loops[base:], simplify(e.guard, AND(m["guard"], e.assume)), e.key, e.val))
            elif e.kind == "havoc":
                if e.extra["loop"] in self.loops:
                    return None
            elif e.kind in ("sattr",):
                pass
            else:
                return None
        return out

    def _initial(self, tgt, key, step, missing):
        if tgt.op == "obj":
            m = self.objs[tgt.args[0]]
            if step == "attr":
                return mk("missing", tgt, const(key))
            if missing is not None:
                return missing
            if m["kind"] == "defaultdict":
                return mk("item", tgt, key)
            return mk("missing", tgt, key)
        if step == "attr":
            return mk("attr", tgt, key)
        return item(tgt, key)

    # ------------------------------------------------------------------------------------------ closing over loops

    def close(self, loops, g, v, extra=()):
        """domains, guard and value in which the indices of the given loops are bound variables"""
        loops = list(loops)
        doms = []
        for l in loops:
            d = self.loopinfo[l].dom
            b = self.loopinfo[l].brk
            if b is not FALSE:
                d = mk("brkdom", d, subst(b, {mk("idx", l): mk("bv", -1)}))
            doms.append(d)
        h = 0
        for t in [g, v] + doms + list(extra):
            if isinstance(t, T):
                for x in subterms(t):
                    if x.op == "bv" and x.args[0] >= 0:
                        h = max(h, x.args[0] + 1)
        m = {mk("idx", l): mk("bv", h + (len(loops) - 1 - k)) for k, l in enumerate(loops)}
        return tuple(mk("bd", subst(d, m), m[mk("idx", l)]) for l, d in zip(loops, doms)), subst(g, m), \
            subst(v, m) if isinstance(v, T) else v

    def den(self, v, depth=0, pos=None):
        """what a value consists of, independently of how it was built"""
        if depth > 6:
            return v
        if v.op == "ite":
            return ite_map(v, lambda x: self.den(x, depth, pos))
        if v.op == "tuple":
            return mk("tuple", tuple(self.den(x, depth + 1, pos) for x in v.args[0]))
        if v.op != "obj":
            return v
        if self.objs[v.args[0]]["cls"] in self.opaque:
            return adt.state(self, v, pos)
        c = self.canonical(v)
        if c is not v:
            # another instance of an object that is created once per iteration
            if c is None:
                return self.replayed(v, pos, depth)
            d = self.den(c, depth, pos)
            if d.op == "obj":
                return v
            # the instance may be named by bound variables, which must not be captured by those of the content
            h = max([x.args[0] + 1 for a in v.args[1] for x in subterms(a) if x.op == "bv"] + [0])
            if h:
                d = subst(d, {x: mk("bv", x.args[0] + h) for x in subterms(d) if x.op == "bv" and 0 <= x.args[0] < 900})
            return subst(d, dict(zip(c.args[1], v.args[1])))
        k = self.objs[v.args[0]]["kind"]
        if k in ("list", "set", "iter", "deque", "tuple"):
            sp = self.straight_items(v, pos) if k != "set" else None
            if sp is not None and k == "tuple":
                return mk("tuple", tuple(self.den(x, depth + 1, pos) for x in sp))
            if sp is not None:
                ps = [((), TRUE, x) for x in sp]
            else:
                ps = self.parts(v, pos)
            if ps is None:
                return self.replayed(v, pos, depth)
            return self.seq_of_parts(ps, depth, pos, k)
        if k == "dict":
            ps = self.dict_parts(v, pos)
            if ps is None:
                return self.replayed(v, pos, depth)
            out = []
            for kind, loops, g, key, val in overwritten(ps):
                kv = mk("tuple", (self.den(key, depth + 1, pos), self.den(val, depth + 1, pos) if isinstance(val, T) else NONE))
                doms, gg, kv = self.close(loops, g, kv)
                out.append(mk("part", doms, gg, mk("kv", kind, kv)))
            return mk("dictof", tuple(out))
        return v

    def is_set(self, v):
        return v.op == "obj" and self.objs[v.args[0]]["kind"] == "set" or v.op in ("setof", "setlit", "setop", "dedup") and self.types.get(v) != "dict"

    def replayed(self, v, pos, depth):
        d = replay.content(self, v, len(self.log) if pos is None else pos, depth)
        return v if d is None else d

    def canonical(self, v):
        """
        the instance of an object as the effect log names it: v itself, or None if instances were written to one by one
        """
        n, ix = v.args
        loops = self.objs[n]["loops"]
        if len(loops) != len(ix):
            return None
        c = tuple(mk("idx", l) for l in loops)
        if c == ix:
            return v
        cv = mk("obj", n, c)
        for e in self.by_root.get(("obj", n), ()):
            t = e.tgt
            while t.op in ("item", "attr", "nth"):
                t = t.args[0]
            if t is not cv:
                return None
        return cv

    def seq_of_parts(self, ps, depth=0, pos=None, kind="list"):
        parts = []
        outer = set()
        for loops, g, v in ps:
            v = self.den(v, depth + 1, pos)
            for a in atoms(g):
                if not (a.loops & set(loops)):
                    outer.add(a)
            parts.append((loops, g, v))
        outer = sorted(outer, key=lambda a: a.id)
        if 0 < len(outer) <= 8:
            a = outer[0]
            yes = [(l, restrict(g, a, True), restrict(v, a, True)) for l, g, v in parts]
            no = [(l, restrict(g, a, False), restrict(v, a, False)) for l, g, v in parts]
            return ite(atom_of(a), self.seq_of_parts(yes, depth, pos, kind), self.seq_of_parts(no, depth, pos, kind))
        out = []
        for loops, g, v in parts:
            if g is FALSE:
                continue
            doms, gg, vv = self.close(loops, g, v)
            out.append(mk("part", doms, gg, vv))
        if kind != "set" and len(out) == 1:
            doms, g, v = out[0].args
            if len(doms) == 1 and g is TRUE and doms[0].args[0].op == "dom" and v.op == "nth" and v.args[0] is doms[0].args[0].args[0] \
                    and v.args[1] is doms[0].args[1]:
                return mk("seqof", doms[0].args[0].args[0])
        if kind == "set":
            if len(out) == 1:
                doms, g, v = out[0].args
                if len(doms) == 1 and g is TRUE and doms[0].args[0].op == "dom" and v.op == "nth" and v.args[0] is doms[0].args[0].args[0] \
                        and v.args[1] is doms[0].args[1]:
                    return mk("setof", doms[0].args[0].args[0])
            return mk("setof", mk("seq", tuple(out)))
        return mk("seq", tuple(out))

    def partial(self, t, e):
        """reads that event e made, inside of loops, of objects that those loops were still filling: what was in them then"""
        m = {}
        for x in sorted((x for x in subterms(t) if x.op in ("den", "rd") and x.args[0].op == "obj"), key=lambda x: x.size):
            c = self.content_at(x.args[0], e)
            if c is None:
                continue
            m[x] = c if x.op == "den" else item(c, subst(x.args[1], m))
        return subst(t, m) if m else t

    def content_at(self, o, e):
        meta = self.objs[o.args[0]]
        if meta["kind"] not in ("dict", "list", "set") or o.args[1] and any(l not in meta["loops"] for l in o.loops):
            return None
        base = len(meta["loops"])
        if e.loops[:base] != meta["loops"]:
            return None
        open_ = e.loops[base:]
        if not open_:
            return None
        if len(open_) > 1:
            return None
        L = open_[0]
        evs = []
        for x in self.by_root.get(self.root(o), ()):
            if x.kind in ("havoc", "sattr"):
                continue
            if x.tgt is not o:
                return None
            if x.kind not in ("store", "append", "add", "del"):
                return None
            evs.append(x)
        i = mk("idx", L)
        before, earlier, now = [], [], []
        for x in evs:
            inner = x.loops[base:]
            if inner[:1] == (L,):
                earlier.append(x)
                if x.n < e.n:
                    now.append(x)
            elif x.n < e.n:
                before.append(x)
        h = 0
        if any(y.op in ("den", "rd") and y.args[0] is o for x in earlier for z in (x.val, x.guard, x.key) if isinstance(z, T) for y in subterms(z)):
            return None
        if len(earlier) > 1 and any(x.loops[base:] != (L,) for x in earlier):
            return None
        parts = []

        def part(x, loops, prefix):
            v = self.den(x.val) if isinstance(x.val, T) else NONE
            k = self.den(x.key) if isinstance(x.key, T) else NONE
            g = simplify(x.guard, meta["guard"])
            if x.kind in ("store", "del"):
                v = mk("kv", "discard" if x.kind == "del" and (x.extra or {}).get("discard") else x.kind, mk("tuple", (k, v)))
            if prefix:
                doms, g, v = self.close((L,) + loops, g, v)
                d = mk("bd", mk("prefix", doms[0].args[0], i), doms[0].args[1])
                return mk("part", (d,) + doms[1:], g, v)
            doms, g, v = self.close(loops, g, v)
            return mk("part", doms, g, v)
        for x in before:
            parts.append(part(x, x.loops[base:], False))
        if len(earlier) == 1 or all(x.kind == "store" and x.key is earlier[0].key for x in earlier):
            for x in earlier:
                parts.append(part(x, x.loops[base + 1:], True))
        elif earlier:
            return None
        for x in now:
            parts.append(part(x, x.loops[base + 1:], False))
        if meta["kind"] == "dict":
            return mk("dictof", tuple(parts))
        s = mk("seq", tuple(parts))
        return mk("setof", s) if meta["kind"] == "set" else s

    # ------------------------------------------------------------------------------------------ statements

    def block(self, body):
        for s in body:
            if self.pc is FALSE:
                return
            self.stmt(s)

    def stmt(self, s):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Unsupported("too many steps")
        self.set_site(s)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unk("statement " + type(s).__name__)
            return
        m(s)

    def set_site(self, node):
        if hasattr(node, "lineno") and self.frame is not None and self.frame.module is not None and self.frame.module.path:
            fn = self.frame.func.name if self.frame.func else "<module>"
            self.site = (self.frame.module.path, node.lineno, fn)

    def s_Expr(self, s):
        self.expr(s.value)

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        for a in s.names:
            top_ = a.name.split(".")[0]
            if a.asname:
                self.bind(a.asname, self.import_module(a.name))
            else:
                self.bind(top_, self.import_module(top_))

    def import_module(self, name):
        if name in self.modules:
            self._exec_module(name)
            return mk("module", name)
        return mk("ext", name)

    def s_ImportFrom(self, s):
        if s.level:
            base = self.frame.module.name.split(".")
            is_pkg = self.frame.module.path.endswith("__init__.py")
            up = s.level - (1 if is_pkg else 0)
            if up:
                base = base[:-up]
            mod = ".".join(base + ([s.module] if s.module else []))
        else:
            mod = s.module
        for a in s.names:
            if mod in self.modules:
                m = self._exec_module(mod)
                if a.name == "*":
                    names = m.frame.env.get("__all__")
                    for k, v in list(m.frame.env.items()):
                        if not k.startswith("_"):
                            self.bind(k, v)
                elif a.name in m.frame.env:
                    self.bind(a.asname or a.name, m.frame.env[a.name])
                elif mod + "." + a.name in self.modules:
                    self._exec_module(mod + "." + a.name)
                    self.bind(a.asname or a.name, mk("module", mod + "." + a.name))
                else:
                    self.bind(a.asname or a.name, mk("lazyimport", mod, a.name))
            else:
                if a.name == "*":
                    self.frame.env["*" + mod] = mk("ext", mod)
                else:
                    self.bind(a.asname or a.name, mk("ext", mod + "." + a.name))

    def s_FunctionDef(self, s):
        f = self.make_func(s, s.name)
        v = mk("func", f.fid)
        for d in reversed(s.decorator_list):
            dv = ast.unparse(d)
            f.decorators.append(dv)
            if dv in ("property", "functools.cached_property", "cached_property"):
                v = mk("property", f.fid, -1)
            elif dv == "staticmethod":
                v = mk("static", f.fid)
            elif dv == "classmethod":
                v = mk("clsmethod", f.fid)
            elif dv.endswith(".setter"):
                old = self.frame.env.get(dv.split(".")[0])
                v = mk("property", old.args[0] if old is not None and old.op == "property" else -1, f.fid)
            elif dv in ("abstractmethod", "abc.abstractmethod"):
                pass
            else:
                v = self.call(self.expr(d), [v], {})
        self.bind(s.name, v)

    s_AsyncFunctionDef = s_FunctionDef

    def make_func(self, node, name):
        fid = self.counters["func"]
        self.counters["func"] += 1
        cls = self.frame.cls if getattr(self.frame, 'is_class', False) else None
        f = Func(fid, node, self.frame.module, self.frame, cls, name)
        a = node.args
        f.defaults = [self.expr(d) for d in a.defaults]
        f.kw_defaults = {k.arg: self.expr(d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        if not isinstance(node, ast.Lambda):
            f.is_gen = contains_yield(node)
        self.funcs[fid] = f
        return f

    def s_ClassDef(self, s):
        name = s.name
        c = Cls(name, self.frame.module, s)
        key = name
        if key in self.classes and self.classes[key].node is not s:
            key = self.frame.module.name + "." + name
        self.classes[key] = c
        c.key = key
        c.bases = [self.expr(b) for b in s.bases]
        fr = Frame(None, self.frame.module, self.frame)
        fr.cls = key
        fr.is_class = True
        saved = self.frame
        self.frame = fr
        try:
            self.block(s.body)
        finally:
            self.frame = saved
        c.attrs = fr.env
        c.is_enum = any(b.op == "ext" and b.args[0] in ("enum.Enum", "enum.IntEnum") for b in c.bases)
        if c.is_enum:
            for k, v in list(c.attrs.items()):
                if not k.startswith("_") and v.op not in ("func", "property", "static", "clsmethod"):
                    c.attrs[k] = mk("enum", key, k)
        self.bind(name, mk("class", key))

    def s_Return(self, s):
        v = self.expr(s.value) if s.value is not None else NONE
        self.do_return(v)

    def do_return(self, v):
        fr = self.frame
        depth = len(self.loops)
        base = fr.loop_base
        if depth > base:
            # a return from inside a loop
            L = self.loops[base:]
            info = self.loopinfo[self.loops[base]]
            g = self.pc
            for l in self.loopstack[fr.ls_base:]:
                l.brk = OR(l.brk, g)
                l.rets.append((g, v, self.loops))
            fr.loop_returns.append((self.loops[base:], g, v, self.assume))
            self.pc = FALSE
            return
        fr.returns.append((self.pc, v))
        self.pc = FALSE

    def s_Raise(self, s):
        v = self.expr(s.exc) if s.exc is not None else NONE
        if s.cause is not None:
            self.expr(s.cause)
        self.set_site(s)
        self.do_raise(v)

    def do_raise(self, v):
        self.emit("raise", None, None, v, extra={"caught": self.trys > 0, "frames": tuple(f.func.name if f.func else "" for f in self.stack)})
        self.raised = OR(self.raised, self.pc)
        self.pc = FALSE

    def s_Assert(self, s):
        c = self.boolean(self.expr(s.test))
        pc0 = self.pc
        self.pc = AND(pc0, NOT(c))
        if self.pc is not FALSE:
            self.emit("raise", None, None, mk("ext", "AssertionError"), extra={"caught": self.trys > 0})
        self.pc = pc0
        self.assume = AND(self.assume, c)

    def s_If(self, s):
        c = self.boolean(self.expr(s.test))
        self.branch(c, lambda: self.block(s.body), lambda: self.block(s.orelse))

    def branch(self, c, yes, no):
        if c is TRUE:
            yes()
            return
        if c is FALSE:
            no()
            return
        if not is_bool(c):
            self.unk("condition")
            c = atom("truthy", mk("unk", "cond", c))
        pc0, env0, as0, r0 = self.pc, dict(self.frame.env), self.assume, self.raised
        self.raised = FALSE
        self.pc = AND(pc0, c)
        yes()
        pc1, env1, as1 = self.pc, self.frame.env, self.assume
        rz1 = self.raised
        self.raised = FALSE
        self.frame.env = dict(env0)
        self.assume = as0
        self.pc = AND(pc0, NOT(c))
        no()
        pc2, env2, as2 = self.pc, self.frame.env, self.assume
        rz2 = self.raised
        rz = OR(rz1, rz2)
        # what was assumed in one arm only is assumed under that arm's condition
        self.assume = as0
        if as1 is not as0:
            self.assume = AND(self.assume, OR(NOT(AND(pc0, c)), as1))
        if as2 is not as0:
            self.assume = AND(self.assume, OR(NOT(AND(pc0, NOT(c))), as2))
        self.frame.env = self.merge_env(c, env1, pc1, env2, pc2)
        self.pc = OR(pc1, pc2)
        if rz is not FALSE and self.pc is not FALSE and not (self.exact_raises and self.trys > 0):
            # what follows only runs if nothing was raised: an assumption, not a condition of the code that follows
            self.assume = AND(self.assume, NOT(rz))
            self.pc = OR(self.pc, rz)
            rz = FALSE
        self.raised = OR(r0, rz)

    def merge_env(self, c, env1, pc1, env2, pc2):
        if pc1 is FALSE:
            return env2
        if pc2 is FALSE:
            return env1
        env = {}
        for k in list(env1) + [k for k in env2 if k not in env1]:
            if k in env1 and k in env2:
                a, b = env1[k], env2[k]
                env[k] = a if a is b else ite(c, a, b)
            else:
                env[k] = ite(c, env1.get(k, mk("missing", const(k), NONE)), env2.get(k, mk("missing", const(k), NONE)))
        return env

    def s_Assign(self, s):
        v = self.expr(s.value)
        self.set_site(s)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.expr(s.value))

    def s_AugAssign(self, s):
        old = self.expr(as_load(s.target))
        v = self.expr(s.value)
        self.set_site(s)
        if self.small and small.is_nd(self, old):
            small.inplace(self, old, s.op, v)
            return
        if isinstance(s.op, ast.Add) and self.all_kind(old, ("list", "deque")):
            self.split(old, lambda o: self.extend(o, v))
            return
        if isinstance(s.op, ast.BitOr) and self.all_kind(old, ("dict", "set")):
            self.split(old, lambda o: self.method(o, "update", [v], {}))
            return
        r = self.binary(s.op, old, v)
        self.assign(s.target, r, aug=(type(s.op).__name__, v))

    def all_kind(self, v, kinds):
        return all(self.kind(x) in kinds for x in leaves(v))

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.expr(t.value)
                k = self.index(t.slice)
                self.set_site(s)
                self.split(o, lambda x: self.del_item(x, k))
            elif isinstance(t, ast.Name):
                self.frame.env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.expr(t.value)
                self.emit("sattr", o, t.attr, mk("missing", o, const(t.attr)))

    def del_item(self, o, k):
        c = self.cls_of(o)
        if c and c in self.classes:
            m = self.classes[c].find(self, "__delitem__")
            if m is not None:
                self.call_func(m, [o, k], {})
                return
        # "if k in d: del d[k]" is d.pop(k, None)
        pc = self.pc
        for a in atoms(pc):
            if a.op == "in" and a.args[0] is k and (a.args[1] is o or (a.args[1].op == "den" and a.args[1].args[0] is o)) \
                    and restrict(pc, a, False) is FALSE and (o.op == "obj" or a.args[1].op == "den" and a.args[1].args[1] == self.mark(o)
                                                             or a.args[1] is o and self.mark(o) < 0):
                saved = self.pc
                self.pc = restrict(pc, a, True)
                try:
                    self.emit("del", o, k, None, extra={"discard": True})
                finally:
                    self.pc = saved
                return
        self.emit("del", o, k, None)

    def s_Global(self, s):
        self.frame.globals_decl.update(s.names)

    def s_Nonlocal(self, s):
        self.frame.nonlocal_decl.update(s.names)

    def s_With(self, s):
        for it in s.items:
            v = self.expr(it.context_expr)
            self.emit("with", None, None, v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        self.block(s.body)

    def s_Try(self, s):
        pc0, env0, r0 = self.pc, dict(self.frame.env), self.raised
        start = len(self.log)
        assume0 = self.assume
        self.emit("try", None, None, None, extra={"final": bool(s.finalbody)})
        self.raised = FALSE
        tried = s.handlers or self.exact_raises
        if tried:
            self.trys += 1
        self.block(s.body)
        if tried:
            self.trys -= 1
        if s.orelse and self.pc is not FALSE:
            self.block(s.orelse)
        pc1, env1 = self.pc, self.frame.env
        rz = self.raised
        body_end = len(self.log)
        assume1 = self.assume
        self.raised = FALSE
        exact = self.exact_raises and self.raise_events(start, body_end)
        for h in s.handlers:
            self.counters["site"] += 1
            a = mk("raised", self.frame.module.path, self.frame.func.name if self.frame.func else "", h.lineno and self.handler_no(s, h))
            c = atom_of(a)
            if self.exact_raises:
                c = FALSE
                for e in exact:
                    if e.extra.get("taken") is None and self.catches(h, e.val):
                        e.extra["taken"] = True
                        c = OR(c, AND(e.guard, e.assume) if e.assume is not None else e.guard)
                if c is FALSE:
                    continue
            env = dict(env0)
            for k, v in env1.items():
                if env0.get(k) is not v:
                    env[k] = mk("unk", "try", k) if k not in env0 else mk("unk", "try", k)
            self.frame.env = env
            self.assume = assume0
            self.pc = AND(pc0, c)
            if h.name:
                self.frame.env[h.name] = mk("exc", a)
            mark = len(self.log)
            self.block(h.body)
            for e in self.log[mark:]:
                if e.extra is None:
                    e.extra = {"handler": True}
                elif isinstance(e.extra, dict):
                    e.extra["handler"] = True
            if self.pc is not FALSE:
                # the handler continues after the try statement
                self.frame.env = self.merge_env(c, self.frame.env, self.pc, env1, pc1)
                env1 = self.frame.env
                pc1 = OR(self.pc, pc1)
                if self.exact_raises:
                    assume1 = assume0
            elif not self.exact_raises:
                assume1 = AND(assume1, NOT(self.raised))
        self.frame.env = env1
        self.assume = assume1
        self.pc = pc1
        self.raised = OR(r0, rz) if not s.handlers else r0
        if self.exact_raises and s.handlers:
            # what no handler took, and what the handlers raised
            out = self.raise_events(start, len(self.log))
            self.assume = assume0
            for e in out:
                self.raised = OR(self.raised, AND(e.guard, e.assume))
        if s.finalbody:
            pc1 = self.pc
            self.pc = pc0
            self.emit("finally", None, None, None)
            self.block(s.finalbody)
            if self.pc is not FALSE:
                self.pc = pc1
        self.emit("endtry", None, None, None)

    def raise_events(self, start, end):
        return [e for e in self.log[start:end] if e.kind == "raise" and (e.extra or {}).get("taken") is None]

    def catches(self, h, v):
        """whether a handler is for the exception raised; an exception of unknown class goes to the first handler"""
        if h.type is None:
            return True
        import builtins
        names = [x.id for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]) if isinstance(x, ast.Name)]
        cls = self.exception_class(v)
        if cls is None:
            return True
        for n in names:
            t = getattr(builtins, n, None)
            if t is None or isinstance(t, type) and issubclass(cls, t):
                return True
        return False

    def exception_class(self, v):
        import builtins
        for x in subterms(v):
            if x.op in ("ext", "builtin", "global") and isinstance(x.args[0], str):
                t = getattr(builtins, x.args[0].rsplit(".", 1)[-1], None)
                if isinstance(t, type) and issubclass(t, BaseException):
                    return t
        return None

    def handler_no(self, s, h):
        return s.handlers.index(h)

    def s_Break(self, s):
        l = self.loopstack[-1]
        l.brk = OR(l.brk, self.pc)
        l.breaks.append((self.pc, dict(self.frame.env)))
        self.pc = FALSE

    def s_Continue(self, s):
        l = self.loopstack[-1]
        l.conts.append((self.pc, dict(self.frame.env)))
        self.pc = FALSE

    # ------------------------------------------------------------------------------------------ loops

    def s_For(self, s):
        it = self.expr(s.iter)
        self.set_site(s)

        def body(elem):
            self.assign(s.target, elem)
            self.block(s.body)
        names = assigned_names(s.body) | target_names(s.target)
        self.iterate(it, body, names, s.orelse, drop=target_names(s.target))

    def s_While(self, s):
        names = assigned_names(s.body) | walrus_names(s.test)

        def body(_):
            c = self.boolean(self.expr(s.test))
            l = self.loopstack[-1]
            l.cond = c
            l.condpc = self.pc
            self.pc = AND(self.pc, c)
            if c is not TRUE:
                l.whilecond = c
            self.block(s.body)
        c0 = self.boolean(self.expr(s.test))
        if c0 is FALSE:
            self.block(s.orelse)
            return
        if self.peel_unknown:
            def bounded():
                c = c0
                for k in range(self.peel_unknown):
                    c = c if k == 0 else self.boolean(self.expr(s.test))
                    if c is FALSE:
                        return
                    yield c

            def over():
                c = self.boolean(self.expr(s.test))
                if c is FALSE:
                    self.block(s.orelse)
                else:
                    self.cut = OR(self.cut, AND(self.pc, c))
                    self.branch(c, lambda: setattr(self, "pc", FALSE), lambda: self.block(s.orelse))
            self.unrolled(bounded(), lambda c: self.branch(c, lambda: self.block(s.body), lambda: None), then=over)
            return
        if self.peel and c0 is TRUE:
            def rounds():
                k = 0
                while k < self.peel:
                    if k and self.boolean(self.expr(s.test)) is not TRUE:
                        return
                    k += 1
                    yield k

            def rest():
                if self.boolean(self.expr(s.test)) is FALSE:
                    self.block(s.orelse)
                else:
                    self.generic_loop(mk("whiledom", self.new_site_no()), body, names, s.orelse, is_while=True)
            self.unrolled(rounds(), lambda _: self.block(s.body), then=rest)
            return
        self.generic_loop(mk("whiledom", self.new_site_no()), body, names, s.orelse, is_while=True)

    def new_site_no(self):
        self.counters["site"] += 1
        return self.counters["site"]

    def iterate(self, it, body, names, orelse=(), drop=()):
        """run body(elem) for the elements of it"""
        it = self.iterable(self.simp(it))
        if it.op == "ite":
            a = atom_of(it.args[0])
            self.branch(a, lambda: self.iterate(self.simp(it), body, names, orelse, drop),
                        lambda: self.iterate(self.simp(it), body, names, orelse, drop))
            return
        # a short literal: element by element
        seq = self.finite(it)
        if seq is not None:
            self.unrolled(seq, body, orelse)
            return
        for doms in self.domains(it):
            self.nest(doms, body, names, drop)
            if self.pc is FALSE:
                return
        if orelse:
            self.block(orelse)

    def iterable(self, it):
        """what an instance of a class with __iter__ gives when it is iterated over"""
        c = self.cls_of(it) if it.op in ("obj", "param", "attr") else None
        if c and c in self.classes and c not in self.opaque:
            m = self.classes[c].find(self, "__iter__")
            if m is not None:
                r = self.call_func(m, [it], {})
                # nobody else has the iterator that was just made
                return self.iterable(r.args[0]) if r.op == "iterof" else r
        return it

    def finite(self, it):
        it = self.iterable(it)
        if self.small:
            from . import models
            xs = models.constant_set(self, it)
            if xs is not None:
                return xs
        if it.op == "tuple":
            return list(it.args[0]) if len(it.args[0]) <= self.unroll else None
        if it.op == "const" and isinstance(it.args[0], (tuple, str)):
            return [const(x) for x in it.args[0]] if len(it.args[0]) <= self.unroll else None
        if it.op == "seq" and all(not p.args[0] and p.args[1] is TRUE for p in it.args[0]) and len(it.args[0]) <= self.unroll:
            return [p.args[2] for p in it.args[0]]
        if it.op == "range" and all(num_const(x) for x in it.args):
            r = range(*[x.args[0] for x in it.args])
            return [const(i) for i in r] if len(r) <= self.unroll_range else None
        if it.op == "enumerate":
            x = self.finite(it.args[0])
            if x is None:
                return None
            return [mk("tuple", (add(const(i), it.args[1]), v)) for i, v in enumerate(x)]
        if it.op == "zip":
            xs = [self.finite(x) for x in it.args[0]]
            if any(x is None for x in xs):
                return None
            return [mk("tuple", tuple(t)) for t in zip(*xs)]
        if it.op == "reversed":
            x = self.finite(it.args[0])
            return list(reversed(x)) if x is not None else None
        if it.op == "obj" and self.objs[it.args[0]]["kind"] in ("list", "iter", "deque", "tuple"):
            sp = self.straight_items(it)
            if sp is not None and len(sp) <= self.unroll:
                return sp
        if it.op in ("keys", "values", "items") and it.args[0].op == "obj":
            return self.finite_dict(it.args[0], it.op)
        if it.op == "obj" and self.objs[it.args[0]]["kind"] == "dict":
            return self.finite_dict(it, "keys")
        if it.op == "setlit":
            return list(it.args[0])
        return None

    def finite_dict(self, o, what):
        if self.objs[o.args[0]]["kind"] != "dict":
            return None
        ps = self.dict_parts(o)
        if ps is None or len(ps) > self.unroll:
            return None
        out = {}
        for kind, loops, g, k, v in ps:
            if not loops and AND(g, self.pc) is FALSE:
                continue
            if loops or kind != "store":
                return None
            if (g is not TRUE or k.op == "ite") and all(x in out or AND(c, self.pc) is FALSE for x, c in paths_to(k, g)):
                for x, c in paths_to(k, g):
                    if x in out:
                        out[x] = ite(c, v, out[x])
                continue
            if g is not TRUE:
                return None
            if k not in out and any(self.key_alias(k, x) != "no" for x in out):
                return None
            out[k] = v
        if what == "keys":
            return list(out)
        if what == "values":
            return list(out.values())
        return [mk("tuple", (k, v)) for k, v in out.items()]

    def unrolled(self, seq, body, orelse=(), then=None):
        info = Loop(None, None, (), self.site)
        info.unrolled = True
        self.loopstack.append(info)
        live0 = self.pc
        exits = []
        try:
            for v in seq:
                if self.pc is FALSE:
                    break
                body(v)
                # continue
                for g, env in info.conts:
                    c = g
                    self.frame.env = self.merge_env2(g, env, self.frame.env, self.pc)
                    self.pc = OR(self.pc, g)
                info.conts = []
        finally:
            self.loopstack.pop()
        if orelse and self.pc is not FALSE:
            self.block(orelse)
        if then is not None and self.pc is not FALSE:
            then()
        for g, env in info.breaks:
            self.frame.env = self.merge_env2(g, env, self.frame.env, self.pc)
            self.pc = OR(self.pc, g)

    def merge_env2(self, g, env1, env2, pc2):
        if pc2 is FALSE:
            return dict(env1)
        if g is FALSE:
            return env2
        env = {}
        for k in list(env2) + [k for k in env1 if k not in env2]:
            a, b = env1.get(k), env2.get(k)
            if a is b:
                env[k] = a
            else:
                env[k] = ite(g, a if a is not None else mk("missing", const(k), NONE),
                             b if b is not None else mk("missing", const(k), NONE))
        return env

    def domains(self, it):
        """
        how to iterate over a collection: a list of nests, each (list of domain makers, guard, element), where domains
        are given outermost first; element and guard are functions of the loop indices
        """
        it = self.iterable(it)
        if it.op == "obj":
            k = self.objs[it.args[0]]["kind"]
            if k in ("list", "iter", "deque", "tuple", "set"):
                ps = self.parts(it)
                if ps is None and self.canonical(it) is not it:
                    d = self.den(it)
                    if d.op in ("seq", "seqof", "tuple"):
                        return self.domains(d)
                if ps is not None:
                    if k == "set" and len(ps) > 0:
                        d = self.den(it)
                        return [([mk("dom", d)], None, lambda ix: mk("nth", d, ix[0]))]
                    return [self.part_nest(p) for p in ps]
            if k == "dict":
                ps = self.dict_parts(it)
                if ps is not None and all(p[0] == "store" for p in ps) and self.distinct_keys(ps):
                    return [self.part_nest((p[1], p[2], p[3])) for p in ps]
            d = self.den(it) if k in ("list", "deque", "dict") else it
            if d.op == "obj":
                d = mk("den", it, self.mark(it))
            return [([mk("dom", d)], None, lambda ix: mk("nth", d, ix[0]))]
        if it.op in ("keys", "values", "items"):
            o = it.args[0]
            if o.op == "obj":
                ps = self.dict_parts(o)
                if ps is not None and all(p[0] == "store" for p in ps) and self.distinct_keys(ps):
                    def el(p):
                        if it.op == "keys":
                            return p[3]
                        if it.op == "values":
                            return p[4]
                        return mk("tuple", (p[3], p[4]))
                    return [self.part_nest((p[1], p[2], el(p))) for p in ps]
                d = self.den(o)
                if d.op == "obj":
                    d = mk("den", o, self.mark(o))
            else:
                d = self.version(o)
                self.dictlike.add(d)

            def elem(ix):
                k = mk("nth", d, ix[0])
                if it.op == "keys":
                    return k
                v = self.lookup(o, k) if o.op != "obj" else mk("item", d, k)
                if it.op == "values":
                    return v
                return mk("tuple", (k, v))
            return [([mk("dom", d)], None, elem)]
        if it.op == "range":
            a, b, st = it.args
            if a is ZERO and st is ONE:
                return [([range_dom(b)], None, lambda ix: ix[0])]
            if num_const(st) and st.args[0] in (1, -1):
                n = sub(b, a) if st.args[0] == 1 else sub(a, b)
                return [([range_dom(n)], None, lambda ix: add(a, mul(st, ix[0])))]
            d = mk("range", a, b, st)
            return [([d], None, lambda ix: add(a, mul(st, ix[0])))]
        if it.op == "enumerate":
            out = []
            inner = self.domains(it.args[0])
            for doms, g, el in inner:
                if len(doms) == 1 and g is None and len(inner) == 1:
                    out.append((doms, g, lambda ix, el=el: mk("tuple", (add(ix[0], it.args[1]), el(ix)))))
                else:
                    out.append((doms, g, lambda ix, el=el: mk("tuple", (self.unk("enumerate"), el(ix)))))
            return out
        if it.op == "zip":
            xs = it.args[0]
            els, doms = [], []
            for x in xs:
                i = self.domains(x)
                if len(i) != 1 or len(i[0][0]) != 1 or i[0][1] is not None:
                    d = self.version(x)
                    i = [([mk("dom", d)], None, lambda ix, d=d: mk("nth", d, ix[0]))]
                doms.append(i[0][0][0]([]) if callable(i[0][0][0]) else i[0][0][0])
                els.append(i[0][2])
            ds = tuple(dict.fromkeys(doms))
            dom = ds[0] if len(ds) == 1 else mk("zipdom", ds)
            return [([dom], None, lambda ix: mk("tuple", tuple(e(ix) for e in els)))]
        if it.op in ("seqof",):
            return self.domains(it.args[0])
        if it.op == "call" and it.args[0] in ("numpy.array", "numpy.asarray") and len(it.args[1]) == 1:
            return self.domains(it.args[1][0])
        if it.op == "seq":
            return [self.closed_nest(p) for p in it.args[0]]
        if it.op == "mapped":
            pass
        d = self.version(it)
        return [([mk("dom", d)], None, lambda ix: element(d, ix[0]))]

    def closed_nest(self, p):
        doms, g, v = p.args
        def sub_(t, ix):
            return subst(t, {d.args[1]: i for d, i in zip(doms, ix)})
        makers = [(lambda ix, d=d: sub_(d.args[0], ix)) for d in doms]
        return (makers, None if g is TRUE else (lambda ix: sub_(g, ix)), lambda ix: sub_(v, ix))

    def distinct_keys(self, ps):
        if all(not p[1] and p[3].op in ("const", "enum") for p in ps):
            return len({p[3] for p in ps}) == len(ps)
        if len(ps) == 1:
            p = ps[0]
            if not p[1]:
                return True
            if len(p[1]) == 1:
                i = mk("idx", p[1][0])
                return self.injective(p[3], i) or (p[3].op == "nth" and p[3].args[1] is i)
        return False

    def part_nest(self, p):
        loops, g, v = p

        def sub_(t, ix):
            m = {mk("idx", l): i for l, i in zip(loops, ix)}
            return subst(t, m)
        makers = []
        for l in loops:
            makers.append(lambda ix, l=l: sub_(self.loopinfo[l].dom, ix))
        brk = [self.loopinfo[l].brk for l in loops]
        if any(b is not FALSE for b in brk):
            makers = [(lambda ix, mkr=mkr, b=b, l=l: mkr(ix) if b is FALSE else mk("brkdom", mkr(ix), subst(b, {mk("idx", l): mk("bv", -1)})))
                      for mkr, b, l in zip(makers, brk, loops)]
        return (makers, None if g is TRUE else (lambda ix: sub_(g, ix)), lambda ix: sub_(v, ix))

    def mark(self, o):
        """a number that changes when the content of o may have changed"""
        n = -1
        place = o.args if o.op == "item" else None
        for e in self.by_root.get(self.root(o), ()):
            if e.kind in ("store", "del", "append", "add", "insert", "pop", "remove", "update", "mutate", "clear",
                          "dictupdate", "ucontent", "havoc"):
                if self.alias(e.tgt, o) != "no":
                    n = e.n
                elif place and e.kind == "store" and e.extra == "reloc" and self.alias(e.tgt, place[0]) != "no" \
                        and self.key_alias(e.key, place[1]) != "no":
                    n = e.n             # another container was put there
        return n

    def version(self, o):
        """o as a collection at this point: o itself unless it may have been modified"""
        if o.op == "obj":
            d = self.den(o)
            return d if d.op != "obj" else mk("den", o, self.mark(o))
        if o.op in ("tuple", "const", "seq", "seqof", "sorted", "call"):
            return o
        n = self.mark(o)
        if n < 0:
            return o
        return mk("den", o, n)

    def version_deep(self, v):
        if v.op == "ite":
            return ite_map(v, self.version_deep)
        return self.version(v)

    def nest(self, spec, body, names, drop=()):
        doms, guard, elem = spec

        def enter(k, ix):
            if k == len(doms):
                def run():
                    body(elem(ix))
                if guard is not None:
                    self.branch(self.simp(guard(ix)), run, lambda: None)
                else:
                    run()
                return
            d = doms[k]
            dom = d(ix) if callable(d) else d
            self.generic_loop(dom, lambda i: enter(k + 1, ix + [i]), names, (), drop=drop)
        if not doms:
            # a single element, possibly conditional
            info = Loop(None, None, (), self.site)
            self.loopstack.append(info)
            try:
                enter(0, [])
            finally:
                self.loopstack.pop()
            for g, env in info.conts + info.breaks:
                self.frame.env = self.merge_env2(g, env, self.frame.env, self.pc)
                self.pc = OR(self.pc, g)
            return
        enter(0, [])

    def generic_loop(self, dom, body, names, orelse=(), is_while=False, drop=()):
        fr = self.frame
        if dom.op == "dom":
            # inside the loop (and for the loop to matter) the collection is not empty
            c = truthy(dom.args[0])
            if c is FALSE:
                return
            pc_in = self.relax(self.pc, c)
        else:
            pc_in = self.pc
        if dom.op == "range" and num_const(dom.args[1]) and dom.args[1].args[0] <= 0:
            return
        pc0, assume0, raised0 = self.pc, self.assume, self.raised
        env0 = dict(fr.env)
        snap = dict(self.counters)
        start = len(self.log)
        carried = [n for n in names if n in env0 and n not in drop]
        L = self.counters["loop"]

        def run(values, havoc):
            self.counters.update(snap)
            self.counters["loop"] = L + 1
            info = Loop(L, dom, self.loops + (L,), self.site)
            self.loopinfo[L] = info
            fr.env = dict(env0)
            fr.env.update(values)
            self.pc = pc_in
            self.assume = AND(assume0, self.loop_assume(dom, L))
            self.raised = FALSE
            self.loops = self.loops + (L,)
            self.loopstack.append(info)
            nret = len(fr.loop_returns) if hasattr(fr, "loop_returns") else 0
            for (tgt, key, kind, extra, val) in havoc:
                e = self.emit("havocattr" if kind == "sattr" else "havoc", tgt, key, val, extra=dict(extra, loop=L))
                e.guard = TRUE
            info.start = len(self.log)
            try:
                body(mk("idx", L))
                for g, env in info.conts:
                    fr.env = self.merge_env2(g, env, fr.env, self.pc)
                    self.pc = OR(self.pc, g)
            finally:
                self.loopstack.pop()
                self.loops = self.loops[:-1]
            info.endpc = self.pc
            info.endenv = fr.env
            info.nret = nret
            return info

        # first pass: everything assigned in the body is carried
        values = {n: mk("mu", L, n) for n in carried}
        for n in carried:
            ty = self.type_of(env0[n]) if env0[n].op != "obj" else None
            if env0[n].op == "obj":
                c = self.objs[env0[n].args[0]]
                self.mu_kind(values[n], c)
            elif ty:
                self.types[values[n]] = ty
        nfr = len(fr.loop_returns) if hasattr(fr, "loop_returns") else 0
        outer_ls = [(l, l.brk, len(l.rets), len(l.breaks), len(l.conts)) for l in self.loopstack]
        nyields = None
        notes0 = len(self.notes)
        info = run(values, [])
        better = {}
        for n in carried:
            nx = info.endenv.get(n, values[n])
            better[n] = self.improve(values[n], env0[n], nx, L, info)
        # what is written to objects that exist before the loop
        havoc = self.find_havoc(L, start, snap, env0)
        self.truncate(start)
        if hasattr(fr, "loop_returns"):
            del fr.loop_returns[nfr:]
        for l, b, r, br, co in outer_ls:
            l.brk = b
            del l.rets[r:]
            del l.breaks[br:]
            del l.conts[co:]
        del self.notes[notes0:]
        self.pc, self.assume, self.raised = pc0, assume0, raised0
        values2 = {n: v for n, v in better.items()}
        info = run(values2, havoc)
        for n in carried:
            nx = info.endenv.get(n, values2[n])
            info.mu[n] = (env0[n], simplify(nx, AND(info.endpc, self.assume)) if nx.op == "ite" else nx)
        end = len(self.log)
        # a while loop that counts is a loop over a range
        whole = TRUE
        if is_while:
            c = getattr(info, "cond", TRUE)
            nd = self.while_range(c, L)
            info.whilecond = c
            if nd is not None:
                info.dom = nd
                self.drop_cond(start, end, c)
            elif c is not TRUE:
                info.dom = mk("while", subst(c, {mk("idx", L): mk("bv", -1)}), dom.args[0])
        raised_in = self.raised
        # continue after the loop
        self.assume = assume0
        self.raised = raised0
        post_env = dict(env0)
        for n in info.endenv:
            if n not in env0:
                v = info.endenv[n]
                post_env[n] = v if L not in v.loops else mk("out", L, n)
                if L in v.loops:
                    info.mu[n] = (mk("missing", const(n), NONE), v)
        rets = fr.loop_returns[info.nret:] if hasattr(fr, "loop_returns") else []
        for n in carried:
            init, nx = info.mu[n]
            post_env[n] = self.out_value(info, n, init, nx, values2[n])
        fr.env = post_env
        # state kept in objects: value after the loop
        self.pc = pc0
        for (tgt, key, kind, extra, val) in havoc:
            if key is None:
                continue
            nm = val.args[1]
            self.loops = self.loops + (L,)
            nx = self._lookup(tgt, key, "attr" if kind == "sattr" else "item", len(self.log), info.endpc, None, 0)
            self.loops = self.loops[:-1]
            info.mu[nm] = (extra["init"], nx)
            o = self.out_value(info, nm, extra["init"], nx, val)
            self.emit("sattr" if kind == "sattr" else "store", tgt, key, o, extra={"summary": L})
        # leaving through return
        if rets and not any(l2 not in self.loops for l2 in ()):
            pass
        if hasattr(fr, "loop_returns") and rets and len(self.loops) == fr.loop_base:
            del fr.loop_returns[info.nret:]
            for loops, g, v, asm in rets:
                # the innermost first; existential over all the loops of the frame
                g2 = simplify(g, pc0)
                doms, gg, vv = self.close([l for l in loops], g2, v)
                ex = exists_closed(doms, gg)
                if not any(l in v.loops for l in loops):
                    val = v
                else:
                    val = mk("first", doms, gg, vv)
                fr.returns.append((AND(self.pc, ex), val))
                self.pc = AND(self.pc, NOT(ex))
        if orelse:
            if info.breaks:
                doms, gg, _ = self.close([L], simplify(info.brk, pc0), NONE)
                ex = exists_closed(doms, gg)
                self.branch(NOT(ex), lambda: self.block(orelse), lambda: None)
            else:
                self.block(orelse)

    def relax(self, pc, c):
        """pc without the requirement c (which holds anyway where it matters)"""
        if c.op != "ite":
            return pc
        if c.args[1] is TRUE and c.args[2] is FALSE:
            return restrict(pc, c.args[0], True)
        return simplify(pc, c)

    def loop_assume(self, dom, L):
        if dom.op == "dom":
            return truthy(dom.args[0])
        return TRUE

    def mu_kind(self, mu, objmeta):
        k, c = objmeta["kind"], objmeta["cls"]
        if c:
            self.types[mu] = "class:" + c
        else:
            self.types[mu] = k

    def improve(self, mu, init, nx, L, info):
        if nx is mu:
            return init
        if nx.op == "ite" and all(x is mu for x in leaves(nx)):
            return init
        if info.breaks == [] or True:
            d = sub(nx, mu) if nx.op in ("aff", "mu") else None
            if nx.op == "ite" and all(x is mu or x.op == "aff" and mu in x.args[1] for x in leaves(nx)):
                d = ite_map(nx, lambda x: sub(x, mu))
                if any(x.loops & {L} or contains(x, mu) or x.unk for x in atoms(nx)) or contains(d, mu):
                    d = None
            if d is not None and num_const(d):
                k = self.kind(init)
                if k in ("num", None) and init.op != "obj":
                    return add(init, mul(d, mk("idx", L)))
            if d is not None and not d.loops & {L} and not any(x.op == "mu" and x.args[0] == L for x in subterms(d)) and not d.unk:
                return add(init, mul(d, mk("idx", L)))
        return mu

    def find_havoc(self, L, start, snap, env0):
        scal, cont = {}, {}
        inner = set(l for l in range(L, self.counters["loop"]))
        for e in self.log[start:]:
            if e.tgt is None or e.kind in ("havoc", "havocattr", "call", "raise", "read"):
                continue
            r = self.root(e.tgt)
            if isinstance(r, tuple) and r[1] >= snap["obj"]:
                continue
            dep = bool(e.tgt.loops & inner) or (isinstance(e.key, T) and bool(e.key.loops & inner))
            if any(x.op == "res" and x.args[0] >= snap["call"] or x.op == "obj" and x.args[0] >= snap["obj"]
                   for x in subterms(e.tgt)):
                continue
            mudep = any(x.op == "mu" and x.args[0] in inner for x in subterms(e.tgt)) or \
                (isinstance(e.key, T) and any(x.op in ("mu",) and x.args[0] in inner or x.op == "unk" for x in subterms(e.key)))
            if e.kind in ("store", "sattr") and not dep and not mudep:
                scal.setdefault((e.tgt, e.key, e.kind), None)
            elif e.kind == "sattr":
                cont.setdefault((e.tgt if not (e.tgt.loops & inner) else None, "sattr"), []).append(e.key)
            else:
                k = e.key if e.kind in ("store", "del") else None
                if e.tgt.loops & inner or any(x.op == "mu" and x.args[0] in inner for x in subterms(e.tgt)):
                    # which container is written depends on the iteration
                    b = e.tgt
                    while (b.loops & inner) and b.op in ("item", "attr", "nth"):
                        b = b.args[0]
                    cont.setdefault((e.tgt, "gen"), []).append(k)
                else:
                    cont.setdefault((e.tgt, "cont"), []).append(k)
        out = []
        for (tgt, key, kind) in scal:
            if (tgt, "cont") in cont and kind == "store":
                cont[(tgt, "cont")].append(key)
                continue
            saved = self.loops
            init = self._lookup(tgt, key, "attr" if kind == "sattr" else "item", start, self.full_pc(), None, 0)
            nm = "@%s%s%s" % (tgt.id, kind, key if not isinstance(key, T) else key.id)
            mu = mk("mu", L, nm)
            for x in leaves(init):
                if x.op == "obj":
                    self.mu_kind(mu, self.objs[x.args[0]])
                elif self.type_of(x):
                    self.types[mu] = self.type_of(x)
            out.append((tgt, key, kind, {"init": init}, mu))
        for (tgt, what), keys in cont.items():
            if tgt is None:
                continue
            if what == "sattr":
                for k in set(keys):
                    pass
                continue
            if what == "gen":
                i = mk("idx", L)
                out.append((tgt, None, "store", {"keys": keys, "gen": True}, None))
            else:
                out.append((tgt, None, "store", {"keys": keys}, None))
        return out

    def while_range(self, c, L):
        if c.op == "ite" and ((c.args[1] is TRUE and c.args[2] is FALSE) or (c.args[1] is FALSE and c.args[2] is TRUE)):
            a = c.args[0]
            pos = c.args[1] is TRUE
            if a.op == "le":
                i = mk("idx", L)
                lf, b = a.args
                cst, p = tm._aff_parts(lf)
                if i in p and isinstance(b, int):
                    k = p[i]
                    rest = tm._mk_aff(cst, {x: v for x, v in p.items() if x is not i})
                    if any(L in x.loops or (x.op == "mu" and x.args[0] == L) for x in subterms(rest)):
                        return None
                    if pos and k == 1:
                        return range_dom(sub(const(b + 1), rest))
                    if not pos and k == -1:
                        # not (rest - i <= b)  <=>  i < rest - b
                        return range_dom(sub(rest, const(b)))
        return None

    def drop_cond(self, start, end, c):
        a = c.args[0]
        v = c.args[1] is TRUE
        for e in self.log[start:end]:
            e.guard = restrict(e.guard, a, v)
            if isinstance(e.val, T) and e.val.op == "ite":
                e.val = restrict(e.val, a, v)

    def out_value(self, info, name, init, nx, mu):
        """the value a carried variable has after the loop"""
        L = info.lid
        if nx is mu and not info.breaks:
            return init
        if mu is not mk("mu", L, name) and mu.op != "mu":
            # an induction variable, or unchanged
            if nx is mu or (mu is init and nx is init):
                if not info.breaks:
                    return init
            n = self.dom_len(info.dom)
            i = mk("idx", L)
            if n is not None and info.brk is FALSE:
                d = sub(nx, mu)
                if num_const(d) or L not in d.loops:
                    return add(init, mul(d, n)) if info.dom.op == "dom" else \
                        ite(compare("lt", ZERO, n), add(init, mul(d, n)), init)
            return mk("out", L, name)
        if not info.breaks and info.brk is FALSE:
            # accumulation of a sum
            deltas_ok = True

            def delta(x):
                if x is mu:
                    return ZERO
                if x.op in ("aff",) and mu in x.args[1]:
                    d = sub(x, mu)
                    if not contains(d, mu):
                        return d
                return None
            ds = {x: delta(x) for x in leaves(nx)}
            if all(d is not None for d in ds.values()) and self.no_mu(atoms(nx), L) and \
                    all(self.no_mu([d], L) for d in ds.values()):
                val = ite_map(nx, lambda x: ds[x])
                nest = self.loops_between(info)
                doms, g, v = self.close([L], TRUE, val)
                return add(init, sum_closed(doms, g, v))
            # a flag that is set to something that does not depend on the iteration
            lv = [x for x in leaves(nx) if x is not mu]
            if len(lv) == 1 and L not in lv[0].loops and self.no_mu([lv[0]], L) and self.no_mu(atoms(nx), L):
                g = ite_map(nx, lambda x: TRUE if x is lv[0] else FALSE)
                doms, gg, _ = self.close([L], g, NONE)
                return ite(exists_closed(doms, gg), lv[0], init)
            # accumulation of a string
            if nx.op == "concatstr" and nx.args[0][0] is mu and not any(contains(x, mu) for x in nx.args[0][1:]) \
                    and self.no_mu(nx.args[0][1:], L):
                rest = nx.args[0][1:]
                val = rest[0] if len(rest) == 1 else mk("concatstr", tuple(rest))
                doms, g, v = self.close([L], TRUE, val)
                j = mk("joined", const(""), mk("seq", (mk("part", doms, g, v),)))
                if init.op == "const" and init.args[0] == "":
                    return j
                return mk("concatstr", (init, j))
            # the last value assigned
            if not contains(nx, mu) and self.no_mu([nx], L):
                n = self.dom_len(info.dom)
                if n is not None and L in nx.loops and nx.op != "ite":
                    last = subst(nx, {mk("idx", L): sub(n, ONE)})
                    return ite(compare("lt", ZERO, n), last, init)
                if L not in nx.loops:
                    return ite(self.dom_nonempty(info.dom), nx, init)
        elif nx is mu and len(info.breaks) == 1:
            g, env = info.breaks[0]
            v = env.get(name)
            if v is not None:
                doms, gg, vv = self.close([L], simplify(g, self.pc), v)
                # close() adds the break to the domain; the search itself is over the plain domain
                doms = tuple(mk("bd", d.args[0].args[0], d.args[1]) if d.args[0].op == "brkdom" else d for d in doms)
                ex = exists_closed(doms, gg)
                if v is init:
                    return init
                if L not in v.loops:
                    return ite(ex, v, init)
                return ite(ex, mk("first", doms, gg, vv), init)
        return mk("out", L, name)

    def loops_between(self, info):
        return [info.lid]

    def no_mu(self, ts, L):
        for t in ts:
            for x in subterms(t):
                if x.op == "mu" and x.args[0] >= L:
                    return False
                if x.op in ("rd", "unk"):
                    return False
        return True

    # ------------------------------------------------------------------------------------------ assignment

    def bind(self, name, v):
        fr = self.frame
        if name in fr.globals_decl:
            self.emit("global", None, name, v, extra={"module": fr.module.name})
            fr.module.frame.env[name] = v
            return
        if name in fr.nonlocal_decl:
            p = fr.parent
            while p is not None:
                if name in p.env and not getattr(p, "is_class", False):
                    old = p.env[name]
                    p.env[name] = v if self.pc is TRUE else ite(self.simp_rel(fr), v, old)
                    return
                p = p.parent
        fr.env[name] = v

    def simp_rel(self, fr):
        return simplify(self.pc, AND(getattr(fr, "entry_pc", TRUE), self.assume))

    def assign(self, t, v, aug=None):
        if isinstance(t, ast.Name):
            self.bind(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value)
            self.set_site(t)
            self.split(o, lambda x: self.setattr(x, t.attr, v, aug))
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value)
            k = self.index(t.slice)
            self.set_site(t)
            self.split(o, lambda x: self.setitem(x, k, v, aug))
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            self.unk("assignment target")

    def unpack(self, elts, v):
        n = len(elts)
        if v.op == "const" and isinstance(v.args[0], frozenset):
            v = mk("tuple", tuple(const(x) for x in v.args[0]))
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if star:
            i = star[0]
            for k in range(i):
                self.assign(elts[k], self.getitem(v, const(k)))
            after = n - i - 1
            self.assign(elts[i].value, self.getitem(v, mk("slice", const(i), const(-after) if after else NONE, NONE)))
            for k in range(after):
                self.assign(elts[i + 1 + k], self.getitem(v, const(k - after)))
            return
        for k, e in enumerate(elts):
            self.assign(e, self.nth_of(v, k))

    def nth_of(self, v, k):
        def f(x):
            if x.op == "tuple" and k < len(x.args[0]):
                return x.args[0][k]
            return None
        if v.op == "ite":
            return ite_map(v, lambda x: self.nth_of(x, k))
        r = f(v)
        if r is not None:
            return r
        return self.getitem(v, const(k))

    def split(self, v, fn):
        """apply fn (which has effects) to each possible value, under its condition; returns the conditional result"""
        v = self.simp(v)
        if v.op != "ite":
            return fn(v)
        ls = leaves(v)
        if len(ls) > 8:
            self.unk("too many receivers")
            return self.unk("receivers")
        pc0 = self.pc
        res = None
        out = []
        for x in ls:
            g = ite_map(v, lambda y: TRUE if y is x else FALSE)
            self.pc = AND(pc0, g)
            if self.simp_pc_false():
                continue
            r = fn(x)
            out.append((g, r))
        self.pc = pc0
        for g, r in reversed(out):
            if r is None:
                r = NONE
            res = r if res is None else ite(g, r, res)
        return res

    def simp_pc_false(self):
        return AND(self.pc, self.assume) is FALSE

    def setattr(self, o, name, v, aug=None):
        c = self.cls_of(o)
        if c in self.opaque and name in adt.SETTERS:
            self.emit("adt", o, None, None, extra={"name": name, "args": (adt.freeze(self, v),), "attrs": NONE})
            return
        if c and c in self.classes:
            p = self.classes[c].find(self, name)
            if p is not None and p.op == "property":
                if p.args[1] >= 0:
                    self.call_func(mk("func", p.args[1]), [o, v], {})
                    return
        if o.op == "class" and o.args[0] in self.classes:
            self.emit("clsattr", o, name, v)
            self.classes[o.args[0]].attrs[name] = v
            return
        if o.op == "module":
            self.emit("global", None, name, v, extra={"module": o.args[0]})
            return
        self.emit("sattr", o, name, v, extra={"aug": aug} if aug else None)

    def setitem(self, o, k, v, aug=None):
        c = self.cls_of(o)
        if c and c in self.classes:
            m = self.classes[c].find(self, "__setitem__")
            if m is not None:
                self.call_func(m, [o, k, v], {})
                return
        if self.small and small.is_nd(self, o) and small.setitem(self, o, k, v):
            return
        e = self.emit("store", o, k, v, extra={"aug": aug} if aug else None)
        if v.op == "obj" and self.ensure_pattern(o, k):
            p = item(o, k)
            self.reloc_src[e.n] = v
            e.val = p
            e.extra = "reloc"
            e2 = v
            self.loc[v] = p

    def ensure_pattern(self, o, k):
        """is the current condition that k was not in o?  (d.setdefault idiom)"""
        for a in atoms(self.pc):
            if a.op == "in" and a.args[0] is k and (a.args[1] is o or (a.args[1].op == "den" and a.args[1].args[0] is o)):
                if restrict(self.pc, a, True) is FALSE:
                    return True
        return False

    # ------------------------------------------------------------------------------------------ expressions

    def expr(self, e):
        self.steps += 1
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.unk("expression " + type(e).__name__)
        return m(e)

    def e_Constant(self, e):
        if e.value is Ellipsis:
            return mk("ext", "Ellipsis")
        return const(e.value)

    def e_Name(self, e):
        return self.name(e.id)

    def name(self, n):
        fr = self.frame
        if n in fr.globals_decl:
            return self.resolve(fr.module.frame.env.get(n) or self.builtin(n))
        f = fr
        first = True
        while f is not None:
            if n in f.env and not (getattr(f, "is_class", False) and not first):
                return self.resolve(f.env[n])
            f = f.parent
            first = False
        g = fr.module.frame.env
        if n in g:
            return self.resolve(g[n])
        b = self.builtin(n)
        if b is not None:
            return b
        for k, v in g.items():
            if k.startswith("*"):
                return mk("ext", v.args[0] + "." + n)
        return self.unk("name " + n)

    def resolve(self, v):
        if v.op == "lazyimport":
            m = self.modules[v.args[0]]
            if v.args[1] in m.frame.env:
                return m.frame.env[v.args[1]]
            return self.unk("import")
        return v

    BUILTINS = set(dir(__builtins__) if not isinstance(__builtins__, dict) else __builtins__)

    def builtin(self, n):
        if n in self.BUILTINS:
            return mk("ext", n)
        return None

    def e_Tuple(self, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            o = self.alloc("tuple")
            self.fill(o, e.elts)
            d = self.den(o)
            return d if d.op == "tuple" else o
        return mk("tuple", tuple(self.expr(x) for x in e.elts))

    def e_List(self, e):
        vs = [self.expr(x.value) if isinstance(x, ast.Starred) else self.expr(x) for x in e.elts]
        o = self.alloc("list")
        for x, v in zip(e.elts, vs):
            if isinstance(x, ast.Starred):
                self.extend(o, v)
            else:
                self.emit("append", o, None, v)
        return o

    def fill(self, o, elts):
        for x in elts:
            if isinstance(x, ast.Starred):
                self.extend(o, self.expr(x.value))
            else:
                self.emit("append", o, None, self.expr(x))

    def e_Set(self, e):
        o = self.alloc("set")
        for x in e.elts:
            self.emit("add", o, None, self.expr(x))
        return o

    def e_Dict(self, e):
        pairs = [(self.expr(k) if k is not None else None, self.expr(v)) for k, v in zip(e.keys, e.values)]
        o = self.alloc("dict")
        for k, v in pairs:
            if k is None:
                self.dict_update(o, v)
            else:
                self.emit("store", o, k, v)
        return o

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                parts.append(mk("str", self.den(self.expr(v.value))))
        if len(parts) == 1:
            return parts[0]
        return mk("fmt", tuple(parts))

    def e_FormattedValue(self, e):
        return mk("str", self.expr(e.value))

    def e_IfExp(self, e):
        c = self.boolean(self.expr(e.test))
        if c is TRUE:
            return self.expr(e.body)
        if c is FALSE:
            return self.expr(e.orelse)
        res = []
        pc0 = self.pc
        self.branch(c, lambda: res.append(self.expr(e.body)), lambda: res.append(self.expr(e.orelse)))
        return ite(c, res[0], res[1])

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        v = self.expr(e.values[0])
        for x in e.values[1:]:
            c = self.boolean(v)
            if c is TRUE:
                if isand:
                    v = self.expr(x)
                    continue
                return v
            if c is FALSE:
                if isand:
                    return v
                v = self.expr(x)
                continue
            if not is_bool(c):
                c = atom("truthy", mk("unk", "cond", c))
            res = []
            if isand:
                self.branch(c, lambda: res.append(self.expr(x)), lambda: None)
                v = ite(c, res[0], v)
            else:
                self.branch(c, lambda: None, lambda: res.append(self.expr(x)))
                v = ite(c, v, res[0])
        return v

    def e_UnaryOp(self, e):
        v = self.expr(e.operand)
        if isinstance(e.op, ast.Not):
            return NOT(self.boolean(v))
        if isinstance(e.op, ast.USub):
            return neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        return mk("invert", v)

    def boolean(self, v):
        c = self.simp(truthy(self.containers(v)))
        if not is_bool(c):
            return atom("truthy", mk("unk", "cond", c))
        return c

    def containers(self, v):
        """local containers are replaced by their denotation (for tests of emptiness, lengths, ...)"""
        if v.op == "ite":
            return ite_map(v, self.containers)
        if self.cls_of(v) in self.opaque:
            return adt.size(self, v)
        if v.op == "obj":
            m = self.objs[v.args[0]]
            if m["kind"] in ("list", "set", "iter", "deque", "tuple"):
                d = self.den(v)
                if d.op == "obj":
                    return mk("den", v, self.mark(v))
                return d
            if m["kind"] == "dict":
                ps = self.dict_parts(v)
                if ps is not None and not ps:
                    return mk("tuple", ())
                if ps is not None and all(p[0] == "store" for p in ps) and any(not p[1] and p[2] is TRUE for p in ps):
                    return TRUE
                return mk("den", v, self.mark(v))
            if m["cls"]:
                c = self.classes.get(m["cls"])
                if c is not None:
                    ln = c.find(self, "__len__")
                    if ln is not None:
                        n = self.call_func(ln, [v], {})
                        return n if n.op != "const" else n
                    bl = c.find(self, "__bool__")
                    if bl is None:
                        return TRUE
        elif self.cls_of(v):
            c = self.classes.get(self.cls_of(v))
            if c is not None and c.find(self, "__len__") is None and c.find(self, "__bool__") is None:
                if self.cls_of(v) in self.truthy_types:
                    return TRUE
            elif c is not None and c.find(self, "__len__") is not None and self.cls_of(v) not in self.opaque_classes:
                return self.call_func(c.find(self, "__len__"), [v], {})
        return v

    def e_Compare(self, e):
        left = self.expr(e.left)
        r = None
        for op, ce in zip(e.ops, e.comparators):
            right = self.expr(ce)
            c = self.cmp(op, left, right)
            r = c if r is None else self.and_(r, c)
            left = right
        return self.simp(r)

    def and_(self, a, b):
        if is_bool(a) and is_bool(b):
            return AND(a, b)
        return self.unk("and")

    def cmp(self, op, a, b):
        n = type(op).__name__
        if n not in ("Is", "IsNot", "In", "NotIn") and a.op != "ite" and b.op != "ite":
            from . import models
            if self.small and (small.is_nd(self, a) or small.is_nd(self, b)):
                return small.each(self, lambda x, y: self.cmp(op, x, y), a, b)
            if models.is_array(self, a) or models.is_array(self, b):
                return models.elementwise(self, lambda x, y: self.cmp(op, x, y), a, b)
        if n in ("Is", "IsNot", "Eq", "NotEq"):
            if n in ("Eq", "NotEq"):
                a, b = self.unbox(a), self.unbox(b)
                for x, y in ((a, b), (b, a)):
                    c = self.cls_of(x) if x.op != "ite" else None
                    if c and c in self.classes and y is not NONE and y.op != "ite":
                        m = self.classes[c].find(self, "__eq__")
                        if m is not None and c not in self.opaque_classes:
                            r = self.boolean(self.call_func(m, [x, y], {}))
                            return NOT(r) if n == "NotEq" else r
                a, b = self.eq_len(a, b)
            r = self.equal(a, b)
            if not is_bool(r):
                return atom("truthy", mk("unk", "cmp", a, b))
            return NOT(r) if n in ("IsNot", "NotEq") else r
        if n in ("Lt", "LtE", "Gt", "GtE"):
            r = compare({"Lt": "lt", "LtE": "le", "Gt": "gt", "GtE": "ge"}[n], self.unbox(a), self.unbox(b))
            if not is_bool(r):
                return atom("truthy", mk("unk", "cmp", a, b))
            return r
        if n in ("In", "NotIn"):
            r = self.contains_op(a, b)
            return NOT(r) if n == "NotIn" else r
        return self.unk("comparison")

    def equal(self, a, b):
        def f(x, y):
            # objects: identity, or structure
            if x.op == "obj" and y.op == "const":
                return FALSE
            if y.op == "obj" and x.op == "const":
                return FALSE
            return compare("eq", x, y)
        return lift(f, a, b)

    def eq_len(self, a, b):
        return a, b

    def unbox(self, v):
        if v.op == "obj" and self.objs[v.args[0]]["kind"] in ("list", "iter", "tuple", "set", "deque"):
            return self.den(v)
        return v

    def contains_op(self, k, c):
        c = self.simp(c)
        if c.op == "ite":
            return ite_map(c, lambda x: self.contains_op(k, x))
        return self.contains(k, c)

    def contains(self, k, c):
        if k.op == "ite":
            return ite_map(k, lambda x: self.contains(x, c))
        cl = self.cls_of(c)
        if cl and cl in self.classes:
            m = self.classes[cl].find(self, "__contains__")
            if m is not None:
                return self.boolean(self.call_func(m, [c, k], {}))
        if c.op in ("keys", "seqof"):
            return self.contains(k, c.args[0])
        if c.op == "tuple" or (c.op == "const" and isinstance(c.args[0], (tuple, frozenset))):
            xs = c.args[0] if c.op == "tuple" else [const(x) for x in c.args[0]]
            r = FALSE
            for x in xs:
                r = OR(r, compare("eq", k, x))
            return r
        if c.op == "obj":
            kind = self.objs[c.args[0]]["kind"]
            if kind in ("list", "set", "iter", "tuple", "deque"):
                sp = self.straight_items(c) if kind != "set" else None
                if sp is not None:
                    r = FALSE
                    for x in sp:
                        r = OR(r, compare("eq", k, x))
                    return r
                ps = self.parts(c)
                if ps is not None:
                    r = FALSE
                    for loops, g, v in ps:
                        if not loops:
                            r = OR(r, AND(g, compare("eq", k, v)))
                        elif len(loops) == 1 and v.op == "nth" and v.args[1] is mk("idx", loops[0]) and g is TRUE and \
                                self.loopinfo[loops[0]].dom.op == "dom" and self.loopinfo[loops[0]].dom.args[0] is v.args[0]:
                            r = OR(r, self.contains(k, v.args[0]))
                        else:
                            doms, gg, vv = self.close(loops, g, v)
                            r = OR(r, atom("inv", k, mk("seq", (mk("part", doms, gg, vv),)), NONE))
                    return r
                return atom("in", k, mk("den", c, self.mark(c)))
            if kind == "dict":
                return self.in_dict(k, c)
        if c.op == "range" and c.args[2] is ONE:
            return AND(compare("le", c.args[0], k), compare("lt", k, c.args[1]))
        if k.op == "nth" and k.args[0] is c:
            return TRUE
        # an external container: as it was, plus what was written since
        return self.in_ext(k, c)

    def in_dict(self, k, c):
        ps = self.dict_parts(c)
        if ps is None:
            return atom("in", k, mk("den", c, self.mark(c)))
        r = FALSE
        for kind, loops, g, key, v in ps:
            if loops and not all(l in self.loops for l in loops):
                done = [l for l in loops if l not in self.loops]
                m = None
                if len(done) == 1:
                    L = done[0]
                    i = mk("idx", L)
                    if kind == "store" and g is TRUE and key.op == "nth" and key.args[1] is i and \
                            self.loopinfo[L].dom.op == "dom" and self.loopinfo[L].dom.args[0] is key.args[0]:
                        r = OR(r, self.contains(k, key.args[0]))
                        continue
                    if kind == "store" and key is i and g is TRUE:
                        r = OR(r, self.in_domain(k, self.loopinfo[L].dom))
                        continue
                return atom("in", k, mk("den", c, self.mark(c)))
            if kind == "dictupdate":
                return atom("in", k, mk("den", c, self.mark(c)))
            q = compare("eq", k, key)
            if kind == "store":
                r = OR(r, AND(g, q))
            else:
                r = AND(r, NOT(AND(g, q)))
        return r

    def in_ext(self, k, c):
        evs = [e for e in self.by_root.get(self.root(c), ()) if e.kind in
               ("store", "del", "havoc", "append", "add", "mutate", "pop", "remove", "clear", "update", "dictupdate", "insert", "ucontent")
               and self.alias(e.tgt, c) != "no"]
        r = atom("in", k, c)
        for e in evs:
            if e.kind == "havoc":
                if e.extra["loop"] in self.loops and not self.havoc_irrelevant(e, c, k):
                    r = atom("in", k, mk("den", c, e.n))
                continue
            if e.loops != self.loops[:len(e.loops)] or self.alias(e.tgt, c) == "may":
                r = atom("in", k, mk("den", c, e.n))
                continue
            if e.kind in ("store", "del"):
                al = self.key_alias(e.key, k)
                if al == "no":
                    continue
                q = compare("eq", e.key, k)
                r = OR(r, AND(e.guard, q)) if e.kind == "store" else AND(r, NOT(AND(e.guard, q)))
            elif e.kind in ("append", "add"):
                r = OR(r, AND(e.guard, compare("eq", e.val, k)))
            else:
                r = atom("in", k, mk("den", c, e.n))
        return self.simp(r)

    def e_BinOp(self, e):
        a = self.expr(e.left)
        b = self.expr(e.right)
        self.set_site(e)
        return self.binary(e.op, a, b)

    def binary(self, op, a, b):
        n = type(op).__name__
        a0, b0 = a, b
        if a.op == "ite" or b.op == "ite":
            if len(leaves(a)) * len(leaves(b)) <= 24 and (any(x.op == "obj" for x in leaves(a)) or any(x.op == "obj" for x in leaves(b))):
                return lift(lambda x, y: self.binary1(n, x, y), a, b)
        return self.binary1(n, a, b)

    def binary1(self, n, a, b):
        if self.small and (small.is_nd(self, a) or small.is_nd(self, b)):
            return small.binary(self, getattr(ast, n)(), a, b)
        if n == "Mult" and a.op == b.op == "const" and {str, int} == {type(a.args[0]), type(b.args[0])}:
            return const(a.args[0] * b.args[0])
        if n == "Add":
            ka, kb = {self.kind(x) for x in leaves(a)}, {self.kind(x) for x in leaves(b)}
            if ka & {"str"} or kb & {"str"}:
                return lift(concat_str, a, b)
            if ka & {"list", "tuple", "iter", "deque"} or kb & {"list", "tuple", "iter", "deque"}:
                return self.concat(a, b)
            return add(a, b)
        if n in ("BitOr", "BitAnd", "Sub") and (self.is_set(a) or self.is_set(b)):
            if n == "BitOr":
                o = self.alloc("set")
                self.extend(o, a)
                self.extend(o, b)
                return o
            return mk("setop", n, self.version_deep(a), self.version_deep(b))
        if n == "Sub":
            return sub(a, b)
        if n == "Mult":
            for x, y in ((a, b), (b, a)):
                if x.op == "obj" and self.objs[x.args[0]]["kind"] == "list":
                    o = self.alloc("list")
                    sp = self.straight_items(x)
                    if self.small and sp is not None and num_const(y) and isinstance(y.args[0], int) and len(sp) * y.args[0] <= self.unroll:
                        for v in sp * y.args[0]:
                            self.emit("append", o, None, v)
                        return o
                    if sp is not None and len(sp) == 1:
                        self.generic_loop(range_dom(y), lambda i: self.emit("append", o, None, sp[0]), set())
                        return o
                    return mk("repeat", self.den(x), y)
            return mul(a, b)
        if n == "Div":
            return div(a, b)
        if n == "FloorDiv":
            return binop("floordiv", a, b)
        if n == "Mod":
            if self.kind(a) == "str":
                return mk("fmt", (a, self.den(b)))
            return binop("mod", a, b)
        if n == "Pow":
            return binop("pow", a, b)
        if n == "BitXor":
            return binop("bxor", a, b)
        if n == "BitAnd":
            return binop("band", a, b)
        if n == "BitOr":
            return binop("bor", a, b)
        if n == "LShift":
            return binop("shl", a, b)
        if n == "RShift":
            return binop("shr", a, b)
        return mk("op" + n, self.den(a), self.den(b))

    def concat(self, a, b):
        if a.op == "tuple" and b.op == "tuple":
            return mk("tuple", a.args[0] + b.args[0])
        o = self.alloc("list")
        self.extend(o, a)
        self.extend(o, b)
        return o

    def extend(self, o, v):
        """append the elements of v to o"""
        v = self.simp(v)
        if v.op == "obj" and v is o:
            self.emit("mutate", o, None, v)
            return
        kind = "append"
        if o.op == "obj" and self.objs[o.args[0]]["kind"] == "set":
            kind = "add"
        self.iterate(v, lambda x: self.emit(kind, o, None, x), set())

    def e_Subscript(self, e):
        o = self.expr(e.value)
        k = self.index(e.slice)
        self.set_site(e)
        if self.exact_raises and self.trys > 0 and o.op == "obj" and self.objs[o.args[0]]["kind"] == "dict" and k.op != "slice":
            # the handler of a try statement may be waiting for the entry not being there
            pc0 = self.pc
            self.pc = AND(pc0, NOT(self.boolean(self.contains(k, o))))
            if AND(self.pc, self.assume) is not FALSE:
                self.emit("raise", None, None, mk("ext", "KeyError"), extra={"caught": True, "frames": tuple(f.func.name if f.func else "" for f in self.stack)})
                self.assume = AND(self.assume, NOT(self.pc))
            self.pc = pc0
        return self.getitem(o, k)

    def index(self, s):
        if isinstance(s, ast.Slice):
            return mk("slice", self.expr(s.lower) if s.lower else NONE, self.expr(s.upper) if s.upper else NONE,
                      self.expr(s.step) if s.step else NONE)
        return self.expr(s)

    e_Slice = index

    def getitem(self, o, k):
        o = self.simp(o)
        if o.op == "ite":
            return self.split(o, lambda x: self.getitem(x, k))
        k = self.simp(k)
        if k.op == "ite" and o.op in ("tuple",):
            return ite_map(k, lambda y: self.getitem(o, y))
        if self.small and small.is_nd(self, o):
            r = small.getitem(self, o, k)
            if r is not NotImplemented:
                return r
        if k.op == "slice":
            return self.getslice(o, k)
        if o.op == "const" and isinstance(o.args[0], (str, tuple)) and num_const(k):
            try:
                return const(o.args[0][k.args[0]])
            except Exception:
                return mk("missing", o, k)
        if o.op == "tuple" and num_const(k):
            try:
                return o.args[0][k.args[0]]
            except Exception:
                return mk("missing", o, k)
        c = self.cls_of(o)
        if c and c in self.classes:
            m = self.classes[c].find(self, "__getitem__")
            if m is not None:
                return self.call_func(m, [o, k], {})
        if o.op == "seq":
            if num_const(k) and all(not p.args[0] and p.args[1] is TRUE for p in o.args[0]):
                try:
                    return o.args[0][k.args[0]].args[2]
                except Exception:
                    return mk("missing", o, k)
            if len(o.args[0]) == 1:
                p = o.args[0][0]
                doms, g, v = p.args
                if len(doms) == 1 and g is TRUE:
                    r = self.at_index(v, doms[0].args[1], k, doms[0].args[0], self.full_pc())
                    return item(o, k) if r is None else r
        if o.op == "seqof":
            return self.getitem(o.args[0], k)
        if o.op in ("keys", "values") and o.args[0].op != "obj":
            d = self.version(o.args[0])
            return mk("nth", d, k)
        if o.op == "class" and o.args[0] in self.classes and self.classes[o.args[0]].is_enum:
            return self.unk("enum")
        if o.op == "tuple":
            return mk("item", o, k)
        if o.op == "obj":
            kk = self.objs[o.args[0]]["kind"]
            if kk in ("list", "iter", "deque", "tuple"):
                return self.list_item(o, k)
        return self.lookup(o, k)

    def list_item(self, o, k):
        sp = self.straight_items(o)
        if sp is not None:
            if num_const(k) and isinstance(k.args[0], int):
                return sp[k.args[0]] if -len(sp) <= k.args[0] < len(sp) else mk("missing", o, k)
        r = self.lookup(o, k)
        if r.op == "rd":
            d = self.den(o)
            if d.op in ("seq", "seqof", "tuple"):
                return self.getitem(d, k)
        return r

    def getslice(self, o, k):
        a, b, c = k.args
        if o.op == "const" and isinstance(o.args[0], (str, tuple)) and all(x.op == "const" for x in (a, b, c)):
            return const(o.args[0][slice(a.args[0], b.args[0], c.args[0])])
        if o.op == "tuple" and all(x.op == "const" for x in (a, b, c)):
            return mk("tuple", tuple(o.args[0][slice(a.args[0], b.args[0], c.args[0])]))
        if o.op == "obj" and self.objs[o.args[0]]["kind"] in ("list", "tuple", "iter"):
            sp = self.straight_items(o)
            if sp is not None and all(x.op == "const" for x in (a, b, c)):
                r = self.alloc("list")
                for v in sp[slice(a.args[0], b.args[0], c.args[0])]:
                    self.emit("append", r, None, v)
                return r
            if a is NONE and b is NONE and c is NONE:
                r = self.alloc("list")
                self.extend(r, o)
                return r
        if a is NONE and b is NONE and c is NONE:
            if self.kind(o) == "str":
                return o
            r = self.alloc("list")
            self.extend(r, o)
            return r
        base = self.den(o) if o.op == "obj" else self.version(o)
        if a is ZERO:
            a = NONE
        return mk("sliced", base, a, b, c)

    def e_Attribute(self, e):
        o = self.expr(e.value)
        self.set_site(e)
        return self.getattr(o, e.attr)

    def instance_of_loop(self, v):
        """v is an instance of a class of the analysed code that was made in an iteration of a loop that is over"""
        return v.op == "obj" and self.objs[v.args[0]]["cls"] in self.classes and v.args[1] and all(x.op == "bv" for x in v.args[1])

    def attr_of_found(self, o, name):
        """
        an attribute of an instance that was looked up in a collection filled by a loop: the same lookup, in the collection of
        the attributes; None when it isn't such a lookup
        """
        if o.op in ("last", "first"):
            parts = [(o.args[0], o.args[2])]
        elif o.op == "item" and o.args[0].op == "dictof" and all(
                x.op == "part" and x.args[2].op == "kv" and x.args[2].args[0] == "store" for x in o.args[0].args[0]):
            parts = [(x.args[0], x.args[2].args[1].args[0][1]) for x in o.args[0].args[0]]
        else:
            return None
        out = []
        for doms, v in parts:
            if not all(self.instance_of_loop(x) for x in leaves(v)):
                return None
            # the instances are those of the iterations of the loops
            inside = TRUE
            for d in doms:
                inside = AND(inside, AND(self.in_domain(d.args[1], d.args[0]), self.dom_nonempty(d.args[0])))
            pc = self.pc
            self.pc = AND(pc, inside)
            try:
                r = simplify(ite_map(v, lambda x: self.getattr(x, name)), inside)
            finally:
                self.pc = pc
            if r.op in ("bound", "func", "missing") or r.unk or any(x.op in ("bd", "missing", "rd", "attr") for x in subterms(r)):
                return None
            out.append(r)
        if o.op != "item":
            return mk(o.op, o.args[0], o.args[1], out[0])
        ps = [mk("part", x.args[0], x.args[1], mk("kv", "store", mk("tuple", (x.args[2].args[1].args[0][0], r))))
              for x, r in zip(o.args[0].args[0], out)]
        return mk("item", mk("dictof", tuple(ps)), o.args[1])

    def getattr(self, o, name):
        o = self.simp(o)
        if o.op == "ite":
            return self.split(o, lambda x: self.getattr(x, name))
        if o.op in ("last", "first", "item"):
            v = self.attr_of_found(o, name)
            if v is not None:
                return v
        if o.op == "module":
            m = self.modules[o.args[0]]
            if name in m.frame.env:
                return self.resolve(m.frame.env[name])
            if o.args[0] + "." + name in self.modules:
                self._exec_module(o.args[0] + "." + name)
                return mk("module", o.args[0] + "." + name)
            return mk("missing", o, const(name))
        if o.op == "ext":
            return mk("ext", o.args[0] + "." + name)
        if o.op == "class" and o.args[0] in self.opaque and name in adt.STATIC:
            return mk("bm", o, name)
        if o.op == "class":
            c = self.classes.get(o.args[0])
            v = c.find(self, name) if c else None
            if v is None:
                if name == "__name__":
                    return const(c.name)
                if name in ("__new__",):
                    return mk("ext", "object.__new__")
                return self.unk("class attribute " + name)
            if v.op == "static":
                return mk("func", v.args[0])
            if v.op == "clsmethod":
                return mk("bound", o, v.args[0])
            return v
        if o.op == "super":
            c = self.classes.get(o.args[1])
            for b in c.mro(self)[1:] if c else []:
                if name in b.attrs:
                    v = b.attrs[name]
                    if v.op == "func":
                        return mk("bound", o.args[0], v.args[0])
                    if v.op == "property":
                        return self.call_func(mk("func", v.args[0]), [o.args[0]], {})
            return mk("ext", "object." + name)
        if o.op == "enum" and name in ("name", "value"):
            return mk("attr", o, name)
        cn = self.cls_of(o)
        if cn in self.opaque:
            if name in adt.PROPS:
                return adt.query(self, o, name)
            if adt.intercepts(self, cn, name):
                return mk("bm", o, name)
        if cn and cn in self.classes:
            c = self.classes[cn]
            v = c.find(self, name)
            if v is not None and v.op == "property" and (cn, name) in self.abstract_props:
                return mk("attr", o, name)
            if v is not None and v.op == "property":
                if v.args[0] < 0:
                    return self.unk("property")
                return self.call_func(mk("func", v.args[0]), [o], {})
            if v is not None and v.op == "func":
                return mk("bound", o, v.args[0])
            if v is not None and v.op == "static":
                return mk("func", v.args[0])
            if v is not None and v.op == "clsmethod":
                return mk("bound", mk("class", cn), v.args[0])
            if name == "__class__":
                return mk("class", cn)
            if name == "__dict__":
                return self.unk("__dict__")
            r = self.lookup(o, name, "attr")
            if v is not None and r.op == "missing":
                return v
            if v is not None and r.op == "ite" and any(x.op == "missing" for x in leaves(r)):
                return ite_map(r, lambda x: v if x.op == "missing" else x)
            return r
        if name == "size" and o.op == "call" and o.args[0] in ("numpy.array", "numpy.asarray") and len(o.args[1]) == 1:
            return length(o.args[1][0])
        if self.small and small.is_nd(self, o):
            r = small.attribute(self, o, name)
            if r is not None:
                return r
        if o.op == "obj":
            return mk("bm", o, name)
        if o.op in ("keys", "values", "items", "seq", "seqof", "sorted", "tuple", "concatstr", "str", "fmt", "joined", "sliced",
                    "dictof", "setof"):
            return mk("bm", o, name)
        if self.kind(o) in ("dict", "list", "str", "set", "num", "tuple", "ndarray") or name in CONTAINER_METHODS:
            return mk("bm", o, name)
        return self.lookup(o, name, "attr")

    def e_Call(self, e):
        f = self.expr(e.func)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.expr(a.value)
                s = self.finite(self.simp(v)) if self.simp(v).op != "ite" else None
                if s is not None:
                    args.extend(s)
                else:
                    args.append(mk("star", self.den(v)))
            else:
                args.append(self.expr(a))
        for k in e.keywords:
            if k.arg is None:
                kwargs["**"] = self.expr(k.value)
            else:
                kwargs[k.arg] = self.expr(k.value)
        self.set_site(e)
        site = self.site
        self.callsites += 1
        r = self.call(f, args, kwargs, e)
        self.site = site
        return r

    def e_Lambda(self, e):
        f = self.make_func(e, "<lambda>")
        return mk("func", f.fid)

    def e_ListComp(self, e):
        o = self.alloc("list")
        self.comp(e.generators, lambda: self.emit("append", o, None, self.expr(e.elt)))
        return o

    def e_GeneratorExp(self, e):
        o = self.alloc("iter")
        self.comp(e.generators, lambda: self.emit("append", o, None, self.expr(e.elt)))
        return o

    def e_SetComp(self, e):
        o = self.alloc("set")
        self.comp(e.generators, lambda: self.emit("add", o, None, self.expr(e.elt)))
        return o

    def e_DictComp(self, e):
        o = self.alloc("dict")

        def put():
            k = self.expr(e.key)
            v = self.expr(e.value)
            self.emit("store", o, k, v)
        self.comp(e.generators, put)
        return o

    def comp(self, gens, fin):
        # a comprehension has its own scope
        saved = self.frame
        fr = Frame(saved.func, saved.module, saved)
        fr.loop_base = len(self.loops)
        fr.ls_base = len(self.loopstack)
        fr.loop_returns = []
        fr.is_comp = True
        first = self.expr(gens[0].iter)
        self.frame = fr
        try:
            self._comp(gens, 0, fin, first)
        finally:
            self.frame = saved

    def _comp(self, gens, i, fin, it=None):
        if i == len(gens):
            fin()
            return
        g = gens[i]
        if it is None:
            it = self.expr(g.iter)

        def body(x):
            self.assign(g.target, x)
            self._ifs(g.ifs, 0, lambda: self._comp(gens, i + 1, fin))
        names = set()
        for h in gens[i:]:
            names |= target_names(h.target)
        self.iterate(it, body, names, drop=names)

    def _ifs(self, ifs, i, fin):
        if i == len(ifs):
            fin()
            return
        c = self.boolean(self.expr(ifs[i]))
        self.branch(self.simp(c), lambda: self._ifs(ifs, i + 1, fin), lambda: None)

    def e_NamedExpr(self, e):
        v = self.expr(e.value)
        fr = self.frame
        while getattr(fr, "is_comp", False):
            fr = fr.parent
        saved = self.frame
        self.frame = fr
        self.bind(e.target.id, v)
        self.frame = saved
        return v

    def e_Starred(self, e):
        return mk("star", self.expr(e.value))

    def e_Yield(self, e):
        v = self.expr(e.value) if e.value is not None else NONE
        fr = self.frame
        while getattr(fr, "is_comp", False):
            fr = fr.parent
        self.emit("append", fr.yields, None, v)
        return NONE

    def e_YieldFrom(self, e):
        v = self.expr(e.value)
        fr = self.frame
        while getattr(fr, "is_comp", False):
            fr = fr.parent
        self.extend(fr.yields, v)
        return NONE

    # ------------------------------------------------------------------------------------------ calls

    def call(self, f, args, kwargs, node=None):
        f = self.simp(f)
        if f.op == "ite":
            return self.split(f, lambda x: self.call(x, args, kwargs, node))
        if f.op in ("func", "static"):
            return self.call_func(mk("func", f.args[0]), args, kwargs)
        if f.op == "bound":
            return self.call_func(mk("func", f.args[1]), [f.args[0]] + args, kwargs)
        if f.op == "class":
            return self.instantiate(f, args, kwargs)
        if f.op == "bm":
            return self.split(f.args[0], lambda o: self.method(o, f.args[1], args, kwargs))
        if f.op == "ext":
            return self.ext_call(f.args[0], args, kwargs, node)
        if f.op == "partial":
            kw = dict(f.args[2])
            kw.update(kwargs)
            return self.call(f.args[0], list(f.args[1]) + args, kw, node)
        c = self.cls_of(f)
        if c and c in self.classes:
            m = self.classes[c].find(self, "__call__")
            if m is not None:
                return self.call_func(m, [f] + args, kwargs)
        if f.op == "attr" and f.args[1] in CONTAINER_METHODS:
            return self.method(f.args[0], f.args[1], args, kwargs)
        return self.unknown_call(f, args, kwargs)

    def unknown_call(self, f, args, kwargs, pure=False):
        """a call of code that is not part of the analysis: a user's rule, callback, ..."""
        n = self.counters["call"]
        self.counters["call"] += 1
        res = mk("res", n, self.cur_idx())
        e = self.emit("call", None, None, res, extra={"callee": f, "args": list(args), "kwargs": dict(kwargs),
                                                       "pos": len(self.log)})
        h = self.callbacks.get(f)
        if h is not None:
            r = h(self, e, res)
            if r is not None:
                return r
        return res

    def call_func(self, fv, args, kwargs):
        if fv.op == "static":
            fv = mk("func", fv.args[0])
        if fv.op != "func":
            return self.call(fv, args, kwargs)
        f = self.funcs[fv.args[0]]
        if len(self.stack) > MAXDEPTH or sum(1 for x in self.stack if x.func is not None and x.func.node is f.node) > 1:
            return self.unk("recursion in " + f.name)
        node = f.node
        fr = Frame(f, f.module, f.frame)
        fr.entry_pc = self.pc
        fr.loop_base = len(self.loops)
        fr.ls_base = len(self.loopstack)
        fr.loop_returns = []
        self.bind_args(f, fr, args, kwargs)
        saved_frame, saved_ls, saved_site = self.frame, self.loopstack, self.site
        self.stack.append(fr)
        self.analysed.add((f.module.path, f.qual() if hasattr(f, "qual") else f.name))
        pc0, as0, r0 = self.pc, self.assume, self.raised
        self.raised = FALSE
        self.frame = fr
        if f.is_gen:
            fr.yields = self.alloc("iter")
        try:
            if isinstance(node, ast.Lambda):
                v = self.expr(node.body)
                fr.returns.append((self.pc, v))
            else:
                self.block(node.body)
                if self.pc is not FALSE:
                    fr.returns.append((self.pc, NONE))
        finally:
            self.stack.pop()
            self.frame, self.site = saved_frame, saved_site
        rz = self.raised
        live = FALSE
        for g, v in fr.returns:
            live = OR(live, g)
        if f.is_gen:
            self.pc = pc0
            self.raised = OR(r0, rz)
            if rz is not FALSE and self.exact_raises and self.trys > 0:
                self.pc = AND(pc0, NOT(rz))
            elif rz is not FALSE:
                self.assume = AND(self.assume, NOT(rz))
                self.raised = r0
            return fr.yields
        base = AND(pc0, self.assume)
        res = None
        for g, v in reversed(fr.returns):
            if res is None:
                res = v
            else:
                res = ite(simplify(g, base), v, res)
        if not fr.returns:
            # never returns normally
            self.pc = FALSE
            self.raised = OR(r0, rz)
            return self.unk("no return")
        if rz is not FALSE and self.exact_raises and self.trys > 0:
            # an exception may be caught further out: the rest runs under the condition that there was none
            self.pc = AND(pc0, NOT(rz))
            self.raised = OR(r0, rz)
            return simplify(res, AND(self.pc, self.assume))
        if rz is not FALSE:
            self.assume = AND(self.assume, NOT(rz))
        self.pc = pc0
        self.raised = r0
        if rz is not FALSE:
            res = simplify(res, AND(pc0, self.assume))
        return res

    def bind_args(self, f, fr, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = fr.env
        args = list(args)
        kwargs = dict(kwargs)
        star = [x for x in args if x.op == "star"]
        if star:
            i = args.index(star[0])
            src = star[0].args[0]
            need = max(0, len(names) - i)
            rest = args[i + 1:]
            if a.vararg is None:
                args = args[:i] + [self.getitem(src, const(k)) for k in range(need - len(rest))] + rest
        for n, v in zip(names, args):
            env[n] = v
        extra = args[len(names):]
        if a.vararg is not None:
            env[a.vararg.arg] = mk("tuple", tuple(extra)) if not star else (star[0].args[0] if len(extra) <= 1 else self.unk("varargs"))
        dd = kwargs.pop("**", None)
        kwonly = [x.arg for x in a.kwonlyargs]
        rest = {}
        for k, v in kwargs.items():
            if k in names or k in kwonly:
                env[k] = v
            else:
                rest[k] = v
        if a.kwarg is not None:
            if rest or dd is None:
                o = self.alloc("dict")
                if dd is not None:
                    self.dict_update(o, dd)
                for k, v in rest.items():
                    self.emit("store", o, const(k), v)
            else:
                # f(**d): a new dict with the content of d
                o = self.alloc("dict")
                self.dict_update(o, dd)
            env[a.kwarg.arg] = o
        elif dd is not None:
            for n in names + kwonly:
                if n not in env:
                    env[n] = self.getitem(dd, const(n))
        nd = len(f.defaults)
        for n, d in zip(names[len(names) - nd:] if nd else [], f.defaults):
            if n not in env:
                env[n] = d
        for k, d in f.kw_defaults.items():
            if k not in env:
                env[k] = d
        for n in names + kwonly:
            if n not in env:
                env[n] = self.unk("missing argument " + n)

    def instantiate(self, cv, args, kwargs):
        c = self.classes[cv.args[0]]
        if c.is_enum:
            return mk("enumof", cv, *args)
        o = self.alloc("inst", cv.args[0])
        if cv.args[0] in self.opaque:
            return adt.new(self, o, args, kwargs)
        init = c.find(self, "__init__")
        if any(b.op == "ext" and b.args[0] in ("Exception", "ValueError", "KeyError", "TypeError", "RuntimeError") for k in c.mro(self) for b in k.bases):
            return mk("exc", cv, *[self.den(a) for a in args])
        if init is not None and init.op == "func":
            self.call_func(init, [o] + args, kwargs)
        elif is_dataclass(c):
            names = [s.target.id for s in c.node.body if isinstance(s, ast.AnnAssign)]
            for n, v in list(zip(names, args)) + list(kwargs.items()):
                self.emit("sattr", o, n, v)
        return o

    # ------------------------------------------------------------------------------------------ methods of containers

    def dict_update(self, o, v):
        v = self.simp(v)
        if v.op == "ite":
            self.split(v, lambda x: self.dict_update(o, x))
            return
        if v.op == "obj" and self.objs[v.args[0]]["kind"] == "dict":
            ps = self.dict_parts(v)
            if ps is not None and all(p[0] == "store" for p in ps):
                if all(not p[1] for p in ps):
                    for kind, loops, g, k, val in ps:
                        self.branch(self.simp(g), lambda: self.emit("store", o, k, val), lambda: None)
                    return
                self.iterate(mk("items", v), lambda kv: self.emit("store", o, kv.args[0][0], kv.args[0][1]), set())
                return
            self.emit("dictupdate", o, None, mk("den", v, self.mark(v)))
            return
        if v.op == "obj":
            self.iterate(v, lambda kv: self.emit("store", o, self.nth_of(kv, 0), self.nth_of(kv, 1)), set())
            return
        if v.op == "tuple" or v.op in ("zip", "enumerate", "items"):
            self.iterate(v, lambda kv: self.emit("store", o, self.nth_of(kv, 0), self.nth_of(kv, 1)), set())
            return
        if o.op == "obj":
            self.iterate(mk("items", v), lambda kv: self.emit("store", o, self.nth_of(kv, 0), self.nth_of(kv, 1)), set())
        else:
            self.emit("update", o, None, self.version(v))

    def method(self, o, name, args, kwargs):
        from . import models
        if o.op == "class" and o.args[0] in self.opaque:
            return adt.static(self, o, name, args, kwargs)
        if self.cls_of(o) in self.opaque:
            if name == adt.COPY:
                return adt.copy(self, o)
            if name in adt.MUTATORS:
                return adt.mutate(self, o, name, args, kwargs)
            return adt.query(self, o, name, args, kwargs)
        return models.method(self, o, name, args, kwargs)

    def ext_call(self, name, args, kwargs, node=None):
        from . import models
        return models.ext_call(self, name, args, kwargs, node)

    # ------------------------------------------------------------------------------------------ use by the rules

    def eval_in(self, src, env, module=None):
        """evaluate an expression (given as source) on values, at this point of the analysis"""
        e = ast.parse(src, mode="eval").body
        m = copy.copy(self.modules[module or self.package])
        m.path = None           # the code of the check: constructs reported are those of the source
        fr = Frame(None, m)
        fr.env = dict(env)
        fr.loop_base = len(self.loops)
        fr.ls_base = len(self.loopstack)
        fr.loop_returns = []
        saved = self.frame
        self.frame = fr
        try:
            return self.expr(e)
        finally:
            self.frame = saved

    def exec_in(self, src, env, module=None):
        tree = ast.parse(src)
        m = copy.copy(self.modules[module or self.package])
        m.path = None           # the code of the check: constructs reported are those of the source
        fr = Frame(None, m)
        fr.env = dict(env)
        fr.loop_base = len(self.loops)
        fr.ls_base = len(self.loopstack)
        fr.loop_returns = []
        saved = self.frame
        self.frame = fr
        try:
            self.block(tree.body)
            return fr.env
        finally:
            self.frame = saved


CONTAINER_METHODS = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "get", "items",
                     "keys", "values", "add", "discard", "index", "count", "sort", "reverse", "copy", "popitem",
                     "join", "zfill", "format", "split", "startswith", "endswith", "strip", "upper", "lower", "replace",
                     "rotate", "appendleft", "popleft", "union", "intersection", "difference", "tolist", "reshape",
                     "flatten", "astype", "most_common", "issubset", "sum", "mean", "max", "min", "isdisjoint",
                     "symmetric_difference", "item", "todense", "elements", "total", "subtract", "fill", "extendleft"}


def item(o, k):
    return mk("item", o, k if isinstance(k, T) else const(k))


def _b_item(o, k):
    def f(x, y):
        if x.op == "tuple" and num_const(y):
            try:
                return x.args[0][y.args[0]]
            except Exception:
                pass
        return mk("item", x, y)
    return lift(f, o, k)


tm._builders["item"] = _b_item


def element(x, y):
    """the y-th element of x"""
    if x.op == "sliced" and (x.args[1] is NONE or num_const(x.args[1]) and x.args[1].args[0] >= 0) and x.args[3] in (NONE, ONE):
        return element(x.args[0], y if x.args[1] is NONE else add(y, x.args[1]))
    return mk("nth", x, y)


def _b_nth(o, k):
    def f(x, y):
        return element(x, y)
    return lift(f, o, k)


tm._builders["nth"] = _b_nth


def overwritten(ps):
    """entries of a dict in order, where an entry that the same iteration stores again is stored once"""
    out = []
    for kind, loops, g, key, val in ps:
        if kind == "store":
            k = len(out) - 1
            while k >= 0 and out[k][0] == "store" and out[k][1] == loops:
                if out[k][3] is key:
                    break
                k -= 1
            else:
                k = -1
            if k >= 0:
                g0, v0 = out[k][2], out[k][4]
                if isinstance(val, T) and isinstance(v0, T):
                    out[k] = ("store", loops, OR(g0, g), key, ite(g, val, v0))
                    continue
        out.append((kind, loops, g, key, val))
    return out


def range_dom(n):
    if n.op == "len":
        return mk("dom", n.args[0])
    return mk("range", ZERO, n, ONE)


def _b_range(a, b, c):
    if a is ZERO and c is ONE:
        return range_dom(b)
    return mk("range", a, b, c)


tm._builders["range"] = _b_range


def ite_map(t, fn):
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            if x.op == "ite":
                r = ite(atom_of(x.args[0]), go(x.args[1]), go(x.args[2]))
            else:
                r = fn(x)
            memo[x] = r
        return r
    return go(t)


tm.ite_map = ite_map


def contains(t, x):
    return x in subterms(t)


def concat_str(a, b):
    xs = list(a.args[0]) if a.op == "concatstr" else [a]
    ys = list(b.args[0]) if b.op == "concatstr" else [b]
    out = []
    for z in xs + ys:
        if out and z.op == "const" and out[-1].op == "const" and isinstance(z.args[0], str) and isinstance(out[-1].args[0], str):
            out[-1] = const(out[-1].args[0] + z.args[0])
        else:
            out.append(z)
    out = [z for z in out if not (z.op == "const" and z.args[0] == "")] or [const("")]
    if len(out) == 1:
        return out[0]
    return mk("concatstr", tuple(out))


def contains_yield(node):
    for n in walk_scope(node.body):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def walk_scope(body):
    """nodes of a body, not entering nested functions and classes"""
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def target_names(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def assigned_names(body):
    out = set()
    for n in walk_scope(body):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            for k in ast.walk(n):
                if isinstance(k, ast.Nonlocal):
                    out.update(k.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
    return out


def walrus_names(e):
    return {n.target.id for n in ast.walk(e) if isinstance(n, ast.NamedExpr)}


def as_load(t):
    t = ast.parse(ast.unparse(t), mode="eval").body if False else t
    import copy
    t2 = copy.copy(t)
    t2.ctx = ast.Load()
    return t2


def is_dataclass(c):
    return any("dataclass" in ast.unparse(d) for d in c.node.decorator_list)
