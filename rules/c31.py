"""C31: results depend on the arguments and the documented random generators only."""
import ast
from .origins import *
from sa.package import Fn, Cls, Module, mutable_expr
from sa.consts import Reach, Const, UNKNOWN, NOTNONE

TECHNIQUE = ("interprocedural origin analysis of what survives a call (module variables, class attributes, default values, function "
             "attributes, memoised results): none may be modified or handed out; effect analysis over the call graph for sources of "
             "nondeterminism and for draws from random generators; constant propagation of given seeds; and a syntactic data-flow "
             "analysis of iterations over sets whose elements may be strings")

# documented: these draw from the global generators
RANDOM = {
    "fungal_growth_model": {"FungalGrowthModel"}, "rule_tables": {"random_rule_table", "table_walk_through"},
    "asynchronous_rule": {"AsynchronousRule"}, "hopfield_net": {"HopfieldNet"}, "activity_rule": {"majority_rule"},
    "evolution": {"init_random"}, "networks": {"watts_strogatz_graph"}, "utils": set(),
}
CLOCK = {"time.time", "time.time_ns", "time.perf_counter", "time.monotonic", "time.process_time", "time.localtime", "time.gmtime", "time.strftime",
         "time.ctime", "datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today", "datetime.date.today", "time.clock",
         "time.perf_counter_ns", "time.monotonic_ns"}
ENVIRONMENT = {"os.getenv", "os.environ.get", "os.getpid", "os.getppid", "os.getcwd", "os.uname", "os.cpu_count", "socket.gethostname",
               "platform.node", "platform.system", "platform.platform", "getpass.getuser", "os.getlogin", "os.listdir", "os.scandir",
               "sys.getrefcount", "sys.getsizeof", "locale.getlocale", "threading.get_ident", "os.stat", "glob.glob", "gc.get_objects"}
ENTROPY = {"os.urandom", "uuid.uuid1", "uuid.uuid4", "secrets.token_bytes", "secrets.token_hex", "secrets.randbelow", "secrets.choice",
           "random.SystemRandom", "secrets.randbits"}
ADDRESS = {"id", "hash", "object.__hash__"}
OWN_GENERATORS = {"numpy.random.RandomState", "numpy.random.default_rng", "random.Random", "numpy.random.Generator", "numpy.random.SeedSequence",
                  "numpy.random.PCG64", "numpy.random.MT19937"}
SEEDING = {"numpy.random.seed", "random.seed", "numpy.random.set_state", "random.setstate"}
NX_RANDOM = {"watts_strogatz_graph", "erdos_renyi_graph", "gnp_random_graph", "barabasi_albert_graph", "newman_watts_strogatz_graph",
             "connected_watts_strogatz_graph", "random_regular_graph", "fast_gnp_random_graph", "gnm_random_graph", "powerlaw_cluster_graph",
             "random_graph", "configuration_model", "random_geometric_graph"}


def rel(q):
    return q.replace("netomaton.", "", 1)


def where(f, node):
    return "%s:%d (%s)" % (f.mod.rel, getattr(node, "lineno", 0), f.name)


# ------------------------------------------------------------------------------------------------ what survives a call

def root_text(r):
    k = r[0]
    if k == "default":
        return "the default value of %s of %s" % (r[2], rel(r[1]))
    if k == "global":
        return "the module variable %s.%s" % (rel(r[1]), r[2])
    if k == "classattr":
        return "the class attribute %s.%s" % (rel(r[1]), r[2])
    return "%s %s.%s" % (k, rel(str(r[1])), r[2])


def check_hidden(C, pkg):
    shared = set()
    for m in pkg.modules.values():
        for n, vs in m.globals.items():
            shared.add(("global", m.name, n))
        for c in m.classes.values():
            for n in c.attrs:
                shared.add(("classattr", c.qual, n))
    for f in pkg.fns.values():
        for p, d in f.defaults.items():
            if mutable_expr(d):
                shared.add(("default", f.qual, p))
    ev = {}
    for e in pkg.events.values():
        if e.root[0] != "param" and e.fn.name != "<module>":
            ev.setdefault(e.root, []).append(e)
    for r in ev:
        shared.add(r)
    esc = {}
    for (root, q), v in pkg.escapes.items():
        esc.setdefault(root, []).append((q, v))
        shared.add(root)
    for r in sorted(shared, key=str):
        ok = True
        for e in ev.get(r, ()):
            ok = False
            C.violated("%s keeps its value" % root_text(r), "it outlives the call and is modified: %s%s" % (
                e.how, "".join("\n  through %s" % (v,) for v in e.via)), "%s:%d (%s)" % e.site)
        for q, v in esc.get(r, ()):
            ok = False
            C.violated("%s is not handed out" % root_text(r), "%s returns it, or something that holds it, to callers, who may modify it" % rel(q),
                       "%s:%d (%s)" % v[2][:3] if isinstance(v[2], tuple) else str(v[2]))
        if ok:
            C.proved("%s keeps its value" % root_text(r), "no statement modifies it, no function hands it out")


MEMO = {"functools.lru_cache", "functools.cache", "functools.cached_property", "lru_cache", "cache"}


def check_memo(C, pkg):
    """a memoised function hands the same object out twice, and remembers what its arguments were"""
    n = 0
    for f in sorted(pkg.fns.values(), key=lambda f: f.qual):
        for d in getattr(f.node, "decorator_list", ()):
            t = d.func if isinstance(d, ast.Call) else d
            name = pkg.dotted(f.mod, t)
            if name not in MEMO:
                continue
            n += 1
            mutable = []
            for x in own_nodes(f.node):
                if isinstance(x, ast.Return) and x.value is not None and may_be_mutable(pkg, f, x.value):
                    mutable.append(x)
            random_ = [c for c, _ in reach_random(pkg, f)]
            if mutable:
                C.violated("%s gives every caller a result of its own" % rel(f.qual), "it is memoised (%s), so that callers share what it returns" % name, where(f, mutable[0]))
            elif random_:
                C.violated("%s draws anew on every call" % rel(f.qual), "it is memoised (%s), and draws from %s" % (name, random_[0]), where(f, f.node))
            else:
                C.proved("%s: memoised results can't be modified" % rel(f.qual), "", where(f, f.node))
    return n


def own_nodes(node):
    """nodes of a function, not those of the functions inside of it"""
    body = node.body if isinstance(node.body, list) else [node.body]
    todo = list(body)
    while todo:
        x = todo.pop(0)
        yield x
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(x))


def may_be_mutable(pkg, f, e, seen=()):
    if isinstance(e, ast.Name):
        if e.id in seen:
            return False
        vals = [x.value for x in own_nodes(f.node) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in x.targets)]
        return any(may_be_mutable(pkg, f, v, seen + (e.id,)) for v in vals)
    if isinstance(e, ast.Call):
        t = pkg.resolve_static(f.mod, e.func)
        if isinstance(t, Fn):
            return any(may_be_mutable(pkg, t, x.value, seen) for x in own_nodes(t.node)
                       if isinstance(x, ast.Return) and x.value is not None) if len(seen) < 6 else False
        if isinstance(t, Cls):
            return True
        n = pkg.dotted(f.mod, e.func) or ""
        return n in ("list", "dict", "set", "sorted", "bytearray", "collections.defaultdict", "collections.Counter", "collections.OrderedDict",
                     "numpy.array", "numpy.zeros", "numpy.ones", "numpy.arange", "numpy.full", "numpy.empty", "numpy.asarray")
    if isinstance(e, ast.Tuple):
        return any(may_be_mutable(pkg, f, x, seen) for x in e.elts)
    if isinstance(e, ast.IfExp):
        return may_be_mutable(pkg, f, e.body, seen) or may_be_mutable(pkg, f, e.orelse, seen)
    return isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp))


# ------------------------------------------------------------------------------------------------ sources of nondeterminism

def draws(name):
    """the random generator that a call of this name draws from, or None"""
    if name is None:
        return None
    if name in SEEDING or name in OWN_GENERATORS:
        return None
    if name.startswith("numpy.random.") or name.startswith("random.") and name.count(".") == 1:
        return name
    if name.startswith("networkx.") and name.rsplit(".", 1)[1] in NX_RANDOM:
        return name
    return None


def external_calls(pkg, f):
    """(dotted name, node) of the calls of things outside of the package in a function, nested functions excluded"""
    local = set(f.params + f.kwonly)
    for x in own_nodes(f.node):
        if isinstance(x, ast.Call):
            g = x.func
            b = g
            while isinstance(b, ast.Attribute):
                b = b.value
            if not isinstance(b, ast.Name) or b.id in local:
                continue
            n = pkg.dotted(f.mod, g)
            if n and pkg.by_dotted(n) is None:
                yield n, x
        elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
            n = pkg.dotted(f.mod, x)
            if n in ("os.environ", "sys.argv", "sys.flags"):
                yield n, x


def check_sources(C, pkg):
    n = 0
    for f in sorted(pkg.fns.values(), key=lambda f: f.qual):
        bad = 0
        for name, node in external_calls(pkg, f):
            n += 1
            what = None
            if name in CLOCK:
                what = "the clock"
            elif name in ENVIRONMENT or name in ("os.environ", "sys.argv", "sys.flags"):
                what = "the environment"
            elif name in ENTROPY:
                what = "a source of entropy that can't be seeded"
            elif name in ADDRESS and name not in f.mod.functions and f.name not in ("__hash__",):
                what = "addresses or hash values, which differ from process to process"
            elif name in OWN_GENERATORS:
                what = "a generator of its own instead of the global one" if not takes_seed(f, node) else None
            elif name in SEEDING and not takes_seed(f, node):
                what = "the global generator being set to a state that the caller didn't give"
            if what and printed_only(f, node):
                what = None
            if what:
                bad += 1
                C.violated("%s depends on its arguments only" % rel(f.qual), "%s: results depend on %s" % (name, what), where(f, node))
        if not bad:
            C.proved("%s depends on its arguments only" % rel(f.qual), "", where(f, f.node))
    C.extra["external_calls_examined"] = n


def printed_only(f, node):
    """the value is used in something printed only"""
    for x in own_nodes(f.node):
        if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name) and x.value.func.id == "print":
            if any(y is node for y in ast.walk(x)):
                return True
    return False


def takes_seed(f, node):
    """the call's first argument comes from a parameter (a seed that was given)"""
    args = list(node.args) + [k.value for k in node.keywords]
    if not args:
        return False
    names = {n.id for a in args for n in ast.walk(a) if isinstance(n, ast.Name)}
    known = set()
    g = f
    while g is not None:
        known |= set(g.params + g.kwonly)
        g = g.parent
    for _ in range(4):
        for x in own_nodes(f.node):
            if isinstance(x, ast.Assign) and any(isinstance(n, ast.Name) and n.id in known for n in ast.walk(x.value)):
                known |= {t.id for t in x.targets if isinstance(t, ast.Name)}
    known.discard("self")
    return bool(names & known) or any(isinstance(n, ast.Attribute) and "seed" in n.attr for a in args for n in ast.walk(a))


def reach_random(pkg, f, seen=None):
    """draws reachable from a function: (name, where)"""
    seen = set() if seen is None else seen
    if f.qual in seen:
        return []
    seen.add(f.qual)
    out = []
    for name, node in external_calls(pkg, f):
        if draws(name):
            out.append((name, where(f, node)))
    for g in f.nested.values():
        out += reach_random(pkg, g, seen)
    for c in sorted(f.calls):
        g = pkg.fns.get(c)
        if g is not None:
            out += reach_random(pkg, g, seen)
    return out


def allowed(f):
    for part in f.mod.name.split("."):
        for mod, names in RANDOM.items():
            if part == mod:
                q = f.qual[len(f.mod.name) + 1:].split(".")
                if q[0] in names:
                    return True
    return False


def check_random(C, pkg):
    allowed_fns = {f.qual for f in pkg.fns.values() if allowed(f)}
    for f in sorted(pkg.fns.values(), key=lambda f: f.qual):
        if f.parent is not None or allowed(f):
            continue
        private = f.name.startswith("_") and not f.name.startswith("__")
        if private:
            continue
        r = reach_random(pkg, f, set(allowed_fns))
        if r:
            C.violated("%s is deterministic" % rel(f.qual), "it draws from %s, though it isn't documented to be random" % r[0][0], r[0][1])
        else:
            C.proved("%s is deterministic" % rel(f.qual), "no draw from a random generator is reachable", where(f, f.node))


# ------------------------------------------------------------------------------------------------ seeds

def check_seeds(C, pkg):
    """a seed that is given, whatever it is, reaches the generator"""
    for f in sorted(pkg.fns.values(), key=lambda f: f.qual):
        ps = [p for p in f.params + f.kwonly if p in ("seed", "random_state", "rng_seed", "random_seed")]
        if f.parent is not None or not ps:
            continue
        p = ps[0]
        bad = None
        for seed in (0, 12345, 2 ** 31, -1 if False else 1):
            env = {q: UNKNOWN for q in f.params + f.kwonly}
            env[p] = Const(seed)
            got = []

            def visit(name, node, args, kws, sure, fn, walk):
                if name in SEEDING or name in OWN_GENERATORS:
                    v = args[0] if args else kws.get("seed", kws.get("a"))
                    got.append((v, sure, where(fn, node), name))
                elif draws(name) and name.startswith("networkx."):
                    v = kws.get("seed")
                    if v is None and len(args) >= 4:
                        v = args[3]
                    got.append((v, sure, where(fn, node), name))
            Reach(pkg, visit).run(f, env)
            hit = [g for g in got if isinstance(g[0], Const) and g[0].v == seed and type(g[0].v) is int and g[1]]
            lost = [g for g in got if g[0] is None or isinstance(g[0], Const) and g[0].v != seed]
            unclear = [g for g in got if g not in hit and g not in lost]
            if lost:
                bad = (seed, "%s is called with %s" % (lost[0][3], "no seed" if lost[0][0] is None else repr(lost[0][0].v)), lost[0][2])
                break
            if hit:
                continue
            if unclear:
                bad = ("?", "the seed passed to %s isn't resolved" % unclear[0][3], unclear[0][2])
                continue
            bad = (seed, "no generator is seeded", where(f, f.node))
            break
        reseeded = []

        def visit_none(name, node, args, kws, sure, fn, walk):
            if name in SEEDING:
                reseeded.append((name, where(fn, node)))
        env = {q: UNKNOWN for q in f.params + f.kwonly}
        env[p] = Const(None)
        Reach(pkg, visit_none).run(f, env)
        name = "%s leaves the global generator alone without a seed" % rel(f.qual)
        if reseeded:
            C.violated(name, "with %s = None, %s is called" % (p, reseeded[0][0]), reseeded[0][1])
        else:
            C.proved(name, "", where(f, f.node))
        name = "%s uses the seed it is given" % rel(f.qual)
        if bad is None:
            C.proved(name, "0, 1, 12345 and 2**31 reach the generator unchanged", where(f, f.node))
        elif bad[0] == "?":
            C.undecided(name, bad[1], bad[2])
        else:
            C.violated(name, "with %s = %r, %s" % (p, bad[0], bad[1]), bad[2])


# ------------------------------------------------------------------------------------------------ the order of sets

INSENSITIVE = {"sorted", "len", "any", "all", "min", "max", "set", "frozenset", "bool", "isinstance", "numpy.unique", "print"}
ORDERED = {"list", "tuple", "enumerate", "zip", "iter", "next", "map", "filter", "dict.fromkeys", "numpy.array", "numpy.asarray", "reversed",
           "collections.deque", "itertools.chain", "numpy.fromiter", "itertools.product", "itertools.combinations", "itertools.permutations",
           "collections.OrderedDict", "dict"}


class Sets(object):
    """which expressions of a function may be sets whose elements may be strings"""

    def __init__(self, pkg, f):
        self.pkg, self.f = pkg, f
        self.vars = {}
        self.stringy = set()
        outer = f
        while outer is not None:
            self.stringy |= set(p for p in outer.params + outer.kwonly if p != "self")
            if outer.vararg:
                self.stringy.add(outer.vararg)
            outer = outer.parent
        for _ in range(5):
            for x in own_nodes(f.node):
                if isinstance(x, ast.Assign):
                    self.bind(x.targets, x.value)
                elif isinstance(x, ast.AnnAssign) and x.value is not None:
                    self.bind([x.target], x.value)
                elif isinstance(x, (ast.For, ast.comprehension)):
                    if self.from_data(x.iter):
                        for n in ast.walk(x.target):
                            if isinstance(n, ast.Name):
                                self.stringy.add(n.id)
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and \
                        x.func.attr in ("add", "update") and x.func.value.id in self.vars:
                    if any(self.from_data(a) for a in x.args):
                        self.vars[x.func.value.id] = True
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and \
                        x.func.attr in ("append", "extend", "insert"):
                    if any(self.from_data(a) for a in x.args):
                        self.stringy.add(x.func.value.id)

    def bind(self, targets, value):
        for t in targets:
            if isinstance(t, ast.Name):
                s = self.is_set(value)
                if s is not None:
                    self.vars[t.id] = self.vars.get(t.id) or s
                elif self.from_data(value):
                    self.stringy.add(t.id)
            elif self.from_data(value):
                for n in ast.walk(t):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        self.stringy.add(n.id)

    def from_data(self, e):
        """the value may hold strings: it comes from an argument, or from str()"""
        if isinstance(e, ast.Constant):
            return isinstance(e.value, str)
        if isinstance(e, ast.Name):
            return e.id in self.stringy or bool(self.vars.get(e.id))
        if isinstance(e, ast.Call):
            n = self.pkg.dotted(self.f.mod, e.func) or ""
            if n in ("len", "range", "int", "float", "bool", "abs", "sum", "round", "hash", "id", "ord", "numpy.arange", "isinstance"):
                return False
            if n in ("str", "repr", "chr", "format", "bin", "hex", "numpy.base_repr"):
                return True
            if isinstance(e.func, ast.Attribute):
                if e.func.attr in ("split", "join", "format", "zfill", "strip", "lower", "upper"):
                    return True
                if self.from_data(e.func.value):
                    return True
            t = self.pkg.resolve_static(self.f.mod, e.func)
            if isinstance(t, (Fn, Cls)):
                return False            # something that the package built: see DESIGN.md
            return any(self.from_data(a) for a in e.args)
        if isinstance(e, (ast.BinOp,)):
            return self.from_data(e.left) or self.from_data(e.right)
        if isinstance(e, ast.Compare):
            return False
        if isinstance(e, (ast.Attribute, ast.Subscript, ast.Starred)):
            return self.from_data(e.value)
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            return any(self.from_data(x) for x in e.elts)
        if isinstance(e, ast.Dict):
            return any(self.from_data(x) for x in e.keys if x is not None)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            names = {n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            src = any(self.from_data(g.iter) for g in e.generators)
            if src:
                self.stringy |= names
            return self.from_data(e.elt)
        if isinstance(e, ast.DictComp):
            src = any(self.from_data(g.iter) for g in e.generators)
            if src:
                self.stringy |= {n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            return self.from_data(e.key)
        if isinstance(e, ast.IfExp):
            return self.from_data(e.body) or self.from_data(e.orelse)
        if isinstance(e, ast.JoinedStr):
            return True
        return False

    def is_set(self, e):
        """None: no set; False: a set whose elements aren't strings; True: a set whose elements may be"""
        if isinstance(e, ast.Name):
            return self.vars.get(e.id)
        if isinstance(e, ast.Set):
            return any(self.from_data(x) for x in e.elts)
        if isinstance(e, ast.SetComp):
            return bool(self.from_data(e))
        if isinstance(e, ast.Call):
            n = self.pkg.dotted(self.f.mod, e.func)
            if n in ("set", "frozenset"):
                return any(self.from_data(a) for a in e.args)
            if isinstance(e.func, ast.Attribute) and e.func.attr in ("union", "intersection", "difference", "symmetric_difference", "copy"):
                s = self.is_set(e.func.value)
                if s is not None:
                    return bool(s or any(self.from_data(a) or self.is_set(a) for a in e.args))
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            a, b = self.is_set(e.left), self.is_set(e.right)
            if a is not None or b is not None:
                return bool(a or b)
        if isinstance(e, ast.IfExp):
            a, b = self.is_set(e.body), self.is_set(e.orelse)
            return None if a is None and b is None else bool(a or b)
        return None

    def findings(self):
        parents = {}
        for x in ast.walk(self.f.node):
            for c in ast.iter_child_nodes(x):
                parents[c] = x
        out, n = [], 0
        for x in own_nodes(self.f.node):
            if isinstance(x, ast.expr) and isinstance(getattr(x, "ctx", ast.Load()), ast.Load):
                s = self.is_set(x)
                if s is None:
                    continue
                n += 1
                if not s:
                    continue
                r = self.consumed(x, parents)
                if r:
                    out.append((x, r))
        return out, n

    def consumed(self, x, parents):
        p = parents.get(x)
        if isinstance(p, ast.For) and p.iter is x:
            return self.loop(p)
        if isinstance(p, ast.comprehension) and p.iter is x:
            c = parents[p]
            if isinstance(c, (ast.SetComp,)):
                return None
            if isinstance(c, ast.DictComp):
                return "the order of the dict's keys is the set's" if self.kept(c, parents) else None
            return self.iterable(c, parents, c.elt)
        if isinstance(p, ast.Call) and x in p.args:
            n = self.pkg.dotted(self.f.mod, p.func) or ""
            if n in INSENSITIVE:
                return None
            if n == "sum":
                return None
            if n in ORDERED:
                return self.iterable(p, parents, None)
            if isinstance(p.func, ast.Attribute) and p.func.attr in ("join", "extend"):
                return "%s() takes the elements in the set's order" % p.func.attr
            if n.startswith("random.") or n.startswith("numpy.random."):
                return "the draw depends on the set's order"
            return None
        if isinstance(p, ast.Attribute) and p.attr == "pop" and isinstance(parents.get(p), ast.Call):
            return "pop() takes the element that happens to be first"
        if isinstance(p, ast.Starred):
            return self.iterable(parents[p], parents, None) if isinstance(parents.get(p), (ast.List, ast.Tuple)) else None
        return None

    def kept(self, e, parents):
        p = parents.get(e)
        return isinstance(p, ast.Return)

    def iterable(self, e, parents, elt):
        """a sequence in the set's order: does the order matter where it is used?"""
        p = parents.get(e)
        if isinstance(p, ast.Call):
            n = self.pkg.dotted(self.f.mod, p.func) or ""
            if n in INSENSITIVE:
                return None
            if n in ("sum", "math.fsum", "numpy.sum") and e in p.args:
                return "a sum of fractions is rounded in the set's order" if n != "math.fsum" and elt is not None and fractional(elt) else None
            if n in ("list", "tuple", "iter"):
                return self.iterable(p, parents, elt)
        if isinstance(p, ast.comprehension) and isinstance(parents.get(p), ast.SetComp):
            return None
        if isinstance(p, ast.For) and p.iter is e:
            return self.loop(p)
        if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
            v = p.targets[0].id
            uses = [y for y in own_nodes(self.f.node) if isinstance(y, ast.Name) and y.id == v and isinstance(y.ctx, ast.Load)]
            sorts = [y for y in uses if isinstance(parents.get(y), ast.Attribute) and parents[y].attr == "sort"]
            if sorts or all(self.harmless_use(y, parents) for y in uses):
                return None
        if isinstance(p, ast.Compare):
            if all(isinstance(o, (ast.In, ast.NotIn)) for o in p.ops):
                return None
        return "a sequence is built in the set's order"

    def harmless_use(self, y, parents):
        p = parents.get(y)
        if isinstance(p, ast.Call) and y in p.args:
            return (self.pkg.dotted(self.f.mod, p.func) or "") in INSENSITIVE
        if isinstance(p, ast.Compare):
            return all(isinstance(o, (ast.In, ast.NotIn)) for o in p.ops)
        return False

    def loop(self, p):
        names = {n.id for n in ast.walk(p.target) if isinstance(n, ast.Name)}
        for y in [z for s in p.body for z in ast.walk(s)]:
            if isinstance(y, (ast.Yield, ast.YieldFrom)):
                return "it yields in the set's order"
            if isinstance(y, ast.Return) and y.value is not None and uses(y.value, names):
                return "it returns what happens to come first"
            if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in ("append", "extend", "insert", "appendleft",
                                                                                                 "add_edge", "add_node", "write"):
                return "%s() is called in the set's order" % y.func.attr
            if isinstance(y, ast.Call):
                n = self.pkg.dotted(self.f.mod, y.func) or ""
                if draws(n):
                    return "random numbers are drawn in the set's order"
            if isinstance(y, ast.AugAssign) and isinstance(y.op, ast.Add) and isinstance(y.target, ast.Name):
                if isinstance(y.value, (ast.List, ast.Tuple, ast.JoinedStr)) or isinstance(y.value, ast.Constant) and isinstance(y.value.value, str) \
                        or isinstance(y.value, ast.Call) and getattr(y.value.func, "id", "") == "str":
                    return "a sequence is extended in the set's order"
                if fractional(y.value):
                    return "a sum of fractions is rounded in the set's order"
        for y in [z for s in p.body for z in ast.walk(s)]:
            if isinstance(y, ast.Break):
                assigned = {n.id for s in p.body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                after = {n.id for n in ast.walk(self.f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.lineno > (p.end_lineno or 0)}
                if (names | {a for a in assigned}) & after and any(self.takes(s, names, after) for s in p.body):
                    return "the loop ends at what happens to come first"
        return None

    def takes(self, s, names, after):
        for y in ast.walk(s):
            if isinstance(y, ast.Assign) and uses(y.value, names) and any(isinstance(t, ast.Name) and t.id in after for t in y.targets):
                return True
        return bool(names & after)


def uses(e, names):
    return any(isinstance(n, ast.Name) and n.id in names for n in ast.walk(e))


def fractional(e):
    for n in ast.walk(e):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Div):
            return True
        if isinstance(n, ast.Call):
            a = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
            if a in ("log", "log2", "log10", "sqrt", "exp", "mean", "average", "random", "sin", "cos"):
                return True
    return False


def check_sets(C, pkg):
    total = 0
    for f in sorted(pkg.fns.values(), key=lambda f: f.qual):
        found, n = Sets(pkg, f).findings()
        total += n
        for x, r in found:
            C.violated("%s doesn't depend on the order of a set" % rel(f.qual), "the set may hold strings, whose order differs from process to process: " + r, where(f, x))
        if n and not found:
            C.proved("%s doesn't depend on the order of a set" % rel(f.qual), "%d set expressions" % n, where(f, f.node))
    C.extra["set_expressions"] = total


def check(C):
    pkg = package(C.repo)
    C.group("hidden state", check_hidden, C, pkg)
    C.group("memoised functions", check_memo, C, pkg)
    C.group("sources of nondeterminism", check_sources, C, pkg)
    C.group("random generators", check_random, C, pkg)
    C.group("seeds", check_seeds, C, pkg)
    C.group("sets", check_sets, C, pkg)
