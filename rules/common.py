"""
What the rules share: obligations and their verdicts, symbolic arguments, and the comparison of a value that the
analysis found in the source with the value that the specification requires.
"""
import gc
import random
import resource
import signal
import time
import traceback
from sa.engine import Engine, AnalysisError, Unsupported
from sa import ident, terms
from sa.ident import NP, Array, Stub, Opaque, Interp
from sa.terms import *


def P(eng, name, ty=None):
    t = mk("param", name)
    if ty:
        eng.types[t] = ty
    if ty == "float":
        REALS.add(t)
    return t


class TooLong(Exception):
    pass


class Budget(object):
    """the time and the memory that a part of a check may take; looked at every second"""
    end = None


def _used():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * resource.getpagesize()


def _alarm(signum, frame):
    if Budget.end is None:
        return
    if time.time() > Budget.end:
        raise TooLong("it takes too long")
    if _used() > MEMORY // 2:
        raise TooLong("it takes too much memory")


MEMORY = 10 << 30
GROUP_SECONDS, TOTAL_SECONDS = 120, 600


class Check(object):
    def __init__(self, pid, repo, thorough, seed, technique):
        self.pid, self.repo, self.thorough, self.seed, self.technique = pid, repo, thorough, seed, technique
        self.obligations = []
        self.group_start = 0
        self.engines = []
        self.rng = random.Random(seed)
        self.notes = []
        self.assumptions = []
        self.extra = {}
        self.deadline = time.time() + TOTAL_SECONDS * (5 if thorough else 1)

    # -------------------------------------------------------------------------------------- running

    def run(self, fn):
        old = resource.getrlimit(resource.RLIMIT_AS)
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY if old[1] == resource.RLIM_INFINITY else min(MEMORY, old[1]), old[1]))
        signal.signal(signal.SIGALRM, _alarm)
        fn(self)

    def engine(self):
        e = Engine(self.repo)
        self.engines.append(e)
        return e

    def group(self, name, fn, *args):
        """one part of the check; a construct that the analysis can't follow leaves its obligations undecided"""
        self.group_start = len(self.engines)
        nested = Budget.end is not None
        tired = False
        if not nested:
            left = self.deadline - time.time()
            if left < 1:
                self.undecided(name, "no time left")
                return None
            terms.remember()
            Budget.end = time.time() + min(left, GROUP_SECONDS * (5 if self.thorough else 1))
            signal.setitimer(signal.ITIMER_REAL, 1, 1)
        try:
            return fn(*args)
        except AnalysisError:
            raise
        except TooLong as e:
            if nested:
                raise
            self.undecided(name, "analysis gave up: %s" % e)
            tired = True
        except MemoryError:
            if nested:
                raise
            tired = True
        except RecursionError:
            self.undecided(name, "too deep")
        except Unsupported as e:
            self.undecided(name, "not analysable: %s" % e)
        except Exception as e:
            self.undecided(name, "analysis gave up: %s: %s" % (type(e).__name__, e))
            self.notes.append(traceback.format_exc())
            import os
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()
        finally:
            if not nested:
                Budget.end = None
                signal.setitimer(signal.ITIMER_REAL, 0)
        if tired:
            self.recover(name)
        return None

    def recover(self, name):
        """after a part that took too much: what it built is dropped"""
        for e in self.engines[self.group_start:]:
            e.tired = (set(e.analysed), e.callsites, e.steps, len(e.log))
        for e in self.engines:
            if not hasattr(e, "tired"):
                e.tired = (set(e.analysed), e.callsites, e.steps, len(e.log))
        spent, self.engines = self.engines, []
        self.spent = getattr(self, "spent", []) + [e.tired for e in spent]
        del spent
        ident._free.clear()
        terms.forget()
        gc.collect()
        if not any(o["name"] == name and o["verdict"] == "undecided" for o in self.obligations):
            self.undecided(name, "analysis gave up: it takes too much memory")

    # -------------------------------------------------------------------------------------- verdicts

    def add(self, verdict, name, detail="", site=None, construct=None):
        if isinstance(site, tuple):
            site = "%s:%d (%s)" % site
        self.obligations.append({"verdict": verdict, "name": name, "detail": detail, "site": site or "",
                                 "construct": construct or name})

    def proved(self, name, detail="", site=None):
        self.add("proved", name, detail, site)

    def undecided(self, name, detail="", site=None):
        self.add("undecided", name, detail, site)

    def violated(self, name, detail, site=None, construct=None):
        self.add("violated", name, detail, site, construct)

    def count(self, v):
        return sum(1 for o in self.obligations if o["verdict"] == v)

    def equal(self, name, impl, spec, assignments, site=None, hook=None, when=None, steps=60000):
        """the value found in the source is the value the specification requires"""
        if isinstance(impl, tuple) and not hasattr(impl, "op"):
            impl, site = impl
        v, w = ident.separate(impl, spec, assignments, hook, max(steps, 400000 if self.thorough else 60000), when)
        if v == "same":
            self.proved(name, "normal form: " + show(impl)[:300], site)
        elif v == "differ" and any(e.unsound for e in self.engines[self.group_start:] or self.engines):
            self.undecided(name, "writes through values the analysis does not track: " + ", ".join(short(repr(e)) for x in self.engines[self.group_start:] or self.engines for e in x.unsound[:2]), site)
        elif v == "differ":
            a, i, s = w
            self.violated(name, "it gives  %s\nrequired  %s\nwhere     %s\nnormal form found    %s\nnormal form required %s" % (
                short(i), short(s), short(show_assignment(a, impl, spec)), show(impl)[:700], show(spec)[:700]), site)
        elif v == "agree":
            self.add("agree", name, "different normal forms that no assignment separates (%s tried): %s" % (w, show(impl)[:200]), site)
        else:
            self.undecided(name, "not resolved (%s): %s" % (w, show(impl)[:300]), site)
        return v

    def holds(self, name, cond, assignments, site=None, hook=None, detail=""):
        """a boolean diagram is true throughout"""
        return self.equal(name, cond, TRUE, assignments, site, hook)

    # -------------------------------------------------------------------------------------- evidence

    def evidence(self, wall, nviol):
        funcs = set()
        calls = 0
        steps = 0
        events = 0
        for f, c, s, l in getattr(self, "spent", []) + [(e.analysed, e.callsites, e.steps, len(e.log)) for e in self.engines]:
            funcs |= f
            calls += c
            steps += s
            events += l
        obs = self.obligations
        return {
            "property": self.pid, "tier": "thorough" if self.thorough else "quick", "seed": self.seed,
            "level": "other", "wall_s": round(wall, 3), "violations": nviol,
            "assumptions": self.assumptions,
            "coverage": dict({
                "explanation": self.technique,
                "obligations": len(obs), "discharged": self.count("proved"),
                "agreeing": self.count("agree"), "undecided": self.count("undecided"),
                "violated": self.count("violated"),
                "functions_analysed": sorted("%s:%s" % f for f in funcs),
                "call_sites_followed": calls, "statements_analysed": steps, "effects_logged": events,
                "obligation_list": [{"name": o["name"], "verdict": o["verdict"], "site": o["site"],
                                     "detail": o["detail"][:400]} for o in obs],
            }, **self.extra),
        }


def show_assignment(a, *terms):
    """the part of an assignment that matters for the terms"""
    used = set()
    for t in terms:
        for x in subterms(t):
            used.add(x)
    parts = []
    for k, v in a.items():
        if k in used:
            parts.append("%s = %r" % (show(k), v))
    return ", ".join(parts)[:600] or "(no variables)"


def constants(*terms):
    out = set()
    for t in terms:
        for x in subterms(t):
            if x.op == "const" and isinstance(x.args[0], int) and not isinstance(x.args[0], bool):
                out.add(x.args[0])
            elif x.op in ("le",):
                out.add(x.args[1])
            elif x.op == "aff":
                if isinstance(x.args[0], int):
                    out.add(x.args[0])
    return out


def scales(*terms):
    """sizes at which a constant of the terms (a threshold on a count or on a fraction) makes a difference"""
    out = set()
    for t in terms:
        for x in subterms(t):
            for c in x.args if x.op in ("const", "le", "aff", "lt") else ():
                if isinstance(c, bool) or not isinstance(c, (int, float)) or c != c:
                    continue
                c = abs(c)
                if isinstance(c, float) and 0 < c < .5:
                    c = 1 / c
                if 3 < c <= 3000:
                    out.add(int(c))
    return sorted(out)[:6]


def raise_guard(eng, start=0):
    """the condition under which the analysed code raises (events outside of loops), as a diagram"""
    g = FALSE
    for e in eng.log[start:]:
        if e.kind == "raise" and not e.loops:
            g = OR(g, e.guard)
    return g


def events(eng, kind, start=0, end=None):
    return [e for e in eng.log[start:end] if e.kind == kind]


RAISES = mk("const", ("<rejected>",))


def short(v):
    r = v if isinstance(v, str) else repr(v)
    return r if len(r) < 1500 else r[:1500] + "..."


class Outcome(object):
    """what a call does: its value, when it raises, and the part of the effect log it is responsible for"""

    def __init__(self, eng, value, raises, start, end):
        self.eng, self.value, self.raises, self.start, self.end = eng, value, raises, start, end
        self._den = None

    @property
    def den(self):
        if self._den is None:
            self._den = self.eng.den(self.value)
        return self._den

    @property
    def term(self):
        """the value, or RAISES"""
        if self.raises is TRUE:
            return RAISES
        return ite(self.raises, RAISES, simplify(self.den, NOT(self.raises)))

    def events(self, *kinds):
        return [e for e in self.eng.log[self.start:self.end] if not kinds or e.kind in kinds]

    def site(self):
        for e in self.events():
            if e.site:
                return e.site
        return None


def closed_guard(eng, e, base=()):
    g = e.guard
    loops = e.loops[len(base):]
    if loops:
        doms, gg, _ = eng.close(loops, g, NONE)
        g = exists_closed(doms, gg)
    return g


def call(eng, f, args=(), kwargs=None):
    n0 = len(eng.log)
    saved = (eng.pc, eng.assume, eng.raised)
    r = eng.call(f, list(args), dict(kwargs or {}))
    rg = FALSE
    for e in eng.log[n0:]:
        if e.kind == "raise" and not (e.extra or {}).get("taken" if eng.exact_raises else "caught"):
            rg = OR(rg, closed_guard(eng, e, eng.loops))
    o = Outcome(eng, r, rg, n0, len(eng.log))
    o._den = None
    try:
        o.den
    finally:
        eng.pc, eng.assume, eng.raised = saved
    return o


def spec_env(eng, src, env=None):
    """names defined by a piece of specification source"""
    saved = (eng.pc, eng.assume, eng.raised)
    try:
        return eng.exec_in(src, env or {})
    finally:
        eng.pc, eng.assume, eng.raised = saved


def site_of(eng, f):
    """where a function is defined"""
    if f.op in ("func", "static", "bound"):
        fn = eng.funcs[f.args[0] if f.op != "bound" else f.args[1]]
        return (fn.module.path, fn.node.lineno, fn.name)
    if f.op == "class":
        c = eng.classes[f.args[0]]
        return (c.module.path if hasattr(c.module, "path") else str(c.module), c.node.lineno, c.name)
    return None
