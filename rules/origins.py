"""What the rules on modifications share: which parameters belong to a caller outside of the package, and what happens to them."""
from .common import *
from sa.package import Package, Cls

_packages = {}


def package(repo):
    if repo not in _packages:
        _packages[repo] = Package(repo)
    return _packages[repo]


def called_within(pkg):
    """functions that the package itself calls or passes on"""
    out = set()
    for f in pkg.fns.values():
        for c in f.calls:
            if c != f.qual:
                out.add(c)
    return out


def entry_points(pkg, module):
    """functions of a module that a user can call: public ones, and ones that nothing in the package calls"""
    within = called_within(pkg)
    for f in pkg.fns.values():
        if f.mod is not module:
            continue
        name = f.name.split("'")[0]
        private = name.startswith("_") and not (name.startswith("__") and name.endswith("__"))
        if private and f.qual in within:
            continue
        yield f, private


def handed_in(f):
    """the parameters that hold something of the caller's"""
    me = f.params[:1] if f.cls is not None and f.parent is None and not f.static else []
    return [p for p in f.params + f.kwonly + [x for x in (f.vararg, f.kwarg) if x] if p not in me]


def level_text(n):
    return "itself" if n == 0 else "a part of it" if n == 1 else "something inside of it"


def check_function(C, pkg, f, exempt=lambda f, p: False):
    """no parameter of f is modified, by it or by anything it is passed on to"""
    ps = [p for p in handed_in(f) if not exempt(f, p)]
    bad = []
    for p in ps:
        for e in pkg.events_of(("param", f.qual, p)):
            bad.append((p, e))
    rel = f.qual.replace("netomaton.", "", 1)
    site = (f.mod.rel, getattr(f.node, "lineno", 0), f.name)
    if not bad:
        C.proved("%s leaves %s as they are" % (rel, ", ".join(ps) if ps else "(no arguments)"),
                 "no statement reached from here modifies a value that may be (a part of) an argument", site)
    for p, e in bad:
        C.violated("%s leaves %s alone" % (rel, p), "%s of argument %s is modified: %s%s" % (
            level_text(e.level), p, e.how, "".join("\n  through %s" % (v,) for v in e.via)), "%s:%d (%s)" % e.site)
