"""What the rules about effects share: which values an event of the effect log modifies."""
from .common import *
from sa.ident import Und, Fault

MUTATING = {"store", "del", "append", "add", "insert", "pop", "remove", "update", "mutate", "clear", "dictupdate", "sattr", "adt", "rotate"}
PART_OF = {"item", "attr", "nth", "den", "keys", "values", "items", "popped", "first", "last"}


def roots(t, out=None):
    """the objects that t is, or is a part of"""
    out = set() if out is None else out
    if t.op == "ite":
        for x in leaves(t):
            roots(x, out)
    elif t.op in PART_OF:
        for a in t.args:
            if isinstance(a, T):
                roots(a, out)
                break
        if t.op in ("first", "last"):
            roots(t.args[-1], out)
    elif t.op == "q":
        roots(t.args[1], out)
    elif t.op == "obj":
        out.add(("obj", t.args[0]))
    else:
        out.add(t)
    return out


def key_of(t):
    return ("obj", t.args[0]) if t.op == "obj" else t


def modifications(eng, protected, start=0, end=None):
    """events that modify one of the protected values: (event, value)"""
    keys = {key_of(p): p for p in protected}
    out = []
    for e in eng.log[start:end]:
        if e.kind not in MUTATING or e.tgt is None or e.guard is FALSE:
            continue
        if isinstance(e.extra, dict) and "summary" in e.extra:
            continue
        for r in roots(e.tgt):
            if r in keys:
                out.append((e, keys[r]))
    return out


def reachable(eng, e, assignments):
    """'yes', 'no' (under none of the assignments) or 'unknown'"""
    g = closed_guard(eng, e)
    if g is TRUE:
        return "yes"
    n = 0
    for a in assignments:
        try:
            if Interp(a).ev(g):
                return "yes"
            n += 1
        except Fault:
            continue
        except (Und, RecursionError):
            return "unknown"
    return "no" if n else "unknown"


def unmodified(C, name, eng, protected, start, end, assignments=(), site=None, what=None):
    """nothing in this part of the effect log modifies the protected values"""
    bad = modifications(eng, protected, start, end)
    said = set()
    quiet = True
    for e, p in bad:
        r = reachable(eng, e, assignments)
        if r == "no":
            continue
        if (e.site, p) in said:
            continue
        said.add((e.site, p))
        quiet = False
        detail = "%s of %s: key %s, value %s, where %s" % (e.kind, show(p), show(e.key)[:120] if isinstance(e.key, T) else e.key,
                                                            show(e.val)[:120] if isinstance(e.val, T) else e.val, show(e.guard)[:200])
        C.violated(name, detail, e.site)
    if quiet:
        n = end - start if end is not None else len(eng.log) - start
        C.proved(name, "none of %d logged effects modifies it" % n, site)
