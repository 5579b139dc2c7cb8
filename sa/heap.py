"""
What containers reached by a path from a parameter (network[i]["incoming"], ...) consist of after the source has
modified them in place: the effect log is read back as a value, given that the data is tree-shaped (two paths lead to the
same container exactly if their keys are equal).  Values that are stored under keys are read with lookups, so only the
keys of dictionaries and the elements of lists are described here.
"""
from .terms import *

UNREAD = mk("unread")


def top_bv(*ts):
    h = 0
    for t in ts:
        for x in subterms(t):
            if x.op == "bv" and x.args[0] >= 0:
                h = max(h, x.args[0] + 1)
    return h


def path_root(t):
    while t.op in ("item", "nth"):
        t = t.args[0]
    return t.op in ("attr", "param") and t.args[0] is not None


def condition(eng, a, b):
    """when the container at path a is the one at path b, or None"""
    if a.op not in ("item", "nth") or b.op not in ("item", "nth"):
        return TRUE if a is b else FALSE if eng.alias(a, b) == "no" else None
    return eng.same_place(a.args[0], a.args[1], b.args[0], b.args[1])


def content(eng, p, n, when=TRUE):
    """the container at path p after event n, or None"""
    evs = []            # what happens to the container, in order: (event, condition, kind), or (None, condition, what is put in its place)
    parent, pkey = p.args if p.op in ("item", "nth") else (None, None)
    for e in eng.by_root.get(eng.root(p), ()):
        if e.n > n:
            break
        if e.kind in ("havoc", "havocattr", "sattr"):
            continue
        if parent is not None and e.kind == "store" and eng.alias(e.tgt, parent) != "no":
            c = eng.same_place(e.tgt, e.key if isinstance(e.key, T) else const(e.key), parent, pkey)
            if c is None:
                return None
            if c is FALSE:
                continue
            src = eng.reloc_src.get(e.n, e.val)
            if e.loops or not isinstance(src, T) or src.op != "obj":
                return None
            d = simplify(eng.den(src), e.guard)
            if d.op not in ("seq", "dictof"):
                return None
            evs.append((None, AND(c, e.guard), d))
            continue
        if eng.alias(e.tgt, p) == "no":
            continue
        c = condition(eng, e.tgt, p)
        if c is None:
            return None
        if c is FALSE:
            continue
        kind = {"append": "append", "store": "store", "remove": "remove", "del": "discard" if (e.extra or {}).get("discard") else "del"}.get(e.kind) \
            if e.extra != "reloc" else "store"
        if kind is None:
            return None
        if kind == "del" and not evs and not e.loops and implies(AND(when, AND(c, e.guard)), atom("in", e.key, p)):
            kind = "discard"
        evs.append((e, c, kind))
    kinds = {k for e, _, k in evs if e is not None}
    placed = {d.op for e, _, d in evs if e is None}
    if "remove" in kinds:
        if len(evs) > 1 or evs[0][0].loops or eng.type_of(p) != "list":
            return None
        e, c, _ = evs[0]
        b = mk("bv", top_bv(p, e.key))
        return ite(AND(c, e.guard), mk("without", p, e.key), mk("seq", (mk("part", (mk("bd", mk("dom", p), b),), TRUE, mk("nth", p, b)),)))
    if "append" in kinds and len(kinds) > 1 or len(placed) > 1 or "seq" in placed and kinds - {"append"} \
            or "dictof" in placed and "append" in kinds:
        return None
    if "dictof" in placed:
        kinds.add("placed")
    h = top_bv(p)
    b = mk("bv", h)
    el = mk("nth", p, b)
    base = (mk("bd", mk("dom", p), b),)
    parts = []
    keep = TRUE
    there = TRUE
    for e, c, kind in evs:
        if e is None:
            parts = [mk("part", x.args[0], AND(NOT(c), x.args[1]), x.args[2]) for x in parts]
            parts += [mk("part", x.args[0], AND(c, x.args[1]), x.args[2]) for x in kind.args[0]]
            there = AND(there, NOT(c))
            continue
        k = e.key if isinstance(e.key, T) else const(e.key)
        g = AND(c, e.guard)
        if kind == "append":
            doms, g, v = eng.close(e.loops, g, eng.den(e.val), (el,))
        elif kind == "discard" and kinds == {"discard"}:
            doms, g, _ = eng.close(e.loops, AND(g, compare("eq", k, el)), NONE, (el,))
            keep = AND(keep, NOT(exists_closed(doms, g) if doms else g))
            continue
        elif kinds == {"store"}:
            doms, g, v = eng.close(e.loops, AND(g, NOT(atom("in", k, p))), k, (el,))
        else:
            doms, g, v = eng.close(e.loops, g, mk("kv", kind, mk("tuple", (k, UNREAD))), (el,))
        parts.append(mk("part", doms, g, v))
    parts = tuple(x for x in parts if x.args[1] is not FALSE)
    if not kinds or kinds == {"append"}:
        return mk("seq", (mk("part", base, there, el),) + parts)
    if kinds == {"discard"}:
        return mk("seq", (mk("part", base, keep, el),))
    if kinds == {"store"}:
        s = mk("seq", (mk("part", base, TRUE, el),) + parts)
        return s if len(parts) < 2 else mk("dedup", s)
    return mk("dictof", (mk("part", base, there, mk("kv", "store", mk("tuple", (el, UNREAD)))),) + parts)


def settle(eng, t, unsure=(), when=TRUE):
    """t, with the containers it reads after their modification replaced by what they consist of"""
    for _ in range(12):
        m = {}
        for x in sorted((x for x in subterms(t) if x.op == "den"), key=lambda x: x.size):
            if x.args[0].op in ("dictof", "seq", "dedup") and len(x.args) > 1:
                m[x] = x.args[0]        # what an instance consisted of in the end
                continue
            if x in unsure or x.args[0].op == "obj" or not path_root(x.args[0]):
                continue
            if any(y.op == "den" for y in subterms(x.args[0])):
                continue
            c = content(eng, x.args[0], x.args[1], when)
            if c is not None:
                m[x] = c
        for x in subterms(t):
            if x.op == "obj":
                d = eng.den(x)
                if d is not x and d.op != "den":
                    m[x] = d
        if not m:
            break
        t = subst(t, m)
    return t


def logged(eng, n0, n1):
    """the reads that events inside of loops depend on: at what point of the loop they happened isn't known"""
    out = set()
    for e in eng.log[n0:n1]:
        if e.loops:
            for z in (e.tgt, e.key, e.val, e.guard):
                if isinstance(z, T):
                    out |= {x for x in subterms(z) if x.op in ("den", "rd")}
    return out


def own_paths(eng, n0, n1):
    """
    reads made inside of a loop over the keys of a dictionary (which are distinct) of places that other iterations don't
    touch: what was there before the loop
    """
    m = {}
    terms_ = []
    for e in eng.log[n0:n1]:
        terms_ += [z for z in (e.tgt, e.key, e.val, e.guard) if isinstance(z, T)]
    terms_ += [i.dom for i in eng.loopinfo.values() if isinstance(i.dom, T)]
    reads = {x for z in terms_ for x in subterms(z) if x.op == "rd" and x.args[0].op != "obj"}
    for x in sorted(reads, key=lambda x: x.size):
        p, k, n = x.args
        e = eng.log[n]
        if e.kind != "havoc":
            continue
        L = e.extra["loop"]
        if not unique_domain(eng, L):
            continue
        if all(separate(eng, o, p, L) for o in eng.by_root.get(eng.root(p), ()) if L in o.loops and o.kind not in ("havoc", "havocattr")):
            saved = eng.loops
            m[x] = eng._lookup(p, k, "item", n, TRUE, None, 0)
    if m:
        for e in eng.log[n0:n1]:
            for a in ("tgt", "key", "val", "guard"):
                z = getattr(e, a)
                if isinstance(z, T):
                    setattr(e, a, subst(z, m))
        for i in eng.loopinfo.values():
            if isinstance(i.dom, T):
                i.dom = subst(i.dom, m)
    return m


def unique_domain(eng, L):
    d = eng.loopinfo[L].dom
    return d.op == "range" or d.op == "dom" and (d.args[0] in eng.dictlike or eng.type_of(d.args[0]) in ("dict", "set"))


def separate(eng, o, p, L):
    """what event o writes in one iteration of L isn't what p is in another"""
    if eng.alias(o.tgt, p) == "no":
        return True
    r1, s1 = eng.steps_of(o.tgt)
    r2, s2 = eng.steps_of(p)
    if r1 is not r2 or len(s1) != len(s2):
        return False
    dom = eng.loopinfo[L].dom
    for (o1, x), (o2, y) in zip(s1, s2):
        if x is y and isinstance(x, T):
            if x is mk("idx", L) or x.op == "nth" and x.args[1] is mk("idx", L) and dom.op == "dom" and x.args[0] is dom.args[0]:
                return True
    return False
