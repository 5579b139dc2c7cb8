"""
The content of a container that the source writes to in ways that have no simpler description (a matrix whose rows are
written one element at a time from other loops, a queue that is rotated, ...): what it started with and the script of the
operations on it, in their order, with the loops they are made in.
"""
from .terms import *
from . import nd

KINDS = {"append": "append", "add": "add", "store": "store", "insert": "insert", "rotate": "rotate", "clear": "clear", "remove": "remove",
         "del": "del"}


def unshift(eng, e):
    return "discard" if e.kind == "del" and (e.extra or {}).get("discard") else KINDS[e.kind]


def events(eng, v, pos):
    """the events on the container (of all instances of its creation site), or None"""
    n = v.args[0]
    out = []
    for e in eng.by_root.get(("obj", n), ()):
        if e.n >= pos:
            break
        if e.kind == "havoc":
            if e.extra["loop"] in eng.loops and e.extra["loop"] not in eng.objs[n]["loops"]:
                return None
            continue
        if e.kind in ("havocattr", "sattr"):
            continue
        if e.tgt.op != "obj":
            continue
        if e.kind not in KINDS:
            return None
        out.append(e)
    return out


def content(eng, v, pos, depth):
    n, ix = v.args
    m = eng.objs[n]
    if m["kind"] not in ("list", "deque", "dict"):
        return None
    evs = events(eng, v, pos)
    if not evs:
        return None
    loops0 = m["loops"]
    if len(loops0) != len(ix):
        return None
    holes = tuple(mk("hole", n, k) for k in range(len(ix)))
    canon = tuple(mk("idx", l) for l in loops0)
    scr = []
    for e in evs:
        if e.tgt.args[1] == canon and e.loops[:len(loops0)] == loops0:
            loops = e.loops[len(loops0):]
            s = dict(zip(canon, holes))
            g = simplify(e.guard, AND(m["guard"], e.assume))
            which = TRUE
        else:
            loops = e.loops
            s = {}
            g = simplify(e.guard, e.assume)
            which = TRUE
            for a, b in zip(e.tgt.args[1], holes):
                which = AND(compare("eq", a, b), which)
        if any(l in eng.loops for l in loops):
            return None
        args = []
        for x in (e.key, e.val):
            if isinstance(x, T):
                if x.op in ("obj", "tuple", "ite"):
                    x = eng.den(x, depth + 1, pos)
            elif x is not None:
                x = const(x)
            else:
                x = NONE
            args.append(subst(x, s))
        scr.append((loops, which, subst(g, s), mk("do", unshift(eng, e), tuple(args))))
    base = mk("dictof", ()) if m["kind"] == "dict" else mk("seq", ())
    t = shapes(eng, mk("replay", base, build(eng, scr)))
    if holes:
        h = max([x.args[0] + 1 for a in ix for x in subterms(a) if x.op == "bv" and x.args[0] < 900] + [0])
        if h:
            t = subst(t, {x: mk("bv", x.args[0] + h) for x in subterms(t) if x.op == "bv" and 0 <= x.args[0] < 900})
        t = subst(t, dict(zip(holes, ix)))
    return t


LENGTH = {"append", "add", "insert", "pop", "remove", "del", "clear", "mutate", "update"}


def shape(eng, o, n):
    """a sequence as long as the list o is after event n (None: when all is done), or None"""
    if o.op != "obj" or eng.objs[o.args[0]]["kind"] not in ("list", "deque"):
        return None
    at = eng.log[n].loops if n is not None and n >= 0 else ()
    m = eng.objs[o.args[0]]
    parts = []
    for e in eng.by_root.get(("obj", o.args[0]), ()):
        if e.tgt.op != "obj" or e.kind not in LENGTH:
            continue
        if e.tgt.args[1] != tuple(mk("idx", l) for l in m["loops"]) or e.kind != "append" or e.loops[:len(m["loops"])] != m["loops"]:
            return None
        inner = e.loops[len(m["loops"]):]
        if set(inner) & set(at) or set(inner) & set(eng.loops):
            return None
        if n is not None and e.n > n:
            if set(e.loops) & set(at) or o.args[1] == e.tgt.args[1]:
                return None
            return None
        if any(x.op in ("den", "rd", "obj") for l in inner for x in subterms(eng.loopinfo[l].dom)):
            return None
        s = dict(zip(e.tgt.args[1], o.args[1]))
        doms, g, v = eng.close(inner, subst(simplify(e.guard, AND(m["guard"], e.assume)), s), mk("tuple", ()), tuple(o.args[1]))
        parts.append(mk("part", tuple(subst(d, s) for d in doms), g, v))
    return mk("seq", tuple(parts))


def shapes(eng, t):
    m = {}
    for x in subterms(t):
        if x.op in ("len", "dom") and isinstance(x.args[0], T):
            y = x.args[0]
            if y.op == "den" and len(y.args) > 1:
                s = shape(eng, y.args[0], y.args[1])
            elif y.op == "obj":
                s = shape(eng, y, None)
            else:
                continue
            if s is not None:
                m[x] = range_like(s) if x.op == "dom" else mk("len", s)
    return subst(t, m) if m else t


def range_like(s):
    """the domain of a sequence; simply a range if it has one element per number"""
    if len(s.args[0]) == 1:
        doms, g, _ = s.args[0][0].args
        if len(doms) == 1 and g is TRUE and doms[0].args[0].op == "range" and not any(x.op == "bv" for x in subterms(doms[0].args[0])):
            return doms[0].args[0]
    return mk("dom", s)


def build(eng, scr):
    """scr: (loops, which instance it happens to, guard, operation)"""
    out = []
    k = 0
    while k < len(scr):
        loops, which, g, op = scr[k]
        if which is not TRUE and not (which.loops & set(loops)):
            grp = []
            while k < len(scr) and scr[k][1] is which and not (which.loops & set(scr[k][0])):
                grp.append((scr[k][0], TRUE, scr[k][2], scr[k][3]))
                k += 1
            out.append(mk("part", (), which, build(eng, grp)))
            continue
        if not loops:
            out.append(mk("part", (), AND(which, g), op))
            k += 1
            continue
        L = loops[0]
        grp = []
        while k < len(scr) and scr[k][0] and scr[k][0][0] == L and (scr[k][1] is TRUE or scr[k][1].loops & set(scr[k][0])):
            grp.append((scr[k][0][1:],) + scr[k][1:])
            k += 1
        doms, gg, vv = eng.close([L], TRUE, build(eng, grp))
        out.append(mk("part", doms, gg, vv))
    return mk("script", tuple(out))


def play(ev, box, script):
    """ev: the interpretation of terms"""
    from .ident import same, Fault, Und
    for p in script.args[0]:
        doms, g, op = p.args
        for _ in ev.binder(doms, ()):
            if not ev.ev(g):
                continue
            if op.op == "script":
                play(ev, box, op)
                continue
            name, (k, x) = op.args
            k, x = ev.ev(k), ev.ev(x)
            if name == "append" or name == "add":
                box.append(x)
            elif name == "store":
                if isinstance(box, list) and isinstance(k, tuple):
                    nd.put(box, k, x, Fault)
                elif isinstance(box, list) and not isinstance(k, int):
                    raise Und("key of a list")
                else:
                    box[k] = x
            elif name == "insert":
                box.insert(k, x)
            elif name == "rotate":
                if box:
                    k = (k if k is not None else x if x is not None else 1) % len(box)
                    box[:] = box[-k:] + box[:-k] if k else box[:]
            elif name == "clear":
                box.clear()
            elif name == "remove":
                for i, y in enumerate(box):
                    if same(y, x if x is not None else k):
                        del box[i]
                        break
                else:
                    raise Fault("remove")
            elif name == "discard":
                box.pop(k, None)
            elif name == "del":
                del box[k]
            else:
                raise Und(name)
