"""C14: copies and compressed forms of networks and states are faithful and independent."""
from .structures import *

TECHNIQUE = ("value-flow and typestate analysis: small networks of every shape that matters, with unknown attributes, are followed through copying, "
             "compression and State, msgpack being followed through a stand-in that copies piece by piece; what is seen of the original and the copy is "
             "compared before and after either is changed, and the state of the garbage collector along every normal and exceptional path")
LEVEL_NOTE = "The shapes of the networks are enumerated (up to 4 nodes and 6 edges); attributes and activities are symbolic. "

WORLD = """
from netomaton import State, Network

class World:
    def __init__(self):
        self.gc = True
        self.fails = False
        self.packfails = False

class Packed:
    def __init__(self, obj):
        self.obj = obj

world = World()

def setup(gc, fails, packfails):
    world.gc = gc
    world.fails = fails
    world.packfails = packfails

def enable():
    world.gc = True

def disable():
    world.gc = False

def isenabled():
    return world.gc

def unpacking():
    if world.fails:
        raise ValueError("unpack failed")

def packing():
    if world.packfails:
        raise TypeError("can not serialize")

def packed(obj):
    return Packed(obj)

def content(p):
    return p.obj

def copied(n):
    return n.copy()

def packed_copy(n):
    return Network.decompress(n.compress())

def through_state(n):
    return State(network=n, compression=True).network

def through_later_state(n):
    s = State(compression=True)
    s.network = n
    return s.network

def plain_state(n):
    return State(network=n).network

def activities(a, compression):
    return State(activities=a, compression=compression).activities

def activities_later(a, compression):
    s = State(compression=compression)
    s.activities = a
    return s.activities

def activities_kept(a):
    s = State(activities=a, compression=True)
    a["more"] = 1
    b = s.activities
    b["other"] = 2
    return s.activities

def nothing():
    s, z = State(), State(compression=True)
    return [s.activities, s.network, z.activities, z.network]

def gc_network(n):
    try:
        Network.decompress(n.compress())
    except Exception:
        return world.gc
    return world.gc

def gc_copy(n):
    try:
        n.copy()
    except Exception:
        return world.gc
    return world.gc

def gc_state(n):
    try:
        s = State(activities={1: 2}, network=n, compression=True)
        s.activities
        s.network
    except Exception:
        return world.gc
    return world.gc

def rotated(n):
    n.rotation_system = {x: [x] for x in n.nodes}
    return n

def rotation(n):
    if n.rotation_system is None:
        return None
    return {k: list(v) for k, v in n.rotation_system.items()}
"""


def textual(eng, v):
    """whether every key of the dicts in a value is a string"""
    if v.op == "obj":
        m = eng.objs[v.args[0]]
        if m["kind"] == "dict":
            return all(kv.args[0][0].op == "const" and isinstance(kv.args[0][0].args[0], str) and textual(eng, kv.args[0][1])
                       for kv in eng.finite_dict(v, "items") or ())
        if m["kind"] == "list":
            return all(textual(eng, x) for x in eng.straight_items(v) or ())
    return True


def lab(C):
    L = Lab(C, WORLD)
    eng, env = L.eng, L.env
    eng.exact_raises = True

    def packb(e, args, kw):
        if len(args) != 1 or any(k not in ("use_bin_type",) or v is not TRUE for k, v in kw.items()):
            return None
        e.call(env["packing"], [], {})
        c = clone(e, args[0], None)
        return None if c is None else e.call(env["packed"], [c], {})

    def unpackb(e, args, kw):
        if len(args) != 1 or any((k, v) not in (("strict_map_key", FALSE), ("strict_map_key", TRUE), ("raw", FALSE), ("use_list", TRUE)) for k, v in kw.items()):
            return None
        e.call(env["unpacking"], [], {})
        if e.cls_of(args[0]) not in e.classes or e.classes[e.cls_of(args[0])].name != "Packed":
            if args[0].op == "ite":
                return None
            e.do_raise(mk("ext", "TypeError"))
            return NONE
        v = e.call(env["content"], [args[0]], {})
        if kw.get("strict_map_key", TRUE) is TRUE and not textual(e, v):
            e.do_raise(mk("ext", "ValueError"))
            return NONE
        return clone(e, v, None)
    eng.ext_override["msgpack.packb"] = eng.ext_override["msgpack.dumps"] = packb
    eng.ext_override["msgpack.unpackb"] = eng.ext_override["msgpack.loads"] = unpackb
    for f in ("enable", "disable", "isenabled"):
        eng.ext_override["gc." + f] = lambda e, a, k, f=f: e.call(env[f], a, k)
    call(eng, env["setup"], [TRUE, FALSE, FALSE])
    return L


WAYS = (("copied", "copy()"), ("packed_copy", "decompress(compress())"), ("through_state", "a compressed State"),
        ("through_later_state", "a compressed State set later"))


def changes(shape):
    """source of statements that change the nodes, edges and attributes of a network m in place"""
    nodes, edges = SHAPES[shape]
    out = []
    for n, a in nodes:
        for k, v in a.items():
            if isinstance(v, list):
                out.append("m[%r][%r].append(99)" % (n, k))
                out += ["m[%r][%r][%d]['deep'] = 98" % (n, k, i) for i, x in enumerate(v) if isinstance(x, dict)]
            elif isinstance(v, dict):
                out += ["m[%r][%r][%r].append(97)" % (n, k, x) for x in v]
        out.append("m[%r]['colour'] = 96" % (n,))
        out.append("m.add_node(%r, size=95)" % (n,))
    for i, j, a in edges:
        for k, v in a.items():
            if isinstance(v, list):
                out.append("m.edge(%r, %r)[0][%r].append(94)" % (i, j, k))
        out.append("m.edge(%r, %r)[0]['weight'] = 93" % (i, j))
        out.append("m.update_edge(%r, %r, sign=92)" % (i, j))
    first = nodes[0][0] if nodes else "z"
    out += ["m.add_node('brand new', size=91)", "m.add_edge(%r, 'brand new')" % (first,), "m.add_edge('other', %r, weight=90)" % (first,)]
    if nodes:
        out += ["m.remove_edge('other', %r)" % (nodes[0][0],)]
    if len(nodes) > 1:
        out.append("m.remove_node(%r)" % (nodes[-1][0],))
    return "def change(m):\n" + "".join("    %s\n" % x for x in out) + "    return m\n"


def faithful(C, shape, way, what):
    want = required(shape)
    site = None
    for k, (change_, seen) in enumerate((("neither", "copy"), ("neither", "original"), ("copy", "original"), ("original", "copy"))):
        L = lab(C)
        f = L.eng.getattr(L.eng.lookup_export("netomaton.Network"), "decompress")
        site = site_of(L.eng, L.eng.classes["Network"].find(L.eng, "copy")) if way == "copied" else site_of(L.eng, f)
        n = L.network(shape)
        got = call(L.eng, L.env[way], [n])
        if got.value is NONE:
            C.equal("%s of %s: there is one" % (what, shape), got.term, L.eng.den(L.value(want["nodes"])), L.asg[:1], site)
            continue
        if change_ != "neither":
            call(L.eng, spec_env(L.eng, changes(shape))["change"], [got.value if change_ == "copy" else n])
        for x in ("nodes", "edges", "degrees", "arriving"):
            L.require("%s of %s: %s of the %s%s" % (what, shape, x, seen, "" if change_ == "neither" else " after the %s was changed" % change_),
                      L.see(x, n if seen == "original" else got.value), want[x], site, got.raises)
        if seen == "copy" and change_ == "neither":
            L2 = L.see("leaving", got.value)
            ends = call(L.eng, L.env["leaving"], [n])
            L.require("%s of %s: the record of where edges go" % (what, shape), L2, L.eng.den(ends.value), site, got.raises)


def plain(C, shape):
    L = lab(C)
    n = L.network(shape)
    got = call(L.eng, L.env["plain_state"], [n])
    want = required(shape)
    site = site_of(L.eng, L.eng.lookup_export("netomaton.State"))
    if got.value is NONE:
        C.equal("a State that isn't compressed has the network it was given (%s)" % shape, got.term, L.eng.den(L.value(want["nodes"])), L.asg[:1], site)
        return
    for x in ("nodes", "edges", "degrees"):
        L.require("a State that isn't compressed has the network it was given (%s): %s" % (shape, x), L.see(x, got.value), want[x], site, got.raises)


def activities(C):
    for src in ("{}", "{0: u0}", "{0: u0, 1: u1, 'a': u2}", "{'x': [u0, u1], 5: [[u2], [u3]]}", "{3: None, 4: 0, 5: 'on'}"):
        for way in ("activities", "activities_later"):
            for compression in (FALSE, TRUE):
                L = lab(C)
                site = site_of(L.eng, L.eng.lookup_export("netomaton.State"))
                got = call(L.eng, L.env[way], [L.value(src), compression])
                L.require("activities %s read back from a State%s%s" % (src, " (compressed)" if compression is TRUE else "", " set later" if "later" in way else ""),
                          got, src, site)
        L = lab(C)
        L.require("activities %s read back from a compressed State, independent of what was given and of what was read" % src,
                  call(L.eng, L.env["activities_kept"], [L.value(src)]), src, site)
    L = lab(C)
    L.require("a State without activities or network has none", call(L.eng, L.env["nothing"], []), "[None, None, None, None]", site)


def collector(C, shape):
    for way, what in (("gc_network", "compressing and decompressing a network"), ("gc_copy", "copying a network"), ("gc_state", "storing and reading a compressed State")):
        L = lab(C)
        gc, fails, packfails = P(L.eng, "gc", "bool"), P(L.eng, "fails", "bool"), P(L.eng, "packfails", "bool")
        n = L.network(shape)
        call(L.eng, L.env["setup"], [gc, fails, packfails])
        got = call(L.eng, L.env[way], [n])
        asg = [dict(L.asg[0], **{}) for _ in range(8)]
        for k, a in enumerate(asg):
            a.update({gc: bool(k & 1), fails: bool(k & 2), packfails: bool(k & 4)})
        f = L.eng.getattr(L.eng.lookup_export("netomaton.Network"), "decompress")
        C.equal("%s (%s) leaves the garbage collector as it was, on every path" % (what, shape), ite(got.raises, RAISES, ite(truth(L.eng, got.value), TRUE, FALSE)),
                ite(truth(L.eng, gc), TRUE, FALSE), asg, site_of(L.eng, f))
    for bad in ((TRUE, FALSE), (FALSE, TRUE)):
        L = lab(C)
        n = L.network(shape)
        call(L.eng, L.env["setup"], [TRUE, bad[0], bad[1]])
        got = call(L.eng, L.env["packed_copy"], [n])
        C.equal("%s of a network (%s) that fails isn't concealed" % ("decompression" if bad[0] is TRUE else "compression", shape), ite(got.raises, TRUE, FALSE), TRUE,
                L.asg[:1], site_of(L.eng, L.eng.getattr(L.eng.lookup_export("netomaton.Network"), "decompress")))


def truth(eng, t):
    return eng.boolean(t)


def rotations(C):
    L = lab(C)
    n = L.network("both directions")
    n = call(L.eng, L.env["rotated"], [n]).value
    site = site_of(L.eng, L.eng.classes["Network"].find(L.eng, "copy"))
    got = call(L.eng, L.env["rotation"], [call(L.eng, L.env["copied"], [n]).value])
    L.require("Network.copy: keeps the rotation system", got, "{2: [2], 0: [0], 1: [1]}", site)


def check(C):
    for shape in SHAPES:
        for way, what in WAYS:
            C.group("%s: %s" % (what, shape), faithful, C, shape, way, what)
        C.group("plain state: %s" % shape, plain, C, shape)
    C.group("activities", activities, C)
    for shape in ("an empty network", "both directions"):
        C.group("garbage collector: %s" % shape, collector, C, shape)
    C.group("rotation system", rotations, C)
    C.assumptions.append("msgpack gives back equal, independent values for what is made of None, numbers, strings, lists and dicts, or raises")
