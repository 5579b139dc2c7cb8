"""C33: typestate of the turtle: what push saved is what the matching pop restores, whatever happened in between."""
from .common import *

TECHNIQUE = ("typestate by value-flow analysis: the turtle's fields are followed symbolically through the method bodies along "
             "call sequences with symbolic arguments, and their normal forms are compared with the required states")

SPEC = """
import math

def state(t):
    return (t.x, t.y, t.orientation)

def push_pop(t, d, r):
    t.push(); t.forward(d); t.rotate(r); t.forward(r)
    t.pop()
    return state(t)

def nested_inner(t, d, r):
    t.push(); t.forward(d); t.rotate(r)
    t.push(); t.forward(d); t.rotate(d)
    t.pop()
    return state(t)

def nested_outer(t, d, r):
    t.push(); t.forward(d); t.rotate(r)
    t.push(); t.forward(d); t.rotate(d)
    t.pop(); t.rotate(r); t.pop()
    return state(t)

def siblings(t, d, r):
    t.push(); t.forward(d); t.pop(); t.rotate(r)
    t.push(); t.rotate(d); t.pop()
    return state(t)

def three(t, d, r):
    t.push(); t.rotate(d); t.push(); t.rotate(d); t.push(); t.forward(r)
    t.pop(); t.pop(); t.pop()
    return state(t)

def two_turtles(t, u, d, r):
    t.push(); u.forward(d); u.push(); u.rotate(r)
    t.pop()
    return state(t)

def forward(t, d):
    t.forward(d)
    return state(t)

def rotate(t, d):
    t.rotate(d)
    return state(t)

def push(t):
    t.push()
    return state(t)

def pos(t):
    return t.pos

def moved(x, y, o, d):
    return (math.sin(math.radians(o)) * d + x, math.cos(math.radians(o)) * d + y, o)

def drawn(t, d):
    t.forward(d)
    return t.trajectory

def drawn_spec(x, y, o, d):
    a = math.radians(o)
    return [([x, math.sin(a) * d + x], [y, math.cos(a) * d + y])]

def undrawn(t, d):
    t.push(); t.rotate(d); t.pop()
    return t.trajectory

def turned(x, y, o, d, r):
    return (x, y, o + d)

def walked(x, y, o, d, r):
    nx = math.sin(math.radians(o)) * d + x
    ny = math.cos(math.radians(o)) * d + y
    return (nx, ny, o + r)
"""


def fresh(C):
    eng = C.engine()
    cls = eng.lookup_export("netomaton.Turtle")
    v = {n: P(eng, n, "num") for n in ("x", "y", "o", "d", "r")}
    t = eng.call(cls, [v["x"], v["y"], v["o"]], {})
    return eng, cls, v, t, spec_env(eng, SPEC)


def assignments(C, v):
    out = []
    for x, y, o, d, r in ((0, 0, 0, 1, 90), (1.5, -2, 30, 2, -45), (3, 4, 90, 0.5, 360), (-1, 7, 200, 3, 25)):
        out.append({v["x"]: x, v["y"]: y, v["o"]: o, v["d"]: d, v["r"]: r})
    return out


def check(C):
    for name, what, spec in (
            ("push_pop", "pop restores the state at the push", None),
            ("nested_inner", "an inner pop restores the state at the inner push", "walked"),
            ("nested_outer", "the outer pop restores the state at the outer push", None),
            ("siblings", "consecutive push/pop pairs are independent", "sib"),
            ("three", "three nested pushes are popped last in, first out", None),
            ("forward", "forward moves along the orientation", "moved"),
            ("rotate", "rotate changes only the orientation", "turned"),
            ("push", "push changes nothing", None),
            ("drawn", "forward draws one segment from the old to the new position", "drawn"),
            ("undrawn", "push, rotate and pop draw nothing", "empty"),
            ("two_turtles", "turtles don't share their stacks", None),
            ("pos", "pos is the position", "pos")):
        C.group(what, one, C, name, what, spec)


def one(C, name, what, spec):
    eng, cls, v, t, env = fresh(C)
    x, y, o, d, r = (v[k] for k in "xyodr")
    if name == "two_turtles":
        u = eng.call(cls, [y, x, o], {})
        got = call(eng, env[name], [t, u, d, r])
    elif name in ("push", "pos"):
        got = call(eng, env[name], [t])
    elif name in ("forward", "rotate", "drawn", "undrawn"):
        got = call(eng, env[name], [t, d])
    else:
        got = call(eng, env[name], [t, d, r])
    if spec is None:
        want = mk("tuple", (x, y, o))
    elif spec == "moved":
        want = call(eng, env["moved"], [x, y, o, d]).den
    elif spec == "drawn":
        want = call(eng, env["drawn_spec"], [x, y, o, d]).den
    elif spec == "empty":
        want = call(eng, spec_env(eng, "def f():\n    return []\n")["f"], []).den
    elif spec == "pos":
        want = mk("tuple", (x, y))
    elif spec == "sib":
        want = call(eng, env["turned"], [x, y, o, r, r]).den
    else:
        want = call(eng, env[spec], [x, y, o, d, r]).den
    C.equal(what, got.term, want, assignments(C, v), site_of(eng, cls))
