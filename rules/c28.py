"""C28: the normal forms of the entropy functions are those of their definitions."""
from .common import *

TECHNIQUE = ("interprocedural value-flow analysis of the entropy functions to closed sums over symbol sets, compared with "
             "the normal forms of their definitions")

SPEC = """
import math
import numpy as np

def entropy(s):
    symbols = dict.fromkeys(list(s))
    ps = [float(s.count(x)) / len(s) for x in symbols]
    return -sum([p * math.log(p, 2.0) for p in ps])

def joint(a, b):
    total = 0
    X = np.array(list(a))
    Y = np.array(list(b))
    return sum(-p * np.log2(p) for p in [np.mean(np.logical_and(X == x, Y == y)) for x in dict.fromkeys(X) for y in dict.fromkeys(Y)] if p != 0)

def mi(a, b):
    return entropy(a) + entropy(b) - joint(a, b)
"""


def strings(C):
    base = ["0", "00", "01", "0011", "000101001", "12402", "aBcd12", "abab", "aaaaaaab", "0123456789", "zzyzx"]
    n = 12 if not C.thorough else 80
    for _ in range(n):
        k = C.rng.randint(1, 9)
        base.append("".join(C.rng.choice("01" if C.rng.random() < .5 else "0123") for _ in range(k)))
    return base


def as_lists(xs):
    """sequences of symbols of more than one character, too"""
    m = {"0": "0", "1": "1", "2": "10", "3": "-1"}
    return [[m.get(c, c) for c in x] for x in xs]


def check(C):
    C.group("shannon_entropy", one, C)
    C.group("joint_shannon_entropy", two, C, "joint_shannon_entropy", "joint", "joint entropy over pairs of equal positions")
    C.group("mutual_information", two, C, "mutual_information", "mi", "H(X) + H(Y) - H(X,Y)")


def one(C):
    for ty, asg in (("str", strings(C)), ("list", as_lists(strings(C)))):
        eng = C.engine()
        f = eng.lookup_export("netomaton.shannon_entropy")
        s = P(eng, "s", ty)
        got = call(eng, f, [s])
        want = call(eng, spec_env(eng, SPEC)["entropy"], [s])
        for n in scales(got.term):
            asg = asg + [["0"] * (m - 1) + ["1"] if ty == "list" else "0" * (m - 1) + "1" for m in (n - 1, n, n + 1, n * 2)]
        C.equal("shannon_entropy(%s): -sum p log2 p" % ty, got.term, want.term, [{s: x} for x in asg], site_of(eng, f))


def two(C, name, spec, what):
    for ty, asg in (("str", strings(C)), ("list", as_lists(strings(C)))):
        eng = C.engine()
        f = eng.lookup_export("netomaton." + name)
        a, b = P(eng, "a", ty), P(eng, "b", ty)
        got = call(eng, f, [a, b])
        want = call(eng, spec_env(eng, SPEC)[spec], [a, b])
        pairs = []
        for n in scales(got.term):
            for m in (n - 1, n, n + 1, n * 2):
                z = ["0"] * (m - 1) + ["1"]
                z = z if ty == "list" else "".join(z)
                pairs.append((z, z))
        for x in asg:
            y = list(x)
            C.rng.shuffle(y)
            pairs.append((x, "".join(y) if ty == "str" else y))
            pairs.append((x, x))
            pairs.append((x, x[:1] * len(x)))
            other = {"0": "x", "1": "y"}
            z = [other.get(c, c) for c in x]
            pairs.append((x, "".join(z) if ty == "str" else z))
            pairs.append(("".join(z) if ty == "str" else z, "".join(y) if ty == "str" else y))
        C.equal("%s(%s): %s" % (name, ty, what), got.term, want.term, [{a: x, b: y} for x, y in pairs], site_of(eng, f))
