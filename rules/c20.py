"""C20: the value computed from a rule number is the digit the documented convention selects."""
from .common import *

TECHNIQUE = ("interprocedural value-flow analysis of the rule-number decoders to normal forms, compared with the normal "
             "forms of the documented digit conventions; rejection conditions compared as decision diagrams")

SPEC = """
import numpy as np

def number(bits):
    total = 0
    for shift, j in enumerate(bits[::-1]):
        if j:
            total += 1 << shift
    return total

def digits(num, num_digits):
    converted = list(map(int, bin(num)[2:]))
    return np.pad(converted, (num_digits - len(converted), 0), 'constant')

def binary(rule, scheme, bits):
    n = 2 ** len(bits)
    table = digits(rule, n)
    k = number(bits)
    if scheme == 'nks':
        return table[(n - 1) - k]
    return table[k]

def totalistic(k, rule, cells):
    total = 0
    for c in cells:
        total += c
    n = len(cells)
    digits = np.base_repr(rule, base=k).zfill(n * (k - 1) + 1)
    if len(digits) > n * (k - 1) + 1:
        raise Exception("rule number out of range")
    return int(digits[n * (k - 1) - total], k)
"""


def bit_lists(C):
    import itertools
    out = []
    for n in (1, 2, 3, 4, 5):
        for b in itertools.product((0, 1), repeat=n):
            out.append(list(b))
    for n in (6, 7, 8, 9, 10, 11):
        for b in ([0] * n, [1] * n, [1] + [0] * (n - 1), [0] * (n - 1) + [1], [1, 0] * (n // 2) + [1] * (n % 2)):
            out.append(b)
    return out


def check(C):
    C.group("bits_to_int", bits, C)
    C.group("int_to_bits", tobits, C)
    C.group("binary_ca_rule", binary, C)
    C.group("nks_ca_rule", nks, C)
    C.group("totalistic_ca", totalistic, C)


def bits(C):
    eng = C.engine()
    f = eng.lookup_export("netomaton.rules.bits_to_int")
    b = P(eng, "bits", "list")
    got = call(eng, f, [b])
    want = call(eng, spec_env(eng, SPEC)["number"], [b])
    C.equal("bits_to_int: most significant bit first", got.term, want.term, [{b: x} for x in bit_lists(C)], site_of(eng, f))


def pad(it, t):
    """np.pad(seq, (before, after), 'constant')"""
    if t.op == "call" and t.args[0] == "numpy.pad":
        a = [x for x in t.args[1] if x.op != "kw"]
        kw = {x.args[0]: x.args[1] for x in t.args[1] if x.op == "kw"}
        mode = it.ev(a[2]) if len(a) > 2 else it.ev(kw["mode"]) if "mode" in kw else "constant"
        fill = it.ev(kw["constant_values"]) if "constant_values" in kw else 0
        seq, width = it.ev(a[0]), it.ev(a[1])
        if mode != "constant" or not isinstance(fill, int):
            raise ident.Und("pad")
        if isinstance(width, int):
            width = (width, width)
        if width[0] < 0 or width[1] < 0:
            raise ident.Fault("negative pad width")
        return [fill] * width[0] + list(seq) + [fill] * width[1]
    return NotImplemented


def numbers():
    for r in list(range(0, 40)) + [54, 90, 110, 126, 150, 184, 200, 254, 255]:
        yield r


def tobits(C):
    eng = C.engine()
    f = eng.lookup_export("netomaton.rules.int_to_bits")
    n, d = P(eng, "num", "int"), P(eng, "num_digits", "int")
    got = call(eng, f, [n, d])
    want = call(eng, spec_env(eng, SPEC)["digits"], [n, d])
    C.equal("int_to_bits: binary digits, padded with zeros on the left", got.term, want.term,
            [{n: x, d: k} for x in numbers() for k in (x.bit_length() or 1, 8, 9, 16)], site_of(eng, f), hook=pad)


def decoder(C, title, make, scheme):
    eng = C.engine()
    rule = P(eng, "rule", "int")
    f, r = make(eng, rule)
    ctx = P(eng, "ctx", "class:NodeContext")
    nb = mk("attr", ctx, "neighbourhood_activities")
    eng.types[nb] = "list"
    got = call(eng, r, [ctx])
    want = call(eng, spec_env(eng, SPEC)["binary"], [rule, const(scheme), nb])
    asg = []
    for b in bit_lists(C):
        if len(b) <= 3:
            for x in numbers():
                asg.append({rule: x, nb: b})
        elif len(b) == 5:
            for x in (0, 1, 2 ** 31 + 5, 0x6a5c3f19, 2 ** 32 - 2):
                asg.append({rule: x, nb: b})
        elif len(b) > 6:
            k = int("".join(map(str, b)), 2)
            for x in (0, 1 << k, (1 << 2 ** len(b)) - 1 - (1 << k)):
                asg.append({rule: x, nb: b})
    C.equal(title, got.term, want.term, asg, site_of(eng, f), hook=pad)


def binary(C):
    def default(eng, rule):
        f = eng.lookup_export("netomaton.rules.binary_ca_rule")
        return f, call(eng, f, [rule]).value

    def with_scheme(s):
        def g(eng, rule):
            f = eng.lookup_export("netomaton.rules.binary_ca_rule")
            return f, call(eng, f, [rule], {"scheme": const(s)}).value
        return g
    decoder(C, "binary_ca_rule: digit at the neighbourhood's number", default, None)
    decoder(C, "binary_ca_rule(scheme='nks'): digits counted from the other end", with_scheme("nks"), "nks")


def nks(C):
    def g(eng, rule):
        f = eng.lookup_export("netomaton.rules.nks_ca_rule")
        return f, call(eng, f, [rule]).value
    decoder(C, "nks_ca_rule: the NKS scheme", g, "nks")


def totalistic(C):
    eng = C.engine()
    f = eng.lookup_export("netomaton.rules.totalistic_ca")
    k, rule = P(eng, "k", "int"), P(eng, "rule", "int")
    ctx = P(eng, "ctx", "class:NodeContext")
    nb = mk("attr", ctx, "neighbourhood_activities")
    eng.types[nb] = "list"
    made = call(eng, f, [k, rule])
    got = call(eng, made.value, [ctx])
    want = call(eng, spec_env(eng, SPEC)["totalistic"], [k, rule, nb])
    site = site_of(eng, f)
    asg = []
    for kk in (2, 3, 4, 5, 12, 36):
        for cells in ([0], [1], [1, 0, 1], [0, 0, 0], [1, 1, 1], [1, 0, 1, 1, 0], [kk - 1] * 3, [kk - 1, 0, 1], [kk - 1] * 5):
            n = len(cells)
            top = kk ** (n * (kk - 1) + 1)
            for r in {0, 1, 777, 1599, 52, 126, top - 1, top - 2, top // 2, top, top + 1, top * kk}:
                asg.append({k: kk, rule: r, nb: cells})
    C.equal("totalistic_ca: rejects a rule number that is out of range", OR(made.raises, got.raises), want.raises, asg, site)
    C.equal("totalistic_ca: base-k digit at the sum of the neighbourhood", simplify(got.den, NOT(got.raises)),
            simplify(want.den, NOT(want.raises)), asg, site, when=NOT(want.raises))
