from contracts.base import H
from pyvc.lists import Indexed, SymList
from pyvc.util import AND, NOT, OR, blen, cat, ite, le, outcome, stream, u

ID = "C06"
LEVEL = "proof"
TRUSTED = ["str.replace/split/upper (the symbolic contract quantifies over the list of names they produce; concrete runs use real strings)"]
ASSUMPTIONS = []
EXPLANATION = ("The codec is verified for all 32-bit values, both text forms for all 128 sets of defined attributes, and parsing for any number of names.")
A = "edk2toollib.uefi.uefi_multi_phase"
# UEFI specification values
BITS = [("NON_VOLATILE", "NV", 1), ("BOOTSERVICE_ACCESS", "BS", 2), ("RUNTIME_ACCESS", "RT", 4), ("HARDWARE_ERROR_RECORD", "HW", 8),
        ("AUTHENTICATED_WRITE_ACCESS", "AW", 16), ("TIME_BASED_AUTHENTICATED_WRITE_ACCESS", "AT", 32), ("APPEND_WRITE", "AP", 64)]
NAMES = {("EFI_VARIABLE_" + n): b for n, s, b in BITS}
NAMES.update({s: b for n, s, b in BITS})
U32 = 0xFFFFFFFF


def codec(vc):
    """Encoding is the little-endian 32-bit value, from any stream position; decoding gives it back."""
    M = vc.module(A)
    a = vc.int("a", 0, U32)
    e = M.EfiVariableAttributes(a)
    vc.check(e.encode() == le(a, 4), "encode")
    vc.check(e.attributes == a, "value")
    pre = vc.bytes("prefix", max_len=1 << 40)
    body = vc.bytes("body")
    s = stream(vc, cat(pre, body), blen(pre))
    ok, d = outcome(M.EfiVariableAttributes, decodefs=s)
    vc.check(ok == (blen(body) >= 4), "needs four bytes")
    if ok:
        vc.reach("decoded")
        vc.check(AND(d.attributes == u(body, 0, 4), s.tell() == blen(pre) + 4, d.encode() == body[0:4]), "decodes exactly its four bytes")
        s.seek(blen(pre))
        vc.check(e.decode(s) == u(body, 0, 4), "decode returns the value")
        vc.check(e.attributes == d.attributes, "decode replaces the value")


def text(vc):
    """Both text forms name exactly the set bits, in one fixed order, and parse back to the value."""
    M = vc.module(A)
    E = M.EfiVariableAttributes
    mask = 0
    for i in range(7):
        if vc.choice("b%d" % i, [False, True]):
            mask |= 1 << i
    e = E(mask)
    for s, names in ((str(e), ["EFI_VARIABLE_" + n for n, _, b in reversed(BITS) if mask & b]),
                     (e.get_short_string(), [s for _, s, b in reversed(BITS) if mask & b])):
        vc.check(s.split(",") == names if mask else s == "", "exactly the set attributes are named")
        if mask:
            vc.check(E.parse_attributes_str(s) == mask and E(s).attributes == mask, "the text parses back")
    vc.check(e.__int__() == mask, "int() is the value")
    # undefined bits do not change the text
    hi = vc.choice("hi", [0x80, 0x80000000, 0xFFFFFF80])
    vc.check(str(E(mask | hi)) == str(e), "undefined bits are not named")
    vc.reach("done")


class Name:
    """One name of the list, as the string it is (upper-cased)."""

    def __init__(self, s):
        self.s = s

    def upper(self):
        return self.s


class Text:
    """Attribute text that splits into an arbitrary number of arbitrary names."""

    def __init__(self, parts):
        self.parts = parts

    def replace(self, a, b):
        assert a == " " and b == ""
        return self

    def split(self, sep):
        assert sep == ","
        return self.parts


def parse(vc):
    """Any number of names, long or short, in any order, with repetitions: the value is their union; an unknown name is refused."""
    M = vc.module(A)
    E = M.EfiVariableAttributes
    table = sorted(NAMES) + ["UNKNOWN"]
    if not vc.symbolic:
        names = vc.data("names", lambda r: [r.choice(table if r.random() < 0.2 else table[:-1]) for _ in range(r.choice([1, 1, 2, 3, 8, 20]))])
        style = vc.data("style", lambda r: r.randrange(8))
        txt = (", " if style & 1 else ",").join(n.lower() if style & 2 else n for n in names)
        if style & 4:
            txt = " " + txt + " "
        ok, v = outcome(E.parse_attributes_str, txt)
        vc.check(ok == ("UNKNOWN" not in names), "refused exactly when a name is unknown")
        if ok:
            want = 0
            for n in names:
                want |= NAMES[n]
            vc.check(v == want and E(txt).attributes == want, "union of the names")
        else:
            vc.check(isinstance(v, ValueError), "refusal is a ValueError")
        return
    import z3
    from pyvc.sym import mkint, zint
    n = vc.int("n", 1)
    kind = vc.fresh_fun("kind")     # name k is table[kind(k)]
    has = [vc.fresh_fun("has%d" % b) for b in range(7)]     # has[b](i) = 1 when one of the names before i is attribute b
    for f in has:
        vc.fact(f(0) == 0)
    bad = vc.fresh("bad")           # ghost: index of the first unknown name, or n
    vc.add(z3.And(bad >= 0, bad <= n.z))

    def at(k):
        k = zint(k)
        k = k if z3.is_expr(k) else z3.IntVal(k)
        z = kind(k)
        vc.fact(z3.And(z >= 0, z < len(table)))
        vc.fact(z3.Implies(z3.And(k >= 0, k < n.z), z3.And(z3.Implies(k < bad, z != len(table) - 1), z3.Implies(k == bad, z == len(table) - 1))))
        for b, f in enumerate(has):
            mine = z3.Or([z == i for i, t in enumerate(table) if NAMES.get(t) == 1 << b])
            vc.fact(f(k + 1) == z3.If(z3.Or(f(k) == 1, mine), 1, 0))
            vc.fact(z3.Or(f(k) == 0, f(k) == 1))
        return z

    def elem(k):
        z = at(k)
        for i in range(len(table) - 1):
            if vc.branch(z == i):
                return Name(table[i])
        return Name(table[-1])

    def value(i):
        i = zint(i)
        i = i if z3.is_expr(i) else z3.IntVal(i)
        return mkint(z3.Sum([f(i) * (1 << b) for b, f in enumerate(has)]))

    vc.contract(A + ":EfiVariableAttributes.parse_attributes_str#0",
                Indexed("parse", lambda vc, i, L: {"attributes": value(i)}, n, elem=lambda vc, i: elem(i), facts=lambda vc, i: at(i),
                        inv=lambda vc, i: [i <= mkint(bad)]))
    parts = SymList(n, elem)
    ok, v = outcome(E.parse_attributes_str, Text(parts))
    vc.check(ok == (mkint(bad) >= n), "refused exactly when a name is unknown")
    if ok:
        vc.reach("accepted")
        vc.check(v == value(n), "bit b is set exactly when some name is attribute b")
    else:
        vc.reach("refused")
        vc.check(isinstance(v, ValueError), "refusal is a ValueError")


def types(vc):
    """Only integers and strings are attributes."""
    M = vc.module(A)
    ok, v = outcome(M.EfiVariableAttributes, vc.choice("x", [None, 1.5, [], b"NV"]))
    vc.check(not ok and isinstance(v, TypeError), "TypeError")
    vc.reach("refused")


HARNESSES = [
    H("codec", codec, codec.__doc__, must_reach=["decoded"]),
    H("text", text, text.__doc__, must_reach=["done"]),
    H("parse", parse, parse.__doc__, must_reach=["accepted", "refused"]),
    H("types", types, types.__doc__, must_reach=["refused"]),
]
