import contextlib
import io
import struct
import uuid

from contracts.base import H
from contracts.c11_dmar import _z
from pyvc.lists import Indexed, SymList
from pyvc.sym import SymByteArray
from pyvc.util import AND, NOT, OR, all_eq, blen, cat, guid_le, le, outcome, stream, u

ID = "C16"
LEVEL = "proof"
TRUSTED = []
ASSUMPTIONS = ["UTF-16-LE decoding and encoding are inverse uninterpreted functions of the text",
               "the Reserved1 array (documented as unsupported) is absent; STRICT has its default value",
               "a value of an unsupported type is only required to keep its type number"]
EXPLANATION = ("Strings, values and rules are proved for all bytes and for encode/decode round trips at any place of any value table; the rule loops of reading, "
               "writing and adding are proved with invariants for any number of rules. A whole-blob search against an independent reader cross-checks.")
A = "edk2toollib.windows.policy.firmware_policy"


def g_text(r):
    return "".join(r.choice("ABC\u00e9\u4e2d\U0001f600 \\0") for _ in range(r.choice([0, 1, 2, 5])))


def text(vc, name):
    """An encodable text and its UTF-16-LE bytes."""
    b = vc.bytes(name, gen=lambda r: g_text(r).encode("utf-16-le"))
    ok, t = outcome(lambda: b.decode("utf-16-le"))
    vc.assume(ok)
    return b, t


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def from_place(vc, cls, b, at):
    """Decode cls at offset `at` of b, from bytes or from a stream, with or without positioning it first."""
    how = vc.choice("how", ["bytes", "stream", "positioned"])
    with quiet():
        if how == "bytes":
            return outcome(cls.FromBytes, b, at)
        fs = stream(vc, b, at if how == "positioned" else 0)
        if how == "positioned":
            return outcome(cls.FromFileStream, fs)
        return outcome(cls.FromFileStream, fs, at)


def g_table(r):
    k = r.choice(["str", "dw", "qw", "raw"])
    s = g_text(r).encode("utf-16-le")
    body = {"str": b"\0\0" + le(len(s), 2) + s + r.choice([b"", b"\0\0"]), "dw": b"\2\0" + r.randbytes(4), "qw": b"\5\0" + r.randbytes(8),
            "raw": r.randbytes(r.choice([0, 1, 2, 5, 12]))}[k]
    if r.random() < 0.3:
        body = body[:-1]
    return body


def string(vc):
    """Any bytes, any place: a string is its length-prefixed UTF-16 text, refused exactly when cut off or no text."""
    M = vc.module(A)
    b = vc.bytes("table", gen=lambda r: r.randbytes(r.choice([0, 3])) + le(r.choice([0, 2, 4, 6, 3]), 2) + r.choice([b"A\0B\0", b"\x3d\xd8\0\xde", b"A\0\0\0B\0", b"\0\xd8"]))
    n = blen(b)
    at = vc.int("at", 0, 1 << 40, gen=lambda r: r.choice([0, 3]))
    ok, o = from_place(vc, M.PolicyString, b, at)
    good = False
    if at + 2 <= n:
        ln = u(b, at, 2)
        if at + 2 + ln <= n:
            good, t = outcome(lambda: b[at + 2:at + 2 + ln].decode("utf-16-le"))
    vc.check(ok == good, "refused exactly when cut off or no text")
    if not ok:
        vc.reach("refused")
        return
    vc.reach("accepted")
    vc.check(o.String == t, "the text")


def value(vc):
    """Any bytes, any place: a value is its type and the string or number after it, refused exactly when cut off."""
    M = vc.module(A)
    pre = vc.bytes("before", gen=lambda r: r.randbytes(r.choice([0, 1, 7])))
    at = blen(pre)
    b = cat(pre, vc.bytes("table", gen=g_table))
    n = blen(b)
    ok, o = from_place(vc, M.PolicyValue, b, at)
    if at + 2 > n:
        vc.check(not ok, "no room for the type")
        return
    t = u(b, at, 2)
    if t == 2 or t == 5:
        w = 4 if t == 2 else 8
        vc.check(ok == (at + 2 + w <= n), "a number is refused exactly when cut off")
        if ok:
            vc.reach("number")
            vc.check(o.value == u(b, at + 2, w), "the number")
    elif t == 0:
        good = False
        if at + 4 <= n and at + 4 + u(b, at + 2, 2) <= n:
            good, s = outcome(lambda: b[at + 4:at + 4 + u(b, at + 2, 2)].decode("utf-16-le"))
        vc.check(ok == good, "a string is refused exactly when cut off or no text")
        if ok:
            vc.reach("string")
            vc.check(o.value.String == s, "the string")
    else:
        vc.reach("other")
        vc.check(ok, "a value of another type is kept")
    if ok:
        vc.check(AND(o.valueType.vt == t, o.GetValueType().Get() == t), "the type")


def make_value(vc, M, name):
    """(PolicyValue, its specified encoding or None when it cannot be encoded)."""
    k = vc.choice(name + ".kind", ["string", "dword", "qword"])
    if k == "string":
        b, t = text(vc, name + ".text")
        v = M.PolicyValue(M.PolicyValueType(0), M.PolicyString(t))
        return v, (cat(b"\0\0", le(blen(b), 2), b, b"\0\0") if blen(b) <= 65535 else None)
    x = vc.int(name + ".number")
    w = 4 if k == "dword" else 8
    v = M.PolicyValue(M.PolicyValueType(2 if k == "dword" else 5), x)
    return v, (cat(le(2 if k == "dword" else 5, 2), le(x, w)) if AND(x >= 0, x < 1 << 8 * w) else None)


def encode(vc):
    """Every rule: its strings and value are appended to the value table, its entry points at them; out-of-range numbers and texts are refused."""
    M = vc.module(A)
    kb, kt = text(vc, "key")
    nb, nt = text(vc, "name")
    v, enc = make_value(vc, M, "value")
    root, at = vc.int("root"), vc.int("at", 0, None)
    r = M.Rule(root, M.PolicyString(kt), M.PolicyString(nt), v)
    before = vc.bytes("before", gen=lambda r: r.randbytes(r.choice([0, 5])))
    rules, values = barr(vc, before), barr(vc, before)
    ok, e = outcome(r.Serialize, rules, values, at)
    total = 4 + blen(kb) + blen(nb)
    good = AND(root >= 0, root < 1 << 32, blen(kb) <= 65535, blen(nb) <= 65535, enc is not None)
    if good:
        good = at + total < 1 << 32
    vc.check(ok == good, "refused exactly when something does not fit")
    if not ok:
        vc.reach("refused")
        return
    vc.reach("encoded")
    vc.check(bytes_of(vc, rules) == cat(before, le(root, 4), le(at, 4), le(at + 2 + blen(kb), 4), le(at + total, 4)), "the entry")
    vc.check(bytes_of(vc, values) == cat(before, le(blen(kb), 2), kb, le(blen(nb), 2), nb, enc), "the values")
    vc.check(AND(r.OffsetToSubKeyName == at, r.OffsetToValueName == at + 2 + blen(kb), r.OffsetToValue == at + total), "the rule's offsets")


def barr(vc, b=b""):
    return SymByteArray(b) if vc.symbolic else bytearray(b)


def bytes_of(vc, ba):
    return ba.value() if vc.symbolic else bytes(ba)


def roundtrip(vc):
    """Every encodable rule: read back from its entry and any value table that holds its values at that place, it is equal, and encodes to the same bytes."""
    M = vc.module(A)
    kb, kt = text(vc, "key")
    nb, nt = text(vc, "name")
    v, enc = make_value(vc, M, "value")
    root = vc.int("root", 0, (1 << 32) - 1)
    vc.assume(AND(blen(kb) <= 65535, blen(nb) <= 65535))
    vc.assume(enc is not None)
    pre, post = vc.bytes("values before", gen=lambda r: r.randbytes(r.choice([0, 5]))), vc.bytes("values after", gen=lambda r: r.randbytes(r.choice([0, 5])))
    vc.assume(blen(pre) < 1 << 31)
    r = M.Rule(root, M.PolicyString(kt), M.PolicyString(nt), v)
    entry, vals = barr(vc), barr(vc)
    r.Serialize(entry, vals, blen(pre))
    table = cat(pre, bytes_of(vc, vals), post)
    head = vc.bytes("head", gen=lambda r: r.randbytes(r.choice([0, 9])))
    blob = cat(head, bytes_of(vc, entry), table)
    fs = stream(vc, blob, blen(head))
    if vc.bool("by bytes"):
        ok, q = outcome(M.Rule.FromFsAndVtBytes, fs, table)
    else:
        ok, q = outcome(M.Rule.FromFsAndVtOffset, fs, blen(head) + 16)
    vc.check(ok, "can be read back")
    vc.check(fs.tell() == blen(head) + 16, "the stream is behind the entry")
    vc.check(q == r, "equal to the rule that was written")
    vc.check(AND(q.RootKey == root, q.SubKeyName.String == kt, q.ValueName.String == nt, q.Value.valueType.vt == v.valueType.vt), "same key and type")
    vc.check(q.Value.value.String == v.value.String if v.valueType.vt == 0 else q.Value.value == v.value, "same value")
    e2, v2 = barr(vc), barr(vc)
    q.Serialize(e2, v2, blen(pre))
    vc.check(AND(bytes_of(vc, e2) == bytes_of(vc, entry), bytes_of(vc, v2) == bytes_of(vc, vals)), "encodes to the same bytes")
    vc.reach("done")


def equality(vc):
    """Two rules are equal exactly when root key, key, value name, value type and value are; where their values are stored does not matter."""
    M = vc.module(A)
    k = vc.choice("kind", ["qword", "dword", "string"])

    def rule(i, kt, nt):
        if k == "string":
            val = M.PolicyString(tv if i == "a" or vc.choice("same text", [True, False]) else tw)
        else:
            val = vc.int(i + ".value", 0, 1 if not vc.symbolic else (1 << 32) - 1)
        t = vc.choice(i + ".type", [0] if k == "string" else [2, 5])
        return M.Rule(vc.int(i + ".root", 0, 1 if not vc.symbolic else (1 << 32) - 1), M.PolicyString(kt), M.PolicyString(nt), M.PolicyValue(M.PolicyValueType(t), val),
                      *[vc.int("%s.o%d" % (i, j), 0, (1 << 32) - 1) for j in range(3)])

    kb, kt = text(vc, "key")
    lb, lt = text(vc, "key2")
    nb, nt = text(vc, "name")
    tv, tw = ("v", "w")
    sk = vc.bool("same key")
    a, b = rule("a", kt, nt), rule("b", kt if sk else lt, nt)
    same = AND(a.RootKey == b.RootKey, True if sk else kb == lb, a.Value.valueType.vt == b.Value.valueType.vt,
               a.Value.value.String == b.Value.value.String if k == "string" else a.Value.value == b.Value.value)
    vc.check((a == b) == same, "equal exactly when key and value are")
    vc.check((b == a) == same, "symmetric")
    vc.reach("equal" if same else "different")


def add(vc):
    """Any number of rules: a rule is appended exactly when no equal rule is there; nothing else changes."""
    M = vc.module(A)
    p = M.FirmwarePolicy()
    n = vc.int("rules", 0, 1 << 16 if vc.symbolic else 5, gen=lambda r: r.randrange(4))
    new = None
    if vc.symbolic:
        import z3
        from pyvc.sym import mkbool, mkint
        eq = z3.Function("equal", z3.IntSort(), z3.BoolSort())
        F = vc.fresh("first")        # index of the first equal rule, or n
        vc.fact(z3.And(F >= 0, F <= _z(n), z3.Or(F == _z(n), eq(F))))

        class R:
            def __eq__(self, o):
                vc.check((self is new) != (o is new), "the new rule is compared with the ones there")
                k = self.k if o is new else o.k
                return mkbool(eq(_z(k)))

        def item(k):
            o = R()
            o.k = mkint(_z(k))
            return o

        new = R()
        p.Rules = SymList(_z(n), item)
        p.RulesCount = n
        vc.contract(A + ":FirmwarePolicy.AddRule#0", Indexed(
            "rules", lambda vc, i, L: {}, n, facts=lambda vc, i: vc.fact(z3.Implies(z3.And(_z(i) >= 0, _z(i) < F), z3.Not(eq(_z(i))))),
            inv=lambda vc, i: [mkint(F) >= i]))
        dup = mkint(F) < n
    else:
        def mk(x):
            return M.Rule(x // 2, M.PolicyString("k"), M.PolicyString("n" if x % 2 else "m"), M.PolicyValue(M.PolicyValueType(2), 1))
        have = [vc.int("r%d" % i, 0, 7) for i in range(n)]
        p.Rules = [mk(x) for x in have]
        p.RulesCount = n
        x = vc.int("new", 0, 7)
        new, dup = mk(x), x in have
    added = p.AddRule(new)
    vc.check(added == NOT(dup), "added exactly when no equal rule is there")
    vc.check(AND(p.RulesCount == (n + 1 if added else n), blen(p.Rules) == (n + 1 if added else n)), "the count")
    if added:
        vc.reach("added")
        vc.check(p.Rules[n] is new, "appended at the end")
    else:
        vc.reach("duplicate")
    if not vc.symbolic:
        vc.check([r.RootKey * 2 + (r.ValueName.String == "n") for r in p.Rules[:n]] == have, "the others stay")


def g_blob(r):
    vals, rules = b"", b""
    m, k = r.choice([0, 0, 1, 2]), r.choice([0, 1, 2, 4])
    for _ in range(k):
        offs = []
        for j in range(3):
            if vals and r.random() < 0.2 and j < 2 and offs:
                offs.append(offs[0])
                continue
            offs.append(len(vals))
            s = g_text(r).encode("utf-16-le")
            vals += le(len(s), 2) + s if j < 2 else g_table(r)
        rules += r.randbytes(4) + b"".join(le(o + r.choice([0] * 30 + [1, 500]), 4) for o in offs)
    b = le(r.choice([2, 2, 2, 1, 0, 3]), 2) + r.randbytes(20) + b"\0\0" + r.randbytes(4) + le(m + r.choice([0] * 20 + [9]), 2) + le(k + r.choice([0] * 20 + [1]), 2)
    return (b + r.randbytes(12 * m) + rules + vals)[:r.choice([1 << 20] * 20 + [31, 40])]


def decode(vc):
    """Any bytes, any start: every header field, Reserved2 entry and rule is read from its place; refused exactly when something is cut off, or too new."""
    M = vc.module(A)
    pre = vc.bytes("before", gen=lambda r: r.randbytes(r.choice([0, 0, 7])))
    s = blen(pre)
    b = cat(pre, vc.bytes("blob", gen=g_blob))
    end = blen(b)
    n = end - s
    byb = vc.bool("by bytes")
    good = n >= 32
    m = k = 0
    if good:
        vc.assume(u(b, s + 22, 2) == 0)
        m, k = u(b, s + 28, 2), u(b, s + 30, 2)
        good = AND(u(b, s, 2) <= 2, 32 + 12 * m + 16 * k <= n)
        vto = s + 32 + 12 * m + 16 * k
    old = M.FirmwarePolicy()
    used = vc.bool("used")
    if used:
        old.Rules, old.RulesCount, old.Reserved1, old.Reserved2, old.Reserved2Count = ["old"], 1, ["old"], ["old"], 1
    if vc.symbolic and good:
        import z3
        from pyvc.sym import mkint, zint
        okf = z3.Function("accepted", z3.IntSort(), z3.BoolSort())
        F = vc.fresh("first")            # first rule that is refused, or k
        vc.fact(z3.And(F >= 0, F <= _z(k), z3.Implies(F < _z(k), z3.Not(okf(F)))))

        class Tok:
            def __eq__(self, o):
                return self.at == o.at

        def res(fs, vtOffset=0):
            o = Tok()
            o.at = fs.tell()
            vc.check(vtOffset == vto, "the value table offset")
            fs.seek(o.at + 12)
            return o

        class Res:
            StructSize = 12

            def __new__(cls, fs=None, vtOffset=0):
                return res(fs, vtOffset)

        def rule(fs, how):
            vc.check(how, "with the value table behind the rules")
            o = Tok()
            o.at = fs.tell()
            if not vc.branch(okf(zint((o.at - (s + 32 + 12 * m)) // 16))):
                raise Exception("refused")
            fs.seek(o.at + 16)
            return o

        def tok(base, size):
            def get(i):
                o = Tok()
                o.at = base + size * mkint(_z(i))
                return o
            return get

        t12, t16 = tok(s + 32, 12), tok(s + 32 + 12 * m, 16)
        vc.patch(M, "Reserved2", Res)
        vc.patch(M.Rule, "FromFsAndVtBytes", staticmethod(lambda fs, vt: rule(fs, AND(byb, vt == b[vto:end]))))
        vc.patch(M.Rule, "FromFsAndVtOffset", staticmethod(lambda fs, vtOffset: rule(fs, AND(not byb, vtOffset == vto))))
        vc.contract(A + ":FirmwarePolicy.FromFileStream#1", Indexed(
            "reserved", lambda vc, i, L: {}, m, heap=lambda vc, i, L: [(L["fs"], "pos", s + 32 + 12 * i), (L["self"], "Reserved2", SymList(_z(i), t12))]))
        vc.contract(A + ":FirmwarePolicy.FromFileStream#2", Indexed(
            "rules", lambda vc, i, L: {}, k,
            heap=lambda vc, i, L: [(L["fs"], "pos", s + 32 + 12 * m + 16 * i), (L["self"], "Rules", SymList(_z(i), t16))],
            facts=lambda vc, i: vc.fact(z3.Implies(z3.And(_z(i) >= 0, _z(i) < F), okf(_z(i)))), inv=lambda vc, i: [mkint(F) >= i]))
        good = mkint(F) == k
    elif good and not vc.symbolic:
        want = []
        for i in range(k):
            at = s + 32 + 12 * m + 16 * i
            with quiet():
                o, q = outcome(M.Rule.FromFsAndVtBytes, io.BytesIO(b[at:at + 16]), b[vto:])
            good = good and o
            want.append(q)
    with quiet():
        ok, e = outcome(old.FromFileStream, stream(vc, b, s), byb)
    vc.check(ok == good, "refused exactly when something is cut off, too new, or a rule is refused")
    if not ok:
        vc.reach("refused")
        return
    vc.reach("accepted")
    p = old
    vc.check(all_eq((p.FormatVersion, u(b, s, 2)), (p.PolicyVersion, u(b, s + 2, 4)), (p.PolicyPublisher, guid_le(vc, b[s + 6:s + 22])), (p.Reserved1Count, 0),
                    (p.OptionFlags, u(b, s + 24, 4)), (p.Reserved2Count, m), (p.RulesCount, k), (p.ValueTableSize, end - vto), (p.ValueTable, b[vto:end])),
             "header fields and value table")
    vc.check(AND(len(p.Reserved1) == 0, blen(p.Reserved2) == m, blen(p.Rules) == k), "the numbers of entries")
    if vc.symbolic:
        j = vc.int("j", 0, 65535)
        if j < m:
            vc.reach("reserved")
            vc.check(p.Reserved2[j].at == s + 32 + 12 * j, "Reserved2 entry j is read from its place")
        if j < k:
            vc.reach("rule")
            vc.check(p.Rules[j].at == s + 32 + 12 * m + 16 * j, "rule j is read from its place")
    else:
        vc.check(p.Rules == want and [(x.OffsetToSubKeyName, x.OffsetToValueName, x.OffsetToValue) for x in p.Rules]
                 == [(x.OffsetToSubKeyName, x.OffsetToValueName, x.OffsetToValue) for x in want], "every rule is read from its place")
        vc.check([(x.ObjectType, x.Element, x.OffsetToValue) for x in p.Reserved2]
                 == [struct.unpack("<III", b[s + 32 + 12 * i:s + 44 + 12 * i]) for i in range(m)], "Reserved2 entries")


def rule_decode(vc):
    """Any entry and value table: a rule's key, name and value are what lies at its offsets, refused exactly when one of them is."""
    M = vc.module(A)
    vt = vc.bytes("table", gen=lambda r: le(2, 2) + b"K\0" + le(4, 2) + b"N\0m\0" + g_table(r))
    e = vc.bytes("entry", gen=lambda r: r.randbytes(4) + le(0, 4) + le(r.choice([4, 0]), 4) + le(r.choice([10, 10, 9, 500]), 4))
    vc.assume(OR(blen(e) == 16, blen(e) < 4))
    head = vc.bytes("head", gen=lambda r: r.randbytes(r.choice([0, 3])))
    byb = vc.bool("by bytes")
    if blen(e) < 16:
        vc.assume(byb)
    if vc.symbolic:
        # contract of the string and value readers (harnesses string and value): a function of the bytes at that place
        import z3
        from pyvc.sym import mkint, zint
        okS, okV = [z3.Function(x, z3.IntSort(), z3.BoolSort()) for x in ("string_ok", "value_ok")]
        base = 0 if byb else blen(head) + blen(e)
        blob = cat(head, e, vt)

        class Part:
            def __init__(self, at, okf):
                if not vc.branch(okf(zint(at))):
                    raise Exception("refused")
                self.String = self.value = at
                self.valueType = self
                self.vt = at

        def reader(okf):
            def from_bytes(b, bOffset=0):
                vc.check(b == vt, "a part is read from the value table")
                return Part(bOffset, okf)

            def from_stream(fs, fsOffset=None):
                vc.check(fs.getvalue() == blob, "a part is read from the stream")
                fs.seek(fsOffset + 5)
                return Part(fsOffset - base, okf)
            return from_bytes, from_stream

        for cls, okf in ((M.PolicyString, okS), (M.PolicyValue, okV)):
            fb, fst = reader(okf)
            vc.patch(cls, "FromBytes", staticmethod(fb))
            vc.patch(cls, "FromFileStream", staticmethod(fst))
        vc.patch(M, "PolicyValue", type("PV", (), {"FromBytes": M.PolicyValue.FromBytes, "FromFileStream": M.PolicyValue.FromFileStream,
                                                   "__new__": lambda cls, valueType, value: Pair(valueType, value)}))

        class Pair:
            def __init__(self, t, v):
                self.valueType, self.value = t, v
    with quiet():
        if byb:
            ok, q = outcome(M.Rule.FromFsAndVtBytes, stream(vc, cat(head, e), blen(head)), vt)
        else:
            ok, q = outcome(M.Rule.FromFsAndVtOffset, stream(vc, cat(head, e, vt), blen(head)), blen(head) + blen(e))
        if blen(e) < 16:
            vc.check(not ok, "an entry that is cut off is refused")
            return
        parts = [outcome(M.PolicyString.FromBytes, vt, u(e, 4, 4)), outcome(M.PolicyString.FromBytes, vt, u(e, 8, 4)), outcome(M.PolicyValue.FromBytes, vt, u(e, 12, 4))]
    good = parts[0][0] and parts[1][0] and parts[2][0]
    vc.check(ok == good, "refused exactly when one of its parts is")
    if not ok:
        vc.reach("refused")
        return
    vc.reach("accepted")
    vc.check(all_eq((q.RootKey, u(e, 0, 4)), (q.OffsetToSubKeyName, u(e, 4, 4)), (q.OffsetToValueName, u(e, 8, 4)), (q.OffsetToValue, u(e, 12, 4))), "the entry")
    vc.check(AND(q.SubKeyName.String == parts[0][1].String, q.ValueName.String == parts[1][1].String, q.Value.valueType.vt == parts[2][1].valueType.vt), "key, name and type")
    v, w = q.Value.value, parts[2][1].value
    vc.check(v.String == w.String if hasattr(w, "String") else v == w, "value")


def write(vc):
    """Any number of Reserved2 entries and rules: header, entries in order, rules in order, values in order, every rule told where its values start."""
    M = vc.module(A)
    p = M.FirmwarePolicy()
    p.FormatVersion, p.PolicyVersion, p.OptionFlags = vc.int("format", 0, 65535), vc.int("version", 0, (1 << 32) - 1), vc.int("options", 0, (1 << 32) - 1)
    pub = vc.bytes("publisher", 16)
    p.PolicyPublisher = guid_le(vc, pub)
    ent = vc.chunks("reserved", min_item=12, max_n=65535, gen=lambda r: r.randbytes(12))
    rul = vc.chunks("rules", min_item=16, max_n=65535, gen=lambda r: r.randbytes(16))
    val = vc.chunks("values", gen=lambda r: r.randbytes(r.choice([0, 3, 9])))
    if not vc.symbolic:
        val.items = (val.items + [b"xyz"] * rul.n)[:rul.n]
        val.n = rul.n
    else:
        vc.assume(val.n == rul.n)
    m, k = ent.n, rul.n

    class Res:
        StructSize = 12

        def __init__(self, i):
            self.i = i

        def Serialize(self, ruleOut, valueOut=None, offsetInVT=0):
            ruleOut += ent.item(self.i)

    class R:
        def __init__(self, i):
            self.i = i

        def Serialize(self, ruleOut, valueOut, offsetInVT):
            vc.check(offsetInVT == val.off(self.i), "every rule is told where its values start")
            vc.check(AND(blen(ruleOut) == 0, blen(valueOut) == 0), "with empty buffers")
            ruleOut += rul.item(self.i)
            valueOut += val.item(self.i)

    p.Reserved2Count, p.RulesCount = m, k
    if vc.symbolic:
        from pyvc.sym import mkint
        from pyvc.lists import SymList as SL
        p.Reserved2, p.Rules = SL(_z(m), lambda i: Res(mkint(_z(i)))), SL(_z(k), lambda i: R(mkint(_z(i))))
        BA = SymByteArray
        vc.contract(A + ":FirmwarePolicy.Serialize#0", Indexed("entries", lambda vc, i, L: {
            "ruleArray": BA(ent.prefix(i)), "valueArray": BA(b""), "offsetInVT": 0}, m))
        vc.contract(A + ":FirmwarePolicy.Serialize#1", Indexed("rules", lambda vc, i, L: {
            "ruleArray": BA(cat(ent.all(), rul.prefix(i))), "valueArray": BA(val.prefix(i)), "offsetInVT": val.off(i)}, k))
    else:
        p.Reserved2, p.Rules = [Res(i) for i in range(m)], [R(i) for i in range(k)]
    to = vc.choice("to", ["bytes", "stream"])
    before = vc.bytes("before", gen=lambda r: r.randbytes(r.choice([0, 4])))
    if to == "bytes":
        out = barr(vc, before)
        p.Serialize(out)
        got = bytes_of(vc, out)
    else:
        fs = stream(vc, before, blen(before))
        p.SerializeToStream(fs)
        got = fs.getvalue()
    want = cat(le(p.FormatVersion, 2), le(p.PolicyVersion, 4), pub, b"\0\0", le(p.OptionFlags, 4), le(m, 2), le(k, 2), ent.all(), rul.all(), val.all())
    vc.check(got == cat(before, want), "the specified layout, behind what was there")
    vc.check(AND(p.ValueTableSize == blen(val.all()), p.ValueTableOffset == 32 + blen(ent.all()) + blen(rul.all())), "value table size and offset")
    vc.reach("done")


def target(vc):
    """Targets and device policy become exactly the rules the documentation gives them, once each."""
    M = vc.module(A)
    p = M.FirmwarePolicy()
    want = []
    keys = vc.choice("keys", [["Manufacturer", "Nonce"], ["Nonce"], [], ["Product", "OEM_01", "Nonce"], ["OEM_02"]])
    d, texts = {}, {}
    for k in keys:
        if k == "Nonce":
            d[k] = vc.int("nonce", 0, (1 << 64) - 1)
            want.append(("Target", k, 5, d[k]))
        else:
            _, d[k] = text(vc, k)
            want.append(("Target", k, 0, d[k]))
    x = vc.int("policy", 0, (1 << 64) - 1)
    want.append(("UEFI", "Policy", 5, x))
    for _ in range(vc.choice("times", [1, 2])):
        p.SetDeviceTarget(d)
        p.SetDevicePolicy(x)
    vc.check(len(p.Rules) == len(want) and p.RulesCount == len(want), "each rule once")
    for r, (s, n, t, v) in zip(p.Rules, want):
        vc.check(AND(r.RootKey == 0xEF100000, r.SubKeyName.String == s, r.ValueName.String == n, r.Value.valueType.vt == t), "key and type")
        vc.check((r.Value.value.String if t == 0 else r.Value.value) == v, "value")
    vc.check((p.FormatVersion, p.PolicyVersion, p.Reserved1Count, p.Reserved2Count, p.OptionFlags) == (2, 1, 0, 0, 0)
             and str(p.PolicyPublisher) == "5ae6f808-8384-4eb9-a23a-0ccc1093e3dd", "header")
    F = M.FirmwarePolicy
    vc.check((F.FW_POLICY_VALUE_ACTION_SECUREBOOT_CLEAR, F.FW_POLICY_VALUE_ACTION_TPM_CLEAR, F.FW_POLICY_VALUE_STATE_TBD, F.FW_POLICY_VALUE_DEFINED_MASK, F.FW_POLICY_VALUE_OEM_MASK,
              F.FW_POLICY_VALUE_ACTIONS_MASK, F.FW_POLICY_VALUE_STATES_MASK) == (1, 2, 1 << 16, 0xFFFFFFFF, 0xFFFFFFFF << 32, 0x0000FFFF0000FFFF, 0xFFFF0000FFFF0000), "bits of the device policy")
    vc.reach("done")


def whole(vc):
    """Whole policies: written, read back and written again, every rule survives and the bytes are the same."""
    M = vc.module(A)
    import random
    r = random.Random(vc.int("seed", 0, 1 << 60))
    p = M.FirmwarePolicy()
    keys = []
    for _ in range(r.choice([0, 1, 2, 5, 20])):
        t = r.choice([0, 2, 5])
        v = g_text(r) if t == 0 else r.getrandbits(32 if t == 2 else 64)
        k = (r.getrandbits(32), g_text(r), g_text(r), t, v)
        if r.random() < 0.2 and keys:
            k = r.choice(keys)
        p.AddRule(M.Rule(k[0], M.PolicyString(k[1]), M.PolicyString(k[2]), M.PolicyValue(M.PolicyValueType(t if k[3] == t else k[3]), M.PolicyString(k[4]) if k[3] == 0 else k[4])))
        if k not in keys:
            keys.append(k)
    out = io.BytesIO()
    p.SerializeToStream(out)
    q = M.FirmwarePolicy()
    out.seek(0)
    q.FromFileStream(out, r.random() < 0.5)
    got = [(x.RootKey, x.SubKeyName.String, x.ValueName.String, x.Value.valueType.vt, x.Value.value.String if x.Value.valueType.vt == 0 else x.Value.value) for x in q.Rules]
    vc.check(got == keys, "every rule survives, in order, equal ones once")
    o2 = io.BytesIO()
    q.SerializeToStream(o2)
    vc.check(o2.getvalue() == out.getvalue(), "same bytes")
    q.AddRule(M.Rule(1, M.PolicyString("x" * 40000), M.PolicyString("n"), M.PolicyValue(M.PolicyValueType(2), 1)) if r.random() < 0.5 else
              M.Rule(1, M.PolicyString("x"), M.PolicyString("n"), M.PolicyValue(M.PolicyValueType(2), 1 << 32)))
    keep = bytearray(b"keep")
    ok, _ = outcome(q.Serialize, keep)
    vc.check(not ok and keep == b"keep", "what cannot be encoded is refused and nothing is written")
    vc.reach("done")


HARNESSES = [H("string", string, string.__doc__, must_reach=["refused", "accepted"]),
             H("value", value, value.__doc__, must_reach=["number", "string", "other"], runs=500),
             H("encode", encode, encode.__doc__, must_reach=["refused", "encoded"], runs=400),
             H("roundtrip", roundtrip, roundtrip.__doc__, must_reach=["done"], runs=400),
             H("equality", equality, equality.__doc__, must_reach=["equal", "different"], runs=500),
             H("add", add, add.__doc__, must_reach=["added", "duplicate"]),
             H("rule_decode", rule_decode, rule_decode.__doc__, must_reach=["refused", "accepted"], runs=500),
             H("decode", decode, decode.__doc__, must_reach=["refused", "accepted", "reserved", "rule"], runs=800),
             H("write", write, write.__doc__, must_reach=["done"]),
             H("target", target, target.__doc__, must_reach=["done"]),
             H("whole", whole, whole.__doc__, symbolic=False, runs=300, why_bounded="composition of the proved parts, whole blobs")]
