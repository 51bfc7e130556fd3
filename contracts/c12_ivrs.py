from contracts.base import H
from pyvc.lists import Indexed, SymList
from pyvc.models import vc_sum
from pyvc.util import AND, NOT, OR, all_eq, blen, cat, le, outcome, u

ID = "C12"
LEVEL = "proof"
TRUSTED = []
ASSUMPTIONS = ["little-endian host (native struct order)", "DumpInfo and the XML text are not under contract",
               "a reserved type ends in an error, SystemExit or AttributeError, all of which count as refusal",
               "the IVRS bit of a table with a memory block for all peripherals (type 20h) is not claimed"]
EXPLANATION = ("Device entries, IVHD, IVMD, table decode, encode and checksum are verified separately for all inputs; the loops have invariants over ghost "
               "offset functions. A labelled random search ties the pieces together.")
A = "edk2toollib.acpi.ivrs_parser"


def attempt(f, *a):
    try:
        return outcome(f, *a)
    except SystemExit as e:
        return False, e


def _z(x):
    import z3
    from pyvc.sym import zint
    x = zint(x)
    return x if z3.is_expr(x) else z3.IntVal(x)


# type -> (class, name, [(attribute, offset, size)], length, [offset of a range end entry], zero bytes on encode)
DTE = {0: ("RESERVED", "Reserved", [], 4, [], []), 1: ("ALL", "All", [], 4, [], []), 2: ("SELECT", "Select", [], 4, [], []),
       3: ("RANGE_START", "Range", [("EndDeviceID", 5, 2)], 8, [4], [7]),
       66: ("ALIAS_SELECT", "Alias Select", [("SourceDeviceID", 5, 2)], 8, [], [4, 7]),
       67: ("ALIAS_RANGE_START", "Alias Range", [("SourceDeviceID", 5, 2), ("EndDeviceID", 9, 2)], 12, [8], [4, 7, 11]),
       70: ("EX_SELECT", "Extended Select", [("ExtendedDTESetting", 4, 4)], 8, [], []),
       71: ("EX_RANGE_START", "Extended Range", [("ExtendedDTESetting", 4, 4), ("EndDeviceID", 9, 2)], 12, [8], [11]),
       72: ("SPECIAL", "Special Device", [("Handle", 4, 1), ("SourceDeviceID", 5, 2), ("Variety", 7, 1)], 8, [], [])}


def g_dte(r, t=None):
    t = r.choice(list(DTE) + [240, 240]) if t is None else t
    if t == 240:
        f = r.choice([0, 1, 2, 2])
        n = {0: 0, 1: 8, 2: r.choice([0, 1, 7])}[f] + r.choice([0] * 12 + [1])
        return bytes([240]) + r.randbytes(3) + r.randbytes(16) + bytes([f, n]) + r.randbytes(n)
    _, _, _, n, ends, _ = DTE[t]
    b = bytearray([t]) + r.randbytes(n - 1)
    for e in ends:
        b[e] = r.choice([4] * 9 + [3])
    return bytes(b)


def dte_enc(b, at, t):
    """What a device entry at this place encodes to: its bytes with the unused ones zero."""
    _, _, _, n, _, zero = DTE[t]
    out, p = b"", 0
    for z in zero:
        out = cat(out, b[at + p:at + z], b"\0")
        p = z + 1
    return cat(out, b[at + p:at + n])


def entry(vc):
    """Every fixed-size device entry: accepted exactly when its bytes, type and range end are there; fields exact; encode gives the bytes back."""
    M = vc.module(A)
    T = M.IVRS_TABLE
    t = vc.choice("type", sorted(DTE))
    name, text, fields, n, ends, zero = DTE[t]
    b = vc.bytes("entry", gen=lambda r: g_dte(r, t if r.random() < 0.9 else None) + r.choice([b"", b"", b"rest"]))
    good = bool(blen(b) >= n) and bool(AND(b[0] == t, *[b[e] == 4 for e in ends]))
    cls = getattr(T, "DEVICE_TABLE_ENTRY_" + name)
    if vc.bool("by_factory"):
        vc.assume(AND(blen(b) >= 1, b[0] == t) if blen(b) >= 1 else False)
        ok, e = attempt(T.DEVICE_TABLE_ENTRY.Factory, b)
    else:
        ok, e = attempt(cls, b)
    vc.check(ok == good, "accepted exactly when type, length and end of range are right")
    if not ok:
        vc.reach("refused")
        return
    vc.check(type(e) is cls, "class of the type")
    vc.check(all_eq((e.Type, t), (e.DeviceID, u(b, 1, 2)), (e.DTESetting, b[3]), (e.Length, n), (e.TypeString, text),
                    *[(getattr(e, a), u(b, o, k)) for a, o, k in fields]), "fields")
    vc.check(e.Encode() == dte_enc(b, 0, t), "encode gives the bytes back")
    vc.reach(name)


def acpi(vc):
    """ACPI named devices: ids, UID format and length, UID of each format; encode gives the bytes back."""
    M = vc.module(A)
    T = M.IVRS_TABLE
    b = vc.bytes("entry", gen=lambda r: g_dte(r, 240) + r.choice([b"", b"rest"]))
    f = T.DEVICE_TABLE_ENTRY.Factory if vc.bool("by_factory") else T.DEVICE_TABLE_ENTRY_ACPI
    if blen(b) < 22:
        vc.assume(OR(blen(b) == 0, b[0] == 240) if blen(b) > 0 else True)
        vc.check(not attempt(f, b)[0], "a truncated entry is refused")
        return
    vc.assume(b[0] == 240)
    fmt, n = b[20], b[21]
    if vc.symbolic:
        fmt = {0: 0, 1: 1, 2: 2}.get(vc.choice("fmt", [0, 1, 2, 3]), fmt)
        vc.assume(b[20] == fmt if isinstance(fmt, int) else fmt > 2)
    good = AND(blen(b) >= 22 + n, OR(fmt != 1, n == 8))
    ok, e = attempt(f, b)
    vc.check(ok == good, "accepted exactly when the UID is there")
    if not ok:
        vc.reach("refused")
        return
    vc.check(all_eq((e.Type, 240), (e.DeviceID, u(b, 1, 2)), (e.DTESetting, b[3]), (e.HID, b[4:12]), (e.CID, b[12:20]), (e.UIDFormat, b[20]),
                    (e.UIDLength, n), (e.Length, 22 + n), (e.TypeString, "Variable Length ACPI HID Device")), "fields")
    if fmt == 0:
        vc.check(e.UID is None, "no UID")
        vc.reach("none")
        vc.check(e.Encode() == b[0:22], "encode gives the bytes back")
    elif fmt == 1:
        vc.check(e.UID == u(b, 22, 8), "integer UID")
        vc.reach("integer")
        vc.check(e.Encode() == b[0:30], "encode gives the bytes back")
    elif fmt == 2:
        vc.check(e.UID == b[22:22 + n], "string UID")
        vc.reach("string")
        vc.check(e.Encode() == b[0:22 + n], "encode gives the bytes back")


def unknown(vc):
    """A device entry of another type is not taken for one of the known ones."""
    M = vc.module(A)
    b = vc.bytes("entry", min_len=1, gen=lambda r: r.randbytes(30))
    vc.assume(AND(*[b[0] != t for t in list(DTE) + [240]]))
    ok, e = attempt(M.IVRS_TABLE.DEVICE_TABLE_ENTRY.Factory, b)
    vc.check(not ok or e is None, "nothing is decoded")
    vc.reach("done")


IVHD_F = [("Flags", 1, 1), ("DeviceID", 4, 2), ("CapabilityOffset", 6, 2), ("IOMMUBaseAddress", 8, 8), ("SegmentGroup", 16, 2), ("IOMMUInfo", 18, 2),
          ("IOMMUFeatureInfo", 20, 4)]


def g_ivhd(r):
    t = r.choice([0x10, 0x11, 0x40])
    body = b"".join(g_dte(r) for _ in range(r.choice([0, 1, 2, 3])))
    h = 24 if t == 0x10 else 40
    return bytes([t, r.randrange(256)]) + le(h + len(body) + r.choice([0] * 14 + [-h, 1, -1, 4]) & 0xFFFF, 2) + r.randbytes(h - 4) + body


def ivhd(vc):
    """Any IVHD: accepted exactly when known device entries tile its length; fields and entries exact, whatever it held before."""
    M = vc.module(A)
    T = M.IVRS_TABLE
    b = vc.bytes("ivhd", gen=lambda r: g_ivhd(r) + r.choice([b"", g_dte(r)]))
    n = blen(b)
    o = T.IVHD_STRUCT()
    if vc.bool("used_before"):
        o.IOMMUEFRImage, o.Reserved, o.Length = 5, 6, 44
        old = T.DEVICE_TABLE_ENTRY_ALL(b"\1abc")
        o.DeviceTableEntries = [old]
    good = bool(n >= 24)
    ext = good and bool(OR(b[0] == 0x11, b[0] == 0x40))
    h = 40 if ext else 24
    good = good and bool(n >= h)
    size = u(b, 2, 2) if n >= 24 else 0
    if vc.symbolic and good:
        import z3
        from pyvc.sym import mkint, zint
        P, E, LN, EL = vc.fresh_fun("P"), vc.fresh_fun("E"), vc.fresh_fun("Length"), vc.fresh_fun("EncodedLength")
        acc = z3.Function("accepted", z3.IntSort(), z3.BoolSort())
        N = vc.fresh("n")
        total = size - h
        vc.fact(z3.And(P(0) == 0, E(0) == 0, N >= 0))

        def about(at):
            """Contract of an accepted device entry (harnesses entry, acpi)."""
            a = _z(at)
            vc.fact(z3.Implies(acc(a), z3.And(LN(a) >= 4, EL(a) >= 4, EL(a) <= LN(a), LN(a) + a <= _z(n))))

        class Dte:
            Type = 1

            def __eq__(self, p):
                return self.at == p.at

            def Encode(self):
                return vc.bytes("encoded", length=mkint(EL(_z(self.at))))

        def make(at):
            d = Dte()
            d.at = at
            d.Length = mkint(LN(_z(at)))
            about(at)
            return d

        def factory(data):
            at = n - blen(data)
            vc.check(data == b[at:n], "a device entry is read from the rest of the data")
            about(at)
            if not vc.branch(acc(_z(at))):
                raise Exception("refused")
            return make(at)

        vc.patch(T.DEVICE_TABLE_ENTRY, "Factory", staticmethod(factory))

        def item(k):
            return make(h + mkint(P(_z(k))))

        def facts(vc, i):
            i = _z(i)
            at = h + mkint(P(i))
            about(at)
            if vc.branch(i < N):
                vc.fact(z3.And(acc(_z(at)), P(i) < zint(total), P(i + 1) == P(i) + LN(_z(at)), E(i + 1) == E(i) + EL(_z(at)), E(i) <= P(i)))
                # entries that do not encode to their own length leave a gap that never closes
                vc.fact(z3.Implies(EL(_z(at)) < LN(_z(at)), E(i + 1) < P(i + 1)))
            elif vc.branch(i == N):
                vc.fact(z3.Not(z3.And(acc(_z(at)), P(i) < zint(total))))

        vc.contract(A + ":IVRS_TABLE.IVHD_STRUCT.Decode#0", Indexed(
            "device entries", lambda vc, i, L: {"header_byte_array": b[h + mkint(P(_z(i))):], "bytes_left": total - mkint(P(_z(i)))}, mkint(N), facts=facts,
            heap=lambda vc, i, L: [(L["self"], "DeviceTableEntries", SymList(_z(i), item)), (L["self"], "Length", h + mkint(E(_z(i))))],
            inv=lambda vc, i: [mkint(P(_z(i))) >= 4 * i, mkint(E(_z(i))) <= mkint(P(_z(i))), h + mkint(P(_z(i))) <= n]))
        good = AND(mkint(P(N)) == total, mkint(E(N)) == total)
    elif good:
        at, want, enc = h, [], b""
        while good and at < size:
            t = b[at] if at < n else -1
            f, e = attempt(T.DEVICE_TABLE_ENTRY.Factory, b[at:]) if t in DTE or t == 240 else (False, None)
            if not f or len(e.Encode()) != e.Length:
                good = False
                break
            want.append((type(e), dict(vars(e))))
            enc += e.Encode()
            at += e.Length
        good = good and at == size
    ok, r = attempt(o.Decode, b)
    if not ok:
        vc.reach("refused")
        vc.check(NOT(good), "a well-formed IVHD is accepted")
        return
    vc.check(good, "accepted exactly when the entries add up to the length")
    vc.reach("ext" if ext else "plain")
    vc.check(AND(size <= n, size >= h), "the length is within the data")
    vc.check(all_eq((o.Type, b[0]), (o.Length, size), *[(getattr(o, a), u(b, p, k)) for a, p, k in IVHD_F]), "fields")
    vc.check(AND(o.IOMMUEFRImage == u(b, 24, 8), o.Reserved == u(b, 32, 8)) if ext else o.IOMMUEFRImage is None, "extended feature image")
    if vc.symbolic:
        vc.check(o.DeviceTableEntries.vc_len() == mkint(N), "all device entries, in order")
        if vc.branch(N > 0):
            vc.reach("entries")
    else:
        vc.check([(type(e), vars(e)) for e in o.DeviceTableEntries] == want, "all device entries, in order")
        vc.check(o.Encode() == b[:h] + enc, "encode gives the bytes back")


def ivhd_encode(vc):
    """Any IVHD object: header, extended image if there is one, then every entry in order; adding an entry keeps the length exact."""
    M = vc.module(A)
    T = M.IVRS_TABLE
    o = T.IVHD_STRUCT()
    c = vc.chunks("dte", min_item=4, max_total=65000, gen=lambda r: g_dte(r))

    class Dte:
        def __init__(self, k, b):
            self.b = b

        def Encode(self):
            return self.b

    o.DeviceTableEntries = c.list(Dte)
    ext = bool(vc.bool("ext"))
    h = 40 if ext else 24
    o.Type = 0x11 if ext else 0x10
    o.Length = h + c.off(c.n)
    want = cat(bytes([o.Type]))
    for a, p, k in IVHD_F:
        v = vc.int(a, 0, 256 ** k - 1)
        setattr(o, a, v)
        want = cat(want, le(v, k), le(o.Length, 2) if a == "Flags" else b"")
    if ext:
        o.IOMMUEFRImage = vc.int("efr", 0, (1 << 64) - 1)
        o.Reserved = vc.int("res", 0, (1 << 64) - 1)
        want = cat(want, le(o.IOMMUEFRImage, 8), le(o.Reserved, 8))
    head = want
    if vc.symbolic:
        vc.contract(A + ":IVRS_TABLE.IVHD_STRUCT.Encode#0", Indexed(
            "encode entries", lambda vc, i, L: {"byte_str": cat(head, c.prefix(i))}, c.n, facts=lambda vc, i: c.fact(i)))
    vc.check(o.Encode() == cat(head, c.all()), "layout")
    e = vc.bytes("added", min_len=4, max_len=300)
    before = o.Length
    cnt = blen(o.DeviceTableEntries)
    d = Dte(0, e)
    o.addDTEEntry(d)
    vc.check(AND(o.Length == before + blen(e), blen(o.DeviceTableEntries) == cnt + 1), "the length follows")
    vc.check(o.DeviceTableEntries[cnt] is d, "the entry is the last one")
    vc.reach("ext" if ext else "plain")


IVMD_F = [("Type", 0, 1), ("Flags", 1, 1), ("Length", 2, 2), ("DeviceID", 4, 2), ("AuxiliaryData", 6, 2), ("Reserved", 8, 8), ("IVMDStartAddress", 16, 8),
          ("IVMDMemoryBlockLength", 24, 8)]


def g_ivmd(r):
    return bytes([r.choice([0x20, 0x21, 0x22]), r.randrange(256)]) + le(r.choice([32] * 9 + [31, 0]), 2) + r.randbytes(28)


def ivmd(vc):
    """IVMD: 32 bytes exactly, its fields, and encode gives the bytes back."""
    M = vc.module(A)
    b = vc.bytes("ivmd", gen=lambda r: g_ivmd(r)[:r.choice([32] * 9 + [31])])
    ok, o = attempt(M.IVRS_TABLE.IVMD_STRUCT, b)
    vc.check(ok == (bool(blen(b) == 32) and u(b, 2, 2) == 32), "accepted exactly when it has 32 bytes and says so")
    if ok:
        vc.check(all_eq(*[(getattr(o, a), u(b, p, k)) for a, p, k in IVMD_F]), "fields")
        vc.check(o.Encode() == b, "encode gives the bytes back")
        vc.reach("accepted")


HEAD_F = [("Length", 4, 4), ("Revision", 8, 1), ("Checksum", 9, 1), ("OEMRevision", 24, 4), ("CreatorRevision", 32, 4), ("IVinfo", 36, 4), ("Reserved", 40, 8)]


def header(vc):
    """The table header: 48 bytes, its fields; encode gives the bytes back; the bit is bit 1 of IVinfo."""
    M = vc.module(A)
    b = vc.bytes("header", gen=lambda r: b"IVRS" + r.randbytes(r.choice([44] * 9 + [43])))
    ok, o = attempt(M.IVRS_TABLE.ACPI_TABLE_HEADER, b)
    vc.check(ok == (bool(blen(b) == 48) and (u(b, 36, 4) & 0x1E) != 0), "accepted exactly when it has 48 bytes and a virtual address size")
    if ok:
        vc.check(all_eq((o.Signature, b[0:4]), (o.OEMID, b[10:16]), (o.OEMTableID, b[16:24]), (o.CreatorID, b[28:32]),
                        *[(getattr(o, a), u(b, p, k)) for a, p, k in HEAD_F]), "fields")
        vc.check(o.Encode() == b, "encode gives the bytes back")
        vc.check((o.IVRSBit != 0) == ((b[36] // 2) % 2 == 1), "the IVRS bit")
        t = M.IVRS_TABLE()
        t.acpi_header = o
        vc.check(t.IVRSBitEnabled() == ((b[36] // 2) % 2 == 1), "the IVRS bit of the table")
        vc.reach("accepted")


def g_table(r):
    b = b"".join(r.choice([g_ivhd, g_ivhd, g_ivmd])(r) for _ in range(r.choice([0, 1, 2, 3]))) + r.choice([b""] * 9 + [b"\x33"])
    h = bytearray(b"IVRS" + le(48 + len(b) + r.choice([0] * 12 + [4]), 4) + r.randbytes(28) + bytes([r.choice([2, 2, 2, 0x42, 1])]) + r.randbytes(11))
    h[9] = 0
    h[9] = -(sum(h) + sum(b) + r.choice([0] * 12 + [1])) % 256
    return bytes(h) + b


def checksum(vc):
    """After updating the checksum or adding a structure, all bytes of the encoded table sum up to zero; the length follows; nothing else changes."""
    M = vc.module(A)
    T = M.IVRS_TABLE
    hb = vc.bytes("header", 48, gen=lambda r: b"IVRS" + le(48, 4) + r.randbytes(28) + b"\2" + r.randbytes(11))
    vc.assume((hb[36] & 0x1E) != 0)
    t = T()
    t.acpi_header = T.ACPI_TABLE_HEADER(hb)
    c = vc.chunks("struct", min_item=4, max_total=1 << 30, gen=lambda r: r.randbytes(r.choice([4, 32, 41])))
    new = vc.bytes("new", min_len=4, max_len=1 << 30, gen=lambda r: r.randbytes(r.choice([4, 32])))

    class Sub:
        def __init__(self, k, b):
            self.b = b

        def Encode(self):
            return self.b

    subs = c.list(Sub)
    t.SubStructs = subs
    what = vc.choice("what", ["update", "ivhd", "ivmd"])
    d = Sub(0, new)
    length = u(hb, 4, 4)
    if what != "update":
        vc.assume(length + blen(new) <= 0xFFFFFFFF)
        length = length + blen(new)
    if vc.symbolic:
        import z3
        from pyvc.sym import mkint, zint
        n = c.n if what == "update" else c.n + 1

        def pre(i):
            """Encoded structures before i, the added one being the last."""
            if what != "update" and vc.branch(_z(i) == _z(n)):
                return cat(c.all(), new)
            return c.prefix(i)

        vc.contract(A + ":IVRS_TABLE.Encode#0", Indexed(
            "encode structures", lambda vc, i, L: {"bytes_str": cat(L["self"].acpi_header.Encode(), pre(i))}, n, facts=lambda vc, i: c.fact(i)))
    cnt = blen(subs)
    {"update": lambda d: t.updateACPISum(), "ivhd": t.addIVHDEntry, "ivmd": t.addIVMDEntry}[what](d)
    h = t.acpi_header
    e = t.Encode()
    tail = c.all() if what == "update" else cat(c.all(), new)
    vc.check(e == cat(hb[0:4], le(length, 4), hb[8:9], le(h.Checksum, 1), hb[10:48], tail), "layout: only length and checksum change, structures in order")
    vc.check(vc_sum(e) % 256 == 0, "the bytes of the table sum up to zero")
    vc.check(T.validateChecksum8(e) == 0, "the checksum is valid")
    if what != "update":
        vc.check(AND(blen(t.SubStructs) == cnt + 1), "one more structure")
        vc.check(t.SubStructs[cnt] is d, "the added structure is the last one")
    vc.check((len(t.IVMD_list) == 1 and t.IVMD_list[0] is d) if what == "ivmd" else t.IVMD_list == [], "the IVMD list")
    vc.reach(what)


def table(vc):
    """Any table: refused unless checksum and length add up and known structures tile it; they are decoded in order from their places."""
    M = vc.module(A)
    T = M.IVRS_TABLE
    b = vc.bytes("table", gen=g_table)
    n = blen(b)
    t = T()
    if vc.bool("used_before"):
        t.SubStructs = ["old"]
        t.IVMD_list = ["old"]
    good = bool(n >= 48) and bool((b[36] & 0x1E) != 0) and bool(vc_sum(b) % 256 == 0)
    if vc.symbolic and good:
        import z3
        from pyvc.sym import mkint, zint
        P, Q, R, K, EL, LN, E = [vc.fresh_fun(x) for x in ("P", "Q", "R", "Checksum", "EncodedLength", "Length", "E")]
        acc = z3.Function("accepted", z3.IntSort(), z3.BoolSort())
        N = vc.fresh("n")
        vc.fact(z3.And(P(0) == 0, Q(0) == 0, E(0) == 0, N >= 0))

        class Sub:
            def __init__(self, data=None):
                at = n - blen(data) if self.ivhd else n - blen(rest[0])
                vc.check(data == (b[at:n] if self.ivhd else b[at:at + 32]), "a structure is read from the rest of the data")
                ty = b[at]
                vc.check(OR(ty == 0x10, ty == 0x11, ty == 0x40) if self.ivhd else OR(ty == 0x20, ty == 0x21, ty == 0x22), "by the reader of its type")
                if not vc.branch(acc(_z(at))):
                    raise Exception("refused")
                self.fill(at)

            def fill(self, at):
                self.at = at
                self.Type = b[at]
                about(at)
                self.Length = mkint(LN(_z(at)))

            def Encode(self):
                return vc.bytes("encoded", length=self.Length)

            def __eq__(self, o):
                return self.at == o.at

        def about(at):
            """Contract of an accepted IVHD or IVMD: its length is positive and the size of its encoding."""
            vc.fact(z3.Implies(acc(_z(at)), z3.And(LN(_z(at)) >= 24, LN(_z(at)) + _z(at) <= _z(n))))

        rest = [None]
        orig = T.REMAPPING_STRUCT_HEADER

        class Peek(orig):
            def __init__(self, data):
                rest[0] = data
                orig.__init__(self, data)

        H1 = type("H1", (Sub,), {"ivhd": True, "IVHD_TYPE": T.IVHD_STRUCT.IVHD_TYPE})
        M1 = type("M1", (Sub,), {"ivhd": False, "IVMD_TYPE": T.IVMD_STRUCT.IVMD_TYPE, "struct_format_size": T.IVMD_STRUCT.struct_format_size})
        vc.patch(T, "IVHD_STRUCT", H1)
        vc.patch(T, "IVMD_STRUCT", M1)
        vc.patch(T, "REMAPPING_STRUCT_HEADER", Peek)

        def sumup(self):
            """Contract of updateACPISum (harness checksum): only the checksum changes."""
            self.acpi_header.Checksum = mkint(K(_z(blen(self.SubStructs))))

        vc.patch(T, "updateACPISum", sumup)
        vc.fact(K(0) == zint(b[9]))
        t.IVRSBit = None

        def item(k):
            o = Sub.__new__(Sub)
            o.fill(48 + mkint(P(_z(k))))
            return o

        def ivmd_item(j):
            return item(mkint(R(_z(j))))

        def is_ivmd(at):
            return z3.Or(*[zint(b[at]) == x for x in (0x20, 0x21, 0x22)])

        def valid(at):
            return z3.And(z3.Or(*[zint(b[at]) == x for x in (0x10, 0x11, 0x40, 0x20, 0x21, 0x22)]), acc(_z(at)))

        def facts(vc, i):
            i = _z(i)
            at = 48 + mkint(P(i))
            if vc.branch(i < N):
                vc.fact(z3.And(P(i) >= 0, _z(at) < _z(n)))
                about(at)
                vc.fact(z3.And(valid(at), P(i + 1) == P(i) + LN(_z(at)), Q(i + 1) == Q(i) + z3.If(is_ivmd(at), 1, 0), Q(i) >= 0))
                vc.fact(z3.Implies(is_ivmd(at), R(Q(i)) == i))
            elif vc.branch(i == N):
                if bool(AND(at >= 48, at < n)):
                    vc.fact(z3.Not(valid(at)))

        def heap(vc, i, L):
            o = L["self"]
            return [(o.acpi_header, "Length", 48 + mkint(P(_z(i)))), (o.acpi_header, "Checksum", mkint(K(_z(i)))),
                    (o, "SubStructs", SymList(_z(i), item)), (o, "IVMD_list", SymList(Q(_z(i)), ivmd_item))]

        def mod(vc, L):
            return [(L["self"], "IVRSBit"), rest]

        vc.contract(A + ":IVRS_TABLE.Decode#0", Indexed(
            "structures", lambda vc, i, L: {"t_data": b[48 + mkint(P(_z(i))):]}, mkint(N), facts=facts, heap=heap, mod=mod,
            inv=lambda vc, i: [mkint(P(_z(i))) >= 24 * i, 48 + mkint(P(_z(i))) <= n, mkint(Q(_z(i))) >= 0]))
        facts(vc, N)
        good = AND(48 + mkint(P(N)) == n, u(b, 4, 4) == n, mkint(P(N)) >= 0)
        # a structure accepted at P(N) would be structure N
    elif good:
        at, want, enc = 48, [], b""
        while good and at < n:
            k = b[at]
            if k in (0x10, 0x11, 0x40):
                f, e = attempt(T.IVHD_STRUCT, b[at:])
            elif k in (0x20, 0x21, 0x22):
                f, e = attempt(T.IVMD_STRUCT, b[at:at + 32])
            else:
                f = False
            if not f:
                good = False
                break
            want.append(e)
            enc += e.Encode()
            at += e.Length
        good = good and u(b, 4, 4) == n
    ok, r = attempt(t.Decode, b)
    if not ok:
        vc.reach("refused")
        vc.check(NOT(good), "a well-formed table is accepted")
        return
    vc.check(good, "accepted exactly when checksum, length and structures add up")
    vc.reach("accepted")
    hd = t.acpi_header
    vc.check(all_eq((hd.Signature, b[0:4]), (hd.OEMID, b[10:16]), (hd.OEMTableID, b[16:24]), (hd.CreatorID, b[28:32]),
                    *[(getattr(hd, a), u(b, p, k)) for a, p, k in HEAD_F if a != "Checksum"]), "header fields")
    if vc.symbolic:
        vc.check(t.SubStructs.vc_len() == mkint(N) if hasattr(t.SubStructs, "vc_len") else False, "all structures, in order")
        vc.check(t.IVMD_list.vc_len() == mkint(Q(N)), "all memory blocks, in order")
        if vc.branch(N > 0):
            vc.reach("some")
        else:
            vc.check(hd.Checksum == b[9], "checksum of a table without structures")
    else:
        vc.check([(type(x), x.Encode()) for x in t.SubStructs] == [(type(x), x.Encode()) for x in want], "all structures, in order")
        vc.check(len(t.IVMD_list) == sum(type(x) is T.IVMD_STRUCT for x in want) and all(
            x is y for x, y in zip(t.IVMD_list, [x for x in t.SubStructs if type(x) is T.IVMD_STRUCT])), "all memory blocks, in order")
        e = t.Encode()
        vc.check(e == b[:9] + e[9:10] + b[10:48] + enc and sum(e) % 256 == 0, "encode gives the bytes back with a valid checksum")


HARNESSES = [H("entry", entry, entry.__doc__, must_reach=["refused"] + [v[0] for v in DTE.values()], runs=400),
             H("acpi", acpi, acpi.__doc__, must_reach=["refused", "none", "integer", "string"]),
             H("unknown", unknown, unknown.__doc__, must_reach=["done"]),
             H("ivhd", ivhd, ivhd.__doc__, must_reach=["refused", "plain", "ext", "entries"], runs=500),
             H("ivhd_encode", ivhd_encode, ivhd_encode.__doc__, must_reach=["plain", "ext"]),
             H("ivmd", ivmd, ivmd.__doc__, must_reach=["accepted"]), H("header", header, header.__doc__, must_reach=["accepted"]),
             H("checksum", checksum, checksum.__doc__, must_reach=["update", "ivhd", "ivmd"]),
             H("table", table, table.__doc__, must_reach=["refused", "accepted", "some"], runs=500)]
