from contracts.base import H
from pyvc.lists import Indexed, SymList, Table
from pyvc.util import AND, IMPLIES, NOT, OR, all_eq, blen, cat, dead, guid_le, le, outcome, stream, u, zeros

ID = "C05"
LEVEL = "proof"
TRUSTED = []
ASSUMPTIONS = ["DumpInfo (printing) is not under contract",
               "FmpCapsuleHeaderClass is verified against the contract of FmpCapsuleImageHeaderClass (Encode yields some bytes, Decode is given "
               "exactly those bytes), which is itself verified separately"]
EXPLANATION = ("Contracts of the four capsule codecs: field-exact and byte-exact in both directions for arbitrary field values and arbitrary "
               "payload bytes of arbitrary length; the item tables of the FMP capsule header are verified for any number of drivers and images "
               "with loop invariants.")
U8, U16, U32, U64 = 0xFF, 0xFFFF, 0xFFFFFFFF, (1 << 64) - 1
PKCS7 = bytes.fromhex("9dd2af4adf68ee498aa9347d375665a7")
P = "edk2toollib.uefi.edk2.fmp_payload_header"
A = "edk2toollib.uefi.fmp_auth_header"
C = "edk2toollib.uefi.fmp_capsule_header"
U = "edk2toollib.uefi.uefi_capsule_header"


# ------------------------------------------------------------------ generators for the concrete mode
def g_payload(r):
    ext = r.choice([0, 0, 0, 1, 4, -1, 100])
    return (r.choice([b"MSS1"] * 5 + [b"MSS2"]) + max(0, 16 + ext).to_bytes(4, "little") + r.randbytes(8) + r.randbytes(max(0, ext) if ext < 50 else 3)
            + r.randbytes(r.choice([0, 1, 9])))[: r.choice([999, 999, 999, 15, 16])]


def g_auth(r):
    n = r.choice([0, 1, 7, 30])
    ln = 24 + n
    return (r.randbytes(8) + ln.to_bytes(4, "little") + b"\x00\x02" + b"\xf1\x0e" + PKCS7 + r.randbytes(n)
            + r.choice([b"", g_payload(r), g_payload(r)]))[: r.choice([999, 999, 999, 999, 7, 8, 31, 32])]


def g_image(r, bad=True):
    p = r.choice([b"", g_auth(r), g_auth(r)])
    v = r.randbytes(r.choice([0, 0, 1, 8]))
    d = r.choice([0, 0, 0, 0, 1, -1]) if bad else 0
    return (r.choice([2, 2, 2, 3, 1]).to_bytes(4, "little") + r.randbytes(16) + r.choice([1, 1, 2, 255, 0]).to_bytes(1, "little") + bytes(3)
            + max(0, len(p) + d).to_bytes(4, "little") + len(v).to_bytes(4, "little") + r.randbytes(8) + p + v)[: r.choice([999] * 5 + [39, 40])]


def g_uefi(r):
    g = r.choice([bytes(16), r.randbytes(16)])
    ext = r.choice([0, 0, 0, 1, 4, -1, 100])
    body = r.randbytes(max(0, ext) if ext < 50 else 3) + r.randbytes(r.choice([0, 1, 9]))
    sz = 32 + len(body) + r.choice([0, 0, 0, 0, 1, -1])
    fl = r.choice([0, 1 << 16, 1 << 17, 1 << 18, 7 << 16, 0xFFFF, 0x7FFFF])
    return (g + max(0, 32 + ext).to_bytes(4, "little") + fl.to_bytes(4, "little") + sz.to_bytes(4, "little") + bytes(4) + body)[: r.choice([999] * 5 + [31, 32])]


# ------------------------------------------------------------------ FMP payload header
def payload_build(vc):
    M = vc.module(P)
    a = M.FmpPayloadHeaderClass()
    a.FwVersion = vc.int("fw", 0, U32)
    a.LowestSupportedVersion = vc.int("lsv", 0, U32)
    a.Payload = vc.bytes("payload")
    e = a.Encode()
    vc.check(e == cat(b"MSS1", le(16, 4), le(a.FwVersion, 4), le(a.LowestSupportedVersion, 4), a.Payload), "encoded layout")
    b = M.FmpPayloadHeaderClass()
    r = b.Decode(e)
    vc.reach("end")
    vc.check(AND(r == a.Payload, b.Payload == a.Payload), "decode returns the payload")
    vc.check(all_eq((b.FwVersion, a.FwVersion), (b.LowestSupportedVersion, a.LowestSupportedVersion), (b.HeaderSize, 16),
                    (b.Signature, a.Signature)), "fields survive")


def payload_decode(vc):
    M = vc.module(P)
    buf = vc.bytes("buf", gen=g_payload)
    a = M.FmpPayloadHeaderClass()
    n = blen(buf)
    ok, r = outcome(a.Decode, buf)
    if ok:
        vc.reach("accept")
        vc.check(n >= 16, "accepted only with a whole header")
        hs = u(buf, 4, 4)
        vc.check(AND(buf[0:4] == b"MSS1", hs >= 16, hs <= n), "accepted only when well formed")
        vc.check(all_eq((a.FwVersion, u(buf, 8, 4)), (a.LowestSupportedVersion, u(buf, 12, 4)), (a.HeaderSize, hs)), "fields")
        vc.check(AND(r == buf[hs:], a.Payload == buf[hs:]), "payload")
        vc.check(a.Encode() == buf, "re-encode is byte-exact")
    else:
        vc.reach("reject")
        vc.check(isinstance(r, ValueError), "rejection is a ValueError")
        if n >= 16:
            vc.check(NOT(AND(buf[0:4] == b"MSS1", u(buf, 4, 4) >= 16, u(buf, 4, 4) <= n)), "rejected only when malformed")


# ------------------------------------------------------------------ FMP auth header
def auth_build(vc):
    M = vc.module(A)
    PM = vc.module(P)
    a = M.FmpAuthHeaderClass()
    a.MonotonicCount = vc.int("count", 0, U64)
    cert = vc.bytes("cert", max_len=U32 - 24)
    a.AuthInfo.add_cert_data(cert)
    kind = vc.choice("kind", ["none", "header"])
    pay = b""
    if kind == "header":
        p = PM.FmpPayloadHeaderClass()
        p.FwVersion = vc.int("fw", 0, U32)
        p.LowestSupportedVersion = vc.int("lsv", 0, U32)
        p.Payload = vc.bytes("payload")
        a.FmpPayloadHeader = p
        pay = cat(b"MSS1", le(16, 4), le(p.FwVersion, 4), le(p.LowestSupportedVersion, 4), p.Payload)
    e = a.Encode()
    vc.check(e == cat(le(a.MonotonicCount, 8), le(24 + blen(cert), 4), b"\x00\x02\xf1\x0e", PKCS7, cert, pay), "encoded layout")
    b = M.FmpAuthHeaderClass()
    r = b.Decode(e)
    vc.reach(kind)
    vc.check(AND(r == pay, b.Payload == pay), "payload")
    vc.check(AND(b.MonotonicCount == a.MonotonicCount, b.AuthInfo.cert_data == cert), "fields survive")
    vc.check((b.FmpPayloadHeader is not None) == (kind == "header"), "payload header present exactly when there is a payload")
    if kind == "header":
        q = b.FmpPayloadHeader
        vc.check(all_eq((q.FwVersion, p.FwVersion), (q.LowestSupportedVersion, p.LowestSupportedVersion), (q.Payload, p.Payload)), "nested fields")
    vc.check(b.Encode() == e, "round trip")


def auth_decode(vc):
    M = vc.module(A)
    buf = vc.bytes("buf", gen=g_auth)
    n = blen(buf)
    a = M.FmpAuthHeaderClass()
    ok, r = outcome(a.Decode, buf)
    if ok:
        vc.reach("accept")
        vc.check(n >= 32, "accepted only with a whole header")
        cl = u(buf, 8, 4)
        vc.check(AND(cl >= 24, cl + 8 <= n), "accepted only when the certificate fits")
        vc.check(a.MonotonicCount == u(buf, 0, 8), "monotonic count")
        vc.check(AND(r == buf[8 + cl:], a.AuthInfo.cert_data == buf[32:8 + cl]), "certificate and payload split")
        vc.check(a.Encode() == buf, "re-encode is byte-exact")
    else:
        vc.reach("reject")
        vc.check(isinstance(r, ValueError), "rejection is a ValueError")


def auth_is_signed(vc):
    M = vc.module(A)
    buf = vc.bytes("buf", gen=g_auth)
    n = blen(buf)
    r = M.FmpAuthHeaderClass().IsSigned(buf)
    if n >= 32:
        good = AND(u(buf, 8, 4) >= 24, u(buf, 8, 4) + 8 <= n, u(buf, 12, 2) == 0x200, u(buf, 14, 2) == 0xEF1, buf[16:32] == PKCS7)
        vc.reach("whole")
        vc.check(r == good, "signed exactly when a PKCS7 WIN_CERTIFICATE follows the count")
    else:
        vc.reach("short")
        vc.check(r == False, "a short buffer is not signed")  # noqa: E712


# ------------------------------------------------------------------ FMP image header
def image_build(vc):
    M = vc.module(C)
    AM = vc.module(A)
    a = M.FmpCapsuleImageHeaderClass()
    vc.check(a.Version == 2, "initial version")
    a.Version = vc.int("version", 2, U32)
    a.UpdateImageTypeId = vc.uuid("type")
    a.UpdateImageIndex = vc.int("index", 1, U8)
    a.UpdateHardwareInstance = vc.int("hw", 0, U64)
    a.VendorCodeBytes = vc.bytes("vendor", max_len=1 << 20)
    pay = b""
    kind = vc.choice("kind", ["none", "auth"])
    if kind == "auth":
        h = AM.FmpAuthHeaderClass()
        h.MonotonicCount = vc.int("count", 0, U64)
        cert = vc.bytes("cert", max_len=1 << 20)
        h.AuthInfo.add_cert_data(cert)
        a.FmpAuthHeader = h
        pay = cat(le(h.MonotonicCount, 8), le(24 + blen(cert), 4), b"\x00\x02\xf1\x0e", PKCS7, cert)
    e = a.Encode()
    vc.check(e == cat(le(a.Version, 4), a.UpdateImageTypeId.bytes_le, le(a.UpdateImageIndex, 1), bytes(3), le(blen(pay), 4),
                      le(blen(a.VendorCodeBytes), 4), le(a.UpdateHardwareInstance, 8), pay, a.VendorCodeBytes), "encoded layout")
    b = M.FmpCapsuleImageHeaderClass()
    r = b.Decode(e)
    vc.reach(kind)
    vc.check(r == e[40:], "decode returns what follows the header")
    vc.check(all_eq((b.UpdateImageTypeId, a.UpdateImageTypeId), (b.UpdateImageIndex, a.UpdateImageIndex), (b.Version, a.Version),
                    (b.UpdateHardwareInstance, a.UpdateHardwareInstance), (b.UpdateImageSize, blen(pay)),
                    (b.UpdateVendorCodeSize, blen(a.VendorCodeBytes))), "fields survive")
    vc.check(AND(b.Payload == pay, b.VendorCodeBytes == a.VendorCodeBytes), "payload and vendor code are split where the sizes say")
    vc.check((b.FmpAuthHeader is not None) == (kind == "auth"), "auth header present exactly when there is a payload")
    vc.check(b.Encode() == e, "round trip")


def image_decode(vc):
    M = vc.module(C)
    buf = vc.bytes("buf", gen=g_image)
    n = blen(buf)
    a = M.FmpCapsuleImageHeaderClass()
    ok, r = outcome(a.Decode, buf)
    if ok:
        vc.reach("accept")
        vc.check(n >= 40, "accepted only with a whole header")
        vc.check(AND(u(buf, 0, 4) >= 2, u(buf, 20, 1) >= 1, u(buf, 24, 4) + u(buf, 28, 4) == n - 40), "accepted only when well formed")
        vc.check(AND(a.Payload == buf[40:40 + u(buf, 24, 4)], a.VendorCodeBytes == buf[40 + u(buf, 24, 4):]), "payload and vendor code")
        vc.check(all_eq((a.Version, u(buf, 0, 4)), (a.UpdateImageTypeId.bytes_le, buf[4:20]), (a.UpdateImageIndex, u(buf, 20, 1)),
                        (a.UpdateHardwareInstance, u(buf, 32, 8))), "fields")
        e = a.Encode()
        vc.check(AND(e[0:21] == buf[0:21], e[21:24] == bytes(3), e[24:] == buf[24:]), "re-encode is byte-exact but for the reserved bytes")
    else:
        vc.reach("reject")
        vc.check(isinstance(r, ValueError), "rejection is a ValueError")
        if n >= 40:
            if u(buf, 24, 4) == 0:
                vc.reach("reject-empty")
                vc.check(OR(u(buf, 0, 4) < 2, u(buf, 20, 1) < 1, u(buf, 24, 4) + u(buf, 28, 4) != n - 40), "header rejected only when malformed")


# ------------------------------------------------------------------ FMP capsule header: any number of items
class _Image:
    """Contract of an image header for its container: Encode gives its bytes."""

    def __init__(self, b):
        self.b = b

    def Encode(self):
        return self.b


def list_attr(obj, add, sentinel):
    """Name of the list attribute an Add method appends to."""
    before = {k: len(v) for k, v in obj.__dict__.items() if isinstance(v, list)}
    add(sentinel)
    return [k for k, v in obj.__dict__.items() if isinstance(v, list) and len(v) > before.get(k, 0)][0]


def fmp_encode_decode(vc):
    """Any number of drivers and images: the offset table is exact, and decoding gives every item back in order."""
    M = vc.module(C)
    drv = vc.chunks("drv", min_item=1, max_n=U16, max_total=1 << 40)
    img = vc.chunks("img", min_item=1 if vc.symbolic else 40, max_n=U16, max_total=1 << 40, gen=lambda r: good_image(r))
    n, m = drv.n, img.n
    f = M.FmpCapsuleHeaderClass()
    vc.check(f.Version == 1, "initial version")
    ver = f.Version = vc.int("version", 1, U32)
    base = 8 + 8 * (n + m)
    Dn = blen(drv.all())

    def off(k):
        """Offset of item k."""
        if vc.symbolic:
            from pyvc.core import simp
            from pyvc.sym import mkint, zint
            import z3
            k = zint(k)
            return mkint(z3.If(k < zint(n), zint(base) + drv.L(k), zint(base) + zint(Dn) + img.L(k - zint(n))))
        return base + (drv.off(k) if k < n else Dn + img.off(k - n))

    if vc.symbolic:
        T = Table(vc, "table", n + m, 8, off)
        g = M.FmpCapsuleHeaderClass()
        da = list_attr(g, g.AddEmbeddedDriver, object())
        ia = list_attr(g, g.AddFmpCapsuleImageHeader, object())
        setattr(f, da, drv.list())
        setattr(f, ia, img.list(lambda k, b: _Image(b)))
        hdr = cat(le(ver, 4), le(n, 2), le(m, 2))
        E = C + ":FmpCapsuleHeaderClass.Encode"
        vc.contract(E + "#0", Indexed("encode drivers", lambda vc, i, L: {
            "FmpCapsuleData": drv.prefix(i), "offset_list": SymList(i, off), "Offset": base + drv.off(i)}, n,
            facts=lambda vc, i: drv.fact(i)))
        vc.contract(E + "#1", Indexed("encode images", lambda vc, i, L: {
            "FmpCapsuleData": cat(drv.all(), img.prefix(i)), "offset_list": SymList(n + i, off), "Offset": base + Dn + img.off(i)}, m,
            facts=lambda vc, i: img.fact(i)))
        vc.contract(E + "#2", Indexed("encode table", lambda vc, i, L: {"FmpCapsuleHeader": cat(hdr, T.prefix(i))}, n + m,
                                      facts=lambda vc, i: T.define(i)))
        table = T.prefix(n + m)
    else:
        for k in range(n):
            f.AddEmbeddedDriver(drv.item(k))
        for k in range(m):
            h = M.FmpCapsuleImageHeaderClass()
            h.Decode(img.item(k))
            f.AddFmpCapsuleImageHeader(h)
        table = b"".join(le(off(k), 8) for k in range(n + m))
    e = f.Encode()
    vc.reach("encoded")
    vc.check(AND(f.EmbeddedDriverCount == n, f.PayloadItemCount == m), "counts")
    vc.check(e == cat(le(ver, 4), le(n, 2), le(m, 2), table, drv.all(), img.all()), "encoded layout with exact offset table")

    d = M.FmpCapsuleHeaderClass()
    if vc.bool("decoded into a capsule that was used before"):
        d.AddEmbeddedDriver(b"old")
        d.AddFmpCapsuleImageHeader(M.FmpCapsuleImageHeaderClass())
    if vc.symbolic:
        class Recorder:
            def Decode(self, buf):
                self.b = buf

            def __eq__(self, o):
                return self.b == o.b

        vc.patch(M, "FmpCapsuleImageHeaderClass", Recorder)
        D = C + ":FmpCapsuleHeaderClass.Decode"

        def facts(vc, i):
            T.define(i)
            drv.fact(i)
            img.fact(i - n)
            drv.fact(n)
            img.fact(0)
            drv.fact(i + 1)
            img.fact(i + 1 - n)

        ge = drv.item
        gi = lambda k: _rec(Recorder, img.item(k))  # noqa: E731
        vc.contract(D + "#0", Indexed("decode table", lambda vc, i, L: {"offset_list": SymList(i, off), "Offset": 8 + 8 * i}, n + m, facts=facts))
        vc.contract(D + "#1", Indexed("decode drivers", lambda vc, i, L: {}, n, facts=facts, heap=lambda vc, i, L: [
            (d, da, SymList(i, ge)), (d, "EmbeddedDriverCount", i)]))
        vc.contract(D + "#2", Indexed("decode images", lambda vc, i, L: {}, m, elem=lambda vc, i: n + i,
                                      facts=lambda vc, i: facts(vc, i + z(n)), heap=lambda vc, i, L: [
            (d, ia, SymList(i, gi)), (d, "PayloadItemCount", i)]))
    d.Decode(e)
    vc.check(AND(d.Version == ver, d.EmbeddedDriverCount == n, d.PayloadItemCount == m), "decoded version and counts")
    vc.reach("decoded")
    if vc.symbolic:
        k = vc.int("k", 0)
        if k < n:
            vc.reach("driver")
            drv.fact(k)
            vc.check(d.GetEmbeddedDriver(k) == drv.item(k), "every driver comes back, in order")
        j = vc.int("j", 0)
        if j < m:
            vc.reach("image")
            vc.check(d.GetFmpCapsuleImageHeader(j).b == img.item(j), "every image is decoded from exactly its bytes, in order")
    else:
        for k in range(n):
            vc.check(d.GetEmbeddedDriver(k) == drv.item(k), "every driver comes back, in order")
        for k in range(m):
            vc.check(d.GetFmpCapsuleImageHeader(k).Encode() == img.item(k), "every image is decoded from exactly its bytes, in order")
        vc.check(d.Encode() == e, "round trip")


def z(x):
    from pyvc.sym import zint
    return zint(x)


def _rec(R, b):
    r = R()
    r.b = b
    return r


def good_image(r):
    cert = r.randbytes(r.choice([0, 3]))
    pay = r.choice([b"", r.randbytes(8) + (24 + len(cert)).to_bytes(4, "little") + b"\x00\x02\xf1\x0e" + PKCS7 + cert])
    v = r.randbytes(r.choice([0, 2]))
    return (b"\x02\0\0\0" + r.randbytes(16) + bytes([r.randint(1, 255)]) + bytes(3) + len(pay).to_bytes(4, "little") + len(v).to_bytes(4, "little")
            + r.randbytes(8) + pay + v)


def fmp_decode_reject(vc):
    """Short buffers, versions below 1 and item offsets outside the buffer are rejected (any buffer with up to 2 items)."""
    M = vc.module(C)
    buf = vc.bytes("buf", gen=g_fmp)
    n = blen(buf)
    f = M.FmpCapsuleHeaderClass()
    if n >= 8:
        vc.assume(AND(u(buf, 4, 2) + u(buf, 6, 2) <= 2, u(buf, 6, 2) == 0))
        vc.bound("buffers announcing at most 2 items, all drivers")
    ok, r = outcome(f.Decode, buf)
    if ok:
        vc.reach("accept")
        vc.check(n >= 8, "needs the fixed header")
        c = u(buf, 4, 2)
        vc.check(AND(u(buf, 0, 4) >= 1, n >= 8 + 8 * c), "accepted only with a whole offset table")
        vc.check(AND(f.Version == u(buf, 0, 4)), "version")
        for k in range(2):
            if c > k:
                vc.check(u(buf, 8 + 8 * k, 8) < n, "every offset lies in the buffer")
    else:
        vc.reach("reject")


def g_fmp(r):
    n = r.choice([0, 1, 2])
    items = [r.randbytes(r.choice([1, 4])) for _ in range(n)]
    off = 8 + 8 * n
    t = b""
    for it in items:
        t += (off + r.choice([0, 0, 0, 0, 1, 200])).to_bytes(8, "little")
        off += len(it)
    return (r.choice([1, 1, 1, 0]).to_bytes(4, "little") + n.to_bytes(2, "little") + bytes(2) + t + b"".join(items))[: r.choice([999] * 4 + [7, 12])]


# ------------------------------------------------------------------ UEFI capsule header
def _flags(o, p, s, i):
    from pyvc.util import ite
    return o + ite(p, 0x10000, 0) + ite(s, 0x20000, 0) + ite(i, 0x40000, 0)


def uefi_build(vc):
    M = vc.module(U)
    a = M.UefiCapsuleHeaderClass()
    a.CapsuleGuid = vc.uuid("guid")
    a.OemFlags = vc.int("oem", 0, U16)
    a.PersistAcrossReset = vc.bool("persist")
    a.PopulateSystemTable = vc.bool("populate")
    a.InitiateReset = vc.bool("initiate")
    a.Payload = vc.bytes("payload", max_len=U32 - 32)
    fmp = a.CapsuleGuid == M.UefiCapsuleHeaderClass.EFI_FIRMWARE_MANAGEMENT_CAPSULE_ID_GUID
    vc.assume(OR(NOT(fmp), blen(a.Payload) == 0))
    e = a.Encode()
    fl = _flags(a.OemFlags, a.PersistAcrossReset, a.PopulateSystemTable, a.InitiateReset)
    vc.check(e == cat(a.CapsuleGuid.bytes_le, le(32, 4), le(fl, 4), le(32 + blen(a.Payload), 4), bytes(4), a.Payload), "encoded layout")
    vc.check(a.CapsuleImageSize == blen(e), "image size is the encoded size")
    b = M.UefiCapsuleHeaderClass()
    r = b.Decode(e)
    vc.reach("end")
    vc.check(all_eq((r, a.Payload), (b.Payload, a.Payload), (b.CapsuleGuid, a.CapsuleGuid), (b.OemFlags, a.OemFlags),
                    (b.PersistAcrossReset, a.PersistAcrossReset), (b.PopulateSystemTable, a.PopulateSystemTable),
                    (b.InitiateReset, a.InitiateReset), (b.HeaderSize, 32), (b.CapsuleImageSize, blen(e))), "fields survive")


def uefi_decode(vc):
    M = vc.module(U)
    buf = vc.bytes("buf", gen=g_uefi)
    n = blen(buf)
    a = M.UefiCapsuleHeaderClass()
    if n >= 32:
        vc.assume(buf[0:16] != a.EFI_FIRMWARE_MANAGEMENT_CAPSULE_ID_GUID.bytes_le)
    ok, r = outcome(a.Decode, buf)
    if ok:
        vc.reach("accept")
        vc.check(n >= 32, "needs a whole header")
        hs, fl = u(buf, 16, 4), u(buf, 20, 4)
        vc.check(AND(hs >= 32, hs <= n, u(buf, 24, 4) == n), "accepted only when the sizes match the buffer")
        vc.check(AND(r == buf[hs:], a.Payload == buf[hs:]), "payload")
        vc.check(AND(a.CapsuleGuid.bytes_le == buf[0:16], a.OemFlags == fl % 65536), "GUID and OEM flags")
        vc.check(all_eq((a.PersistAcrossReset, fl // 0x10000 % 2 == 1), (a.PopulateSystemTable, fl // 0x20000 % 2 == 1),
                        (a.InitiateReset, fl // 0x40000 % 2 == 1)), "flag attributes")
        vc.assume(fl < 0x80000)
        e = a.Encode()
        vc.check(AND(e[0:28] == buf[0:28], e[28:32] == bytes(4), e[32:] == buf[32:]), "re-encode is byte-exact but for reserved bits")
    else:
        vc.reach("reject")
        vc.check(isinstance(r, ValueError), "rejection is a ValueError")
        if n >= 32:
            vc.check(OR(u(buf, 16, 4) < 32, u(buf, 16, 4) > n, u(buf, 24, 4) != n), "rejected only when the sizes disagree")


def uefi_nested(vc):
    """FMP GUID with a payload: the nested FMP capsule is decoded from exactly the payload; a later decode forgets it."""
    M = vc.module(U)
    CM = vc.module(C)
    f = CM.FmpCapsuleHeaderClass()
    drv = vc.bytes("driver", min_len=1, max_len=1 << 20)
    f.AddEmbeddedDriver(drv)
    a = M.UefiCapsuleHeaderClass()
    a.FmpCapsuleHeader = f
    e = a.Encode()
    pay = cat(le(1, 4), le(1, 2), le(0, 2), le(16, 8), drv)
    vc.check(e == cat(a.CapsuleGuid.bytes_le, le(32, 4), le(0, 4), le(32 + blen(pay), 4), bytes(4), pay), "encoded layout")
    b = M.UefiCapsuleHeaderClass()
    r = b.Decode(e)
    vc.check(r == pay, "payload")
    vc.check(b.FmpCapsuleHeader is not None, "nested header decoded")
    vc.check(b.FmpCapsuleHeader.GetEmbeddedDriver(0) == drv, "nested driver")
    vc.check(b.Encode() == e, "round trip")
    c = M.UefiCapsuleHeaderClass()
    c.CapsuleGuid = vc.uuid("guid")
    vc.assume(c.CapsuleGuid != a.CapsuleGuid)
    c.Payload = vc.bytes("payload", max_len=1 << 20)
    e2 = c.Encode()
    b.Decode(e2)
    vc.reach("reused")
    vc.check(b.Encode() == e2, "decoding another capsule into the object forgets the nested one")


HARNESSES = [
    H("payload_build", payload_build, "FMP payload header: layout and round trip", must_reach=["end"]),
    H("payload_decode", payload_decode, "FMP payload header: accepts exactly the well-formed buffers, byte-exact", must_reach=["accept", "reject"]),
    H("auth_build", auth_build, "FMP auth header: layout and round trip", must_reach=["none", "header"]),
    H("auth_decode", auth_decode, "FMP auth header: byte-exact decode", must_reach=["accept", "reject"]),
    H("auth_is_signed", auth_is_signed, "IsSigned", must_reach=["whole", "short"]),
    H("image_build", image_build, "FMP image header: layout, sizes, round trip", must_reach=["none", "auth"]),
    H("image_decode", image_decode, "FMP image header: accepts only well-formed buffers, byte-exact", must_reach=["accept", "reject"]),
    H("fmp_encode_decode", fmp_encode_decode, fmp_encode_decode.__doc__, must_reach=["encoded", "decoded", "driver", "image"], parts=2),
    H("fmp_decode_reject", fmp_decode_reject, fmp_decode_reject.__doc__, must_reach=["accept", "reject"]),
    H("uefi_build", uefi_build, "UEFI capsule header: layout and round trip", must_reach=["end"]),
    H("uefi_decode", uefi_decode, "UEFI capsule header: accepts exactly consistent sizes, byte-exact", must_reach=["accept", "reject"]),
    H("uefi_nested", uefi_nested, uefi_nested.__doc__, must_reach=["reused"]),
]
