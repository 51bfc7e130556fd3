from contracts.base import H
from pyvc.lists import Indexed, SymList
from pyvc.util import AND, NOT, OR, all_eq, blen, cat, ite, le, outcome, stream, u

ID = "C10"
LEVEL = "proof"
TRUSTED = []
ASSUMPTIONS = ["streams are io.BytesIO", "the printing methods are not under contract", "little-endian host (native struct order)"]
EXPLANATION = ("Reading and writing of bitmaps is verified for every byte string and stream position; the color map loops have invariants for any number of "
               "entries.")
A = "edk2toollib.uefi.bmp_object"
FIELDS = [("Size", 2, 4), ("Rsvd16_1", 6, 2), ("Rsvd16_2", 8, 2), ("ImageOffset", 10, 4), ("HeaderSize", 14, 4), ("PixelWidth", 18, 4), ("PixelHeight", 22, 4),
          ("Planes", 26, 2), ("BitPerPixel", 28, 2), ("CompressionType", 30, 4), ("ImageSize", 34, 4), ("XPixelsPerMeter", 38, 4),
          ("YPixelsPerMeter", 42, 4), ("NumberOfColors", 46, 4), ("ImportantColors", 50, 4)]


def g_bmp(r):
    bpp = r.choice([1, 4, 8, 24, 32])
    noc = r.choice([0, 0, 0, 1, 3])
    exp = {1: 2, 4: 16, 8: 256}.get(bpp, 0)
    cnt = (noc or exp) if exp else 0
    pad = r.randbytes(r.choice([0, 0, 2, 84]))
    img = r.randbytes(r.choice([0, 1, 20]))
    off = 54 + 4 * cnt + len(pad)
    off += r.choice([0] * 8 + [-off, 1, -1, 1000])
    hs = r.choice([40, 40, 124, 0])
    size = 54 + 4 * cnt + len(pad) + len(img) + r.choice([0] * 8 + [1, -1, -60])
    size = max(size, 0)
    b = b"BM" + size.to_bytes(4, "little") + bytes(4) + off.to_bytes(4, "little") + hs.to_bytes(4, "little") + r.randbytes(8) + b"\1\0" + bpp.to_bytes(2, "little")
    b += r.randbytes(16) + noc.to_bytes(4, "little") + r.randbytes(4)
    return b + r.randbytes(4 * cnt) + pad + img + r.choice([b""] * 8 + [b"x"])


def entry(vc, M, b):
    c = M.BmpColorMap()
    c.Blue, c.Green, c.Red, c.Reserved = b[0], b[1], b[2], b[3]
    return c


def comparable(vc, M):
    """Color map entries compare by their fields (symbolic mode; the loop contracts need equality)."""
    if vc.symbolic:
        class C(M.BmpColorMap):
            def __eq__(self, o):
                return all_eq((self.Blue, o.Blue), (self.Green, o.Green), (self.Red, o.Red), (self.Reserved, o.Reserved))

        vc.patch(M, "BmpColorMap", C)


def read(vc):
    """Any byte string at any position: accepted exactly when Size and offsets agree with the data; fields exact; writing gives the bytes back."""
    M = vc.module(A)
    comparable(vc, M)
    pre = vc.bytes("prefix", max_len=1 << 40)
    body = vc.bytes("body", gen=g_bmp)
    s = stream(vc, cat(pre, body), blen(pre))
    n = blen(body)
    used = vc.bool("used_before")
    o = M.BmpObject()
    if used:
        o.ColorMapList = [entry(vc, M, b"old!")]
        o._PaddingLength = 3
        o._Padding = b"old"
    good = bool(n >= 54)
    cnt, cm = 0, False
    if good:
        size, off, bpp, noc = u(body, 2, 4), u(body, 10, 4), u(body, 28, 2), u(body, 46, 4)
        exp = 2 if bpp == 1 else 16 if bpp == 4 else 256 if bpp == 8 else 0
        good = AND(size >= u(body, 14, 4), size == n, off <= size)
        if off > 54 and exp:
            cnt = noc if noc > 0 else exp
            good = AND(good, 54 + 4 * cnt <= off)
            cm = True
        good = bool(good)
    if vc.symbolic and cm:
        def item(k):
            return entry(vc, M, _at(body, k))

        vc.contract(A + ":BmpObject.PopulateFromFileStream#0", Indexed(
            "read color map", lambda vc, i, L: {}, cnt,
            heap=lambda vc, i, L: [(o, "ColorMapList", SymList(_z(i), item)), (s, "pos", blen(pre) + 54 + 4 * i)]))
    ok, r = outcome(o.PopulateFromFileStream, s)
    vc.check(ok == good, "accepted exactly when size, header size, offset and color map agree with the data")
    if not ok:
        vc.reach("reject")
        return
    vc.reach("colors" if cm else "plain")
    for a, at, k in FIELDS:
        vc.check(getattr(o, a) == u(body, at, k), "field " + a)
    vc.check(AND(o.CharB == body[0:1], o.CharM == body[1:2]), "magic")
    start = 54 + 4 * cnt
    vc.check((o.ColorMapList.vc_len() if hasattr(o.ColorMapList, "vc_len") else len(o.ColorMapList)) == cnt, "number of color map entries")
    if not vc.symbolic:
        for k in range(cnt):
            e = o.ColorMapList[k]
            vc.check(bytes([e.Blue, e.Green, e.Red, e.Reserved]) == body[54 + 4 * k:58 + 4 * k], "color map entry")
    data = body[off:n] if off > 54 else body[54:n]
    vc.check(o.ImageData == data, "image data is what follows up to the end")
    pad = off - start if off > start else 0
    vc.check(o._PaddingLength == pad, "padding length")
    if pad > 0:
        vc.check(o._Padding == body[start:off], "padding")
        vc.reach("padding")
    vc.check(s.tell() == blen(pre) + n, "everything is consumed")
    w = stream(vc, b"")
    if vc.symbolic and cm:
        vc.contract(A + ":BmpObject.Write#0", Indexed(
            "write color map", lambda vc, i, L: {}, cnt,
            heap=lambda vc, i, L: [(L["fs"], "content", body[0:54 + 4 * i]), (L["fs"], "pos", 54 + 4 * i)]))
    o.Write(w)
    vc.check(w.getvalue() == body, "writing gives the bytes back")


def _at(body, k):
    from pyvc.sym import mkint, zint
    k = mkint(zint(k))
    return body[54 + 4 * k:58 + 4 * k]


def _z(x):
    import z3
    from pyvc.sym import zint
    x = zint(x)
    return x if z3.is_expr(x) else z3.IntVal(x)


def color(vc):
    """One color map entry: its four bytes in order, from any position; too short is refused."""
    M = vc.module(A)
    pre = vc.bytes("prefix", max_len=1 << 40)
    body = vc.bytes("body", max_len=1 << 40, gen=lambda r: r.randbytes(r.choice([0, 3, 4, 9])))
    s = stream(vc, cat(pre, body), blen(pre))
    ok, c = outcome(M.BmpColorMap, s)
    vc.check(ok == (blen(body) >= 4), "needs four bytes")
    if ok:
        vc.check(all_eq((c.Blue, body[0]), (c.Green, body[1]), (c.Red, body[2]), (c.Reserved, body[3])), "fields")
        vc.check(s.tell() == blen(pre) + 4, "consumes four bytes")
        w = stream(vc, b"")
        c.Write(w)
        vc.check(w.getvalue() == body[0:4], "written back")
        vc.reach("entry")


def build(vc):
    """A bitmap built from field values, color map and data writes the specified layout; an empty one is a valid bitmap of 54 bytes."""
    M = vc.module(A)
    o = M.BmpObject()
    w = stream(vc, b"")
    o.Write(w)
    e = w.getvalue()
    vc.check(e == b"BM" + le(54, 4) + bytes(4) + le(54, 4) + le(40, 4) + bytes(8) + le(1, 2) + bytes(26), "empty bitmap")
    ok, p = outcome(M.BmpObject, stream(vc, e))
    vc.check(ok, "an empty bitmap can be read")
    want = b"BM"
    for a, at, k in FIELDS:
        v = vc.int(a, 0, 256 ** k - 1)
        setattr(o, a, v)
        want = cat(want, le(v, k))
    for k in range(vc.choice("colors", [0, 1, 2])):
        b = vc.bytes("color%d" % k, 4)
        o.ColorMapList.append(entry(vc, M, b))
        want = cat(want, b)
    img = vc.bytes("image", max_len=1 << 40)
    o.ImageData = img
    w = stream(vc, b"")
    o.Write(w)
    vc.check(w.getvalue() == cat(want, img), "layout")
    vc.reach("done")


HARNESSES = [H("read", read, read.__doc__, must_reach=["reject", "plain", "colors", "padding"]), H("color", color, color.__doc__, must_reach=["entry"]),
             H("build", build, build.__doc__, must_reach=["done"])]
