from contracts.base import H
from pyvc.util import AND, NOT, OR, all_eq, blen, cat, guid_le, le, outcome, stream, u

ID = "C08"
LEVEL = "proof"
TRUSTED = []
ASSUMPTIONS = ["little-endian host (the code asks sys.byteorder for GUIDs and uses native struct order)"]
EXPLANATION = ("Every header class is loaded from an arbitrary stream position over arbitrary bytes: the fields are exactly the bytes at their offsets, the "
               "stream position is kept, and serialize gives the bytes back; headers built from field values serialize to the specified layout.")
FV = "edk2toollib.uefi.pi_firmware_volume"
FF = "edk2toollib.uefi.pi_firmware_file"
FTW = "edk2toollib.uefi.edk2.ftw_working_block_format"
VF = "edk2toollib.uefi.edk2.variable_format"
FTWSIG = bytes.fromhex("2b29589e687c7d49a0ce6500fd9f1b95")
VARG = bytes.fromhex("1636cfdd7532644198b6fe85707ffe7d")
AUTHG = bytes.fromhex("782cf3aa7b949a43a1802e144ec37792")
# (module, class, size, [(attribute, offset, size, kind)])   kind: i integer, g GUID, b bytes
TABLE = {
    "fv": (FV, "EfiFirmwareVolumeHeader", 72, [("ZeroVector", 0, 16, "b"), ("FileSystemGuid", 16, 16, "g"), ("FvLength", 32, 8, "i"),
           ("Signature", 40, 4, "b"), ("Attributes", 44, 4, "i"), ("HeaderLength", 48, 2, "i"), ("Checksum", 50, 2, "i"),
           ("ExtHeaderOffset", 52, 2, "i"), ("Reserved", 54, 1, "i"), ("Revision", 55, 1, "i"), ("Blockmap0", 56, 8, "i"), ("Blockmap1", 64, 8, "i")]),
    "ext": (FV, "EfiFirmwareVolumeExtHeader", 20, [("FileSystemGuid", 0, 16, "b"), ("ExtHeaderSize", 16, 4, "i")]),
    "ffs": (FF, "EfiFirmwareFileSystemHeader", 24, [("FileSystemGuid", 0, 16, "g"), ("Checksum", 16, 2, "i"), ("Type", 18, 1, "i"),
            ("Attributes", 19, 1, "i"), ("Size0", 20, 1, "i"), ("Size1", 21, 1, "i"), ("Size2", 22, 1, "i"), ("State", 23, 1, "i")]),
    "ftwblock": (FTW, "EfiFtwWorkingBlockHeader", 32, [("Signature", 0, 16, "g"), ("Crc", 16, 4, "i"), ("WorkingBlockValidFields", 20, 1, "i"),
                 ("Reserved1", 21, 1, "i"), ("Reserved2", 22, 1, "i"), ("Reserved3", 23, 1, "i"), ("WriteQueueSize", 24, 8, "i")]),
    "ftwwrite": (FTW, "EfiFtwWriteHeader", 40, [("StatusBits", 0, 1, "i"), ("ReservedByte1", 1, 1, "i"), ("ReservedByte2", 2, 1, "i"),
                 ("ReservedByte3", 3, 1, "i"), ("CallerId", 4, 16, "b"), ("ReservedUint32", 20, 4, "i"), ("NumberOfWrites", 24, 8, "i"),
                 ("PrivateDataSize", 32, 8, "i")]),
    "ftwrecord": (FTW, "EfiFtwWriteRecord", 40, [("StatusBits", 0, 1, "i"), ("ReservedByte1", 1, 1, "i"), ("ReservedByte2", 2, 1, "i"),
                  ("ReservedByte3", 3, 1, "i"), ("ReservedUint32", 4, 4, "i"), ("Lba", 8, 8, "i"), ("Offset", 16, 8, "i"), ("Length", 24, 8, "i"),
                  ("RelativeOffset", 32, 8, "i")]),
    "store": (VF, "VariableStoreHeader", 28, [("Signature", 0, 16, "g"), ("Size", 16, 4, "i"), ("Format", 20, 1, "i"), ("State", 21, 1, "i"),
              ("Reserved0", 22, 2, "i"), ("Reserved1", 24, 4, "i")]),
}


def magic(kind, b):
    """What the header must identify itself with."""
    if kind == "fv":
        return b[40:44] == b"_FVH"
    if kind == "ftwblock":
        return b[0:16] == FTWSIG
    if kind == "store":
        return OR(b[0:16] == VARG, b[0:16] == AUTHG)
    return True


def load(kind):
    mod, cls, size, fields = TABLE[kind]

    def gen(r):
        b = bytearray(r.randbytes(size + r.choice([0, 0, 5])))
        if r.random() < 0.8:
            if kind == "fv":
                b[40:44] = b"_FVH"
            elif kind == "ftwblock":
                b[0:16] = FTWSIG
            elif kind == "store":
                b[0:16] = r.choice([VARG, AUTHG])
        return bytes(b)[: r.choice([999] * 9 + [size - 1])]

    def h(vc):
        M = vc.module(mod)
        pre = vc.bytes("prefix", max_len=1 << 40)
        body = vc.bytes("body", gen=gen)
        s = stream(vc, cat(pre, body), blen(pre))
        o = getattr(M, cls)()
        ok, r = outcome(o.load_from_file, s)
        if not ok:
            vc.reach("reject")
            vc.check(OR(blen(body) < size, NOT(magic(kind, body)) if blen(body) >= size else True), "rejected only when short or of another kind")
            return
        vc.check(blen(body) >= size, "needs the whole header")
        vc.check(magic(kind, body), "accepted only when it is this kind of header")
        vc.reach("accept")
        vc.check(r is o, "returns itself")
        vc.check(s.tell() == blen(pre), "the stream position is kept")
        for a, off, n, k in fields:
            v = getattr(o, a)
            b = body[off:off + n]
            vc.check(v == u(body, off, n) if k == "i" else v.bytes_le == b if k == "g" else v == b, "field " + a)
        if kind == "store":
            vc.check((o.Type == "AuthVar") == (body[0:16] == AUTHG), "type of the store")
        if kind == "ffs":
            vc.check(o.get_size() == u(body, 20, 3), "24-bit size")
        if hasattr(o, "serialize"):
            vc.check(o.serialize() == body[0:size], "serialize gives the bytes back")

    h.__doc__ = "%s: fields are exactly the bytes, position kept, serialize is the inverse." % cls
    return H("load_" + kind, h, h.__doc__, must_reach=["accept", "reject"])


def build(kind):
    mod, cls, size, fields = TABLE[kind]

    def h(vc):
        M = vc.module(mod)
        o = getattr(M, cls)()
        want = b""
        for a, off, n, k in fields:
            if k == "i":
                v = vc.int(a, 0, 256 ** n - 1)
                want = cat(want, le(v, n))
            elif k == "b":
                v = vc.bytes(a, n)
                want = cat(want, v)
            else:
                v = vc.uuid(a)
                want = cat(want, v.bytes_le)
            setattr(o, a, v)
        e = o.serialize()
        vc.check(e == want, "layout")
        vc.check(blen(e) == size, "size")
        vc.reach("done")

    return H("build_" + kind, h, "%s: any field values serialize to the specified layout." % cls, must_reach=["done"])


# ------------------------------------------------------------------ variable headers
def var_layout(auth):
    return dict(auth=auth, size=60 if auth else 32, namesize=36 if auth else 8, datasize=40 if auth else 12, guid=44 if auth else 16)


def g_var(auth):
    def g(r):
        name = (r.choice(["A", "Boot0001", "", "\ufeffx", "\u00e4"]) + "\0").encode("utf-16-le")
        data = r.randbytes(r.choice([0, 1, 2, 3, 4, 50]))
        b = (r.choice([0x55AA] * 9 + [0xFFFF]).to_bytes(2, "little") + bytes([r.choice([0x3F, 0xFD]), r.choice([0, 0, 0xFF])]) + r.randbytes(4))
        if auth:
            b += r.randbytes(28)
        b += len(name).to_bytes(4, "little") + (len(data) + r.choice([0] * 9 + [3])).to_bytes(4, "little") + r.randbytes(16)
        return b + name + data + r.choice([b"", b"tail"])
    return g


def fields_of(vc, L, o, b):
    F = all_eq((o.StartId, 0x55AA), (o.State, b[2]), (o.Attributes, u(b, 4, 4)), (o.NameSize, u(b, L["namesize"], 4)), (o.DataSize, u(b, L["datasize"], 4)),
               (o.VendorGuid.bytes_le, b[L["guid"]:L["guid"] + 16]))
    if L["auth"]:
        F = AND(F, o.MonotonicCount == u(b, 8, 8), o.TimeStamp == b[16:32], o.PubKeyIndex == u(b, 32, 4))
    return F


def var_load(auth):
    L = var_layout(auth)
    H0 = L["size"]

    def h(vc):
        M = vc.module(VF)
        C = M.AuthenticatedVariableHeader if auth else M.VariableHeader
        pre = vc.bytes("prefix", max_len=1 << 40)
        body = vc.bytes("body", min_len=H0, max_len=1 << 40, gen=g_var(auth))
        n = blen(body)
        s = stream(vc, cat(pre, body), blen(pre))
        o = C()
        here = bool(u(body, 0, 2) == 0x55AA)
        if here:                                                             # a whole variable with a NUL-terminated name
            ns, ds = u(body, L["namesize"], 4), u(body, L["datasize"], 4)
            vc.assume(AND(ns >= 2, H0 + ns + ds <= n))
            vc.assume(AND(body[H0 + ns - 2] == 0, body[H0 + ns - 1] == 0))
        if vc.bool("from_file"):
            ok, r = outcome(o.load_from_file, s)
            vc.check(s.tell() == blen(pre), "the stream position is kept") if ok or isinstance(r, EOFError) else None
        else:
            ok, r = outcome(o.load_from_bytes, body)
        if not here:
            vc.reach("none")
            vc.check(not ok and isinstance(r, EOFError), "no variable here is an EOFError")
            return
        vc.check(not (not ok and isinstance(r, EOFError)), "EOFError only when there is no variable")
        dok, name = outcome(body[H0:H0 + ns].decode, "utf-16-le")
        vc.check(ok == dok, "accepted exactly when the name is text")
        if not ok:
            return
        vc.reach("loaded")
        vc.check(r is o, "returns itself")
        vc.check(fields_of(vc, L, o, body), "fields are exactly the bytes")
        vc.check(o.Name == name[:-1], "name without its terminator")
        vc.check(o.Data == body[H0 + ns:H0 + ns + ds], "data")
        total = H0 + ns + ds
        vc.check(o.get_buffer_data_size() == total, "size without padding")
        pad = (4 - total % 4) % 4
        vc.check(o.get_buffer_padding_size() == pad, "padding to four bytes")
        vc.check(o.get_buffer_size() == total + pad, "size")
        zero = cat(body[0:3], b"\0", body[4:total])
        vc.check(o.serialize() == zero, "serialize gives the bytes back (reserved byte zero)")
        for k in range(4):
            if pad == k:
                vc.check(o.serialize(True) == cat(zero, b"\xff" * k), "serialize with padding")

    return H("var_load_auth" if auth else "var_load", h, "variable header: loaded exactly, position kept, serialize and sizes agree",
             must_reach=["loaded", "none"])


def var_build(vc):
    """A variable built from any name, data and attributes serializes to the specified layout with exact sizes, and loads back."""
    M = vc.module(VF)
    auth = vc.bool("auth")
    L = var_layout(bool(auth))
    o = M.AuthenticatedVariableHeader() if auth else M.VariableHeader()
    if vc.symbolic:
        from pyvc.sym import SymStr
        nb = vc.bytes("name16", min_len=1, max_len=1 << 20)
        vc.assume(blen(nb) % 2 == 0)
        name = SymStr([("dec", "utf-16-le", nb)])
    else:
        nb = vc.bytes("name16", gen=lambda r: r.choice(["A", "Boot0001", "\ufeffx", "\u00e4", "a\U0001f600"]).encode("utf-16-le"))
        ok, name = outcome(nb.decode, "utf-16-le")
        vc.assume(ok)
    data = vc.bytes("data", max_len=1 << 30)
    g = vc.uuid("guid")
    at = vc.int("attributes", 0, 0xFFFFFFFF)
    o.set_name(name)
    o.set_data(data)
    o.VendorGuid = g
    o.Attributes = at
    st = vc.int("state", 0, 255)
    o.State = st
    head = cat(le(0x55AA, 2), le(st, 1), b"\0", le(at, 4))
    if auth:
        mc, ts, pk = vc.int("mc", 0, (1 << 64) - 1), vc.bytes("ts", 16), vc.int("pk", 0, 0xFFFFFFFF)
        vc.check(o.serialize()[8:36] == bytes(28), "an unset count, time and key index are zero")
        o.MonotonicCount, o.TimeStamp, o.PubKeyIndex = mc, ts, pk
        head = cat(head, le(mc, 8), ts, le(pk, 4))
    want = cat(head, le(blen(nb) + 2, 4), le(blen(data), 4), g.bytes_le, nb, b"\0\0", data)
    vc.check(o.serialize() == want, "layout")
    vc.check(o.get_buffer_size() == blen(o.serialize(True)), "size is the serialized size")
    vc.check(o.get_buffer_size() % 4 == 0, "aligned")
    vc.reach("auth" if auth else "plain")


HARNESSES = [load(k) for k in TABLE] + [build(k) for k in TABLE if k != "ext"] + [var_load(False), var_load(True),
             H("var_build", var_build, var_build.__doc__, must_reach=["auth", "plain"])]
