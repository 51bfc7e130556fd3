from contracts.base import H
from pyvc.util import AND, IMPLIES, NOT, OR, blen, cat, dead, guid_le, le, outcome, stream, u

ID = "C01"
LEVEL = "proof"
TRUSTED = []
ASSUMPTIONS = ["dump_info and the pyasn1 decoding behind it are not under contract (print is C30's)",
               "streams are io.BytesIO"]
EXPLANATION = ("Each harness states pre/postconditions of the WIN_CERTIFICATE codecs for arbitrary field values, arbitrary certificate "
               "data of arbitrary length and an arbitrary stream prefix/suffix; all paths of the real code are executed symbolically and "
               "every postcondition is discharged per path.")
MOD = "edk2toollib.uefi.wincert"
U16, U32 = 0xFFFF, 0xFFFFFFFF
PKCS7 = bytes.fromhex("9dd2af4adf68ee498aa9347d375665a7")


def gen_guid_cert(r):
    n = r.choice([0, 1, 2, 5, 40])
    ln = 24 + n + r.choice([0, 0, 0, 0, 1, -1, -24])
    return (max(ln, 0).to_bytes(4, "little") + r.choice([0x200, 0x200, 0x200, 0x100]).to_bytes(2, "little")
            + r.choice([0xEF1, 0xEF1, 0xEF1, 0xEF0, 2]).to_bytes(2, "little") + r.choice([PKCS7, PKCS7, PKCS7, bytes(16)]) + r.randbytes(n)
            + r.choice([b"", b"", b"tail"]))[: r.choice([1000, 1000, 1000, 23, 25])]


def gen_pkcs1(r):
    n = r.choice([0, 1, 2, 5, 40])
    ln = 24 + n + r.choice([0, 0, 0, 1, -1, -20])
    return (max(ln, 0).to_bytes(4, "little") + r.choice([0x200, 0x100]).to_bytes(2, "little") + r.choice([0xEF0, 2]).to_bytes(2, "little")
            + r.randbytes(16) + r.randbytes(n) + r.choice([b"", b"", b"tail"]))[: r.choice([1000, 1000, 1000, 23, 25])]


def pkcs1_decode(vc):
    """For every stream content and position: accepted exactly when well formed; consumes dwLength bytes; re-encodes them."""
    M = vc.module(MOD)
    pre = vc.bytes("prefix", max_len=1 << 40)
    body = vc.bytes("body", gen=gen_pkcs1)
    s = stream(vc, cat(pre, body), blen(pre))
    n = blen(body)
    ok, c = outcome(M.WinCertPkcs1, s)
    if ok:
        vc.reach("accept")
        ln = u(body, 0, 4)
        vc.check(AND(n > 24, ln >= 24, ln <= n), "accepted only when the length field fits the header and the data")
        vc.check(s.tell() == blen(pre) + ln, "consumes exactly the declared length")
        vc.check(c.Hdr_dwLength == ln, "length field")
        vc.check(c.Hdr_wRevision == u(body, 4, 2), "revision field")
        vc.check(c.Hdr_wCertificateType == u(body, 6, 2), "type field")
        vc.check(c.hash_algorithm == guid_le(vc, body[8:24]), "hash algorithm GUID")
        vc.check(c.cert_data == body[24:ln], "certificate data")
        vc.check(c.encode() == body[0:ln], "encode gives the consumed bytes back")
        out = stream(vc, b"")
        c.write(out)
        vc.check(out.getvalue() == body[0:ln], "write gives the consumed bytes back")
    else:
        vc.reach("reject")
        vc.check(isinstance(c, ValueError), "rejection is a ValueError")
        if n > 24:
            ln = u(body, 0, 4)
            vc.check(OR(ln < 24, ln > n), "rejected only when malformed")


def pkcs1_build(vc):
    """A PKCS1 certificate built from a hash algorithm and data encodes to the specified layout and decodes back."""
    M = vc.module(MOD)
    data = vc.bytes("data", max_len=U32 - 24)
    g = vc.uuid("hash")
    c = M.WinCertPkcs1()
    ok, e = outcome(c.add_cert_data, stream(vc, data))
    vc.check(not ok and isinstance(e, ValueError), "data before the hash algorithm is rejected")
    c.set_hash_algorithm(g)
    c.add_cert_data(stream(vc, data))
    vc.check(c.Hdr_dwLength == 24 + blen(data), "length tracks the data")
    e = c.encode()
    vc.check(e == cat(le(24 + blen(data), 4), le(0x200, 2), le(0xEF0, 2), g.bytes_le, data), "encoded layout")
    ok, x = outcome(c.add_cert_data, stream(vc, data))
    vc.check(not ok and isinstance(x, ValueError), "data can be set only once")
    if blen(data) > 0:
        d = M.WinCert.factory(stream(vc, e))
        vc.reach("decoded")
        vc.check(isinstance(d, M.WinCertPkcs1), "factory kind")
        vc.check(d.cert_data == data, "decoded data")
        vc.check(d.hash_algorithm == g, "decoded hash algorithm")
        vc.check(d.encode() == e, "round trip")


def _guid_ok(body, n):
    return AND(n >= 24, u(body, 0, 4) >= 24, u(body, 0, 4) <= n, u(body, 4, 2) == 0x200, u(body, 6, 2) == 0xEF1, body[8:24] == PKCS7)


def guid_decode_buffer(vc):
    M = vc.module(MOD)
    body = vc.bytes("body", gen=gen_guid_cert)
    n = blen(body)
    c = M.WinCertUefiGuid()
    ok, r = outcome(c.decode, body)
    if ok:
        vc.reach("accept")
        vc.check(n >= 24, "accepted only with a whole header")
        ln = u(body, 0, 4)
        vc.check(_guid_ok(body, n), "accepted only when well formed")
        vc.check(r == body[ln:], "returns the bytes after the certificate")
        vc.check(c.cert_data == body[24:ln], "certificate data")
        vc.check(c.get_certificate() == body[24:ln], "certificate accessor")
        vc.check(c.Hdr_dwLength == ln, "length field")
        vc.check(c.get_length() == ln, "length accessor")
        vc.check(AND(c.Hdr_wRevision == 0x200, c.Hdr_wCertificateType == 0xEF1, c.cert_type.bytes_le == PKCS7), "header fields")
        vc.check(c.encode() == body[0:ln], "encode gives the decoded bytes back")
    else:
        vc.reach("reject")
        vc.check(isinstance(r, ValueError), "rejection is a ValueError")
        if n >= 24:
            vc.check(NOT(_guid_ok(body, n)), "rejected only when malformed")


def guid_decode_stream(vc):
    M = vc.module(MOD)
    pre = vc.bytes("prefix", max_len=1 << 40)
    body = vc.bytes("body", gen=gen_guid_cert)
    n = blen(body)
    s = stream(vc, cat(pre, body), blen(pre))
    ok, c = outcome(M.WinCertUefiGuid, s)
    if ok:
        vc.reach("accept")
        vc.check(n >= 24, "accepted only with a whole header")
        ln = u(body, 0, 4)
        vc.check(_guid_ok(body, n), "accepted only when well formed")
        vc.check(s.tell() == blen(pre) + ln, "consumes exactly the declared length")
        vc.check(c.cert_data == body[24:ln], "certificate data")
        vc.check(c.encode() == body[0:ln], "encode gives the consumed bytes back")
        out = stream(vc, b"")
        c.write(out)
        vc.check(out.getvalue() == body[0:ln], "write gives the consumed bytes back")
    else:
        vc.reach("reject")
        vc.check(isinstance(c, ValueError), "rejection is a ValueError")
        if n >= 24:
            vc.check(NOT(_guid_ok(body, n)), "rejected only when malformed")


def guid_build(vc):
    """add_cert_data (bytes or stream), any number of replacements, then encode/decode."""
    M = vc.module(MOD)
    first = vc.bytes("first", max_len=U32 - 24)
    data = vc.bytes("data", max_len=U32 - 24)
    c = M.WinCertUefiGuid()
    vc.check(c.encode() == cat(le(24, 4), le(0x200, 2), le(0xEF1, 2), PKCS7), "empty certificate layout")
    c.add_cert_data(first)
    vc.check(c.get_length() == 24 + blen(first), "length after the first data")
    c.add_cert_data(stream(vc, data) if vc.bool("as_stream") else data)
    vc.check(c.get_length() == 24 + blen(data), "length tracks replaced data")
    e = c.encode()
    vc.check(e == cat(le(24 + blen(data), 4), le(0x200, 2), le(0xEF1, 2), PKCS7, data), "encoded layout")
    vc.check(c.get_length() == blen(e), "length accessor after encode")
    d = M.WinCert.factory(stream(vc, e))
    vc.reach("decoded")
    vc.check(isinstance(d, M.WinCertUefiGuid), "factory kind")
    vc.check(d.cert_data == data, "decoded data")


def guid_encode_rejects(vc):
    M = vc.module(MOD)
    c = M.WinCertUefiGuid()
    c.Hdr_wRevision = vc.int("rev", 0, U16, gen=lambda r: r.choice([0x200, 0x200, 0x100]))
    c.Hdr_wCertificateType = vc.int("type", 0, U16, gen=lambda r: r.choice([0xEF1, 0xEF1, 0xEF0, 2, 0]))
    c.cert_type = guid_le(vc, vc.bytes("ctype", 16, gen=lambda r: r.choice([PKCS7, PKCS7, bytes(16)])))
    ok, r = outcome(c.encode)
    good = AND(c.Hdr_wRevision == 0x200, c.Hdr_wCertificateType == 0xEF1, c.cert_type.bytes_le == PKCS7)
    if ok:
        vc.reach("ok")
        vc.check(good, "encodes only the supported revision, type and GUID")
    else:
        vc.reach("reject")
        vc.check(isinstance(r, ValueError), "rejection is a ValueError")
        vc.check(NOT(good), "supported certificates are encoded")


def factory(vc):
    """The kind is decided by the type field alone, at any stream position."""
    M = vc.module(MOD)
    pre = vc.bytes("prefix", max_len=1 << 40)
    body = vc.bytes("body", gen=lambda r: r.choice([gen_guid_cert, gen_pkcs1])(r)[: r.choice([100, 100, 100, 7, 8])])
    n = blen(body)
    s = stream(vc, cat(pre, body), blen(pre))
    ok, c = outcome(M.WinCert.factory, s)
    if ok:
        vc.check(n >= 8, "needs the fixed header")
        t = u(body, 6, 2)
        if c is None:
            vc.reach("none")
            vc.check(AND(t != 0xEF0, t != 0xEF1), "no object only for other types")
            vc.check(s.tell() == blen(pre), "unknown type leaves the stream where it was")
        elif isinstance(c, M.WinCertUefiGuid):
            vc.reach("guid")
            vc.check(t == 0xEF1, "GUID kind")
            vc.check(c.encode() == body[0:u(body, 0, 4)], "GUID certificate re-encodes")
            vc.check(s.tell() == blen(pre) + u(body, 0, 4), "GUID certificate consumed")
        else:
            vc.reach("pkcs1")
            vc.check(isinstance(c, M.WinCertPkcs1), "kind")
            vc.check(t == 0xEF0, "PKCS1 kind")
            vc.check(c.encode() == body[0:u(body, 0, 4)], "PKCS1 certificate re-encodes")
            vc.check(s.tell() == blen(pre) + u(body, 0, 4), "PKCS1 certificate consumed")
    else:
        vc.reach("reject")
        if n >= 24:
            t = u(body, 6, 2)
            vc.check(OR(t == 0xEF0, t == 0xEF1), "other types are not an error")
            if t == 0xEF1:
                vc.check(NOT(_guid_ok(body, n)), "GUID certificate rejected only when malformed")
            else:
                vc.check(OR(n == 24, u(body, 0, 4) < 24, u(body, 0, 4) > n), "PKCS1 certificate rejected only when malformed")


HARNESSES = [
    H("pkcs1_decode", pkcs1_decode, pkcs1_decode.__doc__, must_reach=["accept", "reject"]),
    H("pkcs1_build", pkcs1_build, pkcs1_build.__doc__, must_reach=["decoded"]),
    H("guid_decode_buffer", guid_decode_buffer, "GUID certificate from bytes: accepted iff well formed, faithful fields, remaining bytes, "
      "byte-exact re-encode", must_reach=["accept", "reject"]),
    H("guid_decode_stream", guid_decode_stream, "GUID certificate from a stream at any position", must_reach=["accept", "reject"]),
    H("guid_build", guid_build, guid_build.__doc__, must_reach=["decoded"]),
    H("guid_encode_rejects", guid_encode_rejects, "only the supported revision/type/GUID are encoded", must_reach=["ok", "reject"]),
    H("factory", factory, factory.__doc__, must_reach=["none", "guid", "pkcs1", "reject"]),
]
