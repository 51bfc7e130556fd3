import datetime
import uuid

from contracts.base import H
from pyvc.util import AND, NOT, OR, all_eq, blen, cat, guid_le, ite, le, outcome, stream, u

ID = "C04"
LEVEL = "proof"
TRUSTED = ["datetime.datetime (modelled: field ranges, leap years, equality)", "cryptography's PKCS7 builder and pyasn1 (the signature bytes are arbitrary)"]
ASSUMPTIONS = ["streams are io.BytesIO", "printing is C30's",
               "finalize(omit_content_info=True) unwraps the signature with pyasn1, which is not modelled: contract covers finalize(False)"]
EXPLANATION = ("Contracts of EFI_TIME, EFI_VARIABLE_AUTHENTICATION_2 and the builder, for every date, certificate, payload length and stream position.")
A = "edk2toollib.uefi.authenticated_variables_structure_support"
W = "edk2toollib.uefi.wincert"
PKCS7 = bytes.fromhex("9dd2af4adf68ee498aa9347d375665a7")
U32 = 0xFFFFFFFF
DATES = [(2024, 2, 29), (2023, 2, 29), (1900, 2, 29), (2000, 2, 29), (2024, 12, 31), (2024, 4, 31), (0, 1, 1), (9999, 12, 31), (2024, 0, 1), (2024, 13, 1)]


def g_time(r):
    y, m, d = r.choice(DATES + [(2024, 5, 6)] * 10)
    return (y.to_bytes(2, "little") + bytes([m, d, r.choice([0, 12, 23, 23, 24]), r.choice([0, 59, 30, 60]), r.choice([0, 59, 7, 60]), r.choice([0, 0, 9])])
            + r.choice([0, 0, 999999999, 1000000000, 123456789]).to_bytes(4, "little") + r.choice([b"\0\0\0\0", b"\xff\x07\0\0", b"\0\0\1\0", b"\0\0\0\1"]))


def valid(t):
    """The 16 bytes hold an existing date, a time of day and nanoseconds below one second."""
    y, mo, d = u(t, 0, 2), t[2], t[3]
    leap = AND(y % 4 == 0, OR(y % 100 != 0, y % 400 == 0))
    dim = ite(mo == 2, ite(leap, 29, 28), ite(OR(mo == 4, mo == 6, mo == 9, mo == 11), 30, 31))
    return AND(y >= 1, y <= 9999, mo >= 1, mo <= 12, d >= 1, d <= dim, t[4] <= 23, t[5] <= 59, t[6] <= 59, u(t, 8, 4) < 1000000000)


def is_time(x, t):
    """x is the date and time the bytes hold."""
    return all_eq((x.year, u(t, 0, 2)), (x.month, t[2]), (x.day, t[3]), (x.hour, t[4]), (x.minute, t[5]), (x.second, t[6]),
                  (x.microsecond, u(t, 8, 4) // 1000))


def canon(t):
    """What encode writes: date and time, everything else zero (the form an authenticated variable requires)."""
    return cat(t[0:7], bytes(9))


def adatetime(vc):
    y = vc.int("y", 1, 9999, gen=lambda r: r.choice([1, 255, 256, 2023, 2024, 9999]))
    mo, d = vc.int("mo", 1, 12), vc.int("d", 1, 31)
    h, mi, s, us = vc.int("h", 0, 23), vc.int("mi", 0, 59), vc.int("s", 0, 59), vc.int("us", 0, 999999)
    if vc.symbolic:
        from pyvc.models import VcDateTime
        ok, t = outcome(VcDateTime, y, mo, d, h, mi, s, us)
    else:
        ok, t = outcome(datetime.datetime, y, mo, d, h, mi, s, us)
    vc.assume(ok)
    return t, cat(le(y, 2), le(mo, 1), le(d, 1), le(h, 1), le(mi, 1), le(s, 1), bytes(9))


def time_decode(vc):
    """EFI_TIME from any stream position: accepted exactly when it is a real date and time, consumes 16 bytes, exposes it, encodes it."""
    M = vc.module(A)
    pre = vc.bytes("prefix", max_len=1 << 40)
    body = vc.bytes("body", gen=lambda r: (g_time(r) + r.randbytes(3))[: r.choice([99] * 9 + [15])])
    s = stream(vc, cat(pre, body), blen(pre))
    ok, t = outcome(M.EfiTime, decodefs=s)
    if not ok:
        vc.reach("reject")
        vc.check(isinstance(t, ValueError), "rejection is a ValueError")
        if blen(body) >= 16:
            vc.check(NOT(valid(body)), "rejected only when it is no date")
        return
    vc.check(blen(body) >= 16, "needs 16 bytes")
    vc.check(valid(body), "accepted only when it is a date")
    vc.reach("accept")
    vc.check(is_time(t.time, body), "date and time")
    vc.check(t.get_datetime() == t.time, "get_datetime")
    vc.check(s.tell() == blen(pre) + 16, "consumes 16 bytes")
    vc.check(t.encode() == canon(body), "encodes to the same date and time")
    o = stream(vc, b"")
    t.write(o)
    vc.check(o.getvalue() == canon(body), "write is encode")
    ok, b = outcome(M.EfiTime.from_binary, body[0:16])
    vc.check(ok, "from_binary accepts the same bytes")
    vc.check(is_time(b.time, body), "from_binary")


def time_encode(vc):
    """Any date and time encodes to its 16 bytes and decodes back to itself (to the second)."""
    M = vc.module(A)
    t, enc = adatetime(vc)
    e = M.EfiTime(time=t)
    vc.check(e.encode() == enc, "layout")
    ok, b = outcome(M.EfiTime.from_binary, enc)
    vc.check(ok, "from_binary accepts it")
    vc.check(AND(is_time(b.time, enc), b.time.microsecond == 0), "from_binary gives it back")
    short = vc.bytes("short", max_len=15)
    ok, b = outcome(M.EfiTime.from_binary, short)
    vc.check(not ok and isinstance(b, ValueError), "too short")
    vc.reach("done")


def sig_contract(vc, M):
    """Callee contract of EfiSignatureDatabase(stream): reads anything, may fail, does not change the contents."""
    if not vc.symbolic:
        return
    import z3

    class Db:
        def __init__(self, fs):
            p = vc.fresh("dbpos")
            vc.add(p >= 0)
            from pyvc.sym import mkint
            fs.seek(mkint(p))
            if vc.branch(vc.fresh("dbok", z3.BoolSort())):
                raise Exception("no signature lists")

    vc.patch(M, "EfiSignatureDatabase", Db)


def auth_decode(vc):
    """Any authenticated variable: time, certificate and payload split exactly, encode and write give the bytes back."""
    M = vc.module(A)
    sig_contract(vc, M)
    pre = vc.bytes("prefix", max_len=1 << 40)

    def gen(r):
        n = r.choice([0, 1, 5, 40])
        cert = ((24 + n + r.choice([0, 0, 0, 0, 1, -1])).to_bytes(4, "little") + b"\0\2" + r.choice([b"\xf1\x0e"] * 5 + [b"\xf0\x0e"])
                + r.choice([PKCS7] * 5 + [bytes(16)]) + r.randbytes(n))
        esl = bytes.fromhex("2616c4c14c509240aca941f936934328") + (28 + 48).to_bytes(4, "little") + bytes(4) + (48).to_bytes(4, "little") + r.randbytes(48)
        return (g_time(r) + cert + r.choice([b"", esl, esl + esl, r.randbytes(7), r.randbytes(60)]))[: r.choice([9999] * 8 + [30])]

    body = vc.bytes("body", gen=gen)
    s = stream(vc, cat(pre, body), blen(pre))
    ok, v = outcome(M.EfiVariableAuthentication2, decodefs=s)
    n = blen(body)
    if not ok:
        vc.reach("reject")
        if n >= 40:
            ln = u(body, 16, 4)
            guid = AND(u(body, 20, 2) == 0x200, u(body, 22, 2) == 0xEF1, body[24:40] == PKCS7)
            vc.check(NOT(AND(valid(body), guid, ln >= 24, ln <= n - 16)), "a well-formed variable is not rejected")
        return
    vc.check(n >= 40, "needs time and certificate header")
    vc.check(valid(body), "needs a date")
    vc.reach("accept")
    ln = u(body, 16, 4)
    vc.check(AND(ln >= 24, 16 + ln <= n), "certificate length fits the data")
    vc.check(is_time(v.time.time, body), "time")
    vc.check(v.auth_info.encode() == body[16:16 + ln], "certificate")
    vc.check(v.payload_size == n - 16 - ln, "payload size")
    rest = body[16 + ln:n]
    if n - 16 - ln > 0:
        vc.reach("payload")
        vc.check(v.payload == rest, "payload is everything after the certificate")
    else:
        vc.check(v.payload is None, "no payload")
    vc.check(v.encode() == cat(canon(body), body[16:n]), "encode gives the bytes back")
    o = stream(vc, b"")
    v.write(o)
    vc.check(o.getvalue() == cat(canon(body), body[16:n]), "write gives the bytes back")


def sig_payload(vc):
    """The payload is also exposed as signature database exactly when it is one, and this does not change the payload."""
    M = vc.module(A)
    k = vc.choice("k", ["lists", "other"])
    if k == "lists":
        n = vc.choice("n", [1, 2])
        vc.bound("one or two lists of one hash")
        lists = []
        for i in range(n):
            lists.append(cat(bytes.fromhex("2616c4c14c509240aca941f936934328"), le(76, 4), bytes(4), le(48, 4), vc.bytes("d%d" % i, 48)))
        payload = cat(*lists)
    else:
        payload = vc.bytes("payload", min_len=1, max_len=27)
    t, enc = adatetime(vc)
    v = M.EfiVariableAuthentication2(time=t)
    pre = vc.bytes("prefix", max_len=1 << 40)
    s = stream(vc, cat(pre, payload), blen(pre))
    v.set_payload(s)
    vc.check(v.payload == payload, "payload")
    if k == "lists":
        vc.check(v.sig_list_payload is not None and v.sig_list_payload.encode() == payload, "signature database")
    else:
        vc.check(v.sig_list_payload is None, "no signature database")
    vc.reach(k)


def attributes(vc):
    a = vc.int("attributes", 0, U32)
    return a, le(a, 4)


def aname(vc):
    """Any variable name, as its UTF-16 bytes."""
    if vc.symbolic:
        from pyvc.sym import SymStr
        b = vc.bytes("name16", max_len=1 << 20)
        return SymStr([("dec", "utf-16-le", b)]), b
    b = vc.bytes("name16", gen=lambda r: r.choice(["db", "", "PK", "n\u00e4me", "a\U0001f600"]).encode("utf_16_le"))
    ok, s = outcome(b.decode, "utf_16_le")
    vc.assume(ok)
    return s, b


def builder(vc):
    """The digest to sign is name, GUID, attributes, time and payload, in the order of the specification, for every payload form."""
    M = vc.module(A)
    sig_contract(vc, M)
    name, name16 = aname(vc)
    g = vc.uuid("guid")
    a, a4 = attributes(vc)
    t, enc = adatetime(vc)
    head = cat(name16, g.bytes_le, a4, enc)
    p1, p2 = vc.bytes("p1"), vc.bytes("p2")
    form = vc.choice("form", ["none", "bytes", "stream", "update"])
    if form == "none":
        b = M.EfiVariableAuthentication2Builder(name, g, a, efi_time=t)
        vc.check(b.get_digest() == head, "digest without payload")
        vc.check(b.authenticated_variable.payload is None, "no payload")
    elif form == "bytes":
        b = M.EfiVariableAuthentication2Builder(name, g, a, p1, t)
        vc.check(b.get_digest() == cat(head, p1), "digest")
        if blen(p1) > 0:
            vc.check(b.authenticated_variable.payload == p1, "payload")
    elif form == "stream":
        s = stream(vc, cat(p1, p2), blen(p1))
        b = M.EfiVariableAuthentication2Builder(name, g, a, s, t)
        vc.check(b.get_digest() == cat(head, p2), "digest of the rest of the stream")
        if blen(p2) > 0:
            vc.check(b.authenticated_variable.payload == p2, "payload is the rest of the stream")
    else:
        b = M.EfiVariableAuthentication2Builder(name, g, a, p1, t)
        vc.assume(blen(p2) > 0)
        b.update_payload(p2)
        vc.check(b.get_digest() == cat(head, p2), "the digest follows the last payload alone")
        vc.check(b.authenticated_variable.payload == p2, "the payload is the last one")
    vc.reach(form)


class FakeSigner:
    """Stands for cryptography's PKCS7SignatureBuilder: records what is signed, returns arbitrary signature bytes."""

    def __init__(self, sig, log):
        self.sig, self.log = sig, log

    def set_data(self, d):
        self.log.append(("data", d))
        return self

    def add_signer(self, c, k, h):
        self.log.append(("signer", c, k, h))
        return self

    def add_certificate(self, c):
        self.log.append(("cert", c))
        return self

    def sign(self, enc, options):
        self.log.append(("sign", enc, tuple(options)))
        return self.sig


class Cert:
    issuer = subject = "x"


class CertBox:
    def __init__(self):
        self.certificate = Cert()


def signing(vc):
    """What is signed is the digest (with the payload), and the finalized variable is time, PKCS#7 certificate with the signature, payload."""
    M = vc.module(A)
    sig_contract(vc, M)
    from cryptography.hazmat.primitives.serialization import pkcs7
    name, name16 = aname(vc)
    g = vc.uuid("guid")
    a, a4 = attributes(vc)
    t, enc = adatetime(vc)
    payload = vc.bytes("payload")
    sig = vc.bytes("sig", max_len=U32 - 24)
    b = M.EfiVariableAuthentication2Builder(name, g, a, payload, t)
    log = []
    b.signature_builder = FakeSigner(sig, log)
    n = vc.choice("extra", [0, 1, 2])
    extra = [CertBox() for _ in range(n)]
    c, k = Cert(), object()
    b.sign(c, k, extra)
    v = b.finalize(omit_content_info=False)
    vc.check(log[0][1] == cat(name16, g.bytes_le, a4, enc, payload), "signed data")
    vc.check(log[1][0] == "signer" and log[1][1] is c and log[1][2] is k, "signer")
    vc.check([x[1] for x in log if x[0] == "cert"] == [e.certificate for e in extra], "additional certificates")
    vc.check(log[-1][0] == "sign" and set(log[-1][2]) == {pkcs7.PKCS7Options.DetachedSignature, pkcs7.PKCS7Options.Binary,
                                                          pkcs7.PKCS7Options.NoAttributes}, "detached, binary, no attributes")
    vc.check(b.get_signature() == sig, "signature")
    cert = cat(le(24 + blen(sig), 4), le(0x200, 2), le(0xEF1, 2), PKCS7, sig)
    vc.check(v.encode() == cat(enc, cert, payload), "the variable is time, certificate, payload")
    o = stream(vc, b"")
    v.write(o)
    vc.check(o.getvalue() == cat(enc, cert, payload), "write is encode")
    vc.reach("signed")


_KEY = []


def key():
    if not _KEY:
        from cryptography import x509
        from cryptography.hazmat.primitives import hashes
        from cryptography.hazmat.primitives.asymmetric import rsa
        from cryptography.x509.oid import NameOID
        k = rsa.generate_private_key(public_exponent=65537, key_size=2048)
        n = x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, "test")])
        c = (x509.CertificateBuilder().subject_name(n).issuer_name(n).public_key(k.public_key()).serial_number(7)
             .not_valid_before(datetime.datetime(2020, 1, 1)).not_valid_after(datetime.datetime(2040, 1, 1)).sign(k, hashes.SHA256()))
        _KEY.append((k, c))
    return _KEY[0]


def real_signing(vc):
    """With a real key: the embedded signature is SignedData without ContentInfo and verifies over the digest."""
    import io
    from cryptography.hazmat.primitives import hashes
    from cryptography.hazmat.primitives.asymmetric import padding
    from pyasn1.codec.der.decoder import decode as der_decode
    from pyasn1_modules import rfc2315
    M = vc.module(A)
    name, name16 = aname(vc)
    g = vc.uuid("guid")
    a, a4 = attributes(vc)
    t, enc = adatetime(vc)
    payload = vc.bytes("payload")
    k, c = key()
    b = M.EfiVariableAuthentication2Builder(name, g, a, payload, t)
    b.sign(c, k)
    v = b.finalize()
    sd, rest = der_decode(b.get_signature(), asn1Spec=rfc2315.SignedData())
    vc.check(rest == b"", "the signature is exactly a SignedData")
    si = sd["signerInfos"][0]
    ok, r = outcome(k.public_key().verify, bytes(si["encryptedDigest"]), name16 + g.bytes_le + a4 + enc + payload, padding.PKCS1v15(), hashes.SHA256())
    vc.check(ok, "the signature verifies over name, GUID, attributes, time and payload")
    e = v.encode()
    vc.check(e == enc + v.auth_info.encode() + payload and v.auth_info.cert_data == b.get_signature(), "layout")
    d = M.EfiVariableAuthentication2(decodefs=io.BytesIO(e))
    vc.check(d.encode() == e and (d.payload or b"") == payload, "decodes back")


HARNESSES = [
    H("real_signing", real_signing, real_signing.__doc__, symbolic=False, runs=12, why_bounded="cryptography and pyasn1 run for real"),
    H("time_decode", time_decode, time_decode.__doc__, must_reach=["accept", "reject"]),
    H("time_encode", time_encode, time_encode.__doc__, must_reach=["done"]),
    H("auth_decode", auth_decode, auth_decode.__doc__, must_reach=["accept", "reject", "payload"]),
    H("sig_payload", sig_payload, sig_payload.__doc__, must_reach=["lists", "other"]),
    H("builder", builder, builder.__doc__, must_reach=["none", "bytes", "stream", "update"]),
    H("signing", signing, signing.__doc__, must_reach=["signed"]),
]
