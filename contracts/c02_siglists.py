from contracts.base import H
from pyvc.lists import Indexed, Stride, SymList
from pyvc.util import AND, IMPLIES, NOT, OR, all_eq, blen, cat, dead, guid_le, le, outcome, stream, u, zeros

ID = "C02"
LEVEL = "proof"
TRUSTED = []
ASSUMPTIONS = ["printing is C30's", "streams are io.BytesIO",
               "the database loop is verified against the contract of a signature list (consumes exactly its declared size, encodes to the same "
               "bytes), which is verified separately by the list_* harnesses"]
EXPLANATION = ("Contracts of the EFI signature data, list and database codecs; the element loops of a list and the list loop of a database are "
               "verified with loop invariants for any number of elements/lists, any signature size, any stream position.")
U32 = 0xFFFFFFFF
A = "edk2toollib.uefi.authenticated_variables_structure_support"
SHA = bytes.fromhex("2616c4c14c509240aca941f936934328")
X509 = bytes.fromhex("a159c0a5e494a74a87b5ab155c2bf072")


def g_x509_items(r, sz, n):
    return b"".join(r.randbytes(sz) for _ in range(n))


def g_list(r):
    t = r.choice([SHA, SHA, X509, X509, bytes(16)])
    sz = 48 if t == SHA else r.choice([16, 17, 20, 48, 0, 1])
    n = r.choice([0, 0, 1, 1, 2, 3])
    d = g_x509_items(r, sz, n)
    ls = 28 + len(d) + r.choice([0, 0, 0, 0, 0, 0, 1, -1, -28])
    return (t + max(0, ls).to_bytes(4, "little") + r.choice([0, 0, 0, 0, 1, 4]).to_bytes(4, "little") + (sz + r.choice([0, 0, 0, 0, 1])).to_bytes(4, "little")
            + d + r.choice([b"", b"", b"tail"]))[: r.choice([9999] * 6 + [27, 30])]


def good_list(r):
    t = r.choice([SHA, X509])
    sz = 48 if t == SHA else r.choice([16, 17, 20, 48])
    n = r.choice([0, 1, 2])
    d = g_x509_items(r, sz, n)
    return t + (28 + len(d)).to_bytes(4, "little") + bytes(4) + sz.to_bytes(4, "little") + d


# ------------------------------------------------------------------ signature data
def x509_decode(vc):
    M = vc.module(A)
    pre = vc.bytes("prefix", max_len=1 << 40)
    body = vc.bytes("body")
    size = vc.int("size", -10, 1 << 33, gen=lambda r: r.choice([0, 1, 15, 16, 17, 30, 60]))
    s = stream(vc, cat(pre, body), blen(pre))
    ok, d = outcome(M.EfiSignatureDataEfiCertX509, decodefs=s, decodesize=size)
    good = AND(size >= 16, size <= blen(body))
    if ok:
        vc.reach("accept")
        vc.check(good, "accepted only when the size covers the owner and fits the data")
        vc.check(AND(d.signature_owner.bytes_le == body[0:16], d.signature_data == body[16:size]), "owner and data")
        vc.check(d.get_total_size() == size, "total size")
        vc.check(s.tell() == blen(pre) + size, "consumes exactly the size")
        vc.check(d.encode() == body[0:size], "encode gives the bytes back")
        o = stream(vc, b"")
        d.write(o)
        vc.check(o.getvalue() == body[0:size], "write gives the bytes back")
    else:
        vc.reach("reject")
        vc.check(isinstance(d, ValueError), "rejection is a ValueError")
        vc.check(NOT(good), "rejected only when malformed")


def sha_decode(vc):
    M = vc.module(A)
    pre = vc.bytes("prefix", max_len=1 << 40)
    body = vc.bytes("body")
    s = stream(vc, cat(pre, body), blen(pre))
    ok, d = outcome(M.EfiSignatureDataEfiCertSha256, decodefs=s)
    vc.check(ok == (blen(body) >= 48), "accepted exactly when 48 bytes are there")
    if ok:
        vc.reach("accept")
        vc.check(AND(d.signature_owner.bytes_le == body[0:16], d.signature_data == body[16:48]), "owner and hash")
        vc.check(AND(d.get_total_size() == 48, s.tell() == blen(pre) + 48), "consumes exactly 48 bytes")
        vc.check(d.encode() == body[0:48], "encode gives the bytes back")


def data_create(vc):
    """New signature data from a digest, from content to hash, or from certificate bytes."""
    M = vc.module(A)
    F = M.EfiSignatureDataFactory
    owner = vc.uuid("owner")
    pre = vc.bytes("prefix", max_len=1 << 40)
    content = vc.bytes("content")
    kind = vc.choice("kind", ["digest", "sha", "x509", "cert"])
    fs = stream(vc, cat(pre, content), blen(pre))
    if kind == "digest":
        ok, d = outcome(M.EfiSignatureDataEfiCertSha256, digest=content, sigowner=owner)
        vc.check(ok == (blen(content) == 32), "a digest is exactly 32 bytes")
        if not ok:
            return
        data = content
    elif kind == "sha":
        import hashlib
        d = F.create(F.EFI_CERT_SHA256_GUID, fs, owner)
        if vc.symbolic:
            from pyvc.models import HashModel
            data = HashModel("sha256", content).digest()
        else:
            data = hashlib.sha256(content).digest()
    elif kind == "x509":
        d = F.create(F.EFI_CERT_X509_GUID, fs, owner)
        data = content
    else:
        d = M.EfiSignatureDataEfiCertX509(cert=content, sigowner=owner)
        data = content
    vc.reach(kind)
    vc.check(AND(d.signature_owner == owner, d.signature_data == data, d.get_total_size() == 16 + blen(data)), "owner, data and total size")
    vc.check(d.encode() == cat(owner.bytes_le, data), "encoded layout")


def data_factory(vc):
    """The factory decides the kind by the type alone and refuses other types."""
    M = vc.module(A)
    F = M.EfiSignatureDataFactory
    body = vc.bytes("body", min_len=64, max_len=1 << 20)
    t = guid_le(vc, vc.bytes("type", 16, gen=lambda r: r.choice([SHA, X509, bytes(16)])))
    size = vc.int("size", 0, 64, gen=lambda r: r.choice([48, 48, 20, 60]))
    fs = stream(vc, body)
    ok, d = outcome(F.factory, fs, t, size)
    if ok:
        vc.reach("accept")
        if isinstance(d, M.EfiSignatureDataEfiCertSha256):
            vc.check(AND(t.bytes_le == SHA, size == 48), "hash kind")
        else:
            vc.check(AND(t.bytes_le == X509, size >= 16), "certificate kind")
        vc.check(AND(d.encode() == body[0:size], fs.tell() == size), "decoded exactly size bytes")
    else:
        vc.reach("reject")
        vc.check(NOT(OR(AND(t.bytes_le == SHA, size == 48), AND(t.bytes_le == X509, size >= 16))), "rejected only when unsupported")
    ok, d = outcome(F.create, t, stream(vc, body), vc.uuid("owner"))
    vc.check(ok == OR(t.bytes_le == SHA, t.bytes_le == X509), "create supports exactly the two types")


# ------------------------------------------------------------------ signature list
def list_decode(vc):
    """Any list at any position: consumes exactly the declared size, element k is exactly bytes 28+k*size.., encode is byte-exact."""
    M = vc.module(A)
    pre = vc.bytes("prefix", max_len=1 << 40)
    body = vc.bytes("body", gen=g_list)
    n = blen(body)
    s = stream(vc, cat(pre, body), blen(pre))
    esl = M.EfiSignatureList(typeguid=guid_le(vc, SHA))
    if n >= 28:
        typ, ls, hs, sz = body[0:16], u(body, 16, 4), u(body, 20, 4), u(body, 24, 4)
        kind = vc.choice("kind", ["sha", "x509", "other"])
        vc.assume({"sha": typ == SHA, "x509": typ == X509, "other": AND(typ != SHA, typ != X509)}[kind])
        if vc.symbolic:
            if kind == "sha":
                vc.assume(OR(sz == 48, ls == 28, ls < 28))   # every other size: see list_sizes
                sz = 48
            cnt = vc.fresh("cnt")
            S = Stride(vc, "mul", sz)
            from pyvc.sym import mkint, zint
            import z3
            cnt = mkint(cnt)
            rem = ls - 28
            zz = zint(sz)
            if kind != "sha":
                # cnt is (ls - 28) // sz when the size divides the data
                vc.add(cnt.z == z3.If(z3.And(zint(rem) > 0, zz > 0), zint(rem) / zz, 0))
                # k*size = rem for k = rem // size exactly when the size divides rem
                vc.add(z3.Implies(z3.And(zint(rem) > 0, zz > 0), (zint(rem) - zz * (zint(rem) / zz) == 0) == (S.F(cnt.z) == zint(rem))))
                vc.add(cnt.z >= 0)
            else:
                vc.add(cnt.z == z3.If(zint(rem) > 0, zint(rem) / 48, 0))
            vc.add(z3.Implies(zint(rem) == 0, cnt.z == 0))
            f = lambda vc, i: S.fact(i, cnt)  # noqa: E731

            def el(k):
                o = 28 + S.off(k)
                f(vc, k)
                if kind == "sha":
                    return M.EfiSignatureDataEfiCertSha256(digest=body[o + 16:o + 48], sigowner=guid_le(vc, body[o:o + 16]))
                return M.EfiSignatureDataEfiCertX509(cert=body[o + 16:o + sz], sigowner=guid_le(vc, body[o:o + 16]))

            vc.contract(A + ":EfiSignatureList.decode#0", Indexed("decode list", lambda vc, i, L: {}, cnt, facts=f,
                        heap=lambda vc, i, L: [(esl, "signature_data_list", ElList(i, el)), (s, "pos", blen(pre) + 28 + S.off(i))],
                        inv=lambda vc, i: [OR(i == 0, AND(sz >= 16, kind != "other"))]))
            vc.contract(A + ":EfiSignatureList.write#0", Indexed("write list", lambda vc, i, L: {}, cnt, facts=f,
                        heap=lambda vc, i, L: [(L["fs"], "content", body[0:28 + S.off(i)]), (L["fs"], "pos", 28 + S.off(i))]))
        else:
            if sz == 0 or ls <= 28:
                cnt = 0
            else:
                cnt = (ls - 28) // sz
    ok, r = outcome(esl.decode, s)
    if not ok:
        vc.reach("reject")
        vc.check(isinstance(r, Exception), "rejection is an error")
        if n >= 28:
            if vc.symbolic:
                fits = rem == S.off(cnt)
            else:
                fits = sz != 0 and (ls - 28) % sz == 0 and (kind != "sha" or sz == 48)
            vc.check(NOT(AND(ls >= 28, ls <= n, hs == 0, OR(ls == 28, AND(kind != "other", sz >= 16, fits)))), "a well-formed list is not rejected")
        return
    vc.check(n >= 28, "needs the whole header")
    vc.check(AND(ls >= 28, ls <= n, hs == 0), "accepted only when the sizes fit the data")
    vc.reach("accept " + kind)
    vc.check(OR(ls == 28, kind != "other"), "data only of a supported type")
    vc.check(s.tell() == blen(pre) + ls, "consumes exactly the declared size")
    vc.check(all_eq((esl.signature_type.bytes_le, typ), (esl.signature_list_size, ls), (esl.signature_header_size, 0),
                    (esl.signature_size, u(body, 24, 4))), "header fields")
    vc.check(blen(esl.signature_data_list) == cnt, "number of signatures")
    if ls > 28:
        k = vc.int("k", 0)
        vc.assume(k < cnt)
        if vc.symbolic:
            f(vc, k)
            o = 28 + S.off(k)
        else:
            o = 28 + sz * k
        vc.reach("element " + kind)
        e = esl.signature_data_list[k]
        vc.check(AND(e.signature_owner.bytes_le == body[o:o + 16], e.signature_data == body[o + 16:o + sz]), "signature k is exactly its bytes")
    vc.check(esl.encode() == body[0:ls], "encode gives the consumed bytes back")


class ElList(SymList):
    """Signature data objects compare by the fields their contract speaks about."""

    def __init__(self, n, get):
        g = lambda k: El(get(k))  # noqa: E731
        g.key = get
        super().__init__(n, g)


class El:
    def __init__(self, o):
        self.o = o
        self.FIXED_SIZE = o.FIXED_SIZE

    def __getattr__(self, n):
        return getattr(self.o, n)

    def __eq__(self, p):
        p = getattr(p, "o", p)
        return type(self.o) is type(p) and all_eq((self.o.signature_owner.bytes_le, p.signature_owner.bytes_le),
                                                  (self.o.signature_data, p.signature_data), (self.o.get_total_size(), p.get_total_size()))


def list_sizes(vc):
    """Which headers are accepted, for lists of up to one signature (any sizes)."""
    M = vc.module(A)
    body = vc.bytes("body", gen=g_list)
    n = blen(body)
    if n >= 28:
        typ, ls, hs, sz = body[0:16], u(body, 16, 4), u(body, 20, 4), u(body, 24, 4)
        vc.assume(OR(ls <= 28, sz == 0, sz * 2 > ls - 28))
        good = AND(ls >= 28, ls <= n, hs == 0, OR(ls == 28, AND(sz == ls - 28, OR(AND(typ == SHA, sz == 48), AND(typ == X509, sz >= 16)))))
    else:
        good = False
    ok, r = outcome(M.EfiSignatureList, stream(vc, body))
    vc.reach("accept" if ok else "reject")
    vc.check(ok == good, "accepted exactly when the sizes fit and the type is supported")


def list_bad(vc):
    """Any number of signatures of an unsupported kind or of a hash list with another signature size: refused."""
    M = vc.module(A)
    body = vc.bytes("body", min_len=28, max_len=1 << 40, gen=lambda r: (g_list(r) + bytes(28))[:r.choice([28, 100, 200])])
    typ, ls, sz = body[0:16], u(body, 16, 4), u(body, 24, 4)
    vc.assume(AND(ls > 28, OR(AND(typ == SHA, sz != 48), AND(typ == X509, sz < 16), AND(typ != SHA, typ != X509))))
    ok, r = outcome(M.EfiSignatureList, stream(vc, body))
    vc.check(not ok, "refused")
    vc.reach("refused")


def list_grow(vc):
    """From any consistent list of any length: adding a signature keeps the sizes exact, and refuses another size."""
    M = vc.module(A)
    sz = vc.int("sz", 1, 1 << 20, gen=lambda r: r.choice([16, 17, 20, 48]))
    n = vc.int("n", 0, 1000, gen=lambda r: r.choice([0, 1, 2]))
    esl = M.EfiSignatureList(typeguid=vc.uuid("type"))
    ok, r = outcome(esl.AddSignatureData, M.EfiSignatureDataEfiCertX509(cert=b"", sigowner=None))
    vc.check(not ok, "a signature needs the size to be set first")
    esl.AddSignatureHeader(None, sz)
    vc.check(AND(esl.signature_list_size == 28, esl.signature_size == sz, esl.signature_header_size == 0), "a new list is just its header")
    vc.check(esl.encode() == cat(esl.signature_type.bytes_le, le(28, 4), bytes(4), le(sz, 4)), "an empty list encodes to its header")
    ok, r = outcome(esl.AddSignatureHeader, None, sz)
    vc.check(not ok, "the header can be set only once")
    if vc.symbolic:
        S = Stride(vc, "mul", sz)
        S.fact(n, n + 1)
        mk = lambda k: object()  # noqa: E731
        esl.signature_data_list = SymList(n, mk)
        esl.signature_list_size = 28 + S.off(n)
        before = S.off(n)
    else:
        for k in range(n):
            if sz >= 16:
                esl.AddSignatureData(M.EfiSignatureDataEfiCertX509(cert=bytes([k % 256]) * (sz - 16), sigowner=guid_le(vc, bytes(16))))
        before = esl.signature_list_size - 28
    cert = vc.bytes("cert", max_len=1 << 21, gen=lambda r: r.randbytes(r.choice([0, 1, 4, 32])))
    d = M.EfiSignatureDataEfiCertX509(cert=cert, sigowner=vc.uuid("owner"))
    cnt = blen(esl.signature_data_list) if esl.signature_data_list is not None else 0
    ok, r = outcome(esl.AddSignatureData, d)
    vc.check(ok == (blen(cert) + 16 == sz), "accepted exactly when the size matches")
    vc.reach("added" if ok else "refused")
    vc.check(esl.signature_list_size == 28 + before + (sz if ok else 0), "the list size follows the signatures")
    now = blen(esl.signature_data_list) if esl.signature_data_list is not None else 0
    vc.check(now == cnt + (1 if ok else 0), "one more signature")
    if ok:
        vc.check(esl.signature_data_list[cnt] is d, "the new signature is the last one")


def list_merge(vc):
    """Merging two hash lists of any lengths: all of the first, then all of the second, sizes exact; type mismatch is refused."""
    M = vc.module(A)
    n = vc.int("n", 0, 80000000, gen=lambda r: r.choice([0, 1, 2]))
    m = vc.int("m", 0, 80000000, gen=lambda r: r.choice([0, 1, 2]))
    xa = vc.bytes("a", 48 * n)
    xb = vc.bytes("b", 48 * m)
    sa, sb = vc.bytes("ta", 16, gen=lambda r: r.choice([SHA, SHA, X509])), vc.bytes("tb", 16, gen=lambda r: r.choice([SHA, SHA, X509]))
    a = M.EfiSignatureList(typeguid=guid_le(vc, sa))
    b = M.EfiSignatureList(typeguid=guid_le(vc, sb))
    fresh = vc.bool("fresh")
    if fresh:
        vc.assume(n == 0)
    else:
        a.AddSignatureHeader(None, 48)
    b.AddSignatureHeader(None, 48)

    def el(src):
        return lambda k: M.EfiSignatureDataEfiCertSha256(digest=src[48 * k + 16:48 * k + 48], sigowner=guid_le(vc, src[48 * k:48 * k + 16]))

    if vc.symbolic:
        from pyvc.sym import mkint
        g = lambda f: (lambda k: f(mkint(k)))  # noqa: E731
        if not fresh:
            a.signature_data_list = SymList(n, g(el(xa)))
        a.signature_list_size = 28 + 48 * n
        b.signature_data_list = SymList(m, g(el(xb)))
        b.signature_list_size = 28 + 48 * m
    else:
        for k in range(n):
            a.AddSignatureData(el(xa)(k))
        for k in range(m):
            b.AddSignatureData(el(xb)(k))
    ok, r = outcome(a.MergeSignatureList, b)
    vc.check(ok == (sa == sb), "merged exactly when the types match")
    if not ok:
        vc.reach("refused")
        return
    vc.reach("merged")
    vc.check(AND(a.signature_list_size == 28 + 48 * (n + m), b.signature_list_size == 28 + 48 * m), "sizes are exact, the source keeps its own")
    vc.check(a.signature_header_size == 0, "no signature header")
    cnt = blen(a.signature_data_list) if a.signature_data_list is not None else 0
    vc.check(cnt == n + m, "every signature of both lists")
    if n + m > 0:
        vc.check(a.signature_size == 48, "signature size")
        k = vc.int("k", 0)
        vc.assume(k < n + m)
        src, j = (xa, k) if k < n else (xb, k - n)
        vc.reach("first" if src is xa else "second")
        vc.check(a.signature_data_list[k].encode() == src[48 * j:48 * j + 48], "in order, nothing lost")


# ------------------------------------------------------------------ database
def db_decode(vc):
    """Any stream content from any position to its end is a concatenation of lists: all of it is decoded and re-encoded byte-exact."""
    M = vc.module(A)
    pre = vc.bytes("prefix", max_len=1 << 40)
    body = vc.bytes("body", gen=lambda r: b"".join(good_list(r) for _ in range(r.choice([0, 1, 2, 3]))) + r.choice([b"", b"", b"", b"x", g_list(r)]))
    s = stream(vc, cat(pre, body), blen(pre))
    n = blen(body)
    if vc.symbolic:
        import z3
        from pyvc.sym import mkint, zint
        P = vc.fresh_fun("P")   # P(k): offset of list k in body
        vc.fact(P(0) == 0)
        base = blen(pre)

        def step(k):
            """P(k+1) = P(k) + size field of the list at P(k)."""
            k = zint(k)
            p = mkint(P(k if z3.is_expr(k) else z3.IntVal(k)))
            sz = u(body, p + 16, 4)
            vc.fact(P(zint(k) + 1) == zint(p + sz))
            return p, sz

        class Esl:
            """Contract of a signature list: from a stream, consumes exactly its size field (>= 28, within the data) or fails."""

            def __init__(self, fs):
                p = fs.tell() - base
                if p + 28 > n:
                    raise Exception("too short")
                sz = u(body, p + 16, 4)
                if sz < 28 or p + sz > n:
                    raise Exception("size")
                if not vc.branch(vc.fresh("ok", z3.BoolSort())):
                    raise Exception("contents")
                self.b = body[p:p + sz]
                fs.seek(sz, 1)

            def write(self, fs):
                fs.write(self.b)

            def __eq__(self, o):
                return self.b == o.b

        def item(k):
            o = Esl.__new__(Esl)
            p, q = mkint(P(k)), mkint(P(k + 1))
            o.b = body[p:q]
            return o

        vc.patch(M, "EfiSignatureList", Esl)
        db = M.EfiSignatureDatabase()

        def facts(vc, i):
            p = mkint(P(zint(i)))
            if AND(p >= 0, p + 28 <= n):
                step(i)

        vc.contract(A + ":EfiSignatureDatabase.decode#0", Indexed(
            "decode database", lambda vc, i, L: {}, n, facts=facts,
            heap=lambda vc, i, L: [(db, "esl_list", SymList(i, item)), (s, "pos", base + mkint(P(_zi(i))))],
            inv=lambda vc, i: [mkint(P(_zi(i))) >= 28 * i, mkint(P(_zi(i))) <= n]))
    else:
        db = M.EfiSignatureDatabase()
    ok, r = outcome(db.decode, s)
    if not ok:
        vc.reach("reject")
        return
    vc.reach("accept")
    vc.check(s.tell() == blen(pre) + n, "consumes everything")
    if vc.symbolic:
        cnt = db.esl_list.vc_len()
        Pn = mkint(P(_zi(cnt)))
        vc.check(Pn == n, "the lists cover the data")

        # what every earlier offset satisfies is what the decode loop checked on its way: P is increasing
        def facts2(vc, i):
            i = _zi(i)
            vc.fact(z3.Implies(z3.And(i >= 0, i < _zi(cnt)), z3.And(P(i) >= 0, P(i) < P(i + 1), P(i + 1) <= P(_zi(cnt)))))

        vc.contract(A + ":EfiSignatureDatabase.write#0", Indexed(
            "write database", lambda vc, i, L: {}, cnt, facts=facts2,
            heap=lambda vc, i, L: [(L["fs"], "content", body[0:mkint(P(_zi(i)))]), (L["fs"], "pos", mkint(P(_zi(i))))],
            inv=lambda vc, i: [mkint(P(_zi(i))) >= 0, mkint(P(_zi(i))) <= n]))
    vc.check(db.encode() == body, "encode gives the consumed bytes back")


def _zi(x):
    import z3
    from pyvc.sym import zint
    x = zint(x)
    return x if z3.is_expr(x) else z3.IntVal(x)


HARNESSES = [
    H("x509_decode", x509_decode, "X509 signature data: exact size, byte-exact", must_reach=["accept", "reject"]),
    H("sha_decode", sha_decode, "SHA256 signature data: exactly 48 bytes", must_reach=["accept"]),
    H("data_create", data_create, data_create.__doc__, must_reach=["digest", "sha", "x509", "cert"]),
    H("data_factory", data_factory, data_factory.__doc__, must_reach=["accept", "reject"]),
    H("list_decode", list_decode, list_decode.__doc__, must_reach=["accept sha", "accept x509", "element sha", "element x509", "reject"], parts=2),
    H("list_sizes", list_sizes, list_sizes.__doc__, must_reach=["accept", "reject"]),
    H("list_bad", list_bad, list_bad.__doc__, must_reach=["refused"]),
    H("list_grow", list_grow, list_grow.__doc__, must_reach=["added", "refused"]),
    H("list_merge", list_merge, list_merge.__doc__, must_reach=["merged", "refused", "first", "second"]),
    H("db_decode", db_decode, db_decode.__doc__, must_reach=["accept", "reject"]),
]
