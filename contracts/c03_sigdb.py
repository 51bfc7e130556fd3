from contracts.base import H
from pyvc.util import AND, NOT, OR, outcome

ID = "C03"
LEVEL = "model_checking"
TRUSTED = []
ASSUMPTIONS = ["list.sort is CPython's (executed, not modelled)",
               "symbolic runs represent the data of a signature by its rank in an arbitrary total order: the code under contract may only compare it"]
EXPLANATION = ("The canonicalization functions are executed on every shape of database up to the stated number of signatures, with every order and "
               "every equality pattern of the signature contents (decided by the solver, path by path); larger databases are a random search.")
A = "edk2toollib.uefi.authenticated_variables_structure_support"


def rank(vc, name, hi=50):
    return vc.int(name, 0, hi, gen=lambda r: r.choice([0, 1, 2, 3, 49]))


def data(vc, M, kind, name, x509len=17):
    """A signature whose contents are rank 'name'; the owner identifies it."""
    v = rank(vc, name)
    cls = M.EfiSignatureDataEfiCertSha256 if kind == "s" else M.EfiSignatureDataEfiCertX509
    d = cls.__new__(cls)
    d.signature_data = v if vc.symbolic else v.to_bytes(32 if kind == "s" else 1 + v % 3, "big") if kind == "s" else bytes([v]) * (1 + v % 3)
    import uuid
    d.signature_owner = uuid.UUID(int=int.from_bytes(name.encode(), 'big'))
    d.vcname = name
    return d


def mklist(vc, M, kind, names, size=None):
    F = M.EfiSignatureDataFactory
    esl = M.EfiSignatureList(typeguid=F.EFI_CERT_SHA256_GUID if kind == "s" else F.EFI_CERT_X509_GUID)
    ds = [data(vc, M, kind, n) for n in names]
    sz = 48 if kind == "s" else 17 if vc.symbolic or not ds else 16 + len(ds[0].signature_data)
    if size is not None:
        sz = size
    esl.signature_header_size = 0
    esl.signature_size = sz
    esl.signature_data_list = ds
    esl.signature_list_size = 28 + sz * len(ds)
    return esl


def key(d):
    return d.signature_data


def snap(db):
    return [(e.signature_type, e.signature_list_size, e.signature_header_size, e.signature_size,
             None if e.signature_data_list is None else [who(d) for d in e.signature_data_list]) for e in db.esl_list]


def who(d):
    """Identity of a signature: every one has its own owner."""
    return d.signature_owner.int


def judge(vc, M, db, shas, certs):
    """What canonical and duplicates must be for the given input signatures (in database order)."""
    before = snap(db)
    canon, dupes = db.get_canonical_and_dupes()
    vc.check(before == snap(db), "the database itself is unchanged")
    F = M.EfiSignatureDataFactory
    cs = [e for e in canon.esl_list if e.signature_type == F.EFI_CERT_SHA256_GUID]
    cx = [e for e in canon.esl_list if e.signature_type == F.EFI_CERT_X509_GUID]
    vc.check(canon.esl_list == cs + cx and len(cs) <= 1, "at most one hash list, before the certificate lists")
    ds = [e for e in dupes.esl_list if e.signature_type == F.EFI_CERT_SHA256_GUID]
    dx = [e for e in dupes.esl_list if e.signature_type == F.EFI_CERT_X509_GUID]
    for kind, cl, dl, items in (("hash", cs, ds, shas), ("certificate", cx, dx, certs)):
        for e in cl + dl:
            n = len(e.signature_data_list)
            vc.check(e.signature_list_size == 28 + e.signature_size * n, "sizes of every result list are exact")
            vc.check(n == 0 or kind != "hash" or e.signature_size == 48, "signature size of every result list")
        c = [x for e in cl for x in e.signature_data_list]
        d = [x for e in dl for x in e.signature_data_list]
        ids = sorted(map(who, c + d))
        vc.check(ids == sorted(who(x) for x in items), "%s: every signature is in exactly one of canonical and duplicates" % kind)
        for a, b in zip(c, c[1:]):
            vc.check(key(a) < key(b), "%s: canonical is strictly ascending" % kind)
        for a in d:
            first = [x for x in c if who(x) != who(a)]
            hit = False
            for x in first:
                if key(x) == key(a):
                    hit = True
                    vc.check(items_index(items, x) < items_index(items, a), "%s: the first of equal signatures is kept" % kind)
                    break
            vc.check(hit, "%s: a duplicate equals a canonical signature" % kind)
    again, dupes2 = db.get_canonical_and_dupes()
    vc.check([[who(x) for x in e.signature_data_list] for e in again.esl_list] == [[who(x) for x in e.signature_data_list] for e in canon.esl_list]
             and [[who(x) for x in e.signature_data_list] for e in dupes2.esl_list] == [[who(x) for x in e.signature_data_list] for e in dupes.esl_list],
             "asking again gives the same answer")
    return canon


def items_index(items, x):
    return next(i for i, y in enumerate(items) if who(y) == who(x))


SHA_SHAPES = [(), (0,), (1,), (2,), (3,), (4,), (1, 1), (0, 2), (2, 0), (1, 2), (2, 1), (1, 1, 1), (2, 2), (1, 0, 1, 1)]


def hashes(vc):
    """Any database of hash lists: one ascending list of distinct hashes, the rest are duplicates."""
    M = vc.module(A)
    vc.bound("at most 4 hashes in at most 4 lists, any contents")
    shape = vc.choice("shape", SHA_SHAPES)
    lists, k = [], 0
    for n in shape:
        # an empty list may carry any signature size
        lists.append(mklist(vc, M, "s", ["s%d" % (k + j) for j in range(n)], None if n else 0))
        k += n
    vc.reach("shape %d" % k)
    judge(vc, M, M.EfiSignatureDatabase(esl_list=lists), [d for e in lists for d in e.signature_data_list], [])


def certs(vc):
    """Any database of certificate lists: distinct certificates, ascending."""
    M = vc.module(A)
    vc.bound("at most 4 certificates, any contents")
    n = vc.choice("n", [0, 1, 2, 3, 4])
    lists = [mklist(vc, M, "x", ["x%d" % j]) for j in range(n)]
    vc.reach("n %d" % n)
    judge(vc, M, M.EfiSignatureDatabase(esl_list=lists), [], [d for e in lists for d in e.signature_data_list])


def mixed(vc):
    """Hash and certificate lists in any interleaving."""
    M = vc.module(A)
    vc.bound("at most 2 hashes and 2 certificates, any contents, any interleaving")
    order = vc.choice("order", ["sx", "xs", "ssx", "sxs", "xss", "sxx", "xsx", "xxs", "ssxx", "sxsx", "xsxs", "xxss", "sxxs", "xssx"])
    empty = vc.choice("empty", ["none", "first", "last"])
    lists, s, x = [], [], []
    for i, k in enumerate(order):
        e = mklist(vc, M, k, ["%s%d" % (k, i)])
        lists.append(e)
        (s if k == "s" else x).extend(e.signature_data_list)
    new = M.EfiSignatureList(typeguid=M.EfiSignatureDataFactory.EFI_CERT_SHA256_GUID)
    lists = {"none": lists, "first": [new] + lists, "last": lists + [new]}[empty]
    vc.reach(empty)
    db = M.EfiSignatureDatabase(esl_list=lists)
    c = judge(vc, M, db, s, x)
    vc.check([who(d) for e in db.get_canonical().esl_list for d in e.signature_data_list] == [who(d) for e in c.esl_list for d in e.signature_data_list],
             "get_canonical is the first component")


def unsupported(vc):
    """A non-empty list of another type is refused, whatever else is there."""
    M = vc.module(A)
    e = mklist(vc, M, "s", ["s0"])
    o = mklist(vc, M, "s", ["s1"])
    o.signature_type = vc.uuid("type")
    F = M.EfiSignatureDataFactory
    other = AND(o.signature_type != F.EFI_CERT_SHA256_GUID, o.signature_type != F.EFI_CERT_X509_GUID)
    ok, r = outcome(M.EfiSignatureDatabase(esl_list=vc.choice("order", [[e, o], [o, e], [o]])).get_canonical_and_dupes)
    vc.check(ok == NOT(other), "refused exactly when unsupported")
    vc.reach("refused" if not ok else "accepted")


def nodedup(vc):
    """Sorting without deduplication keeps everything, ascending; sorting with it keeps the first of each."""
    M = vc.module(A)
    vc.bound("at most 4 hashes, any contents")
    n = vc.choice("n", [0, 1, 2, 3, 4])
    e = mklist(vc, M, "s", ["s%d" % i for i in range(n)])
    items = list(e.signature_data_list)
    d = e.SortBySignatureDataValue(deduplicate=False)
    vc.check(len(d.signature_data_list) == 0 and d.signature_list_size == 28 and d.signature_size == 0, "no duplicates are taken out")
    vc.check(sorted(map(who, e.signature_data_list)) == sorted(map(who, items)) and e.signature_list_size == 28 + 48 * n, "nothing is lost")
    for a, b in zip(e.signature_data_list, e.signature_data_list[1:]):
        vc.check(key(a) <= key(b), "ascending")
    vc.reach("n %d" % n)


def random_db(vc):
    """Larger databases, on the real code, through the decoded bytes."""
    M = vc.module(A)
    import io
    r = vc.rng
    spec = vc.data("spec", lambda r: [[r.choice("ssx"), [r.choice([0, 1, 2, 3, 4, 5, 250]) for _ in range(r.choice([0, 1, 1, 2, 3, 9]))]]
                                      for _ in range(r.choice([1, 2, 3, 6, 12]))])
    lists, n = [], 0
    for k, vals in spec:
        if k == "s":
            lists.append(("s", [(n + j, v) for j, v in enumerate(vals)]))
        else:
            lists += [("x", [(n + j, v)]) for j, v in enumerate(vals)]
        n += len(vals)
    F = M.EfiSignatureDataFactory
    out = b""
    for k, vals in lists:
        t = (F.EFI_CERT_SHA256_GUID if k == "s" else F.EFI_CERT_X509_GUID).bytes_le
        body = b"".join(o.to_bytes(16, "little") + (bytes([v]) * 32 if k == "s" else bytes([v]) * (1 + v % 5)) for o, v in vals)
        sz = 48 if k == "s" else 16 + 1 + vals[0][1] % 5
        out += t + (28 + len(body)).to_bytes(4, "little") + bytes(4) + sz.to_bytes(4, "little") + body
    db = M.EfiSignatureDatabase(io.BytesIO(out))
    items = [d for e in db.esl_list for d in e.signature_data_list]
    s = [d for d in items if isinstance(d, M.EfiSignatureDataEfiCertSha256)]
    x = [d for d in items if not isinstance(d, M.EfiSignatureDataEfiCertSha256)]
    c = judge(vc, M, db, s, x)
    vc.check(db.encode() == out, "the database still encodes to its bytes")
    c2 = M.EfiSignatureDatabase(io.BytesIO(c.encode()))
    vc.check(c2.encode() == c.encode() and c2.get_canonical().encode() == c.encode(), "canonical of canonical is itself")


HARNESSES = [
    H("hashes", hashes, hashes.__doc__, must_reach=["shape 4", "shape 0"]),
    H("certs", certs, certs.__doc__, must_reach=["n 4"]),
    H("mixed", mixed, mixed.__doc__, must_reach=["none", "first", "last"]),
    H("unsupported", unsupported, unsupported.__doc__, must_reach=["refused", "accepted"]),
    H("nodedup", nodedup, nodedup.__doc__, must_reach=["n 4"]),
    H("random_db", random_db, random_db.__doc__, symbolic=False, runs=400, why_bounded="random databases up to 12 groups of lists"),
]
