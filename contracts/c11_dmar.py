import os
import shutil
import tempfile

from contracts.base import H
from pyvc.lists import Indexed, SymList
from pyvc.util import AND, NOT, OR, all_eq, blen, cat, le, outcome, u

ID = "C11"
LEVEL = "proof"
TRUSTED = []
ASSUMPTIONS = ["little-endian host (native struct order)", "the printed form (__str__) is not under contract",
               "a reserved device scope or remapping type ends in an error, SystemExit or AssertionError, all of which count as refusal"]
EXPLANATION = ("Device scopes, remapping structures and the table are verified separately for all byte strings; each loop has an invariant over a ghost "
               "offset function. Paths, XML and the golden list are checked by a labelled random search against an independent reader.")
A = "edk2toollib.acpi.dmar_parser"
NAMES = {1: "PCI Endpoint Device", 2: "PCI Sub-hierarchy", 3: "IOAPIC", 4: "MSI_CAPABLE_HPET", 5: "ACPI_NAMESPACE_DEVICE"}


def attempt(f, *a):
    """outcome() where leaving the program counts as refusal."""
    try:
        return outcome(f, *a)
    except SystemExit as e:
        return False, e


def _z(x):
    import z3
    from pyvc.sym import zint
    x = zint(x)
    return x if z3.is_expr(x) else z3.IntVal(x)


def g_scope(r):
    t = r.choice([1, 1, 2, 3, 4, 5] + [0, 6, 200] * (r.random() < 0.1))
    n = r.choice([0, 1, 1, 2, 5])
    ln = 6 + 2 * n + r.choice([0] * 14 + [1, -2, -6, 2])
    return bytes([t, max(ln, 0)]) + r.randbytes(4) + r.randbytes(2 * n)


def g_struct(r, kind=None):
    k = r.choice([0, 1, 1, 2, 3, 4] + [5, 9] * (r.random() < 0.1)) if kind is None else kind
    if k in (0, 1, 2):
        body = r.randbytes({0: 12, 1: 20, 2: 4}[k]) + b"".join(g_scope(r) for _ in range(r.choice([0, 1, 1, 2, 3])))
    elif k == 3:
        body = r.randbytes(16)
    else:
        body = r.randbytes(4) + r.choice([b"", b"\\_SB.X\0", r.randbytes(3)])
    return le(k, 2) + le(max(4 + len(body) + r.choice([0] * 16 + [1, -1, 2, -4]), 0), 2) + body


def g_table(r):
    b = b"".join(g_struct(r) for _ in range(r.choice([0, 1, 2, 3, 4])))
    return (b"DMAR" + r.randbytes(44))[:r.choice([48] * 9 + [40])] + b + r.choice([b""] * 9 + [b"\0"])


def scope(vc):
    """Any bytes: a device scope is accepted exactly when its length is even, holds the header and fits; fields and path are its bytes."""
    M = vc.module(A)
    b = vc.bytes("scope", gen=lambda r: g_scope(r) + r.choice([b"", b"tail"]))
    good = bool(blen(b) >= 6)
    cnt = 0
    if good:
        ln = b[1]
        good = AND(b[0] >= 1, b[0] <= 5, ln % 2 == 0, ln >= 6, ln <= blen(b))
        cnt = (ln - 6) // 2
        if vc.symbolic:
            def item(k):
                return ((b[6 + 2 * k],), (b[7 + 2 * k],))

            vc.contract(A + ":DMARTable.DeviceScopeStruct.__init__#0", Indexed(
                "path", lambda vc, i, L: {"offset": 6 + 2 * i, "number_path_entries": cnt - i}, cnt,
                heap=lambda vc, i, L: [(L["self"], "Path", SymList(_z(i), item))]))
    ok, s = attempt(M.DMARTable.DeviceScopeStruct, b)
    vc.check(ok == good, "accepted exactly when type and length are valid")
    if not ok:
        vc.reach("refused")
        return
    vc.check(all_eq((s.Type, b[0]), (s.Length, ln), (s.Reserved, u(b, 2, 2)), (s.EnumerationID, b[4]), (s.StartBusNumber, b[5])), "fields")
    for t in NAMES:
        if s.Type == t:
            vc.check(s.TypeString == NAMES[t], "name of the type")
    vc.check(blen(s.Path) == cnt, "number of path entries")
    k = vc.int("k", 0, 200)
    if k < cnt:
        vc.reach("path")
        e = s.Path[k]
        vc.check(len(e) == 2 and len(e[0]) == 1 and len(e[1]) == 1, "a path entry is a pair of one-tuples")
        vc.check(AND(e[0][0] == b[6 + 2 * k], e[1][0] == b[7 + 2 * k]), "device and function of entry k")


KINDS = {"DRHD": (0, 16, [("Flags", 4, 1), ("Reserved", 5, 1), ("SegmentNumber", 6, 2), ("RegisterBaseAddress", 8, 8)]),
         "RMRR": (1, 24, [("Reserved", 4, 2), ("SegmentNumber", 6, 2), ("ReservedMemoryBaseAddress", 8, 8), ("ReservedMemoryRegionLimitAddress", 16, 8)]),
         "ATSR": (2, 8, [("Flags", 4, 1), ("Reserved", 5, 1), ("SegmentNumber", 6, 2)])}


def scoped(vc):
    """Any bytes read as DRHD, RMRR or ATSR: the scopes tile the declared length exactly, in order, or it is refused."""
    M = vc.module(A)
    kind = vc.choice("kind", sorted(KINDS))
    t, h, fields = KINDS[kind]
    b = vc.bytes("struct", gen=lambda r: g_struct(r, t) + r.choice([b"", g_scope(r)]))
    cls = getattr(M.DMARTable, kind + "Struct" if kind != "DRHD" else "DRHDStruct")
    n = blen(b)
    good = bool(n >= h)
    size = u(b, 2, 2) if n >= 4 else 0
    given = vc.int("declared", 0, 65535, gen=lambda r: size)
    if vc.symbolic and good:
        import z3
        from pyvc.sym import mkint, zint
        P = vc.fresh_fun("P")           # offset of scope k behind the header
        N = vc.fresh("n")               # number of scopes before the loop ends or a scope is refused
        total = size - h

        def valid(p):
            """Contract of DeviceScopeStruct (harness scope)."""
            return p + 6 <= n and bool(AND(b[p] >= 1, b[p] <= 5, b[p + 1] % 2 == 0, b[p + 1] >= 6, p + b[p + 1] <= n))

        class Scope:
            def __init__(self, data):
                self.at = n - blen(data)
                vc.check(data == b[self.at:n], "a scope is read from the rest of the data")
                if not valid(self.at):
                    raise Exception("refused")
                self.Length = b[self.at + 1]

            def __eq__(self, o):
                return self.at == o.at

        def item(k):
            o = Scope.__new__(Scope)
            o.at = h + mkint(P(_z(k)))
            o.Length = b[o.at + 1]
            return o

        def facts(vc, i):
            i = _z(i)
            p = h + mkint(P(i))
            if i < N if not z3.is_expr(i) else vc.branch(i < N):
                vc.assume(mkint(P(i)) >= 0)
                vc.assume(AND(mkint(P(i)) < total, valid(p)))
                vc.fact(P(i + 1) == P(i) + zint(b[p + 1]))
            else:
                if vc.branch(i == N) and mkint(P(i)) >= 0 and mkint(P(i)) < total:
                    vc.assume(not valid(p))

        vc.fact(z3.And(P(0) == 0, N >= 0))
        vc.patch(M.DMARTable, "DeviceScopeStruct", Scope)
        vc.contract(A + ":DMARTable.%sStruct.__init__#0" % kind, Indexed(
            "scopes", lambda vc, i, L: {"header_byte_array": b[h + mkint(P(_z(i))):n], "bytes_left": total - mkint(P(_z(i)))}, mkint(N), facts=facts,
            heap=lambda vc, i, L: [(L["self"], "DeviceScope", SymList(_z(i), item))],
            inv=lambda vc, i: [mkint(P(_z(i))) >= 6 * i]))
        good = mkint(P(N)) == total
    elif good:
        good, at, want = size >= h, h, []
        while good and at < size:
            if at + 6 > n or not 1 <= b[at] <= 5 or b[at + 1] % 2 or b[at + 1] < 6 or at + b[at + 1] > n:
                good = False
            else:
                want.append(at)
                at += b[at + 1]
        good = good and at == size
    ok, s = attempt(cls, b, given)
    if not ok:
        vc.reach("refused")
        vc.check(NOT(good), "well-formed structures are accepted")
        return
    vc.check(good, "accepted exactly when the scopes add up to the length")
    vc.reach(kind)
    vc.check(all_eq((s.Type, u(b, 0, 2)), (s.Length, size), *[(getattr(s, f), u(b, o, k)) for f, o, k in fields]), "fields")
    if vc.symbolic:
        vc.check(s.DeviceScope.vc_len() == mkint(N), "all scopes, in order")
        if N > 0 if isinstance(N, int) else vc.branch(N > 0):
            vc.reach("scopes")
    else:
        vc.check(len(s.DeviceScope) == len(want), "all scopes")
        for e, at in zip(s.DeviceScope, want):
            vc.check(e.Type == b[at] and e.Length == b[at + 1] and e.Reserved == u(b, at + 2, 2) and e.EnumerationID == b[at + 4] and e.StartBusNumber == b[at + 5]
                     and [(x[0][0], x[1][0]) for x in e.Path] == [(b[at + j], b[at + j + 1]) for j in range(6, e.Length, 2)], "scope k is its bytes")


def rhsa(vc):
    """RHSA: 20 bytes, exactly its fields."""
    M = vc.module(A)
    b = vc.bytes("struct", gen=lambda r: g_struct(r, 3))
    ok, s = attempt(M.DMARTable.RHSAStruct, b, vc.int("declared", 0, 65535))
    vc.check(ok == AND(blen(b) >= 20, u(b, 2, 2) == 20) if blen(b) >= 4 else not ok, "accepted exactly when its length is 20")
    if ok:
        vc.reach("accepted")
        vc.check(all_eq((s.Type, u(b, 0, 2)), (s.Length, 20), (s.Reserved, u(b, 4, 4)), (s.RegisterBaseAddress, u(b, 8, 8)),
                        (s.ProximityDomain, u(b, 16, 4))), "fields")


def andd(vc):
    """ANDD: 24-bit reserved field, device number, and a name of the remaining length."""
    M = vc.module(A)
    b = vc.bytes("struct", gen=lambda r: g_struct(r, 4))
    n = blen(b)
    ok, s = attempt(M.DMARTable.ANDDStruct, b, vc.int("declared", 0, 65535))
    good = AND(n >= 8, u(b, 2, 2) >= 8, u(b, 2, 2) <= n) if n >= 4 else False
    vc.check(ok == good, "accepted exactly when the length holds the header and fits")
    if ok:
        vc.reach("accepted")
        ln = u(b, 2, 2)
        vc.check(all_eq((s.Type, u(b, 0, 2)), (s.Length, ln), (s.Reserved, u(b, 4, 3)), (s.ACPIDeviceNumber, b[7]),
                        (s.ACPIObjectName, b[8:ln])), "fields")


STUBS = [("DRHDStruct", 0), ("RMRRStruct", 1), ("ATSRStruct", 2), ("RHSAStruct", 3), ("ANDDStruct", 4)]


def table(vc):
    """Any bytes: the structures tile everything behind the 48-byte header, in order, each read by its type's reader; header fields, counts and flag exact."""
    M = vc.module(A)
    b = vc.bytes("table", gen=g_table)
    n = blen(b)
    vc.assume(OR(n < 38, n >= 48))
    good = bool(n >= 48)
    if vc.symbolic and good:
        import z3
        from pyvc.sym import mkint, zint
        T = M.DMARTable
        P, Q, R = vc.fresh_fun("P"), vc.fresh_fun("Q"), vc.fresh_fun("R")   # offset of struct k; RMRRs before k; index of RMRR j
        N = vc.fresh("n")
        C = vc.fresh_fun("C")                                              # ANDDs before k
        okf = z3.Function("accepted", z3.IntSort(), z3.BoolSort())            # the struct's own reader accepts the bytes at this offset
        vc.fact(z3.And(P(0) == 0, Q(0) == 0, C(0) == 0, N >= 0))

        class Sub:
            def __init__(self, data, length):
                at = n - blen(data)
                vc.check(data == b[at:n], "a structure is read from the rest of the data")
                vc.check(AND(u(b, at, 2) == self.TYPE, length == u(b, at + 2, 2)), "by the reader of its type and with its length")
                if not vc.branch(okf(zint(at))):
                    raise Exception("refused")
                self.at = at
                self.Length = u(b, at + 2, 2)

            def __eq__(self, o):
                return self.at == o.at

        subs = {}
        for name, t in STUBS:
            subs[t] = type("Sub%d" % t, (Sub,), {"TYPE": t})
            vc.patch(T, name, subs[t])
        vc.patch(T, "toXml", lambda self: None)

        def item(k):
            o = Sub.__new__(Sub)
            o.at = 48 + mkint(P(_z(k)))
            o.Length = u(b, o.at + 2, 2)
            return o

        def rmrr(j):
            return item(mkint(R(_z(j))))

        def valid(p):
            return p + 4 <= n and bool(AND(u(b, p, 2) < 5, u(b, p + 2, 2) > 0, p + u(b, p + 2, 2) <= n))

        def facts(vc, i):
            i = _z(i)
            p = 48 + mkint(P(i))
            if not (mkint(P(i)) >= 0):
                return
            if vc.branch(i < N):
                vc.assume(valid(p))
                vc.fact(okf(zint(p)))
                vc.fact(P(i + 1) == P(i) + zint(u(b, p + 2, 2)))
                t = zint(u(b, p, 2))
                vc.fact(z3.And(Q(i + 1) == Q(i) + z3.If(t == 1, 1, 0), C(i + 1) == C(i) + z3.If(t == 4, 1, 0), Q(i) >= 0))
                vc.fact(z3.Implies(t == 1, R(Q(i)) == i))
            elif vc.branch(i == N):
                if valid(p):
                    vc.fact(z3.Not(okf(zint(p))))

        def heap(vc, i, L):
            o = L["self"]
            return [(o, "data", b[48 + mkint(P(_z(i))):n]), (o.dmar_table, "SubStructs", SymList(_z(i), item)),
                    (o.dmar_table, "RMRRlist", SymList(Q(_z(i)), rmrr)), (o.dmar_table, "ANDDCount", mkint(C(_z(i))))]

        vc.contract(A + ":DMARTable.__init__#0", Indexed("structures", lambda vc, i, L: {}, mkint(N), facts=facts, heap=heap,
                                                         inv=lambda vc, i: [mkint(P(_z(i))) >= i, 48 + mkint(P(_z(i))) <= n, mkint(Q(_z(i))) >= 0]))
        facts(vc, N)
        good = 48 + mkint(P(N)) == n
    else:
        at, want = 48, []
        while good and at < n:
            if at + 4 > n or u(b, at, 2) > 4 or not 0 < u(b, at + 2, 2) <= n - at:
                good = False
                break
            cls = getattr(M.DMARTable, STUBS[u(b, at, 2)][0])
            o, s = attempt(cls, b[at:], u(b, at + 2, 2))
            if not o:
                good = False
                break
            want.append((at, cls, s))
            at += u(b, at + 2, 2)
        good = bool(good)
    ok, d = attempt(M.DMARTable, b)
    if not ok:
        vc.reach("refused")
        vc.check(NOT(good), "a well-formed table is accepted")
        return
    vc.check(good, "accepted exactly when the structures add up")
    vc.reach("accepted")
    t = d.dmar_table
    vc.check(all_eq((t.Signature, b[0:4]), (t.Length, u(b, 4, 4)), (t.Revision, b[8]), (t.Checksum, b[9]), (t.OEMID, b[10:16]), (t.OEMTableID, b[16:24]),
                    (t.OEMRevision, u(b, 24, 4)), (t.CreatorID, b[28:32]), (t.CreatorRevision, u(b, 32, 4)), (t.HostAddressWidth, b[36]), (t.Flags, b[37])),
             "header fields")
    vc.check(d.DMARBitEnabled() == ((b[37] // 4) % 2 == 1), "the DMAR bit")
    if vc.symbolic:
        vc.check(t.SubStructs.vc_len() == mkint(N), "all structures, in order")
        vc.check(t.RMRRlist.vc_len() == mkint(Q(N)), "all RMRRs, in order")
        vc.check(d.ANDDCount() == mkint(C(N)), "the number of ANDDs")
        if N > 0 if isinstance(N, int) else vc.branch(N > 0):
            vc.reach("some")
    else:
        vc.check([type(x) for x in t.SubStructs] == [c for _, c, _ in want], "all structures, in order")
        vc.check(all(vars(x).keys() == vars(s).keys() and all(k == "DeviceScope" or getattr(s, k) == v for k, v in vars(x).items())
                     for x, (_, _, s) in zip(t.SubStructs, want)), "every structure is read from its place")
        vc.check(len(t.RMRRlist) == sum(c is M.DMARTable.RMRRStruct for _, c, _ in want) and all(
            x is y for x, y in zip(t.RMRRlist, [x for x in t.SubStructs if type(x) is M.DMARTable.RMRRStruct])), "all RMRRs, in order")
        vc.check(d.ANDDCount() == sum(c is M.DMARTable.ANDDStruct for _, c, _ in want), "the number of ANDDs")


def scope_path(b, at):
    return "%02d" % b[at + 5] + ":" + ":".join("%02d.%d" % (b[j], b[j + 1]) for j in range(at + 6, at + b[at + 1], 2))


def golden(vc):
    """Paths, XML and the golden list agree with an independent reading of the bytes."""
    import random
    M = vc.module(A)
    r = random.Random(vc.int("seed", 0, 1 << 60))
    while True:
        b = g_table(r)
        ok, d = attempt(M.DMARTable, b)
        if ok:
            break
    at, tops, paths = 48, [], []
    while at < len(b):
        k, ln = u(b, at, 2), u(b, at + 2, 2)
        h = {0: 16, 1: 24, 2: 8}.get(k)
        subs = []
        q = at + (h or 0)
        while h and q < at + ln:
            subs.append(q)
            q += b[q + 1]
        tops.append((k, at, subs))
        if k == 1:
            paths.append(", ".join(scope_path(b, q) for q in subs))
        at += ln
    vc.check([x.getPath() for x in d.dmar_table.RMRRlist] == paths, "paths")
    x = d.toXml()
    vc.check(x.tag == "DMAR Table" and [e.tag for e in x] == ["AcpiTableHeader"] + [["DRHD", "RMRR", "ASTR", "RHSA", "ANDD"][k] for k, _, _ in tops], "XML elements")
    hd = x[0]
    vc.check([int(hd.get(a), 16) for a in ("Length", "Revision", "Checksum", "OEMRevision", "CreatorRevision", "HostAddressWidth", "Flags")] ==
             [u(b, 4, 4), b[8], b[9], u(b, 24, 4), u(b, 32, 4), b[36], b[37]], "XML of the header")
    F = {0: [("Flags", 4, 1), ("SegmentNumber", 6, 2), ("RegisterBaseAddress", 8, 8)],
         1: [("SegmentNumber", 6, 2), ("ReservedMemoryBaseAddress", 8, 8), ("ReservedMemoryRegionLimitAddress", 16, 8)],
         2: [("Flags", 4, 1), ("SegmentNumber", 6, 2)], 3: [("Reserved", 4, 4), ("RegisterBaseAddress", 8, 8), ("ProximityDomain", 16, 4)],
         4: [("Reserved", 4, 3), ("ACPIDeviceNumber", 7, 1)]}
    for e, (k, at, subs) in zip(list(x)[1:], tops):
        vc.check(int(e.get("Type"), 16) == k and int(e.get("Length"), 16) == u(b, at + 2, 2) and all(
            int(e.get(f), 16) == u(b, at + o, s) for f, o, s in F[k]), "XML of a structure")
        vc.check([c.tag for c in e] == [NAMES[b[q]] for q in subs] and all(
            [int(c.get(a), 16) for a in ("Type", "Length", "Reserved", "EnumerationID", "StartBusNumber")] == [b[q], b[q + 1], u(b, q + 2, 2), b[q + 4], b[q + 5]]
            for c, q in zip(e, subs)), "XML of the scopes")
    tmp = tempfile.mkdtemp(prefix="c11_")
    try:
        p = os.path.join(tmp, "golden.xml")
        listed = [q for q in paths if q and r.random() < 0.8]
        extra = [q.replace(":", ";") for q in paths if q and r.random() < 0.3] + ["00:1f.0"]
        with open(p, "w") as f:
            f.write("<Allowed>" + "".join("<RMRR><Path>%s</Path></RMRR>" % q for q in r.sample(listed + extra, len(listed + extra))) + "</Allowed>")
        import contextlib
        import io
        with contextlib.redirect_stdout(io.StringIO()):
            vc.check(d.CheckRMRRCount(p) == all(q in listed + extra for q in paths), "every RMRR must be listed")
            vc.check(d.CheckRMRRCount(None) == (not paths), "without a list no RMRR is allowed")
            vc.check(d.CheckRMRRCount(os.path.join(tmp, "none")) == (not paths), "with a missing list no RMRR is allowed")
        vc.reach("done")
    finally:
        shutil.rmtree(tmp)


HARNESSES = [H("scope", scope, scope.__doc__, must_reach=["refused", "path"]),
             H("scoped", scoped, scoped.__doc__, must_reach=["refused", "DRHD", "RMRR", "ATSR", "scopes"], runs=600),
             H("rhsa", rhsa, rhsa.__doc__, must_reach=["accepted"]), H("andd", andd, andd.__doc__, must_reach=["accepted"]),
             H("table", table, table.__doc__, must_reach=["refused", "accepted", "some"], runs=600),
             H("golden", golden, golden.__doc__, symbolic=False, runs=300, why_bounded="text formatting, XML elements and a file of allowed paths")]
