import base64
import uuid

from contracts.base import H
from contracts.c11_dmar import _z
from pyvc.lists import Indexed, SymList
from pyvc.util import AND, NOT, all_eq, blen, fmt, guid_le, le, outcome, scat, u

ID = "C15"
LEVEL = "proof"
TRUSTED = []
ASSUMPTIONS = ["little-endian host (native struct order)",
               "decoding of UTF-16 and UTF-8 text is an uninterpreted function of the bytes (same bytes, same text)",
               "the static-address flag of an IPv4 node (known finding) is not under contract",
               "data shorter than the node's fixed fields is only required to be refused or kept, not read beyond"]
EXPLANATION = ("The node loop is proved for any number of nodes against a ghost offset function and an arbitrary node reader; each node reader is proved for "
               "all data; the table of types is proved for all 65536 (type, subtype) pairs.")
A = "edk2toollib.uefi.device_path"

# the specification's own table: (type, subtype) -> (class name, type name, subtype name, fixed data size)
NODES = {
    "PciDevicePath": (1, 1, "Hardware", "PCI", 2), "PccardDevicePath": (1, 2, "Hardware", "PCCARD", 1),
    "AcpiHidDevicePath": (2, 1, "ACPI", "ACPI HID", 8), "UsbDevicePath": (3, 5, "Messaging", "USB", 2),
    "MacAddrDevicePath": (3, 11, "Messaging", "MAC Address", 33), "Ipv4DevicePath": (3, 12, "Messaging", "IPv4", 23),
    "SataDevicePath": (3, 18, "Messaging", "SATA", 6), "NvmeOfNamespaceDevicePath": (3, 23, "Messaging", "NVMe Namespace", 17),
    "HardDriveDevicePath": (4, 1, "Media", "Hard Drive", 38), "FilepathDevicePath": (4, 4, "Media", "File Path", 0),
    "MediaFwVolFilePathDevicePath": (4, 6, "Media", "PIWG Firmware File", 16), "FwVolPathDevicePath": (4, 7, "Media", "PIWG Firmware Volume", 16),
    "MediaRelativeOffsetRangeDevicePath": (4, 8, "Media", "Relative Offset Range", 20),
}


def g_node(r):
    k = r.choice(sorted(NODES) + ["other"] * 2 + ["end"])
    if k == "other":
        t, s = r.choice([(1, 4), (2, 2), (3, 2), (3, 13), (4, 2), (5, 1), (3, 200), (6, 1), (0, 0), (0x80, 3), (r.randrange(256), r.randrange(256))])
        d = r.randbytes(r.choice([0, 1, 4, 13]))
    elif k == "end":
        t, s, d = 0x7F, r.choice([0xFF, 1]), b""
    else:
        t, s = NODES[k][:2]
        d = r.randbytes(NODES[k][4])
        if k == "FilepathDevicePath":
            d = "\\EFI\\b\u00e4r.efi".encode("utf-16-le")[:2 * r.randrange(14)] + b"\0\0" * r.choice([1, 1, 0, 2]) + b"\0" * (r.random() < 0.05)
        if k == "NvmeOfNamespaceDevicePath":
            d += r.choice([b"", b"nqn.2014-08.org\0", b"nqn.x", b"\xff"])
        if k == "AcpiHidDevicePath" and r.random() < 0.5:
            d = le(0x0A0341D0, 4) + le(r.choice([0, 1, 0xABC]), 4)
        if k == "HardDriveDevicePath" and r.random() < 0.1:
            d += b"\0"
    if r.random() < 0.04:
        d = d[:r.randrange(len(d) + 1)]
    ln = 4 + len(d) + r.choice([0] * 30 + [1, -1, -4, 0x8000])
    return bytes([t, s]) + le(max(ln, 0), 2) + d


def g_path(r):
    b = b"".join(g_node(r) for _ in range(r.choice([0, 1, 2, 3, 5]))) + r.choice([b"\x7f\xff\x04\0"] * 6 + [b""])
    return b + r.choice([b""] * 12 + [b"\0", b"\x7f\xff\x04"])


def path(vc):
    """Any bytes: nodes are read one after another, each with exactly its bytes, until exactly the end, or the path is refused."""
    M = vc.module(A)
    b = vc.bytes("path", gen=g_path)
    n = blen(b)
    good = True
    if vc.symbolic:
        import z3
        from pyvc.sym import mkint, zint
        P = vc.fresh_fun("P")
        N = vc.fresh("n")
        okf = z3.Function("accepted", z3.IntSort(), z3.BoolSort())
        vc.fact(z3.And(P(0) == 0, N >= 0))

        class Node:
            def __eq__(self, o):
                return self.at == o.at

        class Reader:
            at = 0

            @staticmethod
            def from_binary(h):
                at = Reader.at
                vc.check(all_eq((h.dev_type, b[at]), (h.dev_subtype, b[at + 1]), (h.dev_length, u(b, at + 2, 2))), "the header of the node is its bytes")
                vc.check(h.dev_data == b[at + 4:at + u(b, at + 2, 2)], "the data of the node is its bytes")
                if not vc.branch(okf(zint(at))):
                    raise Exception("refused")
                o = Node()
                o.at = at
                return o

        real_decode = M.EfiDevicePathProtocol.decode

        def decode(data):
            Reader.at = n - blen(data)
            vc.check(data == b[Reader.at:n], "a node is read from the rest of the data")
            return real_decode(data)

        def find(h):
            return Reader

        def item(k):
            o = Node()
            o.at = mkint(P(_z(k)))
            return o

        def valid(p):
            return p + 4 <= n and bool(AND(u(b, p + 2, 2) >= 4, p + u(b, p + 2, 2) <= n))

        def facts(vc, i):
            i = _z(i)
            p = mkint(P(i))
            if not (p >= 0):
                return
            if vc.branch(i < N):
                vc.assume(p < n)
                vc.assume(valid(p))
                vc.fact(okf(zint(p)))
                vc.fact(P(i + 1) == P(i) + zint(u(b, p + 2, 2)))
            elif vc.branch(i == N) and p < n:
                if valid(p):
                    vc.fact(z3.Not(okf(zint(p))))

        vc.patch(M.EfiDevicePathProtocol, "decode", staticmethod(decode))
        vc.patch(M.DevicePathFactory, "_find_implementation", staticmethod(find))
        vc.contract(A + ":DevicePathFactory.from_binary#0", Indexed(
            "nodes", lambda vc, i, L: {"offset": mkint(P(_z(i))), "device_paths": SymList(_z(i), item)}, mkint(N), facts=facts,
            inv=lambda vc, i: [mkint(P(_z(i))) >= i, mkint(P(_z(i))) <= n]))
        facts(vc, N)
        good = mkint(P(N)) == n
    else:
        at, want = 0, []
        while at < n:
            if at + 4 > n or not 4 <= u(b, at + 2, 2) <= n - at:
                good = False
                break
            h = M.DevicePathHeader(b[at], b[at + 1], u(b, at + 2, 2), b[at + 4:at + u(b, at + 2, 2)])
            o, s = outcome(M.DevicePathFactory._find_implementation(h).from_binary, h)
            if not o:
                good = False
                break
            want.append(s)
            at += u(b, at + 2, 2)
    ok, r = outcome(M.DevicePathFactory.from_binary, b)
    if not ok:
        vc.reach("refused")
        vc.check(NOT(good), "a well-formed device path is accepted")
        return
    vc.reach("accepted")
    vc.check(good, "accepted exactly when the nodes add up to the data")
    if vc.symbolic:
        vc.check(r.vc_len() == mkint(N), "all nodes, in order")
        if vc.branch(N > 0):
            vc.reach("some")
    else:
        vc.check([type(x) for x in r] == [type(x) for x in want], "all nodes, in order")
        vc.check(all(state(x) == state(y) for x, y in zip(r, want)), "every node is read from its place")


def state(o):
    return [(k, getattr(o, k).addr if hasattr(getattr(o, k), "addr") else getattr(o, k)) for k in ATTRS if hasattr(o, k)]


ATTRS = ("dev_type dev_subtype dev_length dev_data function device function_number hid uid parent_port_number interface_number mac_address if_type "
         "local_ip_address remote_ip_address local_port remote_port protocol gateway_ip_address subnet_mask hba_port_number port_multiplier_port_number "
         "lun namespace_id_type namespace_id subsystem_nqn partition_number partition_start partition_size signature MBR_type signature_type path_name "
         "fv_name fv_file_name reserved starting_offset ending_offset").split()


def table(vc):
    """Every (type, subtype): the node class is the one of the UEFI specification, and nodes of all others are kept as unimplemented."""
    M = vc.module(A)
    t = vc.int("type", 0, 255, gen=lambda r: r.choice([1, 2, 3, 4, 5, 0x7F]))
    s = vc.int("subtype", 0, 255, gen=lambda r: r.choice([1, 2, 4, 5, 6, 7, 8, 11, 12, 18, 23, 255]))
    ok, c = outcome(M.DevicePathFactory._find_implementation, M.DevicePathHeader(t, s, 4, b""))
    vc.check(ok, "every node has a class")
    if t == 0x7F:
        vc.reach("end")
        vc.check(c is M.EndOfHardwareDevicePath, "end node")
        return
    for name, (nt, ns, _, _, _) in NODES.items():
        if AND(t == nt, s == ns):
            vc.reach("known")
            vc.check(c is getattr(M, name), "the class of the node type")
            return
    vc.reach("unknown")
    vc.check(c is M.UnimplementedDevicePath, "nodes of other types are kept as unimplemented")


def dotted(a):
    return scat(fmt(a[0]), ".", fmt(a[1]), ".", fmt(a[2]), ".", fmt(a[3]))


def node(vc):
    """Every node type, all data: the fields and the printed form are exactly the bytes at the places the UEFI specification gives them."""
    M = vc.module(A)
    name = vc.choice("node", sorted(NODES))
    t, s, tn, sn, size = NODES[name]
    if name == "FilepathDevicePath":
        d = vc.bytes("data", gen=lambda r: ("\\EFI\\b\u00e4r"[:r.randrange(9)] + r.choice(["", "\0", "\0\0", "\0x\0"])).encode("utf-16-le"))
    elif name == "NvmeOfNamespaceDevicePath":
        d = vc.bytes("data", gen=lambda r: r.randbytes(17) + r.choice([b"", b"nqn.x", b"nqn.x\0\0", "n\u00e4\0".encode(), b"\xfe"]))
    else:
        d = vc.bytes("data", gen=lambda r: r.randbytes(size) + r.choice([b""] * 4 + [b"\0", b"xyz"]))
    n = blen(d)
    vc.assume(AND(n >= size, n <= 0xFFFB))
    if name == "HardDriveDevicePath":
        vc.assume(n == size)
    h = M.DevicePathHeader(t, s, n + 4, d)
    ok, o = outcome(getattr(M, name).from_binary, h)
    if name in ("FilepathDevicePath", "NvmeOfNamespaceDevicePath"):
        if name == "FilepathDevicePath":
            good, text = outcome(lambda: d.decode("utf-16-le").rstrip("\0"))
        else:
            good, text = outcome(lambda: d[17:n].decode("utf-8").rstrip("\0"))
        vc.check(ok == good, "accepted exactly when the text can be decoded")
        if not ok:
            vc.reach("text refused")
            return
    vc.check(ok, "data that holds the fixed fields is accepted")
    vc.check(all_eq((o.dev_type, t), (o.dev_subtype, s), (o.dev_length, n + 4), (o.dev_data, d)), "the header is kept")
    p = o.__dict__()
    vc.check(list(p) == [tn + " / " + sn], "the printed form is named by type and subtype")
    q = dict(p[tn + " / " + sn])
    hd = q.pop("Header")
    vc.check(sorted(hd) == ["length", "subtype", "type"] and all_eq((hd["type"], tn), (hd["subtype"], sn), (hd["length"], n + 4)), "printed header")
    if name == "PciDevicePath":
        want = [("function", "Function", d[0], d[0]), ("device", "Device", d[1], d[1])]
    elif name == "PccardDevicePath":
        want = [("function_number", "FunctionNumber", d[0], d[0])]
    elif name == "AcpiHidDevicePath":
        want = [("hid", "HID", u(d, 0, 4), fmt(u(d, 0, 4), "X")), ("uid", "UID", u(d, 4, 4), fmt(u(d, 4, 4), "X"))]
    elif name == "UsbDevicePath":
        want = [("parent_port_number", "ParentPortNumber", d[0], d[0]), ("interface_number", "InterfaceNumber", d[1], d[1])]
    elif name == "MacAddrDevicePath":
        vc.check(len(o.mac_address.addr) == 32, "32 address bytes")
        vc.check(all_eq(*[(o.mac_address.addr[k], d[k]) for k in range(32)]), "address bytes")
        vc.check(list(q["MacAddress"]) == ["Addr"], "printed address")
        q["MacAddress"] = q["MacAddress"]["Addr"]
        q["IfType"] = q["IfType"][0]
        o.if_type = o.if_type[0]
        want = [(None, "MacAddress", None, scat(*[x for k in range(32) for x in ([":"] if k else []) + [fmt(d[k], "02X")]])), ("if_type", "IfType", d[32], d[32])]
    elif name == "Ipv4DevicePath":
        for a, at in (("local_ip_address", 0), ("remote_ip_address", 4), ("gateway_ip_address", 15), ("subnet_mask", 19)):
            vc.check(len(getattr(o, a).addr) == 4 and all_eq(*[(getattr(o, a).addr[k], d[at + k]) for k in range(4)]), a)
        q.pop("StaticIpAddress")
        want = [(None, "LocalIpAddress", None, dotted(d[0:4])), (None, "RemoteIpAddress", None, dotted(d[4:8])),
                ("local_port", "LocalPort", u(d, 8, 2), u(d, 8, 2)), ("remote_port", "RemotePort", u(d, 10, 2), u(d, 10, 2)),
                ("protocol", "Protocol", u(d, 12, 2), u(d, 12, 2)), (None, "GatewayIpAddress", None, dotted(d[15:19])),
                (None, "SubnetMask", None, dotted(d[19:23]))]
    elif name == "SataDevicePath":
        want = [("hba_port_number", "HBAPortNumber", u(d, 0, 2), u(d, 0, 2)), ("port_multiplier_port_number", "PortMultiplierPortNumber", u(d, 2, 2), u(d, 2, 2)),
                ("lun", "Lun", u(d, 4, 2), u(d, 4, 2))]
    elif name == "NvmeOfNamespaceDevicePath":
        want = [("namespace_id_type", "NamespaceIdType", d[0], d[0]), ("namespace_id", "NamespaceId", d[1:17], d[1:17].hex().upper()),
                ("subsystem_nqn", "SubsystemNqn", text, text)]
    elif name == "HardDriveDevicePath":
        want = [(a, k, u(d, at, z), u(d, at, z)) for a, k, at, z in (
            ("partition_number", "PartitionNumber", 0, 4), ("partition_start", "PartitionStart", 4, 8), ("partition_size", "PartitionSize", 12, 8),
            ("MBR_type", "MBRType", 36, 1), ("signature_type", "SignatureType", 37, 1))] + [("signature", "Signature", d[20:36], d[20:36].hex().upper())]
    elif name == "FilepathDevicePath":
        want = [("path_name", "PathName", text, text)]
    elif name == "MediaRelativeOffsetRangeDevicePath":
        want = [(a, k, u(d, at, z), u(d, at, z)) for a, k, at, z in (
            ("reserved", "Reserved", 0, 4), ("starting_offset", "StartingOffset", 4, 8), ("ending_offset", "EndingOffset", 12, 8))]
    else:
        a, k = ("fv_name", "FvName") if name == "FwVolPathDevicePath" else ("fv_file_name", "FvFileName")
        want = [(a, k, guid_le(vc, d[0:16]), q[k] if vc.symbolic else str(uuid.UUID(bytes_le=d[:16])).upper())]
    vc.reach(name)
    vc.check(all_eq(*[(getattr(o, a), v) for a, _, v, _ in want if a]), "fields")
    vc.check(sorted(q) == sorted(k for _, k, _, _ in want), "printed names")
    vc.check(all_eq(*[(q[k], v) for _, k, _, v in want]), "printed values")


def short(vc):
    """Data shorter than the fixed fields never gives a node of made-up numbers: a node with numeric fields is refused."""
    M = vc.module(A)
    name = vc.choice("node", ["PciDevicePath", "PccardDevicePath", "AcpiHidDevicePath", "UsbDevicePath", "MacAddrDevicePath", "HardDriveDevicePath",
                              "NvmeOfNamespaceDevicePath", "FwVolPathDevicePath", "MediaFwVolFilePathDevicePath", "MediaRelativeOffsetRangeDevicePath"])
    t, s, _, _, size = NODES[name]
    if name == "MacAddrDevicePath":
        d = vc.bytes("data", length=vc.choice("n", range(size)))
    else:
        d = vc.bytes("data", gen=lambda r: r.randbytes(r.randrange(size)))
    vc.assume(blen(d) < (1 if name == "NvmeOfNamespaceDevicePath" else size))
    ok, o = outcome(getattr(M, name).from_binary, M.DevicePathHeader(t, s, blen(d) + 4, d))
    vc.check(not ok, "refused")
    vc.reach(name)


def unknown(vc):
    """Any data: unimplemented and end nodes keep their header and data unchanged."""
    M = vc.module(A)
    d = vc.bytes("data", gen=lambda r: r.randbytes(r.choice([0, 1, 5])))
    t, s, n = vc.int("type", 0, 255), vc.int("subtype", 0, 255), vc.int("length", 4, 65535)
    end = vc.bool("end")
    cls = M.EndOfHardwareDevicePath if end else M.UnimplementedDevicePath
    o = cls.from_binary(M.DevicePathHeader(t, s, n, d))
    vc.check(all_eq((o.dev_type, t), (o.dev_subtype, s), (o.dev_length, n), (o.dev_data, d)), "header and data are kept")
    vc.reach("end" if end else "kept")
    if not vc.symbolic:
        p = o.__dict__()
        if end:
            vc.check(sorted(p) == ["length", "subtype", "type"] and p["length"] == n, "printed form of an end node")
        else:
            q = list(p.values())[0]
            vc.check(len(p) == 1 and q["Header"]["length"] == n and base64.b64decode(q["data"]) == d, "printed data")


def probe_static():
    from edk2toollib.uefi import device_path as M
    o = M.Ipv4DevicePath.from_binary(M.DevicePathHeader(3, 12, 27, bytes(23)))
    return o.static_ip_address is not False


def probe_iftype():
    from edk2toollib.uefi import device_path as M
    return M.MacAddrDevicePath.from_binary(M.DevicePathHeader(3, 11, 37, bytes(33))).if_type != 0


HARNESSES = [H("path", path, path.__doc__, must_reach=["refused", "accepted", "some"], runs=800),
             H("table", table, table.__doc__, must_reach=["end", "known", "unknown"]),
             H("node", node, node.__doc__, must_reach=sorted(NODES) + ["text refused"], runs=800),
             H("short", short, short.__doc__, must_reach=["PciDevicePath", "HardDriveDevicePath"]),
             H("unknown", unknown, unknown.__doc__, must_reach=["end", "kept"])]
