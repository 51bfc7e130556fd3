"""C30: bytes dumped as text (hex dump, C array, printed certificates and signature lists) are all there, in order and in the stream asked for."""
import io
import re
import uuid

import z3

from contracts.base import H
from contracts.c27_inf import Ghost, each
from pyvc.fold import Fold, FoldStr
from pyvc.lists import Indexed, SymList
from pyvc.sym import SymStr, mkint, zint
from pyvc.util import AND, fmt, outcome, scat, stream

ID = "C30"
LEVEL = "proof"
TRUSTED = ["a stream keeps what is written to it"]
ASSUMPTIONS = ["the times of authenticated variables and certificates that pyasn1 decodes are printed by others", "a C compiler joins lines at a backslash directly before the line's end only (see the known finding)",
               "C arrays of 1 to 17 and 32 bytes a row"]
EXPLANATION = ("The loops over the bytes are cut by a contract that says what text the first k bytes have made, for any number of bytes: the offset, the separator, every byte in hex and the row's characters. "
               "Printing certificates, signatures, lists and databases is proved over that: each part once, in order, to the stream given. Random dumps are read back into bytes by a hex and a C reader.")
UT, AV, WC = "edk2toollib.utility_functions", "edk2toollib.uefi.authenticated_variables_structure_support", "edk2toollib.uefi.wincert"


class Out(Ghost):
    """A text stream."""
    vc_ghost = True

    def __init__(self):
        self.text = ""

    def write(self, s):
        self.text = scat(self.text, s)

    def flush(self):
        pass


def image(data, k):
    """The character a byte is shown as."""
    b = zint(data[mkint(simp_(k))])
    return SymStr([("int", z3.If(z3.And(b >= 0x20, b <= 0x7e), b, z3.IntVal(0x2e)), "c")])


def simp_(k):
    from pyvc.core import simp
    return simp(zint(k))


def shown(data, i, r):
    """The characters of the r bytes before byte i."""
    return scat("", *[image(data, zint(i) - r + j) for j in range(r)])


def rest(i, m):
    """i % m, known on the path."""
    r = mkint(simp_(zint(i) % m))
    if isinstance(r, int):
        return r
    lo, hi = 0, m - 1
    while lo < hi:
        mid = (lo + hi) // 2
        if bool(r <= mid):
            hi = mid
        else:
            lo = mid + 1
    return lo


def hexed(b):
    return scat("0x", fmt(b, "02x"))


def ends(fold, n, head, tail, got):
    return FoldStr(list(fold.upto(n, head).parts) + SymStr.of(tail)) == got


def plain(data):
    return "".join(chr(b) if 0x20 <= b <= 0x7e else "." for b in data)


def layout(data, start, asc, off, sep):
    """The dump of known bytes."""
    out = ""
    for i in range(0, len(data), 16):
        row = data[i:i + 16]
        if off:
            out += "%#04x -" % (i + start)
        out += "".join("%s 0x%02x" % (" -" if j == 8 and sep else "", b) for j, b in enumerate(row))
        if asc:
            out += " " * (5 * (16 - len(row)) + (2 if sep and len(row) <= 8 else 0)) + " " + plain(row) + " "
        out += "\n"
    return out or "\n"


def undump(text, off):
    """The bytes of a dump, by its columns."""
    out = []
    for line in text.splitlines():
        if not line:
            continue
        t = line.split(" -", 1)[1] if off else line
        out += [int(x, 16) for x in re.match(r"((?: -)?(?: 0x[0-9a-f]{2}(?![0-9a-f])| -(?= 0x))*)", t).group(1).replace(" -", "").split()]
    return bytes(out)


def options(vc, *names):
    """Nothing said, or all three."""
    how = vc.choice("options", range(9))
    if how == 8:
        return True, True, True, {}
    v = [bool(how & 1 << k) for k in range(3)]
    return (*v, dict(zip(names, v)))


def byte_list(vc):
    """PrintByteList is a hex dump of the same bytes to the same stream."""
    M = vc.module(UT)
    asc, off, sep, kw = options(vc, "IncludeAscii", "IncludeOffset", "IncludeHexSep")
    start = vc.int("start", 0, 1 << 40)
    data = vc.bytes("data", max_len=None if vc.symbolic else 40)
    out = Out()
    if not vc.symbolic:
        M.PrintByteList(data, OffsetStart=start, outfs=out, **kw)
        vc.check(out.text == layout(data, start, asc, off, sep), "the bytes are dumped as asked")
        vc.reach("dump")
        return
    calls = []

    def dump(byte_list, offset_start=0, outfs=None, **kw):
        calls.append((byte_list, offset_start, outfs, kw))
    vc.patch(M, "hexdump", dump)
    M.PrintByteList(data, OffsetStart=start, outfs=out, **kw)
    vc.check(len(calls) == 1 and calls[0][2] is out, "one dump, to the stream given")
    b, s, o, k = calls[0]
    vc.check(AND(b is data, s == start, (k.get("include_ascii", True), k.get("include_offset", True), k.get("include_hex_sep", True)) == (asc, off, sep)), "the bytes are dumped as asked")
    vc.reach("dump")


def hexdump(vc):
    """Any bytes are dumped whole: offsets, separators, every byte and the characters in one column."""
    M = vc.module(UT)
    asc, off, sep, kw = options(vc, "include_ascii", "include_offset", "include_hex_sep")
    start = vc.int("start", 0, 1 << 40)
    data = vc.bytes("data", max_len=None if vc.symbolic else 70)
    if not vc.symbolic and data and vc.choice("large", range(150)) == 0:
        data = data * (0x10020 // len(data) + 1)
    out = Out()

    def run():
        M.hexdump(data, start, out, **kw)
    if not vc.symbolic:
        run()
        vc.check(out.text == layout(data, start, asc, off, sep), "the dump has every byte at its place")
        vc.check(undump(out.text, off) == bytes(data), "and reads back as the bytes")
        vc.reach("dump")
        return
    n = len_(data)

    def piece(k):
        s = []
        r = rest(k, 16)
        if r == 0 and off:
            s += ["0x", fmt(k + start, "02x"), " -"]
        if r == 8 and sep:
            s += [" -"]
        s += [" ", hexed(data[k])]
        if r == 15:
            s += [" ", shown(data, k + 1, 16), " "] if asc else []
            s += ["\n"]
        return scat(*s)
    body = Fold("bytes", piece).vc_register(vc)
    first = {}
    vc.contract(UT + ":hexdump#0", Indexed("bytes", lambda vc, i, L: {"index": mkint(z3.If(zint(i) > 0, zint(i) - 1, 0)), "ascii_string": shown(data, i, rest(i, 16))}, zint(n),
                                           heap=lambda vc, i, L: [(out, "text", body.upto(i, first.setdefault(0, out.text)))], elem=lambda vc, i: (i, data[i])))
    run()
    r = rest(n, 16)
    tail = ""
    if r or bool(n == 0):
        if asc and r:
            tail = scat(" " * (5 * (16 - r) + (2 if sep and r <= 8 else 0)), " ", shown(data, n, r), " ")
        tail = scat(tail, "\n")
    vc.check(ends(body, n, "", tail, out.text), "the dump has every byte at its place")
    vc.reach("dump")


def len_(b):
    return b.vc_len() if hasattr(b, "vc_len") else len(b)


def read_c(text, splice="\\\n"):
    """(type, name, length or None, bytes, what follows) of a C array."""
    while True:
        new = re.sub(splice, "", text) if splice != "\\\n" else text.replace("\\\n", "")
        if new == text:
            break
        text = new
    text = re.sub("//[^\n]*", "", text)
    m = re.match(r"(\w+) (\w+)\[(\d*)\] = \{\s*((?:0x[0-9a-f]+,\s*)*0x[0-9a-f]+)\s*\};\s*(.*)$", text, re.S)
    if not m:
        return None
    t, n, c, b, more = m.groups()
    return t, n, int(c) if c else None, bytes(int(x, 16) for x in b.split(",")), more.strip()


def array_rows(rows):
    def run(vc):
        array(vc, rows)
    return run


def array(vc, rows):
    """A C array has every byte, in order, its type, name and length; nothing is made of an empty file."""
    M = vc.module(UT)
    row = vc.choice("bytes a row", rows)
    kw = {} if row == 16 else {"bytes_per_row": row}
    asc, length, lname = True, True, None
    typ, ltyp, ind = "UINT8", "UINTN", "    "
    if vc.bool("without characters"):
        asc = False
        kw.update(include_ascii=False)
    if row == 5 and vc.bool("with options"):
        length = bool(vc.bool("length"))
        kw.update(include_ascii=asc, include_length=length)
        typ, ltyp = vc.text("type", "0123456789_T", 1, 8), vc.text("length type", "0123456789_S", 1, 8)
        ind = vc.text("indent", " \t", 0, 8)
        kw.update(data_type=typ, length_data_type=ltyp, indent=ind)
        if vc.bool("length variable"):
            lname = vc.text("length name", "0123456789_L", 1, 8)
            kw.update(length_variable_name=lname)
    name = vc.text("name", "0123456789_N", 1, 8)
    data = vc.bytes("data", max_len=None if vc.symbolic else 70)
    at = vc.int("read before", 0)
    vc.assume(at <= len_(data))
    if not vc.symbolic and data and vc.choice("large", range(100)) == 0:
        data = data * (0x10020 // len(data) + 1)
    f = stream(vc, data, at)
    b = data[at:]
    n = len_(b)
    out = Out()
    if bool(n == 0):
        ok, e = outcome(M.export_c_type_array, f, name, out, **kw)
        vc.check(not ok and isinstance(e, ValueError) and out.text == "", "nothing is made of nothing")
        vc.reach("empty")
        return
    head = scat(typ, " ", name, "[", fmt(n) if length else "", "] = {")

    def piece(k):
        s = []
        r = rest(k, row)
        if r == 0:
            if asc and not bool(k == 0):
                s += [" // ", shown(b, k, row), " "]
            s += ["\n", ind]
        s += [hexed(b[k])]
        if not bool(k == n - 1):
            s += [", "]
        return scat(*s)
    if not vc.symbolic:
        M.export_c_type_array(f, name, out, **kw)
        vc.check(read_c(out.text) == (typ, name, n if length else None, bytes(b), "%s %s = sizeof %s;" % (ltyp, lname, name) if lname else ""), "the C array reads back as the bytes")
        rows = out.text.split("\n")[1:]
        for i in range(0, n, row):
            want = ind + ", ".join("0x%02x" % x for x in b[i:i + row])
            got = rows[i // row]
            vc.check(got.startswith(want) and got[len(want):].lstrip(", ") == ("// %s " % plain(b[i:i + row]) if asc else ""), "a row has its bytes and their characters")
        vc.reach("array")
        return
    body = Fold("bytes", piece).vc_register(vc)
    first = {}

    def state(vc, i, L):
        r = rest(i, row)
        if bool(i == 0):
            return {"i": 0, "byte": "", "ascii_string": ""}
        # the row's characters are written out, and forgotten, with the first byte of the next row
        return {"i": i - 1, "byte": b[i - 1], "ascii_string": shown(b, i, r or row)}
    if not asc:
        # the characters are collected but never used
        seen = Fold("characters", lambda k: image(b, k)).vc_register(vc)
        state = lambda vc, i, L: {"i": mkint(z3.If(zint(i) > 0, zint(i) - 1, 0)), "byte": b[i - 1] if bool(i > 0) else "", "ascii_string": seen.upto(i)}  # noqa: E731
    vc.contract(UT + ":export_c_type_array#0", Indexed("bytes", state, zint(n), heap=lambda vc, i, L: [(out, "text", body.upto(i, first.setdefault(0, out.text)))], elem=lambda vc, i: (i, b[i])))
    M.export_c_type_array(f, name, out, **kw)
    last = rest(n - 1, row)
    tail = scat(" " * (6 * (row - 1 - last)), "   // ", shown(b, n, last + 1), " ") if asc else ""
    tail = scat(tail, "\n};\n\n", *([ltyp, " ", lname, " = sizeof ", name, ";\n\n"] if lname else []))
    vc.check(ends(body, n, head, tail, out.text), "the C array has every byte in order, its type, name and length")
    vc.reach("array")


# ---------------------------------------------------------------- printing

class View(Ghost):
    """A view of bytes."""
    vc_ghost = True

    def __init__(self, data):
        self.data = data

    def tolist(self):
        return self.data


class Dump:
    """hexdump, by what is asked of it."""

    def __init__(self, vc, M):
        self.vc, self.calls, self.std = vc, [], Out()
        vc.patch(M, "hexdump", self.dump)

    def dump(self, byte_list, offset_start=0, outfs=None, **kw):
        out = self.std if outfs is None else outfs
        self.calls.append((byte_list, out))
        self.vc.check(AND(offset_start == 0, all(kw.get(k, True) is True for k in ("include_ascii", "include_offset", "include_hex_sep"))), "dumped as it is by default")
        out.write("<dump %d>" % len(self.calls))


def dumped(vc, d, data, out, want):
    """The text of a dump of these bytes, as it stands in the output."""
    if vc.symbolic:
        vc.check(len(d.calls) == want, "the bytes are dumped once")
        vc.check(all(c[1] is out for c in d.calls), "to the stream given")
        vc.check(AND(*([True] + [len_(c[0]) == len_(data) for c in d.calls] + [c[0] == data for c in d.calls])), "all of them")
        return "<dump 1>"
    return layout(data, 0, True, True, True)


def certificate(vc):
    """A PKCS1 certificate is printed whole to the stream given."""
    M = vc.module(WC)
    w = M.WinCertPkcs1()
    w.Hdr_dwLength, w.Hdr_wRevision, w.Hdr_wCertificateType = vc.int("length", 0, (1 << 32) - 1), vc.int("revision", 0, 65535), vc.int("type", 0, 65535)
    w.hash_algorithm = vc.uuid("hash")
    data = vc.bytes("data", max_len=None if vc.symbolic else 40)
    w.cert_data = View(data) if vc.symbolic else memoryview(data)
    d = Dump(vc, M) if vc.symbolic else None
    out = Out()
    (w.Print if vc.bool("old name") else w.print)(out)
    want = scat("\n-------------------- WinCertPKCS115 ---------------------\n", "  Hdr_dwLength:         0x", fmt(w.Hdr_dwLength, "X"), "\n  Hdr_wRevision:        0x", fmt(w.Hdr_wRevision, "X"),
                "\n  Hdr_wCertificateType: 0x", fmt(w.Hdr_wCertificateType, "X"), "\n  Hash Guid:            ", text_of(w.hash_algorithm), "\n  cert_data:             \n", dumped(vc, d, data, out, 1))
    vc.check(out.text == want, "the certificate's fields and bytes")
    vc.reach("printed")


def text_of(g):
    return g.sstr if hasattr(g, "sstr") else str(g)


def signature(vc):
    """A signature is printed with its owner and all its bytes, in lines or as one record."""
    M = vc.module(AV)
    x509 = bool(vc.bool("x509"))
    C = M.EfiSignatureDataEfiCertX509 if x509 else M.EfiSignatureDataEfiCertSha256
    s = C.__new__(C)
    s.signature_owner = vc.uuid("owner")
    none = bool(vc.bool("no data"))
    data = s.signature_data = None if none else vc.bytes("data", max_len=None if vc.symbolic else 40)
    s.signature_data_size = 0 if none else len_(data)
    compact = bool(vc.bool("compact"))
    d = Dump(vc, M) if vc.symbolic else None
    out = Out()
    cls = "EfiSignatureDataEfiCertX509" if x509 else "EfiSignatureDataEfiCertSha256"
    hexes = None
    if vc.symbolic and not none:
        n = len_(data)
        hexes = Fold("bytes", lambda k: fmt(data[k], "02X")).vc_register(vc)
        first = {}
        key = AV + ":" + cls + ".print#"
        if x509:
            vc.contract(key + "0", Indexed("compact", lambda vc, i, L: {"s": hexes.upto(i, first.setdefault(0, L["s"]))}, zint(n)))
        else:
            vc.contract(key + "0", Indexed("lines", lambda vc, i, L: {}, zint(n), heap=lambda vc, i, L: [(out, "text", hexes.upto(i, first.setdefault(0, out.text)))]))
            vc.contract(key + "1", Indexed("compact", lambda vc, i, L: {"s": hexes.upto(i, first.setdefault(0, L["s"]))}, zint(n)))
    (s.Print if vc.bool("old name") else s.print)(compact=compact, outfs=out)
    owner = text_of(s.signature_owner)
    kind = "X509" if x509 else "SHA256"
    if compact:
        head, tail = scat("ESD:EFI_CERT_", kind, ",", owner, ","), "\n"
        if none:
            head, tail = scat(head, "NONE"), "\n"
    else:
        head = scat("EfiSignatureData - EfiSignatureDataEfiCert", "X509" if x509 else "Sha256", "\n  Signature Owner:      ", owner, "\n  Signature Data: ", "\n" if x509 else "")
        tail = "" if x509 else "\n"
        if none:
            head, tail = scat(head, "    NONE" if x509 else " NONE"), "\n"
    if not compact and x509 and not none:
        vc.check(out.text == scat(head, dumped(vc, d, data, out, 1)), "the owner and the bytes")
    elif none:
        vc.check(out.text == scat(head, tail), "the owner, and that there are no bytes")
    elif vc.symbolic:
        vc.check(not d.calls, "nothing else")
        vc.check(ends(hexes, n, head, tail, out.text), "the owner and the bytes")
    else:
        vc.check(out.text == head + bytes(data).hex().upper() + tail, "the owner and the bytes")
    vc.reach("printed")


class Part(Ghost):
    """A signature or list that is printed."""
    vc_ghost = True

    def __init__(self, vc, text, compact):
        self.vc, self.text, self.compact = vc, text, compact

    def print(self, compact=False, outfs=None):
        self.vc.check(compact == self.compact, "in the same way")
        self.vc.check(outfs is not None, "to the stream given")
        outfs.write(self.text)


def parts(vc, key, compact, out):
    """Any number of parts to print, and how to check that they were."""
    if not vc.symbolic:
        ps = [Part(vc, "<%d>\n" % k, compact) for k in range(vc.choice("parts", [0, 1, 2, 3, 5]))]
        return ps, lambda head, tail="": out.text == head + "".join(p.text for p in ps) + tail
    n = vc.int("parts", 0)
    at = each(lambda k: Part(vc, scat("<", vc.text("part %s" % k, "<>\n", neg=True), ">\n"), compact))
    body = Fold("parts", lambda k: at(k).text).vc_register(vc)
    first = {}
    vc.contract(key, Indexed("parts", lambda vc, i, L: {}, n.z, heap=lambda vc, i, L: [(out, "text", body.upto(i, first.setdefault(0, out.text)))]))
    return SymList(n.z, at), lambda head, tail="": ends(body, n, head, tail, out.text)


def siglist(vc):
    """A signature list is printed with its sizes, and every signature once, in order."""
    M = vc.module(AV)
    compact = bool(vc.bool("compact"))
    out = Out()
    s = M.EfiSignatureList(typeguid=vc.uuid("type"))
    s.signature_list_size, s.signature_header_size, s.signature_size = vc.int("list size", 0, (1 << 32) - 1), vc.int("header size", 0, 9), vc.int("size", 0, (1 << 32) - 1)
    s.signature_data_list, check = parts(vc, AV + ":EfiSignatureList.print#0", compact, out)
    empty = bool(vc.bool("no signatures yet"))
    if empty:
        s.signature_data_list = None
    (s.Print if vc.bool("old name") else s.print)(compact=compact, outfs=out)
    f = [text_of(s.signature_type), fmt(s.signature_list_size, "x"), fmt(s.signature_header_size, "x"), fmt(s.signature_size, "x")]
    if compact:
        head = scat("ESL:", f[0], ",", f[1], ",", f[2], ",", f[3], ",NONE\n")
    else:
        head = scat("EfiSignatureList\n  Signature Type:        ", f[0], "\n  Signature List Size:   ", f[1], "\n  Signature Header Size: ", f[2], "\n  Signature Size:       ", f[3], "\n  Signature Header:      NONE\n")
    vc.check(out.text == head if empty else check(head), "the list's sizes and its signatures")
    vc.reach("printed")


def database(vc):
    """A signature database is printed list by list."""
    M = vc.module(AV)
    compact = bool(vc.bool("compact"))
    out = Out()
    d = M.EfiSignatureDatabase()
    if not vc.symbolic:
        # real lists, in every state; each by itself is what the other harnesses check
        lists, want = [], Out()
        for k in range(vc.choice("lists", [0, 1, 2, 3])):
            s = M.EfiSignatureList(typeguid=vc.uuid("type %d" % k))
            s.signature_size, s.signature_list_size = vc.int("size %d" % k, 0, 99), vc.int("list size %d" % k, 0, 99)
            many = vc.choice("signatures %d" % k, [0, 0, 1, 2])
            s.signature_data_list = [] if many or vc.bool("empty %d" % k) else None
            for j in range(many):
                g = M.EfiSignatureDataEfiCertSha256.__new__(M.EfiSignatureDataEfiCertSha256)
                g.signature_owner, g.signature_data = vc.uuid("owner %d %d" % (k, j)), vc.choice("bytes %d %d" % (k, j), [None, b"", bytes(range(32))])
                g.signature_data_size = len(g.signature_data or b"")
                s.signature_data_list.append(g)
            lists.append(s)
            s.print(compact=compact, outfs=want)
        d.esl_list = lists
        (d.Print if vc.bool("old name") else d.print)(compact=compact, outfs=out)
        vc.check(out.text == want.text, "every list once, in order")
        vc.reach("printed")
        return
    d.esl_list, check = parts(vc, AV + ":EfiSignatureDatabase.print#0", compact, out)
    (d.Print if vc.bool("old name") else d.print)(compact=compact, outfs=out)
    vc.check(check(""), "every list once, in order")
    vc.reach("printed")


class Piece(Ghost):
    """The time or certificate of a variable."""
    vc_ghost = True

    def __init__(self, text):
        self.text = text

    def print(self, outfs=None):
        outfs.write(self.text)


def variable(vc):
    """An authenticated variable is printed with its time, certificate and payload."""
    M = vc.module(AV)
    v = M.EfiVariableAuthentication2.__new__(M.EfiVariableAuthentication2)
    v.time, v.auth_info = Piece("<time>"), Piece("<certificate>")
    out = Out()
    v.sig_list_payload = v.payload = None
    data = vc.bytes("payload", max_len=None if vc.symbolic else 40)
    how = vc.choice("payload is", ["none", "bytes", "lists"])
    d = Dump(vc, M) if vc.symbolic else None
    if how != "none":
        v.payload = View(data) if vc.symbolic else memoryview(data)
    v.payload_size = len_(data)
    if how == "lists":
        v.sig_list_payload = Part(vc, "<lists>", False)
    (v.Print if vc.bool("old name") else v.print)(outfs=out)
    head = "EfiVariableAuthentication2\n<time><certificate>\n-------------------- VARIABLE PAYLOAD --------------------\n"
    tail = {"none": "", "lists": "<lists>"}.get(how)
    vc.check(out.text == scat(head, scat("Raw Data: \n", dumped(vc, d, data, out, 1)) if tail is None else tail), "the time, the certificate and the payload")
    vc.reach(how)


def probe_splice():
    """A row whose last character is a backslash, read as gcc and clang do."""
    import edk2toollib.utility_functions as u
    out = io.StringIO()
    u.export_c_type_array(io.BytesIO(b"0123456789abcde\\" + b"0123456789abcdef"), "X", out)
    return read_c(out.getvalue(), r"\\[ \t]*\n") != ("UINT8", "X", 32, b"0123456789abcde\\0123456789abcdef", "")


HARNESSES = [
    H("byte_list", byte_list, byte_list.__doc__, must_reach=["dump"]),
    H("hexdump", hexdump, hexdump.__doc__, runs=600, must_reach=["dump"], parts=4, budget=170),
] + [
    H("array_%d" % r[0], array_rows(r), array.__doc__ + " Rows of %s bytes." % ", ".join(map(str, r)), runs=600, must_reach=["array", "empty"], parts=2, budget=170)
    for r in ([32], [16], [5], [1, 2, 3, 4, 6, 7, 8], [9, 10, 11], [12, 13, 14], [15, 17])
] + [
    H("certificate", certificate, certificate.__doc__, must_reach=["printed"]),
    H("signature", signature, signature.__doc__, runs=300, must_reach=["printed"]),
    H("siglist", siglist, siglist.__doc__, must_reach=["printed"]),
    H("database", database, database.__doc__, must_reach=["printed"]),
    H("variable", variable, variable.__doc__, must_reach=["none", "bytes", "lists"]),
]
