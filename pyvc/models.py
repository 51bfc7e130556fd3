"""Models of the CPython builtins and library modules the verified code uses (the trusted dependencies)."""
import builtins as _b
import datetime as _datetime
import hashlib as _hashlib
import io as _io
import logging as _logging
import operator
import posixpath
import re as _re
import sys
import struct as _struct
import textwrap
import types
import uuid as _uuid

import z3

from . import sym, text
from .core import EngineExc, PathEnd, PathLimit, Unsupported, cur, is_z, simp
from .sym import (SymBool, SymByteArray, SymBytes, SymInt, SymSeq, SymStr, SymStream, SymUUID, is_bytes, mkbytes, mkbool, mkint,
                  rope_int, rope_slice, segs, total, zint)

from . import fold, paths  # noqa: E402
from .lists import SymList  # noqa: E402
from .text import to_int  # noqa: E402

PROXIES = (SymBool, SymInt, SymBytes, SymByteArray, SymStr, SymUUID, SymStream, SymSeq, SymList, sym.SymRatio)


# ------------------------------------------------------------------ struct
def pack_int(v, size, order, signed, exc, msg="argument out of range"):
    z = zint(v)
    if z is None:
        raise exc("required argument is not an integer")
    bits = 8 * size
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    if not is_z(z):
        if not lo <= z <= hi:
            raise exc(msg)
        return [("c", z.to_bytes(size, order, signed=signed))] if size else []
    vc = cur()
    if not vc.branch(z3.And(z >= lo, z <= hi)):
        raise exc(msg)
    d = vc.defs.get((z.get_id(), size, order) + (("s",) if signed else ()))
    if d is not None:
        return list(d[0])
    if signed:
        z = simp(z3.If(z < 0, z + (1 << bits), z))
    return [("i", z, size, order)]


_SIZES = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8}


def parse_fmt(fmt):
    """[(kind, count_or_size, offset, signed)] plus the total size and byte order, as CPython lays it out."""
    if isinstance(fmt, SymStr):
        # a format ending in a string of symbolic length
        p = fmt.parts
        if not (2 <= len(p) <= 3 and p[-1] == "s" and p[-2][0] == "int" and p[-2][2] in ("", "d") and (len(p) == 2 or p[0][-1:] not in "0123456789")):
            raise Unsupported("symbolic struct format")
        items, size, order = parse_fmt(p[0] if len(p) == 3 else "")
        n = simp(p[-2][1])
        if cur().branch(n < 0) if is_z(n) else n < 0:
            raise _struct.error("bad char in struct format")
        return items + [("s", n, size, False)], simp(size + n), order
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    full = fmt
    order = "little"
    pre = ""
    if fmt[:1] in "<>=!@" and fmt[:1]:
        pre = fmt[0]
        order = "big" if pre in ">!" else "little"
        fmt = fmt[1:]
    items = []
    done = pre
    i = 0
    while i < len(fmt):
        c = fmt[i]
        if c.isspace():
            i += 1
            continue
        n = ""
        while c.isdigit():
            n += c
            i += 1
            c = fmt[i]
        cnt = int(n) if n else 1
        i += 1
        if c == "s":
            off = _struct.calcsize(done)
            items.append(("s", cnt, off, False))
            done += "%ds" % cnt
        elif c == "x":
            items.append(("x", cnt, _struct.calcsize(done), False))
            done += "%dx" % cnt
        elif c in "?c" or c in "fdepnNP":
            if c == "c":
                for _ in range(cnt):
                    items.append(("c", 1, _struct.calcsize(done), False))
                    done += "c"
            elif c == "?":
                for _ in range(cnt):
                    items.append(("?", 1, _struct.calcsize(done), False))
                    done += "?"
            else:
                raise Unsupported("struct format %s" % full)
        else:
            for _ in range(cnt):
                before = _struct.calcsize(done)
                done += c
                size = _struct.calcsize("=" + c) if pre in ("<", ">", "=", "!") else _struct.calcsize(c)
                off = _struct.calcsize(done) - size
                items.append(("n", size, off, c.islower()))
    return items, _struct.calcsize(full), order


def fmt_size(fmt):
    return parse_fmt(fmt)[1] if isinstance(fmt, SymStr) else _struct.calcsize(fmt)


def _has_sym(args):
    return any(isinstance(a, PROXIES) for a in args)


class StructModel(types.ModuleType):
    error = _struct.error

    @staticmethod
    def calcsize(fmt):
        n = fmt_size(fmt)
        return mkint(n) if is_z(n) else n

    def pack(self, fmt, *args):
        if not _has_sym(args) and not isinstance(fmt, SymStr):
            return _struct.pack(fmt, *args)
        items, size, order = parse_fmt(fmt)
        want = len([i for i in items if i[0] != "x"])
        if want != len(args):
            raise _struct.error("pack expected %d items for packing (got %d)" % (want, len(args)))
        out = []
        pos = 0
        args = list(args)
        for kind, n, off, signed in items:
            if off > pos:
                out.append(("c", bytes(off - pos)))
            pos = simp(off + n) if is_z(n) else off + n
            if kind == "x":
                out.append(("c", bytes(n)))
                continue
            v = args.pop(0)
            if kind == "s":
                if not is_bytes(v):
                    raise _struct.error("argument for 's' must be a bytes object")
                sg = segs(v)
                ln = total(sg)
                if is_z(ln) or is_z(n):
                    c = simp(ln >= n)
                    if cur().branch(c) if is_z(c) else c:
                        sg = rope_slice(sg, 0, n)
                        out += sg
                    else:
                        out += sg + [("f", 0, simp(n - ln))]
                else:
                    out += rope_slice(sg, 0, n) if ln > n else sg + ([("c", bytes(n - ln))] if ln < n else [])
            elif kind == "c":
                if not is_bytes(v) or total(segs(v)) != 1:
                    raise _struct.error("char format requires a bytes object of length 1")
                out += segs(v)
            elif kind == "?":
                out += [("c", b"\1" if v else b"\0")]
            else:
                out += pack_int(v, n, order, signed, _struct.error)
        if not is_z(size) and size > pos:
            out.append(("c", bytes(size - pos)))
        return mkbytes(out)

    def _unpack(self, fmt, sg):
        items, size, order = parse_fmt(fmt)
        out = []
        for kind, n, off, signed in items:
            if kind == "x":
                continue
            part = rope_slice(sg, off, simp(off + n) if is_z(n) else off + n)
            if kind == "s":
                out.append(mkbytes(part))
            elif kind == "c":
                out.append(mkbytes(part))
            elif kind == "?":
                out.append(mkbool(_zb(rope_int(part, 1, "little", False)) != 0))
            else:
                out.append(mkint(rope_int(part, n, order, signed)))
        return tuple(out)

    def unpack(self, fmt, data):
        if isinstance(data, (bytes, bytearray, memoryview)) and not isinstance(fmt, SymStr):
            return _struct.unpack(fmt, data)
        size = fmt_size(fmt)
        sg = segs(data)
        c = simp(total(sg) == size)
        if not (cur().branch(c) if is_z(c) else c):
            raise _struct.error("unpack requires a buffer of %s bytes" % size)
        return self._unpack(fmt, sg)

    def unpack_from(self, fmt, buffer, offset=0):
        if isinstance(buffer, (bytes, bytearray, memoryview)) and not isinstance(offset, SymInt) and not isinstance(fmt, SymStr):
            return _struct.unpack_from(fmt, buffer, offset)
        vc = cur()
        size = fmt_size(fmt)
        sg = segs(buffer)
        n = total(sg)
        o = simp(zint(offset))
        c = simp(o < 0) if is_z(o) else o < 0
        if (vc.branch(c) if is_z(c) else c):
            o = simp(o + n)
            c = simp(o < 0) if is_z(o) else o < 0
            if (vc.branch(c) if is_z(c) else c):
                raise _struct.error("offset out of range")
        c = simp(n - o >= size) if is_z(n) or is_z(o) else n - o >= size
        if not (vc.branch(c) if is_z(c) else c):
            raise _struct.error("unpack_from requires a buffer of at least %s bytes" % size)
        left, right = sym.split(sg, o)
        mid, _ = sym.split(right, size)
        return self._unpack(fmt, mid)

    def pack_into(self, *a):
        raise Unsupported("struct.pack_into")

    def iter_unpack(self, fmt, data):
        size = fmt_size(fmt)
        if isinstance(data, (bytes, bytearray, memoryview)) and not isinstance(fmt, SymStr):
            yield from _struct.iter_unpack(fmt, data)
            return
        vc = cur()
        sg = segs(data)
        n = total(sg)
        c = simp(n % size == 0)
        if not (vc.branch(c) if is_z(c) else c):
            raise _struct.error("iterative unpacking requires a buffer of a multiple of %d bytes" % size)
        i = 0
        while True:
            c = simp(n >= (i + 1) * size) if is_z(n) else n >= (i + 1) * size
            if not (vc.branch(c) if is_z(c) else c):
                return
            if is_z(n) and i > vc.max_unroll:
                raise PathLimit("iter_unpack")
            yield self._unpack(fmt, rope_slice(sg, i * size, (i + 1) * size))
            i += 1

    class Struct:
        def __init__(self, fmt):
            self.format = fmt
            self.size = _struct.calcsize(fmt)

        def pack(self, *a):
            return STRUCT.pack(self.format, *a)

        def unpack(self, d):
            return STRUCT.unpack(self.format, d)

        def unpack_from(self, d, offset=0):
            return STRUCT.unpack_from(self.format, d, offset)

        def iter_unpack(self, d):
            return STRUCT.iter_unpack(self.format, d)


def _zb(v):
    return v if is_z(v) else z3.IntVal(v)


STRUCT = StructModel("struct")


# ------------------------------------------------------------------ builtins
class _Meta(type):
    def __instancecheck__(cls, x):
        return _b.isinstance(x, cls._real) or type(x) in cls._syms

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._real)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)


class VcInt(int, metaclass=_Meta):
    _real = int
    _syms = (SymInt, SymBool)

    def __new__(cls, *a, **k):
        if a and type(a[0]) in (SymInt,):
            return a[0]
        if a and type(a[0]) is SymBool:
            return mkint(zint(a[0]))
        if a and type(a[0]) is SymStr:
            return to_int(a[0], a[1] if len(a) > 1 else k.get("base", 10))
        if a and type(a[0]) is sym.SymRatio:
            return a[0].__trunc__()
        if a and type(a[0]) is SymUUID:
            return a[0].int
        return int(*a, **k)

    @staticmethod
    def from_bytes(data, byteorder="big", *, signed=False):
        if isinstance(data, (SymBytes, SymByteArray)):
            sg = segs(data)
            n = total(sg)
            if is_z(n):
                n2 = cur().concretize(n)
                if n2 is None:
                    raise Unsupported("int.from_bytes of symbolic length")
                n = n2
            return mkint(rope_int(sg, n, byteorder, signed))
        if isinstance(data, (list, tuple)) and _has_sym(data):
            return VcInt.from_bytes(VcBytes(data), byteorder, signed=signed)
        return int.from_bytes(data, byteorder, signed=signed)


class VcBool(int, metaclass=_Meta):
    _real = bool
    _syms = (SymBool,)

    def __new__(cls, *a):
        if a and isinstance(a[0], PROXIES) and not isinstance(a[0], (SymSeq, SymStream, SymUUID)):
            return mkbool(sym.truth(a[0])) if not isinstance(a[0], SymStr) else bool(a[0])
        return bool(*a)


class VcBytes(bytes, metaclass=_Meta):
    _real = bytes
    _syms = (SymBytes,)

    def __new__(cls, *a, **k):
        if a:
            x = a[0]
            if isinstance(x, SymBytes):
                return x
            if isinstance(x, SymByteArray):
                return x.value()
            if isinstance(x, SymInt):
                if cur().branch(x.z < 0):
                    raise ValueError("negative count")
                return mkbytes([("f", 0, x.z)])
            if isinstance(x, SymStr):
                return x.encode(*a[1:])
            if isinstance(x, (str, bytes, bytearray, int)):
                return bytes(*a, **k)
            if hasattr(type(x), "__bytes__"):
                return type(x).__bytes__(x)
            r = SymByteArray(list(x))
            return r.value()
        return bytes()

    def decode(x, *a, **k):
        return x.decode(*a, **k)


class VcByteArray(bytearray, metaclass=_Meta):
    _real = bytearray
    _syms = (SymByteArray,)

    def __new__(cls, *a, **k):
        if a and isinstance(a[0], str):
            return bytearray(*a, **k)
        return SymByteArray(*a)


class VcList(list, metaclass=_Meta):
    _real = list
    _syms = (SymList,)

    def __new__(cls, *a):
        if a and isinstance(a[0], SymList):
            return a[0][:]
        return list(*a)


class VcMemoryView(metaclass=_Meta):
    _real = memoryview
    _syms = (SymBytes,)

    def __new__(cls, x):
        return mkbytes(segs(x))


class VcStr(str, metaclass=_Meta):
    _real = str
    _syms = (SymStr,)

    def __new__(cls, *a, **k):
        if a:
            return to_str(*a, **k)
        return ""

    def encode(x, *a, **k):
        return x.encode(*a, **k)


def _unbound(name):
    def call(x, *a, **k):
        if not isinstance(x, (str, SymStr)):
            raise TypeError("descriptor %r for 'str' objects doesn't apply to a %r object" % (name, type(x).__name__))
        return getattr(x, name)(*a, **k)
    return call


for _n in ("strip", "lstrip", "rstrip", "upper", "lower", "split", "startswith", "endswith", "partition", "replace"):
    setattr(VcStr, _n, _unbound(_n))


def to_str(x="", *a, **k):
    if isinstance(x, SymStr):
        return x
    if isinstance(x, SymInt):
        return SymStr([("int", x.z, "")])
    if isinstance(x, SymBool):
        return str(bool(x))
    if isinstance(x, SymUUID):
        return x.sstr
    if isinstance(x, (SymBytes, SymByteArray)):
        if a:
            return x.decode(*a)
        return SymStr([("repr", tuple(x.sg))])
    m = getattr(type(x), "__str__", None)
    if isinstance(m, types.FunctionType):
        return m(x)
    m = getattr(type(x), "__repr__", None)
    if isinstance(m, types.FunctionType) and getattr(type(x), "__str__", None) is object.__str__:
        return m(x)
    return str(x, *a, **k)


def vc_map(f, *its):
    return its[0].map(f) if len(its) == 1 and isinstance(its[0], SymList) else map(f, *its)


def vc_zip(*its, **k):
    """zip of lists of one symbolic length."""
    if k or not its or not all(isinstance(x, SymList) for x in its):
        return zip(*its, **k)
    n = [x.vc_len() for x in its]
    if not all(cur().entails(sym.truth(m == n[0])) for m in n[1:]):
        raise Unsupported("zip of lists of different symbolic lengths")
    its = [x[:] for x in its]
    return SymList(n[0], lambda j: tuple(x.at(j) for x in its))


def vc_len(x):
    f = getattr(type(x), "vc_len", None)
    if f is not None:
        return f(x)
    m = getattr(type(x), "__len__", None)
    if isinstance(m, types.FunctionType):
        return m(x)
    return len(x)


class SymRange:
    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s

    def __iter__(self):
        vc = cur()
        i = self.a
        n = 0
        while True:
            c = (i < self.b) if self.s > 0 else (i > self.b)
            if not c:
                return
            n += 1
            if n > vc.max_unroll:
                raise PathLimit("unbounded range iteration")
            yield i
            i = i + self.s

    def __contains__(self, x):
        if self.s == 1:
            return bool(sym.and_(x >= self.a, x < self.b))
        raise Unsupported("in range with step")

    def vc_len(self):
        if self.s != 1:
            raise Unsupported("len(range) with step")
        return sym.ite(self.b > self.a, self.b - self.a, 0)


def vc_range(*a):
    if not _has_sym(a):
        return range(*a)
    a = list(a)
    if len(a) == 1:
        a = [0, a[0], 1]
    elif len(a) == 2:
        a = a + [1]
    s = a[2]
    if isinstance(s, SymInt):
        if cur().branch(s.z > 0):
            return SymRange(a[0], a[1], s)
        raise Unsupported("range with symbolic non-positive step")
    return SymRange(*a)


def vc_sum(it, start=0):
    if isinstance(it, (SymBytes, SymByteArray)):
        return start + rope_sum(segs(it))
    if isinstance(it, SymList) and is_z(it.n):
        return start + it.sum()
    r = start
    for x in it:
        r = r + x
    return r


_SUMS = {}


def rope_sum(sg):
    """Sum of the bytes of a rope; of an opaque slice it is an uninterpreted function of the slice,
    additive over adjacent slices (both ends are expressed through one prefix-sum function)."""
    vc = cur()
    acc = 0
    for s in sg:
        if s[0] == "c":
            acc = acc + sum(s[1])
        elif s[0] == "f":
            acc = acc + s[1] * s[2]
        elif s[0] == "i":
            for i in range(s[2]):
                acc = acc + sym.seg_byte(s, i)
        else:
            n = s[3]
            if not is_z(n) and n <= 64:
                for i in range(n):
                    acc = acc + sym.seg_byte(s, i)
            else:
                p = z3.Function("psum_" + s[1].name(), z3.IntSort(), z3.IntSort())
                lo, hi = p(_zb(s[2])), p(_zb(simp(s[2] + n)))
                vc.fact(z3.And(hi - lo >= 0, hi - lo <= 255 * _zb(n)))
                acc = acc + (hi - lo)
    return mkint(simp(acc)) if is_z(acc) else acc


def vc_min(*a, **k):
    if len(a) == 2 and not k and _has_sym(a):
        return sym.ite(a[0] <= a[1], a[0], a[1])
    return min(*a, **k)


def vc_max(*a, **k):
    if len(a) == 1 and not k and isinstance(a[0], SymList):
        return sym.some_max(a[0])
    if len(a) == 1 and not k:
        a = list(a[0])
        if not _has_sym(a):
            return max(a)
        r = a[0]
        for x in a[1:]:
            r = sym.ite(x > r, x, r)
        return r
    if len(a) == 2 and not k and _has_sym(a):
        return sym.ite(a[0] >= a[1], a[0], a[1])
    return max(*a, **k)


def vc_hex(x):
    if isinstance(x, SymInt):
        return SymStr(["", ("int", x.z, "#x")])
    return hex(x)


class Enumerated:
    """enumerate() of bytes of unknown length, for a loop that is cut by a contract (or run natively)."""

    def __init__(self, src, start):
        self.src, self.start = src, start

    def __iter__(self):
        return iter(zip(_b.range(self.start, 1 << 62), self.src))

    def __getitem__(self, i):
        return (i + self.start, self.src[i])


def vc_enumerate(x, start=0):
    if isinstance(x, (SymBytes, SymByteArray, SymList)):
        return Enumerated(x, start)
    return enumerate(x, start)


def vc_chr(x):
    if isinstance(x, SymInt):
        if not cur().entails(z3.And(x.z >= 0, x.z < 0x110000)):
            raise Unsupported("chr of an integer that may not be a character")
        return SymStr([("int", x.z, "c")])
    return chr(x)


def vc_ord(x):
    if isinstance(x, SymBytes):
        return x[0]
    return ord(x)


def vc_type(*a):
    if len(a) == 1:
        m = {SymInt: VcInt, SymBool: VcBool, SymBytes: VcBytes, SymByteArray: VcByteArray, SymStr: VcStr, SymUUID: VcUUID,
             SymStream: VcBytesIO}
        t = type(a[0])
        if t in m:
            return m[t]
        r = {int: VcInt, bytes: VcBytes, str: VcStr, bool: VcBool, _uuid.UUID: VcUUID}
        return r.get(t, t)
    return type(*a)


def vc_repr(x):
    if isinstance(x, PROXIES):
        return SymStr([("repr", id(x))])
    return repr(x)


def vc_round(x, *a):
    return round(x, *a)


def vc_print(*a, **k):
    return None


def vc_bool(x):
    return x


def vc_divmod(a, b):
    if _has_sym((a, b)):
        return (a // b, a % b)
    return divmod(a, b)


def vc_format(x, spec=""):
    return HOOKS.fmt1(x, spec)


def vc_hash(x):
    return hash(x)


# ------------------------------------------------------------------ uuid
class VcUUID(metaclass=_Meta):
    _real = _uuid.UUID
    _syms = (SymUUID,)
    NAMESPACE = None

    def __new__(cls, hex=None, bytes=None, bytes_le=None, fields=None, int=None, version=None, *, is_safe=None):
        if isinstance(hex, SymStr):
            if hex._only("uuid"):
                return SymUUID(list(hex.parts[0][1]))
            return uuid_of_text(hex)
        if isinstance(bytes_le, (SymBytes, SymByteArray)):
            n = total(segs(bytes_le))
            c = simp(n == 16)
            if not (cur().branch(c) if is_z(c) else c):
                raise ValueError("bytes_le is not a 16-char string")
            return SymUUID(segs(bytes_le))
        if isinstance(bytes, (SymBytes, SymByteArray)):
            n = total(segs(bytes))
            c = simp(n == 16)
            if not (cur().branch(c) if is_z(c) else c):
                raise ValueError("bytes is not a 16-char string")
            be = segs(bytes)
            return SymUUID(sym.swap16(be), be)
        if isinstance(int, SymInt):
            be = pack_int(int, 16, "big", False, ValueError)
            return SymUUID(sym.swap16(be), be)
        if fields is not None and _has_sym(fields):
            sizes = (4, 2, 2, 1, 1)
            le = []
            for v, n in zip(fields, sizes):
                le += pack_int(v, n, "little", False, ValueError)
            le += pack_int(fields[5], 6, "big", False, ValueError)
            return SymUUID(sym.norm(le))
        k = {}
        if version is not None:
            k["version"] = version
        return _uuid.UUID(hex, bytes, bytes_le, fields, int, **k)


def uuid_of_text(s):
    """uuid.UUID(text): 32 hex digits, dashes anywhere."""
    parts = text.norm([p.replace("-", "") if isinstance(p, str) else p for p in text.expand(s.parts)])
    if any(isinstance(p, str) and any(c in "{}:" for c in p) for p in parts):
        raise Unsupported("UUID of a text with braces")
    if sum(text.pmin(p) for p in parts) > 32 or any(text.pmin(p) > 0 and not text.pcs(p).any_of(text.HEXL | text.HEXU | {"_", "-"}) for p in parts):
        raise ValueError("badly formed hexadecimal UUID string")
    be = []
    for p in parts:
        if isinstance(p, str):
            if not all(c in text.HEXL or c in text.HEXU for c in p) or len(p) % 2:
                raise Unsupported("UUID of symbolic string")
            be.append(("c", bytes.fromhex(p)))
        elif p[0] in ("hex", "hex_u"):
            be += list(p[1])
        elif p[0] == "int" and p[2][-1:] in ("x", "X") and text.plen(p) % 2 == 0:
            be += pack_int(mkint(p[1]), text.plen(p) // 2, "big", False, ValueError)
        else:
            raise Unsupported("UUID of symbolic string")
    be = sym.norm(be)
    if is_z(total(be)) or total(be) != 16:
        raise ValueError("badly formed hexadecimal UUID string")
    return SymUUID(sym.swap16(be), be)


def uuid_module():
    m = types.ModuleType("uuid")
    m.__dict__.update({k: v for k, v in _uuid.__dict__.items() if not k.startswith("__")})
    m.UUID = VcUUID
    return m


# ------------------------------------------------------------------ io
class VcBytesIO(metaclass=_Meta):
    _real = _io.BytesIO
    _syms = (SymStream,)

    def __new__(cls, init=b"", *a, **k):
        if k:
            init = k.get("initial_bytes", init)
        return SymStream(b"" if init is None else init)


class VcIOBase(metaclass=_Meta):
    _real = _io.IOBase
    _syms = (SymStream,)


def io_module():
    m = types.ModuleType("io")
    m.__dict__.update({k: v for k, v in _io.__dict__.items() if not k.startswith("__")})
    m.BytesIO = VcBytesIO
    m.IOBase = VcIOBase
    m.RawIOBase = VcIOBase
    m.BufferedIOBase = VcIOBase
    return m


# ------------------------------------------------------------------ hashlib: an uninterpreted function of (algorithm, content)
class HashModel:
    def __init__(self, name, data=b""):
        self.name = name
        self.sg = segs(data)
        self.digest_size = _hashlib.new(name).digest_size
        self.block_size = _hashlib.new(name).block_size

    def update(self, d):
        self.sg = sym.norm(self.sg + segs(d))

    def copy(self):
        return HashModel(self.name, mkbytes(self.sg))

    def digest(self):
        v = mkbytes(self.sg)
        vc = cur()
        if not isinstance(v, bytes) and vc.entails(total(self.sg) == 0):
            v = b""
        if isinstance(v, bytes):
            return _hashlib.new(self.name, v).digest()
        for nm, sg, f in vc.hash_table:
            if nm == self.name:
                r = sym.rope_eq(sg, self.sg)
                if r is True or (is_z(r) and vc.entails(r)):
                    return mkbytes([("a", f, 0, self.digest_size)])
        f = vc.fresh_fun("H_" + self.name)
        vc.hash_table.append((self.name, self.sg, f))
        return mkbytes([("a", f, 0, self.digest_size)])

    def hexdigest(self):
        d = self.digest()
        return d.hex()


def hashlib_module():
    m = types.ModuleType("hashlib")
    m.__dict__.update({k: v for k, v in _hashlib.__dict__.items() if not k.startswith("__")})
    for n in ("md5", "sha1", "sha224", "sha256", "sha384", "sha512"):
        setattr(m, n, (lambda n: lambda data=b"", **k: HashModel(n, data))(n))
    m.new = lambda name, data=b"", **k: HashModel(name, data)
    return m


# ------------------------------------------------------------------ logging (no observable effect modelled)
class _NullLogger:
    handlers = []
    level = 0
    name = "null"

    def __getattr__(self, n):
        return lambda *a, **k: None


def logging_module():
    m = types.ModuleType("logging")
    m.__dict__.update({k: v for k, v in _logging.__dict__.items() if not k.startswith("__")})
    nl = _NullLogger()
    m.getLogger = lambda *a, **k: nl
    for n in ("debug", "info", "warning", "error", "critical", "exception", "log", "warn"):
        setattr(m, n, lambda *a, **k: None)
    return m


# ------------------------------------------------------------------ datetime
class SymDateTime:
    def __init__(self, year, month, day, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, *, fold=0):
        vc = cur()
        for v, lo, hi, what in ((year, 1, 9999, "year"), (month, 1, 12, "month")):
            z = zint(v)
            c = simp(z3.And(_zb(z) >= lo, _zb(z) <= hi))
            if not (vc.branch(c) if is_z(c) else c):
                raise ValueError("%s is out of range" % what)
        y, mo, d = _zb(zint(year)), _zb(zint(month)), _zb(zint(day))
        leap = z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))
        dim = z3.If(mo == 2, z3.If(leap, z3.IntVal(29), z3.IntVal(28)),
                    z3.If(z3.Or(mo == 4, mo == 6, mo == 9, mo == 11), z3.IntVal(30), z3.IntVal(31)))
        if not vc.branch(simp(z3.And(d >= 1, d <= dim))):
            raise ValueError("day is out of range for month")
        for v, hi, what in ((hour, 23, "hour"), (minute, 59, "minute"), (second, 59, "second"), (microsecond, 999999, "microsecond")):
            z = _zb(zint(v))
            if not vc.branch(simp(z3.And(z >= 0, z <= hi))):
                raise ValueError("%s must be in 0..%d" % (what, hi))
        self.year, self.month, self.day = year, month, day
        self.hour, self.minute, self.second, self.microsecond = hour, minute, second, microsecond
        self.tzinfo = tzinfo
        self.fold = fold

    def _t(self):
        return (self.year, self.month, self.day, self.hour, self.minute, self.second, self.microsecond)

    def __eq__(self, o):
        if not isinstance(o, (SymDateTime, _datetime.datetime)):
            return False
        p = o._t() if isinstance(o, SymDateTime) else (o.year, o.month, o.day, o.hour, o.minute, o.second, o.microsecond)
        return sym.and_(*[a == b for a, b in zip(self._t(), p)])

    def __ne__(self, o):
        return sym.not_(self == o)

    def strftime(self, f):
        return SymStr([("strftime", f, id(self))])

    def __str__(self):
        return "<symdatetime>"

    def __format__(self, s):
        return "<symdatetime>"

    def __getattr__(self, n):
        raise Unsupported("datetime.%s" % n)


class VcDateTime(metaclass=_Meta):
    _real = _datetime.datetime
    _syms = (SymDateTime,)

    def __new__(cls, *a, **k):
        if _has_sym(a) or _has_sym(k.values()):
            return SymDateTime(*a, **k)
        return _datetime.datetime(*a, **k)

    now = _datetime.datetime.now
    strptime = _datetime.datetime.strptime
    fromtimestamp = _datetime.datetime.fromtimestamp
    min = _datetime.datetime.min
    max = _datetime.datetime.max


def datetime_module():
    m = types.ModuleType("datetime")
    m.__dict__.update({k: v for k, v in _datetime.__dict__.items() if not k.startswith("__")})
    m.datetime = VcDateTime
    return m


# ------------------------------------------------------------------ hooks called by instrumented code
_RE = type(_re.compile(""))
_KEYS = type({}.keys())
_VALUES = type({}.values())


def sym_keys(o):
    return any(type(q) is SymStr or type(q) is tuple and _has_sym(q) for q in o)


def within_const(x, c):
    """Is the symbolic text x part of the constant c?"""
    if not sym.truth(x) is True and not bool(x):
        return True
    r = False
    done = set()
    for i in range(len(c)):
        for j in range(i + 1, len(c) + 1):
            if c[i:j] not in done:
                done.add(c[i:j])
                r = sym.or_(r, x == c[i:j])
    return r


class Hooks:
    EngineExc = EngineExc

    def listcomp(self, f, it):
        if isinstance(it, SymList):
            return it.map(f)
        return [f(x) for x in it]

    def genexp(self, f, it):
        if isinstance(it, SymList):
            return it.map(f)
        it = iter(it)
        return (f(x) for x in it)

    def dictcomp(self, kf, vf, it):
        if hasattr(type(it), "vc_dictcomp"):
            return it.vc_dictcomp(kf, vf)
        if isinstance(it, SymList):
            raise Unsupported("a dictionary of a symbolic list")
        return {kf(x): vf(x) for x in it}

    def iadd(self, a, b):
        """``o.attr += b``."""
        if type(a) is list and not a:
            from .lists import SymList
            if isinstance(b, SymList):
                # [] += symbolic list: a new list object, so nobody else may refer to the old one
                if sys.getrefcount(a) > IADD_REFS:
                    raise Unsupported("+= on a shared empty list")
                r = SymList(0, b.get)
                r.extend(b)
                return r
        return operator.iadd(a, b)

    def fmt1(self, v, spec):
        if isinstance(spec, SymInt) and isinstance(v, (str, SymStr)):
            return text.padded(v if isinstance(v, SymStr) else SymStr([v]), spec)
        if isinstance(v, SymStr):
            if spec not in ("", "s"):
                return text.padded(v, spec)
            return v
        if isinstance(v, SymInt):
            if isinstance(spec, str) and len(spec) >= 4 and spec[:2] == "#0" and spec[2:-1].isdigit() and spec[-1] in "xX" and int(spec[2:-1]) > 2 \
                    and cur().entails(v.z >= 0):
                return SymStr(["0" + spec[-1], ("int", v.z, "0%d%s" % (int(spec[2:-1]) - 2, spec[-1]))])
            return SymStr([("int", v.z, {"0x": "x", "0X": "X", "0d": "d"}.get(spec, spec))])
        if isinstance(v, SymUUID):
            return v.sstr
        if isinstance(v, (SymBytes, SymByteArray)):
            return SymStr([("repr", tuple(v.sg))])
        if isinstance(v, SymBool):
            return format(bool(v), spec)
        if not spec and type(v).__format__ is object.__format__:
            return to_str(v)
        return format(v, spec)

    def fstr(self, *parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                out.append(p)
                continue
            v, conv, spec = p
            if conv == "r":
                v = vc_repr(v)
            elif conv == "s":
                v = to_str(v)
            out += SymStr.of(self.fmt1(v, spec))
        return text.mk(out)

    def mod(self, a, b):
        if isinstance(a, str):
            args = b if isinstance(b, tuple) else (b,)
            if isinstance(b, dict) or not any(isinstance(x, PROXIES) for x in args):
                try:
                    return a % b
                except TypeError:
                    raise
            return self._percent(a, list(args))
        return a % b

    def _percent(self, f, args):
        import re
        out = []
        pos = 0
        for m in re.finditer(r"%([-+ #0]*\d*(?:\.\d+)?)([a-zA-Z%])", f):
            out.append(f[pos:m.start()])
            pos = m.end()
            fl, c = m.group(1), m.group(2)
            if c == "%":
                out.append("%")
                continue
            if not args:
                raise TypeError("not enough arguments for format string")
            v = args.pop(0)
            if isinstance(v, SymInt):
                out.append(("int", v.z, {"d": fl + "d" if fl else "", "s": ""}.get(c, fl + c)))
            elif c == "s" or isinstance(v, PROXIES):
                if c in "dxX" and not isinstance(v, PROXIES):
                    out.append(("%" + fl + c) % v)
                elif c in "dxX" and isinstance(v, (SymBytes, SymStr, SymUUID)):
                    raise TypeError("%d format: a real number is required")
                else:
                    out += SymStr.of(to_str(v))
            else:
                out.append(("%" + fl + c) % v)
        out.append(f[pos:])
        if args:
            raise TypeError("not all arguments converted during string formatting")
        return text.mk(out)

    def is_(self, a, b):
        if isinstance(a, (SymInt, SymBool)) or isinstance(b, (SymInt, SymBool)):
            # identity of integers is modelled as equality for CPython's cached small ints, unsupported otherwise
            if a is None or b is None:
                return False
            if isinstance(a, (SymInt,)) and type(b) is bool or isinstance(b, SymInt) and type(a) is bool:
                return False
            if isinstance(a, SymBool) or isinstance(b, SymBool):
                if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
                    return a == b
                return False
            if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)):
                if not isinstance(a, SymInt) or not isinstance(b, SymInt):
                    k = b if isinstance(a, SymInt) else a
                    if -5 <= k <= 256:
                        return a == b
                raise Unsupported("identity of integers")
            return False
        return a is b

    def is_not(self, a, b):
        return sym.not_(self.is_(a, b))

    def contains(self, x, c):
        if isinstance(c, (dict, set, frozenset)) and (isinstance(x, PROXIES) or any(isinstance(k, PROXIES) for k in c)):
            for k in c:
                if k == x:
                    return True
            return False
        if isinstance(c, range) and isinstance(x, SymInt):
            if c.step == 1:
                return mkbool(z3.And(x.z >= c.start, x.z < c.stop))
            return any(x == v for v in c)
        if isinstance(c, str) and isinstance(x, SymStr):
            return within_const(x, c)
        if isinstance(c, SymStr):
            return c.contains(x)
        if isinstance(c, SymList):
            return c.__contains__(x)
        if type(c) in (list, tuple, _KEYS, _VALUES) and (isinstance(x, PROXIES) or any(isinstance(k, PROXIES) for k in c)):
            for k in c:
                if k is x or k == x:
                    return True
            return False
        return x in c

    def not_contains(self, x, c):
        return sym.not_(self.contains(x, c))

    def getitem(self, o, k):
        if isinstance(o, dict):
            if isinstance(k, PROXIES) or (isinstance(k, tuple) and _has_sym(k)) or sym_keys(o):
                for q in o:
                    if q == k:
                        with text.hashing():
                            return o[q]
                f = getattr(o, "default_factory", None)
                if f is not None:
                    return f()      # (the new entry is not stored: a later read makes an equal one)
                raise KeyError(k if not isinstance(k, PROXIES) else "symbolic key")
            return o[k]
        if isinstance(o, (bytes, bytearray, memoryview)) and (isinstance(k, SymInt) or isinstance(k, slice) and _has_sym((k.start, k.stop))):
            return SymBytes(segs(o))[k] if len(o) or isinstance(k, slice) else o[0]
        if isinstance(o, (list, tuple, str)) and isinstance(k, SymInt):
            for i in range(-len(o), len(o)):
                if cur().branch(k.z == i):
                    return o[i]
            raise IndexError("list index out of range")
        if isinstance(o, (list, tuple, str)) and isinstance(k, slice) and _has_sym((k.start, k.stop)):
            a = None if k.start is None else _idx(k.start, len(o))
            b = None if k.stop is None else _idx(k.stop, len(o))
            return o[a:b]
        return o[k]

    def setitem(self, o, k, v):
        if isinstance(o, dict) and (isinstance(k, PROXIES) or sym_keys(o)):
            for q in list(o):
                if q == k:
                    with text.hashing():
                        o[q] = v
                    return
            if isinstance(k, PROXIES) and not isinstance(k, SymStr):
                raise Unsupported("store under a symbolic key")
            with text.hashing():
                o[k] = v
            return
        if isinstance(o, list) and isinstance(k, SymInt):
            for i in range(-len(o), len(o)):
                if cur().branch(k.z == i):
                    o[i] = v
                    return
            raise IndexError("list assignment index out of range")
        o[k] = v

    def callm(self, o, name, *a, **k):
        t = type(o)
        if t in (bytes, str, bytearray, dict, list, tuple):
            if t is bytes:
                if name == "join":
                    if isinstance(a[0], SymList) and is_z(a[0].n):
                        if o:
                            raise Unsupported("join of a symbolic list with a separator")
                        return a[0].join()
                    parts = list(a[0])
                    if any(isinstance(p, PROXIES) for p in parts):
                        return SymBytes(segs(o)).join(parts) if o else mkbytes([s for p in parts for s in segs(p)])
                    return o.join(parts)
                if name in ("ljust",) and _has_sym(a):
                    return SymBytes(segs(o)).ljust(*a)
                if name in ("startswith", "endswith", "find", "index", "count") and _has_sym(a):
                    raise Unsupported("bytes.%s with symbolic argument" % name)
            elif t is str:
                if name == "join":
                    if isinstance(a[0], SymList) and not o:
                        from . import chars
                        r = chars.join(a[0])
                        if r is None and is_z(a[0].n):
                            r = fold.join(a[0])
                        if r is not None:
                            return r
                    parts = list(a[0])
                    if any(isinstance(p, SymStr) for p in parts):
                        return SymStr([o]).join(parts)
                    return o.join(parts)
                if name == "format" and any(isinstance(x, PROXIES) or isinstance(getattr(type(x), "__str__", None), types.FunctionType) for x in (*a, *k.values())):
                    return self._format(o, a, k)
                if _has_sym(a) or name in ("startswith", "endswith") and a and isinstance(a[0], tuple) and _has_sym(a[0]):
                    if not any(isinstance(x, PROXIES) and not isinstance(x, (SymStr, SymInt)) for x in a):
                        return getattr(SymStr([o]), name)(*a, **k)
                    raise Unsupported("str.%s with symbolic argument" % name)
            elif t is dict and (a and isinstance(a[0], PROXIES) or sym_keys(o)) and name not in ("keys", "values", "items", "clear", "popitem"):
                if name in ("get", "pop", "setdefault"):
                    for q in list(o):
                        if q == a[0]:
                            with text.hashing():
                                return o.pop(q) if name == "pop" else o[q]
                    if name == "setdefault":
                        self.setitem(o, a[0], a[1] if len(a) > 1 else None)
                    elif name == "pop" and len(a) < 2:
                        raise KeyError("symbolic key")
                    return a[1] if len(a) > 1 else None
                if name == "update" and len(a) == 1 and isinstance(a[0], dict) and not k:
                    for q in a[0]:
                        with text.hashing():
                            v = a[0][q]
                        self.setitem(o, q, v)
                    return None
                if name == "copy":
                    with text.hashing():
                        return dict(o)
                raise Unsupported("dict.%s with symbolic key" % name)
            elif t is list and name == "insert" and _has_sym(a[:1]):
                raise Unsupported("list.insert at a symbolic index")
            elif t in (list, tuple) and name in ("index", "remove", "count") and (_has_sym(a) or any(isinstance(x, PROXIES) for x in o)):
                n = 0
                for i, x in enumerate(o):
                    if x is a[0] or x == a[0]:
                        if name == "index":
                            return i
                        if name == "remove":
                            del o[i]
                            return None
                        n += 1
                if name == "count":
                    return n
                raise ValueError("not in list")
        elif t is _RE and _has_sym(a):
            from . import rx
            return rx.call(o, name, a)
        elif o is _re and _has_sym(a) and name in ("match", "fullmatch", "search", "sub", "split", "findall", "finditer"):
            from . import rx
            if name == "sub":
                return rx.call(_re.compile(a[0]), name, a[1:])
            return rx.call(_re.compile(a[0], *a[2:]), name, a[1:2])
        elif o is posixpath and name in paths.PATHS and not k and _has_sym(a):
            if all(isinstance(x, (str, SymStr)) for x in a):
                return paths.call(name, a)
        elif o is textwrap and name == "dedent" and not k and len(a) == 1 and isinstance(a[0], SymStr):
            return paths.dedent(a[0])
        elif o is int or o is bytes or o is str:
            o = {int: VcInt, bytes: VcBytes, str: VcStr}[o]
        return getattr(o, name)(*a, **k)

    def _format(self, f, a, k):
        import string
        out = []
        auto = 0
        for lit, field, spec, conv in string.Formatter().parse(f):
            if lit:
                out.append(lit)
            if field is None:
                continue
            if field == "":
                v = a[auto]
                auto += 1
            elif field.isdigit():
                v = a[int(field)]
            elif field in k:
                v = k[field]
            else:
                raise Unsupported("format field %s" % field)
            if spec and "{" in spec:
                if spec[0] != "{" or spec[-1] != "}" or spec[1:-1] not in k or spec.count("{") != 1:
                    raise Unsupported("format spec %s" % spec)
                spec = k[spec[1:-1]]
                spec = spec if isinstance(spec, SymInt) else str(spec)
            out += SymStr.of(self.fmt1(to_str(v) if conv == "s" else v, spec or ""))
        return text.mk(out)

    # loops -----------------------------------------------------------------
    def loop(self, key):
        return cur_loader().loop(key)

    def iter_(self, it):
        return it


def _idx(k, n):
    if not isinstance(k, SymInt):
        return k
    for i in range(0, n + 1):
        if cur().branch(k.z == i):
            return i
    if cur().branch(k.z > n):
        return n
    for i in range(-n, 0):
        if cur().branch(k.z == i):
            return i
    return -n - 1 if n else 0


HOOKS = Hooks()
_LOADER = None


def cur_loader():
    return cur().loader


def make_builtins(importer):
    d = dict(_b.__dict__)
    d.update(int=VcInt, bytes=VcBytes, bytearray=VcByteArray, memoryview=VcMemoryView, str=VcStr, list=VcList, len=vc_len, range=vc_range,
             sum=vc_sum, min=vc_min, max=vc_max, hex=vc_hex, chr=vc_chr, enumerate=vc_enumerate, ord=vc_ord, type=vc_type, repr=vc_repr,
             map=vc_map, zip=vc_zip, print=vc_print, divmod=vc_divmod, format=vc_format, bool=VcBool)
    d["__import__"] = importer
    d["__vc__"] = HOOKS
    return d


def _iadd_refs():
    """Reference count iadd sees for a list that only one attribute holds."""
    class O:
        pass

    o = O()
    o.x = []
    return (lambda a, b: sys.getrefcount(a))(o.x, [])


IADD_REFS = _iadd_refs()
