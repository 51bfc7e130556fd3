"""Helpers for harnesses, meaningful in every mode.  These are the specification vocabulary: le(), cat(), u(), stream()."""
import io as _io
import uuid as _uuid

from . import models, sym


def outcome(f, *a, **k):
    """(True, value) or (False, exception)."""
    try:
        return True, f(*a, **k)
    except Exception as e:  # engine exceptions are BaseException
        return False, e


def blen(b):
    """len() in both modes."""
    f = getattr(type(b), "vc_len", None)
    return f(b) if f else len(b)


AND = sym.and_
OR = sym.or_
NOT = sym.not_
IMPLIES = sym.implies
ite = sym.ite


def all_eq(*pairs):
    r = True
    for a, b in pairs:
        r = sym.and_(r, a == b)
    return r


def le(v, size):
    """size-byte little-endian encoding of an in-range non-negative integer."""
    if isinstance(v, sym.SymInt):
        return sym.mkbytes(models.pack_int(v, size, "little", False, ValueError))
    if isinstance(v, sym.SymBool):
        return sym.mkbytes(models.pack_int(sym.SymInt(sym.zint(v)), size, "little", False, ValueError))
    return int(v).to_bytes(size, "little")


def be(v, size):
    if isinstance(v, sym.SymInt):
        return sym.mkbytes(models.pack_int(v, size, "big", False, ValueError))
    return int(v).to_bytes(size, "big")


def cat(*parts):
    r = b""
    for p in parts:
        r = r + p
    return r


def u(b, off, size):
    """Unsigned little-endian integer at b[off:off+size]."""
    return models.VcInt.from_bytes(b[off:off + size], "little")


def stream(vc, b, pos=0):
    s = sym.SymStream(b) if vc.symbolic else _io.BytesIO(bytes(b))
    s.seek(pos)
    return s


def guid_le(vc, b):
    """The GUID whose little-endian bytes are b."""
    if vc.symbolic:
        return models.VcUUID(bytes_le=b)
    return _uuid.UUID(bytes_le=bytes(b))


def zeros(n):
    return sym.repeat(b"\0", n)


def dead(vc):
    """Stop this path/run: nothing more to say about it."""
    vc.assume(False)


def fmt(v, spec=""):
    """format(v, spec) of an integer, in both modes."""
    if isinstance(v, sym.SymInt):
        return sym.SymStr([("int", v.z, spec)])
    return format(v, spec)


def scat(*parts):
    """Concatenation of strings, in both modes."""
    if any(isinstance(p, sym.SymStr) for p in parts):
        return sym.SymStr([q for p in parts for q in sym.SymStr.of(p)])
    return "".join(parts)
