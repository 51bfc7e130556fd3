"""Symbolic values: integers (mathematical, as Python's), booleans, byte ropes, UUIDs, streams, sequences."""
import uuid as _uuid

import z3

from .core import PathLimit, Unsupported, cur, is_z, simp


# ------------------------------------------------------------------ booleans and integers
def truth(x):
    """z3/py truth of a value without forking."""
    if isinstance(x, SymBool):
        return x.z
    if isinstance(x, SymInt):
        return x.z != 0
    if isinstance(x, SymBytes):
        ln = x.length()
        return simp(ln > 0) if is_z(ln) else ln > 0
    if is_z(x):
        return x
    if type(x).__name__ == "SymStr":
        t = x.truth()
        return t.z if isinstance(t, SymBool) else t
    return bool(x)


def mkbool(z):
    z = simp(z)
    return SymBool(z) if is_z(z) else bool(z)


def mkint(z):
    z = simp(z)
    return SymInt(z) if is_z(z) else z


def zint(x):
    if isinstance(x, SymInt):
        return x.z
    if isinstance(x, SymBool):
        return z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return int(x)
    if is_z(x):
        return x
    return None


class SymBool:
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return cur().branch(self.z)

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkbool(self.z == o.z)
        if isinstance(o, bool):
            return mkbool(self.z == o)
        v = zint(o)
        if v is None:
            return False
        return mkbool(zint(self) == v)

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __hash__(self):
        raise Unsupported("hash of symbolic bool")

    def __index__(self):
        return 1 if self else 0

    def __int__(self):
        return 1 if self else 0

    def __and__(self, o):
        if isinstance(o, (SymBool, bool)):
            return mkbool(z3.And(self.z, truth(o)))
        return SymInt(zint(self)) & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (SymBool, bool)):
            return mkbool(z3.Or(self.z, truth(o)))
        return SymInt(zint(self)) | o

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(self.z != truth(o))

    def __invert__(self):
        raise Unsupported("~bool")

    def __add__(self, o):
        return SymInt(zint(self)) + o

    __radd__ = __add__

    def __lt__(self, o):
        return SymInt(zint(self)) < o

    def __le__(self, o):
        return SymInt(zint(self)) <= o

    def __gt__(self, o):
        return SymInt(zint(self)) > o

    def __ge__(self, o):
        return SymInt(zint(self)) >= o

    def __lshift__(self, o):
        return SymInt(zint(self)) << o

    def __mul__(self, o):
        return SymInt(zint(self)) * o

    __rmul__ = __mul__

    def __repr__(self):
        return "<SymBool %s>" % self.z

    def __str__(self):
        return str(bool(self))

    def __format__(self, s):
        return format(bool(self), s)


def not_(x):
    if isinstance(x, SymBool):
        return mkbool(z3.Not(x.z))
    if x is NotImplemented:
        return x
    return not x


def and_(*xs):
    zs = [truth(x) for x in xs]
    if all(not is_z(z) for z in zs):
        return all(zs)
    return mkbool(z3.And(*zs))


def or_(*xs):
    zs = [truth(x) for x in xs]
    if all(not is_z(z) for z in zs):
        return any(zs)
    return mkbool(z3.Or(*zs))


def implies(a, b):
    return or_(not_(mkbool(truth(a))), b)


def ite(c, a, b):
    c = truth(c)
    if not is_z(c):
        return a if c else b
    if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
        return mkbool(z3.If(c, truth(a), truth(b)))
    za, zb = zint(a), zint(b)
    za = z3.IntVal(za) if not is_z(za) else za
    zb = z3.IntVal(zb) if not is_z(zb) else zb
    return mkint(z3.If(c, za, zb))


def _runs(mask):
    """Maximal runs of set bits of a non-negative mask: (shift, width)."""
    out, k = [], 0
    while mask:
        while not mask & 1:
            mask >>= 1
            k += 1
        w = 0
        while mask & 1:
            mask >>= 1
            w += 1
        out.append((k, w))
        k += w
    return out


def _and_const(z, mask):
    if mask == 0:
        return 0
    if mask < 0:
        return z - _and_const(z, ~mask)
    t = None
    for k, w in _runs(mask):
        if k == 0:
            p = z % (1 << w)
        else:
            p = ((z / (1 << k)) % (1 << w)) * (1 << k)
        t = p if t is None else t + p
    return t


class SymInt:
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    # arithmetic
    def _bin(self, o, f):
        v = zint(o)
        if v is None:
            return NotImplemented
        return mkint(f(self.z, v))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (bytes, bytearray, str, list, tuple)):
            return repeat(o, self)
        if isinstance(o, SymBytes):
            return repeat(o, self)
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def _div(self, a, b):
        if is_z(b):
            if cur().branch(b == 0):
                raise ZeroDivisionError("integer division or modulo by zero")
            if cur().branch(b > 0):
                return a / b
            return (-a) / (-b)
        if b == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if b < 0:
            return (-a) / (-b)
        a = a if is_z(a) else z3.IntVal(a)
        return a / b

    def __floordiv__(self, o):
        v = zint(o)
        return NotImplemented if v is None else mkint(self._div(self.z, v))

    def __rfloordiv__(self, o):
        v = zint(o)
        return NotImplemented if v is None else mkint(self._div(z3.IntVal(v), self.z))

    def __mod__(self, o):
        v = zint(o)
        return NotImplemented if v is None else mkint(self.z - v * self._div(self.z, v) if not (isinstance(v, int) and v > 0) else self.z % v)

    def __rmod__(self, o):
        v = zint(o)
        if v is None:
            return NotImplemented
        return mkint(v - self.z * self._div(z3.IntVal(v), self.z))

    def __divmod__(self, o):
        return (self // o, self % o)

    def __truediv__(self, o):
        v = zint(o)
        if isinstance(v, int) and v > 0:
            return SymRatio(self.z, v)
        raise Unsupported("true division of symbolic integer")

    def __neg__(self):
        return mkint(-self.z)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.z >= 0, self.z, -self.z))

    def __invert__(self):
        return mkint(-self.z - 1)

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        raise Unsupported("** on symbolic integer")

    def __rpow__(self, b):
        return mkint(b ** pick(self, 70)) if False else b ** pick(self, 70)

    def __lshift__(self, o):
        if isinstance(o, SymInt):
            o = pick(o, 70)
        if o < 0:
            raise ValueError("negative shift count")
        return mkint(self.z * (1 << o))

    def __rlshift__(self, o):
        return o << pick(self, 70)

    def __rshift__(self, o):
        if isinstance(o, SymInt):
            o = pick(o, 70)
        if o < 0:
            raise ValueError("negative shift count")
        return mkint(self.z / (1 << o))

    def __rrshift__(self, o):
        return o >> pick(self, 70)

    def __and__(self, o):
        v = zint(o)
        if v is None:
            return NotImplemented
        if isinstance(v, int):
            return mkint(_and_const(self.z, v))
        b = _boolbit(v)
        if b is not None:
            return mkint(z3.If(b, _and_const(self.z, 1), z3.IntVal(0)))
        b = _boolbit(self.z)
        if b is not None:
            return mkint(z3.If(b, _and_const(v, 1), z3.IntVal(0)))
        raise Unsupported("& of two symbolic integers")

    __rand__ = __and__

    def __or__(self, o):
        v = zint(o)
        if v is None:
            return NotImplemented
        if isinstance(v, int):
            return mkint(self.z + v - _and_const(self.z, v))
        return mkint(_disjoint_sum(self.z, v))

    __ror__ = __or__

    def __xor__(self, o):
        v = zint(o)
        if v is None:
            return NotImplemented
        if isinstance(v, int):
            return mkint(self.z + v - 2 * _and_const(self.z, v))
        try:
            return mkint(_disjoint_sum(self.z, v))
        except Unsupported:
            raise Unsupported("^ of two symbolic integers")

    __rxor__ = __xor__

    # comparison
    def _cmp(self, o, f):
        v = zint(o)
        if v is None:
            return NotImplemented
        return mkbool(f(self.z, v))

    def __eq__(self, o):
        v = zint(o)
        if v is None:
            if isinstance(o, SymRatio):
                return o.__eq__(self)
            return False
        return mkbool(self.z == v)

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return cur().branch(self.z != 0)

    def __hash__(self):
        raise Unsupported("hash of symbolic integer")

    def __index__(self):
        v = cur().concretize(self.z)
        if v is None:
            raise Unsupported("symbolic integer needed as a concrete index")
        return v

    def __int__(self):
        return self.__index__()

    def __repr__(self):
        return "<SymInt %s>" % self.z

    def __str__(self):
        raise Unsupported("str() of symbolic integer")

    def __format__(self, s):
        raise Unsupported("format() of symbolic integer")

    def bit_length(self):
        for k in range(0, 130):
            if cur().branch(z3.And(self.z > -(1 << k), self.z < (1 << k))):
                return k
        raise Unsupported("bit_length")

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        from .models import pack_int
        return mkbytes(pack_int(self, int(length), byteorder, signed, OverflowError))


def _boolbit(z):
    """The condition b when z is syntactically If(b,1,0)."""
    if is_z(z) and z.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(z.arg(1)) and z3.is_int_value(z.arg(2)):
        if z.arg(1).as_long() == 1 and z.arg(2).as_long() == 0:
            return z.arg(0)
        if z.arg(1).as_long() == 0 and z.arg(2).as_long() == 1:
            return z3.Not(z.arg(0))
    return None


def _disjoint_sum(a, b):
    vc = cur()
    for k in list(range(1, 65)):
        m = 1 << k
        for x, y in ((a, b), (b, a)):
            if vc.entails(z3.And(y >= 0, y < m)):
                if vc.entails(x % m == 0):
                    return x + y
                if vc.entails(z3.And(x >= 0, x < m)):
                    break
    raise Unsupported("| of two symbolic integers not provably disjoint")


def pick(x, limit):
    """Fork a symbolic int over its feasible values in 0..limit."""
    if not isinstance(x, SymInt):
        return x
    vc = cur()
    for v in range(0, limit + 1):
        if vc.branch(x.z == v):
            return v
    raise Unsupported("symbolic value out of pick range")


class SymRatio:
    """n / d with concrete positive d (result of true division)."""

    def __init__(self, n, d):
        self.n, self.d = n, d

    def __eq__(self, o):
        v = zint(o)
        return False if v is None else mkbool(self.n == v * self.d)

    def __ne__(self, o):
        return not_(self == o)

    def __lt__(self, o):
        return mkbool(self.n < zint(o) * self.d)

    def __le__(self, o):
        return mkbool(self.n <= zint(o) * self.d)

    def __gt__(self, o):
        return mkbool(self.n > zint(o) * self.d)

    def __ge__(self, o):
        return mkbool(self.n >= zint(o) * self.d)

    __hash__ = None

    def __floor__(self):
        return mkint(self.n / self.d)

    def __ceil__(self):
        return mkint(-((-self.n) / self.d))

    def __trunc__(self):
        return mkint(z3.If(self.n >= 0, self.n / self.d, -((-self.n) / self.d)))


# ------------------------------------------------------------------ byte ropes
# segment kinds:
#   ("c", bytes)                       constant
#   ("i", z, size, "little"|"big")     size-byte unsigned encoding of z, 0 <= z < 256**size
#   ("a", F, off, len)                 F(off) .. F(off+len-1)
#   ("f", byte, len)                   len copies of a constant byte
def seg_len(s):
    k = s[0]
    if k == "c":
        return len(s[1])
    if k == "i":
        return s[2]
    if k == "a":
        return s[3]
    return s[2]


def total(sg):
    n = 0
    for s in sg:
        n = n + seg_len(s)
    return simp(n)


def norm(sg):
    out = []
    for s in sg:
        ln = seg_len(s)
        if not is_z(ln) and ln <= 0:
            continue
        if s[0] == "f" and not is_z(ln):
            s = ("c", bytes([s[1]]) * ln)
        if out:
            p = out[-1]
            if p[0] == "c" and s[0] == "c":
                out[-1] = ("c", p[1] + s[1])
                continue
            if p[0] == "a" and s[0] == "a" and p[1].eq(s[1]) and simp(p[2] + p[3] - s[2]) == 0 and not is_z(simp(p[2] + p[3] - s[2])):
                out[-1] = ("a", p[1], p[2], simp(p[3] + s[3]))
                continue
            if p[0] == "f" and s[0] == "f" and p[1] == s[1]:
                out[-1] = ("f", p[1], simp(p[2] + s[2]))
                continue
        out.append(s)
    return out


def mkbytes(sg):
    sg = norm(sg)
    if not sg:
        return b""
    if len(sg) == 1 and sg[0][0] == "c":
        return sg[0][1]
    return SymBytes(sg)


def segs(b):
    if isinstance(b, SymBytes):
        return list(b.sg)
    if isinstance(b, SymByteArray):
        return list(b.sg)
    if isinstance(b, (bytes, bytearray, memoryview)):
        return [("c", bytes(b))] if len(b) else []
    raise TypeError("a bytes-like object is required, not %r" % type(b).__name__)


def is_bytes(x):
    return isinstance(x, (bytes, bytearray, memoryview, SymBytes, SymByteArray))


def seg_byte(s, i):
    """z3/py value of byte i (concrete or symbolic index) of a segment."""
    vc = cur()
    k = s[0]
    if k == "c":
        if is_z(i):
            j = vc.concretize(i)
            if j is None:
                r = z3.IntVal(0)
                if len(s[1]) > 64:
                    raise Unsupported("symbolic index into long constant")
                for n, b in enumerate(s[1]):
                    r = z3.If(i == n, z3.IntVal(b), r)
                return r
            i = j
        return s[1][i]
    if k == "f":
        return s[1]
    if k == "a":
        e = simp(s[2] + i)
        t = s[1](e if is_z(e) else z3.IntVal(e))
        key = t.get_id()
        if key not in vc._bytefacts:
            vc._bytefacts.add(key)
            vc._keep.append(t)
            if len(s) < 5:
                vc.fact(z3.And(t >= 0, t < 256))
        return t
    if is_z(i):
        j = vc.concretize(i)
        if j is None:
            raise Unsupported("symbolic index into packed integer")
        i = j
    if s[2] == 1:
        return s[1]
    sh = i if s[3] == "little" else s[2] - 1 - i
    return simp((s[1] / (1 << (8 * sh))) % 256)


def byte_seg(v):
    if not is_z(v):
        return ("c", bytes([v]))
    return ("i", v, 1, "little")


def seg_split(s, n):
    """Split a segment at 0 < n < len."""
    k = s[0]
    if k == "c":
        if is_z(n):
            n2 = cur().concretize(n)
            if n2 is None:
                raise Unsupported("symbolic split of constant bytes")
            n = n2
        return [("c", s[1][:n])], [("c", s[1][n:])]
    if k == "a":
        return [("a", s[1], s[2], n)], [("a", s[1], simp(s[2] + n), simp(s[3] - n))]
    if k == "f":
        return [("f", s[1], n)], [("f", s[1], simp(s[2] - n))]
    if is_z(n):
        n2 = cur().concretize(n)
        if n2 is None:
            raise Unsupported("symbolic split of packed integer")
        n = n2
    bs = [byte_seg(seg_byte(s, i)) for i in range(s[2])]
    return bs[:n], bs[n:]


def split(sg, pos):
    """(left, right) of a rope at pos, 0 <= pos <= total."""
    vc = cur()
    left = []
    rest = list(sg)
    cum = 0
    while rest:
        d = simp(pos - cum)
        if not is_z(d) and d <= 0:
            return left, rest
        s = rest[0]
        ln = seg_len(s)
        if not is_z(d) and not is_z(ln):
            if d >= ln:
                left.append(s)
                rest.pop(0)
                cum = simp(cum + ln)
                continue
            a, b = seg_split(s, d)
            return left + a, b + rest[1:]
        rem = simp(d - ln)
        if (not is_z(rem) and rem >= 0) or (is_z(rem) and vc.entails(rem >= 0)):
            left.append(s)
            rest.pop(0)
            cum = simp(cum + ln)
            continue
        if is_z(d) and vc.entails(d <= 0):
            return left, rest
        if is_z(d) and not vc.entails(d > 0):
            if vc.branch(d <= 0):
                return left, rest
        if is_z(rem) and not vc.entails(rem < 0):
            if not vc.branch(rem < 0):
                left.append(s)
                rest.pop(0)
                cum = simp(cum + ln)
                continue
        a, b = seg_split(s, d)
        return left + a, b + rest[1:]
    return left, []


def clamp_index(i, n):
    """Python slice index semantics: z3/py value in 0..n."""
    vc = cur()
    if not is_z(i) and not is_z(n):
        if i < 0:
            i = max(0, i + n)
        return min(i, n)
    if is_z(i):
        if vc.branch(i < 0):
            i = simp(i + n)
            if vc.branch(i < 0) if is_z(i) else i < 0:
                i = 0
    elif i < 0:
        i = simp(i + n)
        c = simp(i < 0)
        if (vc.branch(c) if is_z(c) else c):
            i = 0
    c = simp(i > n)
    if (vc.branch(c) if is_z(c) else c):
        return n
    return i


def rope_slice(sg, a, b):
    n = total(sg)
    a = 0 if a is None else clamp_index(a, n)
    b = n if b is None else clamp_index(b, n)
    c = simp(z3.simplify(b <= a)) if is_z(b) or is_z(a) else b <= a
    if is_z(c):
        c = cur().branch(c)
    if c:
        return []
    left, right = split(sg, a)
    mid, _ = split(right, simp(b - a))
    return mid


def rope_byte(sg, i):
    """Byte at in-range index i."""
    left, right = split(sg, i)
    return seg_byte(right[0], 0) if right else None


def rope_int(sg, size, order, signed):
    """Integer value of a rope of exactly size bytes (size concrete)."""
    if size == 0:
        return 0
    vc = cur()
    sg = norm(sg)
    if len(sg) == 1 and sg[0][0] == "c":
        return int.from_bytes(sg[0][1], order, signed=signed)
    v = None
    if len(sg) == 1 and sg[0][0] == "i" and sg[0][2] == size and (size == 1 or sg[0][3] == order):
        v = sg[0][1]
    else:
        t = []
        for s in sg:
            ln = seg_len(s)
            if is_z(ln):
                ln2 = vc.concretize(ln)
                if ln2 is None:
                    raise Unsupported("integer of symbolic-length bytes")
                ln = ln2
            if s[0] == "i" and s[3] == order and s[2] > 1:
                t.append((s[1], ln))
            else:
                for i in range(ln):
                    t.append((seg_byte(s, i), 1))
        off = 0
        acc = 0
        if order == "big":
            t = t[::-1]
        for val, ln in t:
            acc = acc + val * (1 << (8 * off))
            off += ln
        v = simp(acc)
        if is_z(v):
            vc.defs[(v.get_id(), size, order)] = (sg, v)
    if signed and is_z(v):
        h = 1 << (8 * size - 1)
        sv = simp(z3.If(v >= h, v - 2 * h, v))
        if is_z(sv):
            vc.defs[(sv.get_id(), size, order, "s")] = (sg, sv)
        return sv
    if signed:
        h = 1 << (8 * size - 1)
        return v - 2 * h if v >= h else v
    return v


def _piece_eq(p, q, n):
    """Equality of two single segments of the same length n; z3/py bool."""
    if p[0] == "c" and q[0] == "c":
        return p[1] == q[1]
    if p[0] == "a" and q[0] == "a" and p[1].eq(q[1]):
        d = simp(p[2] - q[2])
        if not is_z(d) and d == 0:
            return True
        if is_z(d) and cur().entails(d == 0):
            return True
    if p[0] == "f" and q[0] == "f":
        if p[1] == q[1]:
            return True
        return simp(n == 0)
    if p[0] == "i" and q[0] == "i" and p[2] == q[2] and (p[3] == q[3] or p[2] == 1):
        return simp(p[1] == q[1])
    nn = n
    if is_z(n):
        c = cur().concretize(n)
        nn = c if c is not None else n
    if is_z(nn):
        k = cur().fresh("k")
        return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < nn), seg_byte_q(p, k) == seg_byte_q(q, k)))
    if nn > 4096:
        raise Unsupported("comparison of very long pieces")
    for x, y in ((p, q), (q, p)):
        if x[0] == "i" and y[0] in "acf":
            return simp(x[1] == rope_int([y], nn, x[3], False))
    return simp(z3.And(*[_b(seg_byte(p, i)) == _b(seg_byte(q, i)) for i in range(nn)]))


def _b(v):
    return v if is_z(v) else z3.IntVal(v)


def seg_byte_q(s, k):
    if s[0] == "a":
        return s[1](s[2] + k)
    if s[0] == "f":
        return z3.IntVal(s[1])
    raise Unsupported("quantified comparison of packed data")


def rope_eq(x, y):
    """z3/py bool; may fork on length comparisons."""
    vc = cur()
    x, y = norm(x), norm(y)
    lx, ly = total(x), total(y)
    c = simp(lx == ly)
    if is_z(c):
        if not vc.branch(c):
            return False
    elif not c:
        return False
    conj = []
    x, y = list(x), list(y)
    while x and y:
        p, q = x[0], y[0]
        a, b = seg_len(p), seg_len(q)
        d = simp(a - b)
        if is_z(d):
            if vc.entails(d == 0):
                d = 0
            elif vc.entails(d > 0):
                d = 1
            elif vc.entails(d < 0):
                d = -1
            elif vc.branch(d == 0):
                d = 0
            elif vc.branch(d > 0):
                d = 1
            else:
                d = -1
        if d == 0:
            n = a if not is_z(a) else b
            x.pop(0)
            y.pop(0)
            conj.append(_piece_eq(p, q, n))
        elif d > 0:
            if p[0] == "i" and not is_z(b):
                # regroup the other side to this integer when possible
                mid, rest = split(y, a)
                conj.append(simp(p[1] == rope_int(mid, a, p[3], False)))
                x.pop(0)
                y = rest
                continue
            if p[0] == "i":
                bv = vc.concretize(b)
                if bv is None:
                    raise Unsupported("unaligned comparison")
                b = bv
            l, r = seg_split(p, b)
            y.pop(0)
            x = r + x[1:]
            conj.append(_rope_eq_same(l, [q], b))
        else:
            x, y = y, x
            continue
    conj = [c for c in conj if c is not True]
    if any(c is False for c in conj):
        return False
    if not conj:
        return True
    return conj[0] if len(conj) == 1 else z3.And(*conj)


def _rope_eq_same(l, r, n):
    if len(l) == 1 and len(r) == 1:
        return _piece_eq(l[0], r[0], n)
    return rope_eq(l, r)


class SymBytes:
    """Immutable bytes value."""

    __slots__ = ("sg",)

    def __init__(self, sg):
        self.sg = sg

    def length(self):
        return total(self.sg)

    def vc_len(self):
        return mkint(self.length())

    def __len__(self):
        n = self.length()
        if is_z(n):
            n2 = cur().concretize(n)
            if n2 is None:
                raise Unsupported("native len() of symbolic bytes")
            n = n2
        return n

    def __add__(self, o):
        if not is_bytes(o):
            raise TypeError("can't concat %s to bytes" % type(o).__name__)
        return mkbytes(self.sg + segs(o))

    def __radd__(self, o):
        if not is_bytes(o):
            raise TypeError("can't concat bytes to %s" % type(o).__name__)
        if isinstance(o, bytearray):
            r = SymByteArray(o)
            r.extend(self)
            return r
        return mkbytes(segs(o) + self.sg)

    def __mul__(self, n):
        return repeat(self, n)

    __rmul__ = __mul__

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step not in (None, 1):
                if k.step == -1 and k.start is None and k.stop is None and not is_z(self.length()):
                    return mkbytes([byte_seg(rope_byte(self.sg, i)) for i in range(self.length() - 1, -1, -1)])
                raise Unsupported("slice step")
            return mkbytes(rope_slice(self.sg, _zi(k.start), _zi(k.stop)))
        i = _zi(k)
        n = self.length()
        c = simp(i < 0) if is_z(i) else i < 0
        if (cur().branch(c) if is_z(c) else c):
            i = simp(i + n)
        ok = simp(z3.And(i >= 0, i < n)) if is_z(i) or is_z(n) else 0 <= i < n
        if not (cur().branch(ok) if is_z(ok) else ok):
            raise IndexError("index out of range")
        return mkint(rope_byte(self.sg, i))

    def __iter__(self):
        i = 0
        vc = cur()
        n = self.length()
        while True:
            c = simp(i < n) if is_z(n) else i < n
            if not (vc.branch(c) if is_z(c) else c):
                return
            if is_z(n) and i >= vc.max_unroll:
                raise PathLimit("unbounded iteration over bytes")
            yield mkint(rope_byte(self.sg, i))
            i += 1

    def __eq__(self, o):
        if not is_bytes(o):
            return False
        r = rope_eq(self.sg, segs(o))
        return SymBool(r) if is_z(r) else bool(r)

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __bool__(self):
        n = self.length()
        return cur().branch(n > 0) if is_z(n) else n > 0

    def __hash__(self):
        raise Unsupported("hash of symbolic bytes")

    def _lex(self, o, strict):
        """self < o (strict) or self <= o, lexicographic."""
        n1, n2 = self.length(), total(segs(o))
        if is_z(n1) or is_z(n2):
            raise Unsupported("lexicographic comparison of symbolic-length bytes")
        r = z3.BoolVal((n1 < n2) if strict else (n1 <= n2))
        so = segs(o)
        if n1 == n2:
            a = rope_int(self.sg, n1, "big", False)
            b = rope_int(so, n1, "big", False)
            return mkbool(a < b if strict else a <= b)
        for i in range(min(n1, n2) - 1, -1, -1):
            a, b = _b(rope_byte(self.sg, i)), _b(rope_byte(so, i))
            r = z3.Or(a < b, z3.And(a == b, r))
        return mkbool(r)

    def __lt__(self, o):
        return self._lex(o, True)

    def __le__(self, o):
        return self._lex(o, False)

    def __gt__(self, o):
        return not_(self._lex(o, False))

    def __ge__(self, o):
        return not_(self._lex(o, True))

    def __contains__(self, o):
        if isinstance(o, (int, SymInt)):
            for b in self:
                if b == o:
                    return True
            return False
        raise Unsupported("subsequence test on symbolic bytes")

    def __bytes__(self):
        raise Unsupported("native bytes() of symbolic bytes")

    def __repr__(self):
        return "<SymBytes %s>" % (self.sg,)

    def __str__(self):
        raise Unsupported("str() of symbolic bytes")

    def __format__(self, s):
        raise Unsupported("format() of symbolic bytes")

    def startswith(self, p):
        n = len(p)
        c = simp(self.length() >= n)
        if not (cur().branch(c) if is_z(c) else c):
            return False
        return self[0:n] == p

    def endswith(self, p):
        n = len(p)
        c = simp(self.length() >= n)
        if not (cur().branch(c) if is_z(c) else c):
            return False
        ln = self.vc_len()
        return self[ln - n:] == p

    def ljust(self, width, fill=b" "):
        n = self.length()
        pad = simp(zint(width) - n)
        c = simp(pad > 0) if is_z(pad) else pad > 0
        if not (cur().branch(c) if is_z(c) else c):
            return self
        return mkbytes(self.sg + [("f", fill[0], pad)])

    def hex(self, *a):
        return SymStr([("hex", tuple(self.sg))])

    def decode(self, encoding="utf-8", errors="strict"):
        return text_decode(self, encoding, errors)

    def tobytes(self):
        return self

    def join(self, parts):
        out = []
        first = True
        for p in parts:
            if not first:
                out += self.sg
            out += segs(p)
            first = False
        return mkbytes(out)

    def find(self, *a):
        raise Unsupported("bytes.find")

    def rstrip(self, chars=None):
        n = self.length()
        if is_z(n) or chars is None or len(chars) != 1:
            raise Unsupported("bytes.rstrip")
        while n > 0:
            if self[n - 1] == chars[0]:
                n -= 1
            else:
                break
        return self[:n]


def _zi(x):
    if x is None:
        return None
    v = zint(x)
    if v is None:
        if hasattr(x, "__index__"):
            return x.__index__()
        raise TypeError("slice indices must be integers")
    return simp(v)


def repeat(x, n):
    """x * n with n possibly symbolic."""
    z = zint(n)
    if isinstance(x, (bytes, bytearray)) and len(x) == 1:
        c = simp(z <= 0) if is_z(z) else z <= 0
        if (cur().branch(c) if is_z(c) else c):
            return b""
        return mkbytes([("f", x[0], z)])
    if not is_z(z):
        if isinstance(x, SymBytes):
            out = []
            for _ in range(max(0, z)):
                out += x.sg
            return mkbytes(out)
        return x * z
    v = cur().concretize(z)
    if v is not None:
        return repeat(x, v)
    raise Unsupported("symbolic repetition")


class SymByteArray:
    """Mutable bytearray."""

    def __init__(self, init=()):
        if isinstance(init, (bytes, bytearray, SymBytes, SymByteArray)):
            self.sg = segs(init)
        elif isinstance(init, int):
            self.sg = [("c", bytes(init))] if init else []
        elif isinstance(init, SymInt):
            b = repeat(b"\0", init)
            self.sg = segs(b)
        else:
            self.sg = []
            for v in init:
                self.append(v)

    def value(self):
        return mkbytes(self.sg)

    def vc_len(self):
        return mkint(total(self.sg))

    def __len__(self):
        return len(SymBytes(self.sg))

    def append(self, v):
        z = zint(v)
        if is_z(z):
            if not cur().branch(z3.And(z >= 0, z < 256)):
                raise ValueError("byte must be in range(0, 256)")
        elif not 0 <= z < 256:
            raise ValueError("byte must be in range(0, 256)")
        self.sg = norm(self.sg + [byte_seg(z)])

    def extend(self, o):
        if is_bytes(o):
            self.sg = norm(self.sg + segs(o))
        else:
            for v in o:
                self.append(v)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        r = SymByteArray(self)
        r.extend(o)
        return r

    def __radd__(self, o):
        return mkbytes(segs(o) + self.sg)

    def __getitem__(self, k):
        r = SymBytes(self.sg)[k] if self.sg else b""[k]
        return r

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            n = total(self.sg)
            a = 0 if k.start is None else clamp_index(_zi(k.start), n)
            b = n if k.stop is None else clamp_index(_zi(k.stop), n)
            c = simp(b < a)
            if (cur().branch(c) if is_z(c) else c):
                b = a
            left, right = split(self.sg, a)
            _, tail = split(right, simp(b - a))
            self.sg = norm(left + segs(v) + tail)
            return
        n = total(self.sg)
        i = _zi(k)
        c = simp(i < 0) if is_z(i) else i < 0
        if (cur().branch(c) if is_z(c) else c):
            i = simp(i + n)
        ok = simp(z3.And(i >= 0, i < n)) if is_z(i) or is_z(n) else 0 <= i < n
        if not (cur().branch(ok) if is_z(ok) else ok):
            raise IndexError("bytearray index out of range")
        z = zint(v)
        if is_z(z):
            if not cur().branch(z3.And(z >= 0, z < 256)):
                raise ValueError("byte must be in range(0, 256)")
        elif not 0 <= z < 256:
            raise ValueError("byte must be in range(0, 256)")
        left, right = split(self.sg, i)
        _, tail = split(right, 1)
        self.sg = norm(left + [byte_seg(z)] + tail)

    def __iter__(self):
        return iter(SymBytes(self.sg)) if self.sg else iter(())

    def __eq__(self, o):
        if not is_bytes(o):
            return False
        r = rope_eq(self.sg, segs(o))
        return SymBool(r) if is_z(r) else bool(r)

    def __ne__(self, o):
        return not_(self == o)

    __hash__ = None

    def __bool__(self):
        n = total(self.sg)
        return cur().branch(n > 0) if is_z(n) else n > 0

    def hex(self):
        return SymStr([("hex", tuple(self.sg))])

    def decode(self, *a, **k):
        v = self.value()
        return v.decode(*a, **k)

    def clear(self):
        self.sg = []


def text_decode(b, enc, errors="strict"):
    """bytes.decode: an opaque string, or UnicodeDecodeError (the same verdict for the same bytes)."""
    import codecs
    enc = codecs.lookup(enc).name
    vc = cur()
    if vc.entails(total(b.sg) == 0):
        return ""
    if errors != "strict":
        enc += "/" + errors
        return SymStr([("dec", enc, b)])
    for e, sg, ok in vc.decode_table:
        if e == enc:
            r = rope_eq(sg, b.sg)
            if r is True or (is_z(r) and vc.entails(r)):
                break
    else:
        ok = vc.fresh("decodes", z3.BoolSort())
        vc.decode_table.append((enc, b.sg, ok))
        if enc == "utf-16-le":
            vc.fact(z3.Implies(ok, total(b.sg) % 2 == 0))
    if not vc.branch(ok):
        raise UnicodeDecodeError(enc, b"?", 0, 1, "modelled")
    return SymStr([("dec", enc, b)])


# ------------------------------------------------------------------ opaque strings
# ------------------------------------------------------------------ UUID
_SWAP = [3, 2, 1, 0, 5, 4, 7, 6, 8, 9, 10, 11, 12, 13, 14, 15]


def swap16(sg):
    """bytes <-> bytes_le of a 16-byte rope."""
    n = norm(sg)
    if len(n) == 1 and n[0][0] == "a" and len(n[0]) == 4:
        pass
    vc = cur()
    key = ("sw", tuple(id(s) for s in n))
    return [byte_seg(rope_byte(n, i)) for i in _SWAP]


class SymUUID:
    """uuid.UUID with symbolic content; self.le is the bytes_le rope."""

    __slots__ = ("le", "_be")

    def __init__(self, le, be=None):
        self.le = le
        self._be = be

    @property
    def bytes_le(self):
        return mkbytes(self.le)

    @property
    def bytes(self):
        if self._be is None:
            self._be = swap16(self.le)
        return mkbytes(self._be)

    @property
    def fields(self):
        b = self.le
        p = []
        for a, e in ((0, 4), (4, 6), (6, 8)):
            p.append(mkint(rope_int(rope_slice(b, a, e), e - a, "little", False)))
        p.append(mkint(rope_byte(b, 8)))
        p.append(mkint(rope_byte(b, 9)))
        p.append(mkint(rope_int(rope_slice(b, 10, 16), 6, "big", False)))
        return tuple(p)

    @property
    def int(self):
        return mkint(rope_int(segs(self.bytes), 16, "big", False))

    @property
    def hex(self):
        return SymStr([("hex", tuple(segs(self.bytes)))])

    def __eq__(self, o):
        if isinstance(o, SymUUID):
            r = rope_eq(self.le, o.le)
        elif isinstance(o, _uuid.UUID):
            r = rope_eq(self.le, segs(o.bytes_le))
        else:
            return False
        return SymBool(r) if is_z(r) else bool(r)

    def __ne__(self, o):
        return not_(self == o)

    def __lt__(self, o):
        return self.int < o.int

    def __gt__(self, o):
        return self.int > o.int

    def __le__(self, o):
        return self.int <= o.int

    def __ge__(self, o):
        return self.int >= o.int

    def __hash__(self):
        raise Unsupported("hash of symbolic UUID")

    def __str__(self):
        return "<symuuid>"

    def __format__(self, s):
        return "<symuuid>"

    @property
    def sstr(self):
        return SymStr([("uuid", tuple(self.le))])


# ------------------------------------------------------------------ streams
class SymStream:
    """io.BytesIO over a rope.  Position may be symbolic."""

    def __init__(self, init=b""):
        if isinstance(init, (SymStream,)):
            raise TypeError("a bytes-like object is required")
        self.sg = segs(init)
        self.p = 0
        self.closed = False

    # ghost views for loop contracts
    @property
    def pos(self):
        return mkint(self.p)

    @pos.setter
    def pos(self, v):
        self.p = simp(zint(v))

    @property
    def content(self):
        return mkbytes(self.sg)

    @content.setter
    def content(self, v):
        self.sg = segs(v)

    def tell(self):
        return mkint(self.p)

    def seek(self, off, whence=0):
        o = _zi(off)
        if whence == 0:
            c = simp(o < 0) if is_z(o) else o < 0
            if (cur().branch(c) if is_z(c) else c):
                raise ValueError("negative seek value")
            self.p = o
        elif whence == 1:
            p = simp(self.p + o)
            c = simp(p < 0) if is_z(p) else p < 0
            self.p = 0 if (cur().branch(c) if is_z(c) else c) else p
        else:
            p = simp(total(self.sg) + o)
            c = simp(p < 0) if is_z(p) else p < 0
            self.p = 0 if (cur().branch(c) if is_z(c) else c) else p
        return mkint(self.p)

    def read(self, n=-1):
        vc = cur()
        ln = total(self.sg)
        n = -1 if n is None else _zi(n)
        c = simp(self.p >= ln) if is_z(self.p) or is_z(ln) else self.p >= ln
        if (vc.branch(c) if is_z(c) else c):
            return b""
        c = simp(n < 0) if is_z(n) else n < 0
        if (vc.branch(c) if is_z(c) else c):
            e = ln
        else:
            e = simp(self.p + n)
            c = simp(e > ln) if is_z(e) or is_z(ln) else e > ln
            if (vc.branch(c) if is_z(c) else c):
                e = ln
        left, right = split(self.sg, self.p)
        mid, _ = split(right, simp(e - self.p))
        self.p = e
        return mkbytes(mid)

    def read1(self, n=-1):
        return self.read(n)

    def write(self, b):
        vc = cur()
        b = segs(b)
        n = total(b)
        ln = total(self.sg)
        c = simp(self.p == ln)
        if is_z(c):
            c = vc.entails(c) or vc.branch(c)
        if c:
            self.sg = norm(self.sg + b)
            self.p = simp(self.p + n)
            return mkint(n)
        c = simp(self.p > ln) if is_z(self.p) or is_z(ln) else self.p > ln
        if (vc.branch(c) if is_z(c) else c):
            c = simp(n == 0) if is_z(n) else n == 0
            if (vc.branch(c) if is_z(c) else c):
                return 0
            self.sg = norm(self.sg + [("f", 0, simp(self.p - ln))] + b)
            self.p = simp(self.p + n)
            return mkint(n)
        left, right = split(self.sg, self.p)
        e = simp(self.p + n)
        c = simp(e >= ln) if is_z(e) or is_z(ln) else e >= ln
        if (vc.branch(c) if is_z(c) else c):
            tail = []
        else:
            _, tail = split(right, n)
        self.sg = norm(left + b + tail)
        self.p = e
        return mkint(n)

    def getvalue(self):
        return mkbytes(self.sg)

    def getbuffer(self):
        return mkbytes(self.sg)

    def truncate(self, n=None):
        n = self.p if n is None else _zi(n)
        ln = total(self.sg)
        c = simp(n < ln) if is_z(n) or is_z(ln) else n < ln
        if (cur().branch(c) if is_z(c) else c):
            self.sg, _ = split(self.sg, n)
        return mkint(n)

    def readable(self):
        return True

    def writable(self):
        return True

    def seekable(self):
        return True

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True

    def readinto(self, b):
        raise Unsupported("readinto")


# ------------------------------------------------------------------ sequences with folds
class SymSeq:
    """A list of unknown length known only through folds.

    ``folds`` maps a fold name to its value over the whole list: "len" (an int) and ropes ("cat"
    of a per-element rope).  ``elem(vc, tag)`` makes a fresh element object (with its element facts
    assumed).  ``fold_of(name, e)`` gives the contribution of one element.
    Concrete items appended after the unknown block are kept as they are.
    """

    def __init__(self, make_elem, folds, fold_of):
        self.make_elem = make_elem
        self.folds = dict(folds)        # of the unknown block
        self.fold_of = fold_of
        self.tail = []

    def append(self, x):
        self.tail.append(x)

    def extend(self, xs):
        for x in xs:
            self.append(x)

    def fold(self, name):
        v = self.folds[name]
        for e in self.tail:
            v = combine(v, self.fold_of(name, e))
        return v

    def vc_len(self):
        return self.fold("len")

    def __len__(self):
        n = self.vc_len()
        if isinstance(n, SymInt):
            raise Unsupported("native len of symbolic sequence")
        return n

    def __bool__(self):
        return bool(self.vc_len() > 0)

    def __iter__(self):
        raise Unsupported("iteration over an abstract sequence without a loop contract")

    def __getitem__(self, k):
        raise Unsupported("indexing an abstract sequence")


def combine(a, b):
    if is_bytes(a) or is_bytes(b):
        return a + b
    return a + b


from .text import SymStr  # noqa: E402


def some_max(lst):
    """max of a list of unknown length: some integer (nothing more is said about it)."""
    if not lst:
        raise ValueError("max() iterable argument is empty")
    return mkint(cur().fresh("max"))
