"""Symbolic texts.

A text is a list of parts: constants, formatted integers, decoded or hex-printed byte strings, and *atoms*: unknown texts of which only
the set of characters they may contain and a range of lengths is known.  An operation is carried out exactly when constants, character
sets and (by case distinction) lengths determine it for every value of the atoms; everything else is Unsupported, never guessed.
Equality with an unknown outcome becomes a term over an uninterpreted sort of texts (constants are distinct elements of it).
"""
import z3

from . import sym
from .core import Unsupported, cur, is_z, simp
from .sym import and_, mkbool, mkint, not_, or_, rope_eq, rope_int, rope_slice, segs, total, truth, zint

TEXT = z3.DeclareSort("Text")
LOWER = z3.Function("text.lower", TEXT, TEXT)
UPPER = z3.Function("text.upper", TEXT, TEXT)
STRIP = z3.Function("text.slice", TEXT, z3.IntSort(), z3.IntSort(), TEXT)
WS = frozenset(chr(i) for i in range(0x3001) if chr(i).isspace())
HEXL = frozenset("0123456789abcdef")
HEXU = frozenset("0123456789ABCDEF")
DIG = frozenset("0123456789")


HASHING = [0]


class hashing:
    """Dictionary accesses of the engine itself, with a key object that is (or is known to equal none that is) in the dictionary."""

    def __enter__(self):
        HASHING[0] += 1

    def __exit__(self, *a):
        HASHING[0] -= 1


EMPTY = frozenset()
PRE = {}


def preimages(f):
    """For each character, those whose f (lower or upper) contains it."""
    if f not in PRE:
        m = {}
        for i in range(0x110000):
            c = chr(i)
            for r in f(c):
                m.setdefault(r, set()).add(c)
        m["\u03c2"] = m.get("\u03c2", set()) | {"\u03a3"}       # the final sigma depends on its neighbours
        PRE[f] = {c: frozenset(s) for c, s in m.items()}
    return PRE[f]


class CS:
    """A set of characters: `chars`, or all others."""

    __slots__ = ("chars", "neg")

    def __init__(self, chars, neg=False):
        self.chars, self.neg = frozenset(chars), neg

    def has(self, c):
        return (c in self.chars) != self.neg

    def any_of(self, s):
        return any(self.has(c) for c in s)

    def within(self, s):
        return not self.neg and self.chars <= frozenset(s)

    def disjoint(self, o):
        if self.neg and o.neg:
            return False
        if self.neg:
            return o.chars <= self.chars
        return not any(o.has(c) for c in self.chars)

    def case(self, f):
        """A superset of the characters of f(text)."""
        if not self.neg:
            return CS({c for x in self.chars for c in f(x)})
        pre = preimages(f)
        return CS({c for c in self.chars if pre.get(c, EMPTY) <= self.chars}, True)

    def uncased(self):
        return not self.neg and all(c.lower() == c == c.upper() for c in self.chars)

    def sample(self):
        if not self.neg:
            return sorted(self.chars)
        return [c for c in "abcdefghijklmnopqrstuvwxyz0123456789_ABCDEFGHIJKLMNOPQRSTUVWXYZ -./:,;=+()[]{}<>|&!?*~^%@'\"#$\\\u00e9\u4e2d" if self.has(c)]


class Atom:
    """An unknown text."""

    def __init__(self, name, cs, lo=0, hi=None, val=None, n=None, origin=None):
        vc = cur()
        self.name, self.cs = name, cs
        self.lo = lo
        self.hi = hi
        self.origin = origin
        self.val = z3.Const("text:" + name, TEXT) if val is None else val
        if n is None:
            if hi is not None and lo == hi:
                n = lo
            else:
                n = z3.Int(name + ".len")
                vc.fact(n >= lo)
                if hi is not None:
                    vc.fact(n <= hi)
        self.n = n
        self.cases = {}
        if lo == 0 and is_z(n) and val is None:
            vc.fact((n == 0) == (self.val == lit("")))

    def part(self):
        return ("atom", self, 0, self.n)

    def case(self, how):
        """lower()/upper() of this atom."""
        if self.cs.uncased() or self.origin and self.origin[0] == how:
            return self
        if how not in self.cases:
            f = str.lower if how == "lower" else str.upper
            fn = LOWER if how == "lower" else UPPER
            cs = self.cs.case(f)
            same = not self.cs.neg and all(len(f(c)) == 1 for c in self.cs.chars)
            self.cases[how] = Atom("%s.%s" % (self.name, how), cs, self.lo, self.hi if same else None, fn(self.val), self.n if same else None,
                                   (how, self))
        return self.cases[how]


def lit(c):
    """The constant c as an element of the sort of texts."""
    vc = cur()
    t = vc.__dict__.setdefault("text_lits", {})
    if vc.__dict__.get("text_path") is not vc.pc:
        t.clear()
        vc.text_path = vc.pc
    if c not in t:
        z = z3.Const("lit:" + repr(c), TEXT)
        for o in t.values():
            vc.fact(z != o)
        t[c] = z
        vc.fact(LOWER(z) == lit(c.lower()))
        vc.fact(UPPER(z) == lit(c.upper()))
    return t[c]


def sample(vc, m, atom, given):
    """A text with the value and the length the model m gives the atom."""
    def val(z):
        return str(m.eval(z, model_completion=True))

    n = atom.n if isinstance(atom.n, int) else int(simp(m.eval(atom.n, model_completion=True)))
    lits = getattr(vc, "text_lits", {})
    own = val(atom.val)
    fits = [c for c, z in lits.items() if len(c) == n and all(atom.cs.has(x) for x in c)]
    for c in fits:
        if val(lits[c]) == own:
            return c
    for how, fn in (("lower", LOWER), ("upper", UPPER)):
        v = val(fn(atom.val))
        for c, z in lits.items():
            if len(c) == n and val(z) == v:
                for d in (getattr(c, "swapcase")(), c.title(), c.upper(), c.lower()):
                    if getattr(d, how)() == c and all(atom.cs.has(x) for x in d):
                        return d
    seen = getattr(vc, "text_samples", None)
    if seen is None or seen[0] is not m:
        seen = vc.text_samples = (m, {})
    if (own, n) in seen[1]:
        return seen[1][(own, n)]
    cs = atom.cs.sample() or ["?"]
    used = set(seen[1].values()) | set(lits)
    r = cs[0] * n
    for k in range(1, 2000):
        r, q = "", k
        while len(r) < n:
            r += cs[(q + len(r)) % len(cs)]
            q //= len(cs)
        if r not in used:
            break
    seen[1][(own, n)] = r
    return r


def br(c):
    c = simp(truth(c))
    return cur().branch(c) if is_z(c) else c


def ent(c):
    c = simp(truth(c))
    return cur().entails(c) if is_z(c) else c


# ------------------------------------------------------------------ parts
def plen(p):
    """Length of a part: int or z3."""
    if isinstance(p, str):
        return len(p)
    k = p[0]
    if k == "atom":
        return simp(zint(p[3]) - zint(p[2]))
    if k in ("hex", "hex_u"):
        return simp(2 * total(list(p[1])))
    if k in ("uuid", "uuid_u"):
        return 36
    if k == "int":
        if p[2] == "c":
            return 1
        w = _width(p[2])
        if w and p[2][-1:] in ("x", "X") and ent(mkbool(z3.And(p[1] >= 0, p[1] < 16 ** w))):
            return w
        if w and p[2][-1:] == "d" and ent(mkbool(z3.And(p[1] >= 0, p[1] < 10 ** w))):
            return w
        if p[2] in ("", "d", "x", "X") and ent(mkbool(p[1] >= 0)):
            base = 16 if p[2] in ("x", "X") else 10
            for k in range(1, 41):
                if br(mkbool(p[1] < base ** k)):
                    return k
    raise Unsupported("length of a symbolic string part %s" % (k,))


def _width(spec):
    s = spec[:-1]
    return int(s[1:]) if len(s) > 1 and s[0] == "0" and s[1:].isdigit() else 0


def pcs(p):
    """Characters a part may contain."""
    if isinstance(p, str):
        return CS(p)
    k = p[0]
    if k == "atom":
        return p[1].cs
    if k == "hex":
        return CS(HEXL)
    if k == "hex_u":
        return CS(HEXU)
    if k in ("uuid", "uuid_u"):
        return CS((HEXL if k == "uuid" else HEXU) | {"-"})
    if k == "int":
        sp = p[2]
        if sp == "c":
            return CS("".join(map(chr, range(0x20, 0x7f)))) if ent(mkbool(z3.And(p[1] >= 0x20, p[1] <= 0x7e))) else CS(set(), True)
        base = DIG if sp in ("", "d") or sp[-1] == "d" else HEXL if sp[-1] == "x" else HEXU if sp[-1] == "X" else None
        if base is None or sp[:-1] not in ("",) and not _width(sp) or "#" in sp:
            raise Unsupported("characters of an integer printed with %r" % sp)
        return CS(base) if ent(mkbool(p[1] >= 0)) else CS(base | {"-"})
    if k in ("repr", "dec", "strftime"):
        raise Unsupported("characters of a symbolic string part %s" % k)
    raise Unsupported("characters of a symbolic string part %s" % (k,))


def pmin(p):
    """A lower bound of the length of a part."""
    if isinstance(p, str):
        return len(p)
    if p[0] == "int":
        return max(1, _width(p[2]))
    n = plen(p)
    if not is_z(n):
        return n
    if p[0] == "atom" and not is_z(simp(zint(p[2]))) and simp(zint(p[2])) == 0 and p[3] is p[1].n:
        lo = p[1].lo
    else:
        lo = 0
    if lo == 0 and ent(mkbool(n >= 1)):
        lo = 1
    return lo


def nonempty(p):
    """Case distinction: is the part non-empty?"""
    if pmin(p) > 0:
        return True
    return br(mkbool(zint(plen(p)) > 0))


def pslice(p, a, b):
    """Characters a..b of a part (0 <= a <= b <= len)."""
    if isinstance(p, str):
        return p[a:b]
    k = p[0]
    if k == "atom":
        return ("atom", p[1], simp(zint(p[2]) + zint(a)), simp(zint(p[2]) + zint(b)))
    a, b = simp(zint(a)), simp(zint(b))
    if is_z(a) or is_z(b):
        raise Unsupported("symbolic slice of a formatted value")
    if k in ("hex", "hex_u"):
        if a % 2 or b % 2:
            raise Unsupported("half a byte of a hex text")
        return (k, tuple(rope_slice(list(p[1]), a // 2, b // 2)))
    if k == "int" and p[2][-1:] in ("x", "X") and _width(p[2]):
        w = _width(p[2])
        if plen(p) == w:
            if a == b:
                return ""
            q = simp((p[1] / 16 ** (w - b)) % 16 ** (b - a))
            return ("int", zint(q) if is_z(q) else z3.IntVal(q), "0%d%s" % (b - a, p[2][-1]))
    raise Unsupported("slice of a symbolic string part %s" % k)


def expand(parts):
    """Printed UUIDs as hex groups and dashes."""
    out = []
    for p in parts:
        if not isinstance(p, str) and p[0] in ("uuid", "uuid_u"):
            be = sym.swap16(list(p[1]))
            k = "hex" if p[0] == "uuid" else "hex_u"
            for i, (a, b) in enumerate(((0, 4), (4, 6), (6, 8), (8, 10), (10, 16))):
                if i:
                    out.append("-")
                out.append((k, tuple(rope_slice(be, a, b))))
        else:
            out.append(p)
    return norm(out)


def solid(parts):
    """Without the parts known to be empty."""
    return norm([p for p in parts if isinstance(p, str) or pmin(p) > 0 or not ent(mkbool(zint(plen(p)) == 0))])


def norm(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        elif p[0] == "atom":
            if not is_z(p[2]) and not is_z(p[3]) and p[2] == p[3]:
                continue
            if out and not isinstance(out[-1], str) and out[-1][0] == "atom" and out[-1][1] is p[1] and _same(out[-1][3], p[2]):
                out[-1] = ("atom", p[1], out[-1][2], p[3])
                continue
        elif p[0] in ("hex", "hex_u") and not p[1]:
            continue
        out.append(p)
    return out


def _same(a, b):
    if a is b:
        return True
    d = simp(zint(a) - zint(b))
    return not is_z(d) and d == 0


def _without(p, c):
    """A part with a character removed."""
    cs = pcs(p)
    if not cs.has(c):
        return p
    if cs.within(c):
        return ""
    vc = cur()
    a = Atom("without!%d" % vc.fresh_n, CS(cs.chars | {c}, True) if cs.neg else CS(cs.chars - {c}), 0, None, n=vc.fresh("len"))
    vc.fact(a.n >= 0)
    vc.fact(a.n <= zint(plen(p)))
    return a.part()


def mk(parts):
    parts = norm(parts)
    if all(isinstance(p, str) for p in parts):
        return "".join(parts)
    return SymStr(parts)


# ------------------------------------------------------------------ equality
def pval(p):
    """A part as an element of the sort of texts."""
    if isinstance(p, str):
        return lit(p)
    a = p[1]
    if not is_z(p[2]) and p[2] == 0 and (p[3] is a.n or _same(p[3], a.n)):
        return a.val
    return STRIP(a.val, zint(p[2]) if is_z(p[2]) else z3.IntVal(p[2]), zint(p[3]) if is_z(p[3]) else z3.IntVal(p[3]))


def const_ways(c, parts):
    """All ways in which the parts can make up the constant c: list of (part, piece) lists."""
    if not parts:
        return [[]] if not c else []
    p = parts[0]
    if isinstance(p, str):
        return const_ways(c[len(p):], parts[1:]) if c.startswith(p) else []
    if p[0] in ("dec", "repr", "strftime"):
        raise Unsupported("comparison of differently structured symbolic strings")
    cs = pcs(p)
    lo = pmin(p)
    if p[0] in ("atom",):
        n = plen(p)
        ks = [n] if not is_z(n) else range(lo, len(c) + 1)
    elif p[0] == "int" and p[2] == "c":
        ks = [1]
    elif p[0] == "int":
        w = _width(p[2])
        ks = range(max(1, w), len(c) + 1)
    else:
        n = plen(p)
        ks = [n] if not is_z(n) else range(lo, len(c) + 1)
    r = []
    for k in ks:
        if k > len(c) or not all(cs.has(x) for x in c[:k]):
            if k > 0 and k <= len(c) and not cs.has(c[k - 1]):
                break
            continue
        for rest in const_ways(c[k:], parts[1:]):
            r.append([(p, c[:k])] + rest)
            if len(r) > 64:
                raise Unsupported("too many ways to match a constant")
    return r


def part_is(p, c):
    """Condition: the part equals the constant c (characters and lengths already fit)."""
    if p[0] == "atom":
        n = plen(p)
        v = pval(p)
        cond = v == lit(c)
        if is_z(n):
            cur().fact(z3.Implies(cond, n == len(c)))
        if not c:
            return mkbool(n == 0) if is_z(n) else n == 0
        return mkbool(cond)
    if p[0] == "int" and p[2] == "c":
        return mkbool(p[1] == ord(c)) if len(c) == 1 else False
    if p[0] == "int":
        base = 16 if p[2][-1:] in ("x", "X") else 10
        w = _width(p[2])
        if len(c) > max(w, 1) and c[0] == "0" or not c.strip("0123456789abcdefABCDEF-") == "":
            return False
        try:
            v = int(c, base)
        except ValueError:
            return False
        if v == 0 and c[0] == "-":
            return False
        return mkbool(p[1] == v)
    if p[0] in ("hex", "hex_u"):
        if len(c) % 2:
            return False
        r = rope_eq(list(p[1]), segs(bytes.fromhex(c)))
        return mkbool(r) if is_z(r) else bool(r)
    raise Unsupported("comparison of symbolic strings")


def opaque_eq(a, b):
    """Equality of two parts of the same kind."""
    k = a[0]
    if k == "int":
        if a[2] != b[2]:
            return None
        return mkbool(a[1] == b[1])
    if k in ("hex", "uuid", "hex_u", "uuid_u"):
        r = rope_eq(list(a[1]), list(b[1]))
        return mkbool(r) if is_z(r) else bool(r)
    if k == "dec":
        if a[1] != b[1]:
            raise Unsupported("decode with different encodings")
        return a[2] == b[2]
    if k == "atom":
        if a[1] is b[1] and _same(a[2], b[2]) and _same(a[3], b[3]):
            return True
        if pmin(a) > 0 and pcs(a).disjoint(pcs(b)):
            return False
        na, nb = plen(a), plen(b)
        c = pval(a) == pval(b)
        if is_z(na) or is_z(nb):
            cur().fact(z3.Implies(c, zint(na) == zint(nb)))
        elif na != nb:
            return False
        return mkbool(c)
    if k == "strftime":
        return a[1:] == b[1:] or None
    return None


def text_eq(a, b):
    """Equality of two part lists."""
    a, b = norm(a), norm(b)
    conj = []
    # peel equal ends
    for side in (0, -1):
        while a and b:
            x, y = a[side], b[side]
            if isinstance(x, str) and isinstance(y, str):
                m = min(len(x), len(y))
                if (x[:m] if side == 0 else x[len(x) - m:]) != (y[:m] if side == 0 else y[len(y) - m:]):
                    return False
                for l, v in ((a, x), (b, y)):
                    r = v[m:] if side == 0 else v[:len(v) - m]
                    if r:
                        l[side] = r
                    else:
                        del l[side]
                continue
            if not isinstance(x, str) and not isinstance(y, str) and x[0] == y[0] == "atom" and x[1] is y[1] and \
                    _same(x[2], y[2]) and _same(x[3], y[3]):
                del a[side]
                del b[side]
                continue
            break
    if not a and not b:
        return True
    if not a or not b:
        rest = a or b
        if any(isinstance(p, str) for p in rest):
            return False
        for p in rest:
            if p[0] == "dec":
                conj.append(not_(SymStr([p]).truth()))
            elif pmin(p) > 0:
                return False
            else:
                n = plen(p)
                conj.append(mkbool(zint(n) == 0) if is_z(n) else n == 0)
        return and_(*conj)
    # a numeral without leading zeros against a text with one
    for x, y in ((a, b), (b, a)):
        if len(x) == 1 and not isinstance(x[0], str) and x[0][0] == "int" and x[0][2] in ("", "d", "x", "X") and len(y) > 1 and isinstance(y[0], str) and y[0][0] == "0" and \
                any(isinstance(p, str) or pmin(p) > 0 for p in y[1:]):
            return False
    # a constant against parts
    for x, y in ((a, b), (b, a)):
        if len(x) == 1 and isinstance(x[0], str):
            ways = const_ways(x[0], expand(y))
            if not ways:
                return False
            return or_(*[and_(*([True] + [part_is(p, c) for p, c in w])) for w in ways])
    if len(a) == len(b) and all(isinstance(x, str) == isinstance(y, str) and (x == y if isinstance(x, str) else x[0] == y[0] and x[0] != "atom")
                                for x, y in zip(a, b)):
        c = [opaque_eq(x, y) for x, y in zip(a, b) if not isinstance(x, str)]
        if all(x is not None for x in c) and (len(a) == 1 or separable(a) or all(fixed(p) for p in a + b)):
            return and_(*([True] + c))
    if len(a) == 1 and len(b) == 1 and a[0][0] == b[0][0]:
        c = opaque_eq(a[0], b[0])
        if c is not None:
            return c
    a, b = expand(a), expand(b)
    c = char_eq(a, b)
    if c is not None:
        return c
    # both of one kind of hex digits
    c = hex_eq(a, b)
    if c is not None:
        return c
    # split at a character no variable part contains
    for x, y in ((a, b), (b, a)):
        for p in x:
            if isinstance(p, str):
                for ch in p:
                    if all(isinstance(q, str) or not pcs(q).has(ch) for q in x + y):
                        pa, pb = SymStr(a)._split1(ch, -1), SymStr(b)._split1(ch, -1)
                        if len(pa) != len(pb):
                            return False
                        return and_(*([True] + [text_eq(SymStr.of(u), SymStr.of(v)) for u, v in zip(pa, pb)]))
    # the first characters cannot agree
    if first_differ(a, b) or first_differ(a[::-1], b[::-1], -1):
        return False
    # equal fixed lengths at the front
    x, y = a[0], b[0]
    if not isinstance(x, str) and not isinstance(y, str) and fixed(x) and fixed(y):
        n, m = plen(x), plen(y)
        if n == m:
            return and_(text_eq([x], [y]), text_eq(a[1:], b[1:]))
    if not isinstance(x, str) and not isinstance(y, str) and x[0] == y[0] == "atom" and (len(a) == 1 or len(b) == 1 or True):
        na, nb = plen(x), plen(y)
        if is_z(simp(zint(na) - zint(nb))) and ent(mkbool(zint(na) == zint(nb))) or _same(na, nb):
            return and_(text_eq([x], [y]), text_eq(a[1:], b[1:]))
    x, y = solid(a), solid(b)
    if len(x) + len(y) < len(a) + len(b):
        return text_eq(x, y)
    raise Unsupported("comparison of differently structured symbolic strings %r %r" % (a, b))


def fixed(p):
    try:
        return not is_z(plen(p))
    except Unsupported:
        return False


def separable(a):
    """Between two variable parts there is a constant starting with a character the first cannot contain."""
    for i, p in enumerate(a[:-1]):
        if not isinstance(p, str):
            q = a[i + 1]
            if not isinstance(q, str):
                return False
            try:
                if pcs(p).has(q[0]):
                    return False
            except Unsupported:
                return False
    return True


def char_eq(a, b):
    """Two texts of single characters (their numbers known as terms) and constants."""
    out = []
    for parts in (a, b):
        l = []
        for p in parts:
            if isinstance(p, str):
                l += [z3.IntVal(ord(c)) for c in p]
            elif p[0] == "int" and p[2] == "c":
                l.append(p[1])
            else:
                return None
        out.append(l)
    if len(out[0]) != len(out[1]):
        return False
    return mkbool(z3.simplify(z3.And(*[x == y for x, y in zip(*out)])))


def hex_eq(a, b):
    """Two texts that consist of hex digits of one case only, each of a fixed length."""
    kinds = set()
    for p in a + b:
        if isinstance(p, str):
            if not all(c in HEXL or c in HEXU for c in p):
                return None
            if any(c.isalpha() for c in p):
                kinds.add("l" if p == p.lower() else "u" if p == p.upper() else "m")
        elif p[0] in ("hex", "hex_u") and fixed(p):
            kinds.add("l" if p[0] == "hex" else "u")
        elif p[0] == "int" and p[2][-1:] in ("x", "X") and fixed(p):
            kinds.add("l" if p[2][-1] == "x" else "u")
        else:
            return None
    if len(kinds) > 1:
        return None
    na = sum(plen(p) for p in a)
    nb = sum(plen(p) for p in b)
    if na != nb:
        return False
    return mkbool(hex_val(a) == hex_val(b))


def hex_val(parts):
    v = z3.IntVal(0)
    for p in parts:
        n = plen(p)
        if isinstance(p, str):
            x = int(p, 16)
        elif p[0] == "int":
            x = p[1]
        else:
            x = rope_int(list(p[1]), n // 2, "big", False)
        v = v * 16 ** n + x
    return z3.simplify(v)


def first_differ(a, b, step=1):
    x, y = a[0], b[0]
    i = 0 if step == 1 else -1
    if isinstance(x, str) and isinstance(y, str):
        return x[i] != y[i]
    for p, q in ((x, y), (y, x)):
        if isinstance(p, str):
            return pmin(q) > 0 and not pcs(q).has(p[i])
    return pmin(x) > 0 and pmin(y) > 0 and pcs(x).disjoint(pcs(y))


# ------------------------------------------------------------------ the class
class SymStr:
    """A string built from constants and symbolic parts."""

    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = norm(parts)

    @staticmethod
    def of(x):
        if isinstance(x, SymStr):
            return list(x.parts)
        return [x]

    def __add__(self, o):
        if not isinstance(o, (str, SymStr)):
            raise TypeError("can only concatenate str")
        return SymStr(self.parts + SymStr.of(o))

    def __radd__(self, o):
        if not isinstance(o, (str, SymStr)):
            raise TypeError("can only concatenate str")
        return SymStr(SymStr.of(o) + self.parts)

    def __eq__(self, o):
        if not isinstance(o, (str, SymStr)):
            return False
        return text_eq(self.parts, SymStr.of(o))

    def __ne__(self, o):
        return not_(self == o)

    def __hash__(self):
        if HASHING[0]:
            return id(self) >> 4
        raise Unsupported("hash of symbolic string")

    def truth(self):
        """Non-empty?"""
        if any(isinstance(p, str) for p in self.parts):
            return True
        if not self.parts:
            return False
        if self._only("dec") and self.parts[0][1] in ("utf-16-le", "utf-8", "latin-1", "ascii"):
            return mkbool(total(self.parts[0][2].sg) > 0)
        if any(p[0] in ("dec", "repr", "strftime") for p in self.parts):
            raise Unsupported("truth of symbolic string")
        if any(pmin(p) > 0 for p in self.parts):
            return True
        return or_(*[mkbool(zint(plen(p)) > 0) for p in self.parts])

    def __bool__(self):
        return bool(br(self.truth()))

    def __str__(self):
        return "<symstr>"

    def __format__(self, s):
        return "<symstr>"

    def __repr__(self):
        return "<SymStr %s>" % ([p if isinstance(p, str) else (p[0], p[1].name) if p[0] == "atom" else p for p in self.parts],)

    def _only(self, kind):
        return len(self.parts) == 1 and not isinstance(self.parts[0], str) and self.parts[0][0] == kind

    def vc_len(self):
        n = 0
        for p in self.parts:
            n = simp(zint(n) + zint(plen(p)))
        return mkint(n)

    def __len__(self):
        n = self.vc_len()
        if isinstance(n, sym.SymInt):
            k = cur().concretize(n.z)
            if k is None:
                raise Unsupported("native len of symbolic string")
            return k
        return n

    # ---- stripping
    def _strip(self, how, chars):
        if self._only("dec"):
            return SymStr([("dec", "%s|%s %r" % (self.parts[0][1], how, chars), self.parts[0][2])])
        if isinstance(chars, SymStr):
            raise Unsupported("strip of symbolic characters")
        cset = WS if chars is None else frozenset(chars)
        parts = list(self.parts)
        for side in ([0] if how in ("strip", "lstrip") else []) + ([-1] if how in ("strip", "rstrip") else []):
            while parts:
                p = parts[side]
                if isinstance(p, str):
                    q = p.lstrip("".join(cset)) if side == 0 else p.rstrip("".join(cset))
                    if q:
                        parts[side] = q
                        break
                    del parts[side]
                    continue
                if p[0] == "int" and side == 0 and p[2][-1:] in ("x", "X") and "0" in cset and not any(c in cset for c in (HEXL | HEXU) - {"0"}) \
                        and ent(mkbool(p[1] >= 0)):
                    if br(mkbool(p[1] == 0)):
                        del parts[0]
                        continue
                    parts[0] = ("int", p[1], p[2][-1])
                    break
                cs = pcs(p)
                if cs.within(cset):
                    del parts[side]
                    continue
                if not cs.any_of(cset):
                    if nonempty(p):
                        break
                    del parts[side]
                    continue
                raise Unsupported("strip of characters an unknown text may contain: %r %r" % (chars, self))
        return mk(parts)

    def strip(self, chars=None):
        return self._strip("strip", chars)

    def rstrip(self, chars=None):
        return self._strip("rstrip", chars)

    def lstrip(self, chars=None):
        return self._strip("lstrip", chars)

    # ---- searching
    def _settled(self, parts):
        """Decide emptiness of parts that may be empty."""
        return norm([p for p in parts if isinstance(p, str) or nonempty(p)])

    def _occ(self, sub, parts):
        """Offsets (part, offset) of the non-overlapping occurrences of a constant; Unsupported when an unknown part may take part."""
        if not sub:
            raise Unsupported("search of an empty text")
        for i, p in enumerate(parts):
            if isinstance(p, str):
                continue
            cs = pcs(p)
            if not cs.any_of(sub):
                continue
            for a in range(len(sub)):
                for b in range(a + 1, len(sub) + 1):
                    if not all(cs.has(c) for c in sub[a:b]):
                        continue
                    # sub[a:b] inside p; sub[:a] must end the text before, sub[b:] must start the text behind
                    if self._ends(parts[:i], sub[:a]) and self._starts(parts[i + 1:], sub[b:]):
                        raise Unsupported("search for %r in a text that may contain it in an unknown part: %r" % (sub, parts))
        out = []
        for i, p in enumerate(parts):
            if isinstance(p, str):
                k = p.find(sub)
                while k >= 0:
                    out.append((i, k))
                    k = p.find(sub, k + len(sub))
        return out

    def _ends(self, parts, s):
        """May the text made of parts end with s?"""
        if not s:
            return True
        if not parts:
            return False
        p = parts[-1]
        if isinstance(p, str):
            if len(p) >= len(s):
                return p.endswith(s)
            return s.endswith(p) and self._ends(parts[:-1], s[:len(s) - len(p)])
        cs = pcs(p)
        k = len(s)
        for j in range(k, -1, -1):
            if j < k and not cs.has(s[j]):
                break
            if self._ends(parts[:-1], s[:j]) if j else True:
                return True
        return False

    def _starts(self, parts, s):
        if not s:
            return True
        if not parts:
            return False
        p = parts[0]
        if isinstance(p, str):
            if len(p) >= len(s):
                return p.startswith(s)
            return s.startswith(p) and self._starts(parts[1:], s[len(p):])
        cs = pcs(p)
        for j in range(0, len(s) + 1):
            if j and not cs.has(s[j - 1]):
                break
            if self._starts(parts[1:], s[j:]):
                return True
        return False

    def _for(self, sub):
        if isinstance(sub, SymStr):
            raise Unsupported("search for a symbolic text")
        if not isinstance(sub, str):
            raise TypeError("must be str")
        parts = expand(self.parts)
        if len(sub) > 1:
            parts = self._settled(parts)
        return parts, self._occ(sub, parts)

    def count(self, sub, *a):
        if a:
            raise Unsupported("str.count with a range")
        if isinstance(sub, SymStr):
            return len(self._split_sym(sub, -1)) - 1
        if isinstance(sub, str) and len(sub) == 1:
            # unknown parts contribute an unknown number
            n, more = 0, []
            for p in norm(self.parts):
                if isinstance(p, str):
                    n += p.count(sub)
                elif pcs(p).has(sub):
                    more.append(p)
            if n and more:
                z = cur().fresh("occurrences")
                cur().add(z >= n)
                return mkint(z)
        return len(self._for(sub)[1])

    def contains(self, sub):
        if isinstance(sub, SymStr):
            if any(not any(c in p if isinstance(p, str) else pcs(p).has(c) for p in self.parts) for q in sub.parts if isinstance(q, str) for c in q):
                return False
            return len(self._split_sym(sub, 1)) > 1
        if sub == "":
            return True
        if isinstance(sub, str) and any(isinstance(p, str) and sub in p for p in norm(self.parts)):
            return True
        return len(self._for(sub)[1]) > 0

    def _off(self, parts, i, k):
        n = k
        for p in parts[:i]:
            n = simp(zint(n) + zint(plen(p)))
        return n

    def find(self, sub, start=None, end=None):
        if end is not None:
            raise Unsupported("str.find with an end")
        if isinstance(sub, SymStr) or not sub:
            raise Unsupported("search for a symbolic text")
        if not isinstance(sub, str):
            raise TypeError("must be str")
        parts, base = self.parts, 0
        if start is not None:
            if br(start < 0):
                start = start + self.vc_len()
                if br(start < 0):
                    start = 0
            base = zint(start)
            parts = self._cut(parts, base)[1]
        parts = solid(expand(parts))
        if len(sub) > 1:
            parts = self._settled(parts)
        for i, p in enumerate(parts):
            if isinstance(p, str) and sub in p:
                k = p.index(sub)
                # only what stands before the first certain occurrence matters
                self._occ(sub, parts[:i] + [p[:k + len(sub)]])
                return mkint(simp(zint(self._off(parts, i, k)) + base))
        self._occ(sub, parts)
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if isinstance(r, int) and r == -1:
            raise ValueError("substring not found")
        return r

    def rfind(self, sub):
        parts, occ = self._for(sub)
        return mkint(self._off(parts, *occ[-1])) if occ else -1

    def rindex(self, sub):
        r = self.rfind(sub)
        if isinstance(r, int) and r == -1:
            raise ValueError("substring not found")
        return r

    def startswith(self, pre, *a):
        if a:
            raise Unsupported("str.startswith with a range")
        if isinstance(pre, tuple):
            for p in pre:
                if br(self.startswith(p)):
                    return True
            return False
        return self._affix(SymStr.of(pre), 0)

    def endswith(self, suf, *a):
        if a:
            raise Unsupported("str.endswith with a range")
        if isinstance(suf, tuple):
            for p in suf:
                if br(self.endswith(p)):
                    return True
            return False
        return self._affix(SymStr.of(suf), -1)

    def _affix(self, s, side):
        parts = expand(self.parts)
        s = norm(s)
        if len(s) == 1 and isinstance(s[0], str) and not (self._starts if side == 0 else self._ends)(parts, s[0]):
            return False
        while s:
            if not parts:
                return False if any(isinstance(p, str) or pmin(p) > 0 for p in s) else br(text_eq([], s))
            x, y = parts[side], s[side]
            if isinstance(x, str) and isinstance(y, str):
                m = min(len(x), len(y))
                if (x[:m] if side == 0 else x[len(x) - m:]) != (y[:m] if side == 0 else y[len(y) - m:]):
                    return False
                for l, v in ((parts, x), (s, y)):
                    r = v[m:] if side == 0 else v[:len(v) - m]
                    if r:
                        l[side] = r
                    else:
                        del l[side]
                continue
            if not isinstance(x, str) and not isinstance(y, str):
                if x[0] == y[0] == "atom" and x[1] is y[1] and _same(x[2], y[2]) and _same(x[3], y[3]):
                    del parts[side]
                    del s[side]
                    continue
                raise Unsupported("prefix test between unknown texts")
            if isinstance(x, str):
                raise Unsupported("prefix test with an unknown text")
            c = y[0] if side == 0 else y[-1]
            if not nonempty(x):
                del parts[side]
                continue
            if not pcs(x).has(c):
                return False
            # the unknown part may start with it: decided only when that ends the question one way
            n = plen(x)
            m = len(y)
            cs = pcs(x)
            k = 0
            seq = y if side == 0 else y[::-1]
            while k < m and cs.has(seq[k]):
                k += 1
            if not is_z(n) and x[0] == "atom":
                if n < m:
                    raise Unsupported("prefix test across unknown parts")
                if k < m:
                    return False
                v = pslice(x, 0, m) if side == 0 else pslice(x, n - m, n)
                return text_eq([v], [y])
            raise Unsupported("prefix test %r on a text of unknown characters: %r" % (y, self))
        return True

    # ---- splitting
    def _split1(self, sep, maxsplit):
        if maxsplit == 1 and type(sep) is str:
            lead = norm(self.parts)
            for k, x in enumerate(lead):
                if isinstance(x, str) and sep in x:
                    # nothing before the first occurrence can hold another one
                    return self._cut_at(lead, [(k, x.index(sep))], len(sep))
                if len(sep) != 1 or not isinstance(x, str) and pcs(x).has(sep):
                    break
        parts, occ = self._for(sep)
        if maxsplit >= 0:
            occ = occ[:maxsplit]
        return self._cut_at(parts, occ, len(sep))

    def _cut_at(self, parts, occ, m):
        out = [[]]
        by = {}
        for i, k in occ:
            by.setdefault(i, []).append(k)
        for i, p in enumerate(parts):
            if i not in by:
                out[-1].append(p)
                continue
            pos = 0
            for k in by[i]:
                out[-1].append(p[pos:k])
                out.append([])
                pos = k + m
            out[-1].append(p[pos:])
        return [mk(x) for x in out]

    def _split_sym(self, sub, maxsplit):
        """Split at a symbolic text: found by structure, or after it has been shown to be a constant."""
        want = sub.parts
        raise Unsupported("split at a symbolic text %r" % (want,))

    def split(self, sep=None, maxsplit=-1):
        if sep is not None:
            if isinstance(sep, SymStr):
                raise Unsupported("split at a symbolic text")
            if sep == "":
                raise ValueError("empty separator")
            return self._split1(sep, maxsplit)
        out = []
        curr = []
        parts = expand(self.parts)
        i = 0
        while i < len(parts):
            p = parts[i]
            if isinstance(p, str):
                pos = 0
                while pos < len(p):
                    if p[pos].isspace():
                        if curr:
                            out.append(curr)
                            curr = []
                        pos += 1
                        continue
                    if not curr and 0 <= maxsplit <= len(out):
                        return [mk(x) for x in out] + [mk([p[pos:]] + parts[i + 1:])]
                    e = pos
                    while e < len(p) and not p[e].isspace():
                        e += 1
                    curr.append(p[pos:e])
                    pos = e
                i += 1
                continue
            cs = pcs(p)
            if not cs.any_of(WS):
                if nonempty(p):
                    if not curr and 0 <= maxsplit <= len(out):
                        return [mk(x) for x in out] + [mk(parts[i:])]
                    curr.append(p)
            elif cs.within(WS):
                if nonempty(p) and curr:
                    out.append(curr)
                    curr = []
            else:
                raise Unsupported("split of a text with unknown white space")
            i += 1
        if curr:
            out.append(curr)
        return [mk(x) for x in out]

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None or isinstance(sep, SymStr):
            raise Unsupported("str.rsplit")
        parts, occ = self._for(sep)
        if maxsplit >= 0:
            occ = occ[max(0, len(occ) - maxsplit):]
        return self._cut_at(parts, occ, len(sep))

    def partition(self, sep):
        r = self._split1(sep, 1)
        return (r[0], sep, r[1]) if len(r) == 2 else (self, "", "")

    def rpartition(self, sep):
        r = self.rsplit(sep, 1)
        return (r[0], sep, r[1]) if len(r) == 2 else ("", "", self)

    def replace(self, old, new, count=-1):
        if isinstance(old, SymStr):
            r = self._find_sym(old)
            if count == 0 or r is None:
                return self
            if count != 1:
                raise Unsupported("replacing every occurrence of a symbolic text")
            a, b = r
            return mk(a + SymStr.of(new) + b)
        if getattr(cur(), "charwise", False) and isinstance(new, str) and len(old) == 1 and count < 0:
            from . import mapped
            return mapped.replace(self, old, new)
        if new == "" and len(old) == 1 and count < 0:
            return mk([p.replace(old, "") if isinstance(p, str) else _without(p, old) for p in expand(self.parts)])
        pieces = self._split1(old, count)
        out = []
        for i, p in enumerate(pieces):
            if i:
                out += SymStr.of(new)
            out += SymStr.of(p)
        return mk(out)

    def translate(self, table):
        from . import mapped
        return mapped.translate(self, table)

    def _find_sym(self, sub):
        """First occurrence of a symbolic text that starts and ends with constants: candidates are where its first constant occurs."""
        s = sub.parts
        if not isinstance(s[0], str) or not isinstance(s[-1], str):
            raise Unsupported("search for a symbolic text")
        parts = self._settled(expand(self.parts))
        first, last = s[0], s[-1]
        for i, k in self._occ(first, parts):
            # the text from here; does it start with sub?
            rest = norm([parts[i][k:]] + parts[i + 1:])
            tail = SymStr([rest[0][len(first):]] + rest[1:]) if rest else SymStr([])
            tp, occ = tail._for(last)
            if not occ:
                continue
            j, m = occ[0]
            mid = norm(tp[:j] + [tp[j][:m]])
            if any(not isinstance(p, str) and pcs(p).any_of(last[0]) for p in s[1:-1]):
                raise Unsupported("search for a symbolic text")
            if br(text_eq(mid, s[1:-1])):
                return norm(parts[:i] + [parts[i][:k]]), norm([tp[j][m + len(last):]] + tp[j + 1:])
        return None

    def removeprefix(self, pre):
        return self[len(pre):] if br(self.startswith(pre)) else self

    def removesuffix(self, suf):
        return self[:-len(suf)] if suf and br(self.endswith(suf)) else self

    def splitlines(self, keepends=False):
        nl = "\n\r\v\f\x1c\x1d\x1e\x85\u2028\u2029"
        if any(not isinstance(p, str) and pcs(p).any_of(nl) for p in self.parts) or any(isinstance(p, str) and any(c in p for c in nl[1:]) for p in self.parts):
            raise Unsupported("splitlines")
        r = self._split1("\n", -1)
        if isinstance(r[-1], str) and r[-1] == "":
            r.pop()
        elif isinstance(r[-1], SymStr) and not r[-1]:
            r.pop()
        if keepends:
            raise Unsupported("splitlines(keepends)")
        return r

    # ---- case
    def _case(self, how):
        out = []
        for p in self.parts:
            if isinstance(p, str):
                out.append(getattr(p, how)())
            elif p[0] == "atom":
                q = p[1].case(how)
                if q is p[1]:
                    out.append(p)
                elif not q.cs.neg and len(q.cs.chars) == 1 and not is_z(q.n) and not is_z(p[2]) and p[2] == 0 and _same(p[3], p[1].n):
                    out.append("".join(q.cs.chars) * q.n)
                elif not is_z(p[2]) and p[2] == 0 and _same(p[3], p[1].n):
                    out.append(q.part())
                elif q.n is p[1].n:
                    out.append(("atom", q, p[2], p[3]))
                else:
                    raise Unsupported("case change of a piece of an unknown text")
            elif p[0] in ("hex", "uuid", "hex_u", "uuid_u"):
                k = p[0].removesuffix("_u")
                out.append((k + "_u" if how == "upper" else k, p[1]))
            elif p[0] == "int" and p[2][-1:] in ("x", "X", "d", ""):
                c = p[2][-1:]
                if c in ("x", "X"):
                    if "#" in p[2]:
                        raise Unsupported("case change of a prefixed number")
                    c = "x" if how == "lower" else "X"
                out.append(("int", p[1], p[2][:-1] + c))
            else:
                raise Unsupported("%s of symbolic string" % how)
        return mk(out)

    def upper(self):
        return self._case("upper")

    def lower(self):
        return self._case("lower")

    def casefold(self):
        raise Unsupported("casefold")

    # ---- character tests
    def _all(self, test, empty=False):
        """Do all characters pass the test (non-empty text)?"""
        some = False
        for p in self.parts:
            if isinstance(p, str):
                if not test(p):
                    return False
                some = True
                continue
            if not nonempty(p):
                continue
            cs = pcs(p)
            if not cs.neg and all(test(c) for c in cs.chars):
                some = True
                continue
            if not cs.neg and not any(test(c) for c in cs.chars):
                return False
            raise Unsupported("character test on unknown characters")
        return some or empty

    def isdigit(self):
        return self._all(str.isdigit)

    def isspace(self):
        return self._all(str.isspace)

    def isalnum(self):
        return self._all(str.isalnum)

    def isalpha(self):
        return self._all(str.isalpha)

    # ---- others
    def encode(self, encoding="utf-8", errors="strict"):
        import codecs
        enc = codecs.lookup(encoding).name
        if self._only("dec") and self.parts[0][1] == enc:
            return self.parts[0][2]
        if self._only("dec") and self.parts[0][1] == "utf-16-le" and enc == "utf-16":
            return b"\xff\xfe" + self.parts[0][2]
        raise Unsupported("encode of symbolic string")

    def zfill(self, w):
        if len(self.parts) == 1 and self.parts[0][0] == "int" and self.parts[0][2] in ("x", "X", "d", "") and ent(mkbool(self.parts[0][1] >= 0)):
            sp = self.parts[0][2] or "d"
            return SymStr([("int", self.parts[0][1], "0%d%s" % (w, sp))])
        n = self.vc_len()
        if br(n >= w):
            return self
        raise Unsupported("zfill")

    def join(self, xs):
        out = []
        for i, x in enumerate(xs):
            if i:
                out += self.parts
            out += SymStr.of(x)
        return mk(out)

    def __getattr__(self, n):
        raise Unsupported("str.%s on symbolic string" % n)

    def __iter__(self):
        for p in self.parts:
            if isinstance(p, str):
                yield from p
                continue
            n = plen(p)
            if is_z(n):
                raise Unsupported("iteration over symbolic string")
            for i in range(n):
                yield SymStr([pslice(p, i, i + 1)])

    # ---- slices
    def _cut(self, parts, pos):
        """(left, right) at a position >= 0, clamped to the length."""
        parts = list(parts)
        if not isinstance(pos, int) or pos:
            parts = solid(parts)
        left = []
        pos = simp(zint(pos)) if not isinstance(pos, int) else pos
        while parts:
            p = parts[0]
            if not is_z(pos) and pos == 0:
                break
            n = plen(p)
            d = simp(zint(pos) - zint(n)) if is_z(pos) or is_z(n) else pos - n
            if not is_z(d):
                if d >= 0:
                    left.append(parts.pop(0))
                    pos = d
                    continue
                c = simp(zint(pos))
                left.append(pslice(p, 0, c))
                parts[0] = pslice(p, c, n)
                pos = 0
                break
            if br(mkbool(d >= 0)):
                left.append(parts.pop(0))
                pos = d
                continue
            if isinstance(p, str):
                k = None
                for k in range(len(p)):
                    if br(mkbool(zint(pos) == k)):
                        break
                left.append(p[:k])
                parts[0] = p[k:]
            else:
                left.append(pslice(p, 0, pos))
                parts[0] = pslice(p, pos, n)
            pos = 0
            break
        return norm(left), norm(parts)

    def _pos(self, k, total_n):
        """Normalise a slice bound."""
        z = simp(zint(k))
        if is_z(z):
            neg = br(mkbool(z < 0))
        else:
            neg = z < 0
        if not neg:
            return z
        z = simp(z + zint(total_n))
        if is_z(z):
            return 0 if br(mkbool(z < 0)) else z
        return max(z, 0)

    def __getitem__(self, k):
        if isinstance(k, slice) and (k.start, k.stop, k.step) == (None, -1, None) and self._only("dec") and self.parts[0][1] == "utf-16-le":
            b = self.parts[0][2]
            n = b.length()
            vc = cur()
            if vc.entails(zint(n) >= 2) and vc.entails(and_(b[n - 2] == 0, b[n - 1] == 0).z):
                r = b[0:n - 2]
                return "" if isinstance(r, bytes) and not r else SymStr([("dec", "utf-16-le", r)])
        parts = expand(self.parts)
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported("stepped slice of symbolic string")
            if k.start is None and k.stop is not None and isinstance(k.stop, int) and k.stop < 0 and isinstance(parts[-1], str) and len(parts[-1]) >= -k.stop:
                return mk(parts[:-1] + [parts[-1][:k.stop]])
            n = self.vc_len() if any(x is not None and (not isinstance(x, int) or x < 0) for x in (k.start, k.stop)) else None
            a = 0 if k.start is None else self._pos(k.start, n)
            if k.stop is None:
                return mk(self._cut(parts, a)[1])
            b = self._pos(k.stop, n)
            left, _ = self._cut(parts, b)
            if not is_z(simp(zint(a))) and simp(zint(a)) == 0:
                return mk(left)
            return mk(SymStr(left)._cut(left, a)[1])
        i = simp(zint(k))
        if i is None:
            raise TypeError("string indices must be integers")
        if not is_z(i) and i == -1:
            parts = list(parts)
            while parts:
                if isinstance(parts[-1], str):
                    return parts[-1][-1]
                if nonempty(parts[-1]):
                    n = plen(parts[-1])
                    return mk([pslice(parts[-1], simp(zint(n) - 1), n)])
                parts.pop()
            raise IndexError("string index out of range")
        if not is_z(i) and i == 0:
            for p in parts:
                if isinstance(p, str):
                    return p[0]
                if nonempty(p):
                    return mk([pslice(p, 0, 1)])
            raise IndexError("string index out of range")
        n = self.vc_len()
        i = self._index(i, n)
        left, right = self._cut(parts, i)
        return mk(SymStr(right)._cut(right, 1)[0])

    def _index(self, i, n):
        if is_z(i):
            if br(mkbool(i < 0)):
                i = simp(i + zint(n))
        elif i < 0:
            i = simp(zint(n) + i)
        ok = mkbool(z3.And(zint(i) >= 0, zint(i) < zint(n))) if is_z(simp(zint(i))) or is_z(simp(zint(n))) else 0 <= i < zint(n)
        if not br(ok):
            raise IndexError("string index out of range")
        return i

    def __mod__(self, o):
        raise Unsupported("% on symbolic string")

    def __contains__(self, x):
        return self.contains(x)


def padded(v, spec):
    """format(text, width) or f"{text:width}": blanks behind it, as many as are missing."""
    from .sym import SymInt
    if isinstance(spec, SymInt):
        w = spec.z
    elif spec.isdigit() and spec[0] != "0":
        w = int(spec)
    else:
        raise Unsupported("format of a symbolic string with %r" % spec)
    n = zint(v.vc_len())
    vc = cur()
    vc.pads += 1
    pad = Atom("pad%d" % vc.pads, CS(" "), 0, n=simp(z3.If(zint(w) > n, zint(w) - n, z3.IntVal(0))))
    return mk(list(v.parts) + [pad.part()])


def _chars(p):
    cs = pcs(p)
    return "0" if cs.neg else cs.chars


def to_int(s, base):
    """int(text, base) of a symbolic text."""
    if base == 10 and isinstance(s, SymStr) and not any(c.isdecimal() for p in expand(s.parts) for c in _chars(p)):
        raise ValueError("invalid literal for int(): no digit")
    s = s.strip() if isinstance(s, SymStr) else s
    if isinstance(s, str):
        return int(s, base)
    parts = expand(s.parts)
    if base in (0, 16) and isinstance(parts[0], str) and parts[0][:2].lower() == "0x":
        base = 16
        if not parts[0][2:] and len(parts) == 1:
            return int(parts[0], 16)
        parts = norm([parts[0][2:]] + parts[1:])
        if isinstance(parts[0], str) and parts[0][:1] in ("_", "+", "-"):
            raise Unsupported("int of a text starting with a sign behind 0x")
    if len(parts) == 2 and isinstance(parts[0], str) and set(parts[0]) == {"0"} and base in (10, 16) and not isinstance(parts[1], str) and parts[1][0] == "int" and \
            parts[1][2] != "c" and ent(mkbool(parts[1][1] >= 0)):
        parts = parts[1:]       # leading zeros
    if len(parts) == 1 and not isinstance(parts[0], str) and parts[0][0] == "int":
        b = 16 if parts[0][2][-1:] in ("x", "X") else 10
        if b == base or base == 0 and b == 10 and not _width(parts[0][2]):
            return mkint(parts[0][1])
    if base == 16 and all(isinstance(p, str) and all(c in HEXL or c in HEXU for c in p) or not isinstance(p, str) and
                          (p[0] in ("hex", "hex_u") or p[0] == "int" and p[2][-1:] in ("x", "X")) for p in parts):
        return mkint(simp(hex_val(parts)))
    if base == 10 and not any(c.isdecimal() for p in parts for c in _chars(p)):
        raise ValueError("invalid literal for int(): no digit")
    for p in parts:
        cs = pcs(p)
        if not (cs.any_of(HEXL | HEXU | {"_", "+", "-"}) if base == 16 else cs.any_of(DIG | {"_", "+", "-"})) and (isinstance(p, str) or pmin(p) > 0):
            if not cs.neg and not any(c.isdigit() or c.isspace() for c in cs.chars):
                raise ValueError("invalid literal for int()")
    raise Unsupported("int of an unknown text")
