"""A text of any length seen character by character: code(k) says which of the special characters, or another one, stands at k."""
import z3

from .core import Unsupported, cur, is_z, simp
from . import sym, text
from .lists import SymList
from .sym import mkbool, mkint, zint


class Chars:
    """The text itself."""

    def __init__(self, vc, name, specials):
        self.name, self.specials = name, specials
        self.code = z3.Function(name + ".code", z3.IntSort(), z3.IntSort())
        self.n = z3.Int(name + ".len")
        vc.add(self.n >= 0)
        self.others = {}
        self.has = {}
        self.seen = []

    def item(self, k):
        vc = cur()
        k = simp(zint(k))
        if not any(repr(k) == repr(x) for x in self.seen):
            self.seen.append(k)
            for c, h in self.has.items():
                vc.fact(z3.Implies(z3.And(zint(k) >= 0, zint(k) < self.n, self.code(k) == self.specials.index(c)), h))
        for j, c in enumerate(self.specials):
            if vc.branch(self.code(zint(k)) == j):
                return c
        if repr(k) not in self.others:
            self.others[repr(k)] = text.SymStr([text.Atom("%s[%s]" % (self.name, k), text.CS(self.specials, True), 1, 1).part()])
        return self.others[repr(k)]

    def contains(self, c):
        vc = cur()
        if c not in self.specials:
            raise Unsupported("search for an ordinary character")
        if c not in self.has:
            h = self.has[c] = z3.Bool("%s has %r" % (self.name, c))
            w = vc.fresh("where")
            vc.fact(z3.Implies(h, z3.And(w >= 0, w < self.n, self.code(w) == self.specials.index(c))))
            for k in self.seen:
                vc.fact(z3.Implies(z3.And(zint(k) >= 0, zint(k) < self.n, self.code(zint(k)) == self.specials.index(c)), h))
        return mkbool(self.has[c])

    def piece(self, a, b):
        return CharText(self, a, b)


class CharText:
    """chars[a:b], stripped on the sides named in `trim`."""

    def __init__(self, chars, a, b, trim=""):
        self.chars, self.a, self.b, self.trim = chars, simp(zint(a)), simp(zint(b)), trim

    def whole(self):
        if self.trim or not (self.a is 0 or not is_z(self.a) and self.a == 0) or self.b is not self.chars.n and repr(self.b) != repr(self.chars.n):
            raise Unsupported("characters of a piece of a text")

    def strip(self, *a):
        return self._trim("lr", a)

    def lstrip(self, *a):
        return self._trim("l", a)

    def rstrip(self, *a):
        return self._trim("r", a)

    def _trim(self, t, a):
        if a and a[0] is not None:
            raise Unsupported("strip of given characters")
        return CharText(self.chars, self.a, self.b, "".join(sorted(set(self.trim + t))))

    def vc_len(self):
        if self.trim:
            raise Unsupported("length of a stripped text")
        return mkint(simp(zint(self.b) - zint(self.a)))

    def __contains__(self, c):
        self.whole()
        return bool(self.chars.contains(c))

    def at(self, k):
        self.whole()
        return self.chars.item(zint(k))

    def __getitem__(self, k):
        self.whole()
        if isinstance(k, slice):
            if k.start not in (None, 0) or k.step not in (None, 1) or not isinstance(k.stop, (int, sym.SymInt)):
                raise Unsupported("slice of a text")
            return CharText(self.chars, 0, zint(k.stop))
        return self.at(k)

    def __iter__(self):
        return iter(SymList(self.chars.n, self.chars.item))

    def list(self, n):
        """The list of its first n characters."""
        g = Getter(self.chars)
        return SymList(n, g)

    def __eq__(self, o):
        raise Unsupported("== on a text given by its characters")

    __hash__ = None

    def is_piece(self, o):
        """Same piece of the same text (sufficient for equality)."""
        if not isinstance(o, CharText) or o.chars is not self.chars or self.trim != o.trim:
            return False
        return sym.and_(mkbool(simp(zint(self.a) == zint(o.a))), mkbool(simp(zint(self.b) == zint(o.b))))


class Getter:
    """Element function of a list of the characters of a text."""

    def __init__(self, chars):
        self.chars = chars
        self.key = ("chars", id(chars))

    def __call__(self, k):
        return self.chars.item(k)


def join(lst):
    """"".join of a list of characters of a text, or None."""
    g = lst.get
    if isinstance(g, Getter) and not lst.tail:
        return CharText(g.chars, 0, lst.n)
    return None
