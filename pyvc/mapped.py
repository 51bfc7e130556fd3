"""Texts changed character by character: what replace(), translate() and re.sub() make of an unknown text whose characters are each replaced alike.

Replacing one character, or every one of a class, maps each character to a text of its own, wherever it stands; so the result is an unknown text of
which the image of every character is known.  Two such results are the same text if the characters have the same images.
"""
import functools
import re

import z3

from .core import Unsupported, cur, is_z
from .text import CS, Atom, SymStr, expand, mk, pcs
from .sym import zint

ALL = [chr(i) for i in range(0x110000)]


class Mapped(Atom):
    """The image of a whole atom."""

    def __init__(self, base, images):
        vc = cur()
        low = min([1] + [len(v) for v in images.values()])
        high = max([1] + [len(v) for v in images.values()])
        if base.cs.neg:
            gone, new = base.cs.chars | set(images), {c for v in images.values() for c in v}
            cs = CS(gone - new, True)
        else:
            cs = CS({c for x in base.cs.chars for c in images.get(x, x)})
        n = None
        if low == high == 1:
            n = base.n
        super().__init__("%s.mapped!%d" % (base.name, len(base.cases)), cs, base.lo * low, None if n is None or base.hi is None else base.hi,
                         z3.Const("text:%s.mapped!%d" % (base.name, len(base.cases)), base.val.sort()), n)
        if n is None and is_z(self.n):
            vc.fact(self.n >= zint(base.n) * low)
            vc.fact(self.n <= zint(base.n) * high)
            vc.fact(z3.Implies(zint(base.n) == 0, self.n == 0))
        self.base, self.images = base, images


def root(p):
    """(atom, images) of a part."""
    if p[0] != "atom":
        raise Unsupported("characters of a %s replaced" % p[0])
    a = p[1]
    if is_z(p[2]) or p[2] != 0 or not (p[3] is a.n or not is_z(p[3]) and p[3] == a.n):
        raise Unsupported("characters of a piece of a text replaced")
    return (a.base, a.images) if isinstance(a, Mapped) else (a, {})


def image(p, f, special):
    """The part with f applied to every character; f is the identity on all but the special ones."""
    base, old = root(p)
    images = {c: "".join(f(x) for x in v) for c, v in old.items()}
    for c in special:
        if c not in old and base.cs.has(c):
            images[c] = f(c)
    images = {c: v for c, v in images.items() if v != c}
    if not images:
        return base.part()
    key = ("map", frozenset(images.items()))
    if key not in base.cases:
        base.cases[key] = Mapped(base, images)
    return base.cases[key].part()


def each_char(s, f, special):
    """f of every character of the text."""
    return mk(["".join(map(f, p)) if isinstance(p, str) else p if not isinstance(p, str) and p[0] != "atom" and not pcs(p).any_of(special) else image(p, f, special) for p in expand(s.parts)])


def replace(s, old, new):
    return each_char(s, lambda c: new if c == old else c, [old])


def translate(s, table):
    keys = [chr(k) for k in table]

    def f(c):
        r = table.get(ord(c), c)
        return "" if r is None else chr(r) if isinstance(r, int) else r
    return each_char(s, f, keys)


@functools.lru_cache(maxsize=None)
def one_char(pat):
    """The characters a pattern for exactly one character stands for, or None."""
    from re import _constants as C
    from re import _parser as P
    items = list(P.parse(pat.pattern, pat.flags & ~re.U))
    if len(items) != 1 or items[0][0] not in (C.LITERAL, C.NOT_LITERAL, C.IN, C.ANY):
        return None
    return frozenset(c for c in ALL if pat.fullmatch(c))


def sub(pat, new, s):
    chars = one_char(pat)
    if chars is None or len(chars) > 100000:
        raise Unsupported("re.sub of %r in a symbolic text" % pat.pattern)
    if isinstance(new, str):
        if "\\" in new:
            raise Unsupported("re.sub by a template")
        text = {c: new for c in chars}
    else:
        text = {c: new(pat.fullmatch(c)) for c in chars}
    return each_char(s, lambda c: text.get(c, c), chars)
