"""Texts put together from a piece per element of a list of unknown length."""
from . import sym
from .core import Unsupported, cur, is_z, simp
from .sym import mkbool, mkint, truth, zint
from .text import SymStr, norm, text_eq


class Fold:
    """The text of the first k pieces; piece(k) is the one of element k.  With `read`, texts of whole lines are compared by what is read from them."""

    def __init__(self, name, piece, read=None):
        self.name, self.piece, self.read = name, piece, read

    def upto(self, k, before=""):
        return FoldStr(list(SymStr.of(before)) + [("fold", self, simp(zint(k)))])

    def vc_register(self, vc):
        vc.text_ghosts.append(self)
        return self

    def same_text(self, a, b):
        a, b = norm(a), norm(b)
        ends = [not x or isinstance(x[-1], str) and x[-1].endswith("\n") for x in (a, b)]
        if self.read is None or not all(ends):
            return text_eq(a, b)
        return eq_all(self.read(SymStr(a) if a else ""), self.read(SymStr(b) if b else ""))


def eq_all(x, y):
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        return len(x) == len(y) and sym.and_(*([True] + [eq_all(a, b) for a, b in zip(x, y)]))
    if isinstance(x, (list, tuple)) or isinstance(y, (list, tuple)):
        return False
    return x == y


def _is(a, b):
    a, b = simp(zint(a)), simp(zint(b))
    if not is_z(a) and not is_z(b):
        return a == b
    return cur().entails(truth(mkbool(zint(a) == zint(b))))


def _folds(parts):
    """Without the folds of no element."""
    return norm([p for p in parts if isinstance(p, str) or p[0] != "fold" or not _is(p[2], 0)])


def _first(parts):
    for i, p in enumerate(parts):
        if not isinstance(p, str) and p[0] == "fold":
            return i
    return None


def fold_eq(a, b, how):
    a, b = _folds(a), _folds(b)
    i, j = _first(a), _first(b)
    if i is None and j is None:
        return how.same_text(a, b)
    if i is None or j is None:
        (x, k) = (a, i) if i is not None else (b, j)
        f, n = x[k][1:]
        m = simp(zint(n) - 1)
        if not is_z(simp(zint(n))) and n > 0 or is_z(m) and cur().entails(zint(m) >= 0):
            x = x[:k] + [("fold", f, m)] + list(SymStr.of(f.piece(mkint(m)))) + x[k + 1:]
            return fold_eq(x, b, how) if i is not None else fold_eq(a, x, how)
        raise Unsupported("comparison of a text with one of unknown length")
    if a[i][1] is not b[j][1]:
        raise Unsupported("comparison of texts of different lists")
    f, n, m = a[i][1], a[i][2], b[j][2]
    if _is(n, m):
        return sym.and_(f.same_text(a[:i], b[:j]), fold_eq(a[i + 1:], b[j + 1:], f))
    for x, k, p, q in ((a, i, n, m), (b, j, m, n)):
        if _is(p, zint(q) + 1):
            y = x[:k] + [("fold", f, simp(zint(q)))] + list(SymStr.of(f.piece(mkint(q)))) + x[k + 1:]
            return fold_eq(y, b, how) if x is a else fold_eq(a, y, how)
    raise Unsupported("comparison of texts of different numbers of elements")


class FoldStr(SymStr):
    """A text with folds, as a contract states it."""
    vc_any = True

    def __eq__(self, o):
        if not isinstance(o, (str, SymStr)):
            return False
        fs = [p for p in self.parts if not isinstance(p, str) and p[0] == "fold"]
        return fold_eq(list(self.parts), list(SymStr.of(o)), fs[0][1])

    __hash__ = None


def join(lst):
    """"".join of a list of unknown length, by induction: its elements are the pieces of a registered fold."""
    vc = cur()
    if lst.tail:
        return None
    for f in vc.text_ghosts:
        import z3
        i = vc.fresh("any")
        vc.add(z3.Implies(zint(lst.n) > 0, z3.And(i >= 0, i < zint(lst.n))))
        try:
            r = truth(f.same_text(list(SymStr.of(lst.get(i))), list(SymStr.of(f.piece(mkint(i))))))
        except Unsupported:
            continue
        if r is True or is_z(r) and vc.entails(z3.Implies(zint(lst.n) > 0, r)):
            return SymStr([("fold", f, lst.n)])
    return None
