"""Ghost automaton for loops that sort the lines of a file into lists: the section before line i, and what each list holds by then."""
import z3

from pyvc.core import Unsupported, simp
from pyvc.lists import SymList, same
from pyvc.sym import mkbool, mkint, zint

BLANK = " \t\n\r\v\f\x1c\x1d\x1e\x1f\x85\xa0\u1680\u2028\u2029\u202f\u205f\u3000" + "".join(map(chr, range(0x2000, 0x200b)))


class Rec:
    """What was recorded for a line."""
    vc_ghost = True

    def __init__(self, *vals):
        self.vals = vals

    def __eq__(self, o):
        from pyvc.sym import and_
        return isinstance(o, Rec) and len(o.vals) == len(self.vals) and and_(*([True] + [a is b or a == b for a, b in zip(self.vals, o.vals)]))

    __hash__ = None


class LogDict:
    """A dictionary, by the sequence of its assignments."""
    vc_ghost = True

    def __init__(self, log):
        self.log = log

    def __setitem__(self, k, v):
        self.log.append(Rec(k, v))

    def __getitem__(self, k):
        for e in reversed(self.log.tail if isinstance(self.log, SymList) else self.log):
            if e.vals[0] is k or e.vals[0] == k:
                return e.vals[1]
        raise Unsupported("reading an entry of long ago")

    def __eq__(self, o):
        return isinstance(o, LogDict) and same(self.log, o.log)

    def __ne__(self, o):
        raise Unsupported("!= of dictionaries")

    __hash__ = None


class Bins:
    """A dictionary of lists, by the sequence of (key, item) additions; keys of long ago are there or not, arbitrarily."""
    vc_ghost = True

    def __init__(self, log, old):
        self.log, self.old = log, old

    def _tail(self):
        return self.log.tail if isinstance(self.log, SymList) else self.log

    def __contains__(self, k):
        if any(e.vals[0] == k for e in self._tail()):
            return True
        if not isinstance(k, str):
            raise Unsupported("key of a dictionary of lists")
        return self.old(k)

    def __setitem__(self, k, v):
        if k in self:
            self.log.append(Rec("lost", k))
        for x in v:
            self.log.append(Rec(k, x))

    def __getitem__(self, k):
        if k not in self:
            raise KeyError(k)
        return Bin(self, k)

    def setdefault(self, k, v):
        if k not in self:
            self[k] = v
        return Bin(self, k)

    def __eq__(self, o):
        return isinstance(o, Bins) and same(self.log, o.log)

    __hash__ = None


class Bin:
    """One list of it."""
    vc_ghost = True

    def __init__(self, bins, k):
        self.bins, self.k = bins, k

    def append(self, x):
        self.bins.log.append(Rec(self.k, x))

    def extend(self, xs):
        for x in xs:
            self.append(x)

    def __iadd__(self, xs):
        self.extend(xs)
        return self


class Router:
    def __init__(self, vc, name, n, vars, bins):
        self.vc = vc
        self.n = n
        self.var = {v: z3.Function(name + "." + v, z3.IntSort(), z3.IntSort()) for v in vars}
        self.cnt = {b: z3.Function(name + ".#" + b, z3.IntSort(), z3.IntSort()) for b in bins}
        for f in list(self.var.values()) + list(self.cnt.values()):
            vc.add(f(0) == 0)
        self.now = {}
        self.gets = {b: self._get(b) for b in bins}

    def _get(self, b):
        def get(k):
            vc = self.vc
            for at, item in self.now.get(b, ()):
                if vc.entails(zint(k) == at):
                    return item
            raise Unsupported("reading what an earlier line recorded")
        return get

    def at(self, v, i):
        """The value of a state variable before line i."""
        return simp(self.var[v](_z(i)))

    def list(self, b, i):
        """What list b holds before line i."""
        self.vc.fact(self.cnt[b](_z(i)) >= 0)
        return SymList(self.cnt[b](_z(i)), self.gets[b])

    def step(self, i, records=(), **new):
        """Line i records (list, item)s and changes the state variables as given."""
        i = _z(i)
        for v, f in self.var.items():
            self.vc.add(f(i + 1) == (zint(new[v]) if v in new else f(i)))
        self.now = {}
        for b, f in self.cnt.items():
            items = [x for c, x in records if c == b]
            self.vc.add(f(i + 1) == f(i) + len(items))
            self.now[b] = [(simp(f(i) + j), x) for j, x in enumerate(items)]


def _z(k):
    k = simp(zint(k))
    return k if z3.is_expr(k) else z3.IntVal(k)
