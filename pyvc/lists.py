"""Lists of unknown length and the indexed loop contract."""
import z3

from . import sym
from .core import PathEnd, PathLimit, Unsupported, cur, is_z, simp
from .sym import SymBool, SymInt, mkbool, mkbytes, mkint, zint


class SymList:
    """A list of symbolic length n whose k-th element is get(k), followed by a concrete tail of appended items."""

    def __init__(self, n, get):
        self.n = simp(zint(n))
        self.get = get
        self.tail = []

    def vc_len(self):
        return mkint(simp(self.n + len(self.tail)))

    def __len__(self):
        n = self.vc_len()
        if isinstance(n, SymInt):
            n2 = cur().concretize(n.z)
            if n2 is None:
                raise Unsupported("native len() of a symbolic list")
            return n2
        return n

    def append(self, x):
        self.tail.append(x)

    def pop(self, i=-1):
        if i != -1:
            raise Unsupported("pop inside a symbolic list")
        if self.tail:
            return self.tail.pop()
        n = self.n
        c = simp(n == 0) if is_z(n) else n == 0
        if cur().branch(c) if is_z(c) else c:
            raise IndexError("pop from empty list")
        x = self.get(simp(n - 1))
        self.n = simp(n - 1)
        return x

    def extend(self, xs):
        if isinstance(xs, SymList):
            if self.tail or xs.tail:
                raise Unsupported("extending a symbolic list that has appended items")
            n, g, h = self.n, self.get, xs.get

            def get(k):
                k = zint(k)
                c = simp(k < n)
                return g(k) if (cur().branch(c) if is_z(c) else c) else h(simp(k - n))

            self.n, self.get = simp(zint(n) + zint(xs.n)), get
            return
        for x in xs:
            self.tail.append(x)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def __bool__(self):
        return bool(self.vc_len() > 0)

    def at(self, k):
        """Element at an in-range non-negative index."""
        vc = cur()
        k = simp(zint(k))
        c = simp(k < self.n)
        if (vc.branch(c) if is_z(c) else c):
            return self.get(k)
        j = simp(k - self.n)
        if is_z(j):
            j2 = vc.concretize(j)
            if j2 is None:
                raise Unsupported("symbolic index into appended items")
            j = j2
        return self.tail[j]

    def __getitem__(self, k):
        vc = cur()
        if isinstance(k, slice):
            if k.start is None and k.stop is None and k.step is None:
                r = SymList(self.n, self.get)
                r.tail = list(self.tail)
                return r
            raise Unsupported("slice of a symbolic list")
        z = simp(zint(k))
        n = simp(self.n + len(self.tail))
        c = simp(z < 0) if is_z(z) else z < 0
        if (vc.branch(c) if is_z(c) else c):
            z = simp(z + n)
        ok = simp(z3.And(z >= 0, z < n)) if is_z(z) or is_z(n) else 0 <= z < n
        if not (vc.branch(ok) if is_z(ok) else ok):
            raise IndexError("list index out of range")
        return self.at(z)

    def __iter__(self):
        vc = cur()
        i = 0
        while True:
            n = simp(self.n + len(self.tail))
            c = simp(i < n) if is_z(n) else i < n
            if not (vc.branch(c) if is_z(c) else c):
                return
            if is_z(n) and i >= vc.max_unroll:
                raise PathLimit("unbounded iteration over a symbolic list")
            yield self.at(i)
            i += 1

    def map(self, f):
        """[f(x) for x in self]: f runs once at an arbitrary index (what it raises there is raised here), its values are the new elements."""
        vc = cur()
        if is_z(self.n) and vc.branch(self.n > 0):
            i = vc.fresh("any")
            vc.add(z3.And(i >= 0, i < self.n))
            f(self.get(i))
        r = SymList(self.n, lambda k: f(self.get(k)))
        r.tail = [f(x) for x in self.tail]
        return r

    def sum(self):
        """Sum of the elements, by induction over a prefix sum the harness registered with vc.prefix_sum(P, facts)."""
        vc = cur()
        for P, facts in vc.sum_ghosts:
            i = vc.fresh("any")
            vc.add(z3.And(i >= 0, z3.Or(i < self.n, i == 0)))
            facts(mkint(i))
            if sym.truth(P(0) == 0) is not True and not vc.entails(sym.truth(P(0) == 0)):
                continue
            step = sym.truth(P(mkint(i + 1)) == P(mkint(i)) + self.get(i))
            if step is True or vc.entails(z3.Implies(i < self.n, step)):
                r = P(mkint(self.n))
                for x in self.tail:
                    r = r + x
                return r
        raise Unsupported("sum of a symbolic list")

    def join(self):
        """Concatenation of the elements, by induction over the pieces of a vc.chunks() the elements are shown to be."""
        vc = cur()
        for c in vc.join_ghosts:
            i = vc.fresh("any")
            vc.add(z3.And(i >= 0, z3.Or(i < self.n, i == 0)))
            x = self.get(i)
            if not sym.is_bytes(x):
                raise TypeError("sequence item 0: expected a bytes-like object, %s found" % type(x).__name__)
            step = z3.And(c.L(i + 1) >= c.L(i), i < c.nz)
            c.fact(i)
            same_item = sym.truth(x == c.item(i))
            if same_item is not True:
                step = z3.And(step, same_item) if is_z(same_item) else z3.BoolVal(False)
            if vc.entails(z3.Implies(i < self.n, step)):
                r = c.prefix(mkint(self.n))
                for y in self.tail:
                    r = r + y
                return r
        raise Unsupported("join of a symbolic list")

    def __eq__(self, o):
        raise Unsupported("== on a symbolic list")

    __hash__ = None

    def __add__(self, o):
        raise Unsupported("+ on a symbolic list")


def same(a, b):
    """Equality used to compare a program state with the state a contract prescribes."""
    if isinstance(b, SymList):
        vc = cur()
        if isinstance(a, list):
            m = len(a)
            conj = [simp(zint(b.vc_len()) == m)]
            if conj[0] is False:
                return False
            for k, x in enumerate(a):
                conj.append(sym.truth(same(x, b.at(k))))
            return sym.and_(*[mkbool(c) for c in conj])
        if not isinstance(a, SymList):
            return False
        r = [sym.truth(a.vc_len() == b.vc_len())]
        if a.get is not b.get and getattr(a.get, "key", 0) != getattr(b.get, "key", 1):
            raise Unsupported("comparison of unrelated symbolic lists")
        # same generator below min(n): only items past a.n need comparing
        for j, x in enumerate(a.tail):
            r.append(sym.truth(same(x, b.at(simp(a.n + j)))))
        return sym.and_(*[mkbool(c) for c in r])
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and sym.and_(*([True] + [same(x, y) for x, y in zip(a, b)]))
    if a is b:
        return True
    return b == a if getattr(type(b), "vc_any", False) else a == b


class Indexed:
    """Loop contract: before iteration i the state is state(i); the loop runs for i = 0 .. n-1.

    ``state(vc, i, loc)``  -> {local: value}
    ``heap(vc, i, loc)``   -> [(object, attribute, value)]
    ``facts(vc, i)``       -> lemma instances assumed at i (must follow from how the inputs are defined)
    ``elem``               -> for a ``for`` loop: element i is elem(vc, i); None takes it from the iterated list/range
    ``n``                  -> trip count for a ``for`` loop; a ``while`` loop tests its own condition
    """

    def __init__(self, name, state, n, heap=None, facts=None, elem=None, mod=None, inv=None):
        self.name, self.state, self.n = name, state, n
        self.heap = heap or (lambda vc, i, loc: [])
        self.facts = facts or (lambda vc, i: None)
        self.elem = elem
        self.mod = mod
        self.inv = inv or (lambda vc, i: [])

    def _cmp(self, vc, loc, i, what):
        for k, v in self.state(vc, i, loc).items():
            if k not in loc:
                raise Unsupported("loop contract of %s names %s, which the loop does not have" % (self.name, k))
            vc.check(same(loc[k], v), "%s: invariant %s of %s" % (self.name, what, k))
        for o, a, v in self.heap(vc, i, loc):
            vc.check(same(getattr(o, a), v), "%s: invariant %s of .%s" % (self.name, what, a))
        for k, c in enumerate(self.inv(vc, i)):
            vc.check(c, "%s: invariant %s, condition %d" % (self.name, what, k))

    def entry(self, vc, loc, loop):
        self._cmp(vc, loc, 0, "on entry")
        return {"loc": loc}

    def havoc(self, vc, loc, g, loop):
        i = vc.fresh("i")
        vc.add(z3.And(i >= 0, i <= zint(self.n)))
        g["i"] = i
        self.facts(vc, mkint(i))
        for c in self.inv(vc, mkint(i)):
            vc.assume(c)
        upd = dict(self.state(vc, mkint(i), loc))
        for o, a, v in self.heap(vc, mkint(i), loc):
            setattr(o, a, v)
        # pairs whose local aliases an object: keep identity of containers by the contract's own choice
        return upd

    def modifies(self, vc, loc, g):
        """Objects the body may change (their state is what the contract says), and (object, attribute) pairs."""
        st = self.state(vc, mkint(g["i"]), g["loc"])
        objs = [loc[k] for k in st if k in loc]
        for o, a, v in self.heap(vc, mkint(g["i"]), g["loc"]):
            objs += [(o, {"pos": "p", "content": "sg"}.get(a, a) if isinstance(o, sym.SymStream) else a), getattr(o, a)]
        if self.mod:
            objs += self.mod(vc, loc)
        return objs

    def more(self, vc, g, loop):
        return vc.branch(g["i"] < zint(self.n))

    def next(self, vc, g, loop):
        i = mkint(g["i"])
        if self.elem is not None:
            return self.elem(vc, i)
        src = loop.src
        if isinstance(src, SymList):
            return src.at(i)
        if isinstance(src, range):
            return src.start + i * src.step
        if hasattr(src, "a") and hasattr(src, "s"):
            return src.a + i * src.s
        if hasattr(src, "__getitem__"):
            from .models import HOOKS
            return HOOKS.getitem(src, i)
        raise Unsupported("iteration source of %s" % self.name)

    def back(self, vc, loc, g, loop):
        i = g["i"]
        vc.check(mkbool(i < zint(self.n)), "%s: no more than n iterations" % self.name)
        self.facts(vc, mkint(simp(i + 1)))
        self._cmp(vc, loc, mkint(i + 1), "preserved")


class Chunks:
    """n consecutive non-overlapping pieces of one byte string (symbolic mode of vc.chunks)."""

    def __init__(self, vc, name, min_item, max_total, max_n):
        self.F = z3.Function(name, z3.IntSort(), z3.IntSort())
        self.L = z3.Function(name + ".off", z3.IntSort(), z3.IntSort())
        nz = z3.Int(name + ".n")
        self.nz = nz
        self.min = min_item
        vc.add(nz >= 0)
        vc.add(self.L(0) == 0)
        vc.add(self.L(nz) >= min_item * nz)
        if max_n is not None:
            vc.add(nz <= max_n)
        if max_total is not None:
            vc.add(self.L(nz) <= max_total)
        self.n = mkint(nz)
        vc.inputs.append((name, "chunks", (self.F, self.L, nz)))

    def fact(self, k):
        vc = cur()
        k = simp(zint(k))
        n = self.nz
        vc.fact(z3.Implies(z3.And(k >= 0, k <= n), z3.And(self.L(k) >= self.min * k, self.L(k) + self.min * (n - k) <= self.L(n))))
        vc.fact(z3.Implies(z3.And(k >= 0, k < n), z3.And(self.L(k + 1) >= self.L(k) + self.min, self.L(k + 1) <= self.L(n))))

    def off(self, k):
        self.fact(k)
        return mkint(self.L(_z(k)))

    def item(self, k):
        self.fact(k)
        k = _z(k)
        return mkbytes([("a", self.F, simp(self.L(k)), simp(self.L(k + 1) - self.L(k)))])

    def prefix(self, k):
        self.fact(k)
        return mkbytes([("a", self.F, 0, simp(self.L(_z(k))))])

    def all(self):
        return self.prefix(self.n)

    def list(self, wrap=lambda k, b: b):
        return SymList(self.n, lambda k: wrap(k, self.item(k)))


def _z(k):
    k = simp(zint(k))
    return k if is_z(k) else z3.IntVal(k)


class CChunks:
    """Concrete mode of vc.chunks."""

    def __init__(self, items):
        self.items = list(items)
        self.n = len(self.items)

    def off(self, k):
        return sum(len(x) for x in self.items[:k])

    def item(self, k):
        return self.items[k]

    def prefix(self, k):
        return b"".join(self.items[:k])

    def all(self):
        return b"".join(self.items)

    def list(self, wrap=lambda k, b: b):
        return [wrap(k, b) for k, b in enumerate(self.items)]


class Stride:
    """k*size for a symbolic size >= 1, as a function with its (checked) lemma instances, so that no product reaches the solver."""

    def __init__(self, vc, name, size):
        self.size = simp(zint(size))
        self.F = vc.fresh_fun(name)
        self.sym = is_z(self.size)
        if self.sym:
            a, b, s = z3.Ints("a b s")
            sol = z3.Solver()
            sol.set("timeout", 20000)
            sol.add(z3.Not(z3.Implies(z3.And(0 <= a, a < b, s >= 1), z3.And(a * s + s <= b * s, a * s >= 0, b * s >= b))))
            ok = sol.check() == z3.unsat
            vc.check(ok, "lemma: multiples of a positive size are ordered")
            vc.fact(self.F(0) == 0)

    def off(self, k):
        if not self.sym:
            return mkint(simp(zint(k) * self.size))
        return mkint(self.F(_z(k)))

    def fact(self, k, n):
        """Instances at 0 <= k <= n."""
        if not self.sym:
            return
        vc = cur()
        k, n = _z(k), _z(n)
        s = self.size
        F = self.F
        vc.fact(z3.Implies(z3.And(0 <= k, k < n, s >= 1), z3.And(F(k) + s <= F(n), F(k) >= 0, F(n) >= n)))
        vc.fact(z3.Implies(k >= 0, F(k + 1) == F(k) + s))

    def defines(self, n, total):
        """n*size == total is given (n is total div size and the remainder is 0)."""
        if self.sym:
            cur().fact(self.F(_z(n)) == _z(total))


class Table:
    """n fixed-size little-endian entries, entry k = value(k), as one byte string (definitional: each read adds its defining instance)."""

    def __init__(self, vc, name, n, size, value):
        self.F = vc.fresh_fun(name)
        self.n, self.size, self.value = n, size, value

    def define(self, k):
        """The defining instance of entry k."""
        vc = cur()
        k = _z(k)
        v = zint(self.value(mkint(k)))
        t = sym.rope_int([("a", self.F, simp(k * self.size), self.size)], self.size, "little", False)
        vc.fact(z3.Implies(z3.And(k >= 0, k < _z(self.n)), t == v))

    def prefix(self, k):
        return mkbytes([("a", self.F, 0, simp(_z(k) * self.size))])
