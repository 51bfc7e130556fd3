"""Regular expressions on symbolic texts: does the pattern match, decided for every value of the unknown parts at once.

The pattern becomes a nondeterministic automaton (from CPython's own parse of it); the text is run through its subset construction, an unknown
part contributing every character of its set at every possible length.  If all resulting states agree, that is the answer; otherwise the
question is Unsupported.  Only matching is decided, not what the groups are, except where the template fixes it (see search_const).
"""
import re
from re import _constants as C
from re import _parser as P

from .core import Unsupported, is_z, simp
from . import text
from .text import SymStr, ent, expand, pcs, plen, pmin
from .sym import mkbool, zint

SAMPLE = [chr(i) for i in range(128)] + list("\x85\xa0\u00e9\u4e2d\u2003\u2028\u0660\u00b2\u0130\u0131\u017f\u212a")


class NFA:
    def __init__(self, pattern, flags=0):
        self.edges = []      # state -> [(test, target)]
        self.eps = []        # state -> [target]
        tree = P.parse(pattern, flags)
        fl = tree.state.flags
        self.icase, self.dotall = bool(fl & re.I), bool(fl & re.S)
        if fl & (re.M | re.X | re.L | re.A):
            raise Unsupported("regular expression flags")
        self.start = self.new()
        self.end = self.build(tree, self.start)

    def new(self):
        self.edges.append([])
        self.eps.append([])
        return len(self.edges) - 1

    def build(self, seq, s):
        for op, av in seq:
            s = self.step(op, av, s)
        return s

    def char(self, test, s):
        t = self.new()
        if self.icase:
            base = test
            test = lambda c: base(c) or base(c.lower()) or base(c.upper())  # noqa: E731
        self.edges[s].append((test, t))
        return t

    def step(self, op, av, s):
        if op is C.LITERAL:
            return self.char(lambda c: c == chr(av), s)
        if op is C.NOT_LITERAL:
            return self.char(lambda c: c != chr(av), s)
        if op is C.ANY:
            return self.char((lambda c: True) if self.dotall else (lambda c: c != "\n"), s)
        if op is C.IN:
            one = re.compile("[%s]" % self._set(av))
            return self.char(lambda c: one.fullmatch(c) is not None, s)
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            for _ in range(lo):
                s = self.build(sub, s)
            if hi is C.MAXREPEAT:
                a = self.new()
                self.eps[s].append(a)
                b = self.build(sub, a)
                self.eps[b].append(a)
                return a
            out = self.new()
            self.eps[s].append(out)
            for _ in range(hi - lo):
                s = self.build(sub, s)
                self.eps[s].append(out)
            return out
        if op is C.SUBPATTERN:
            return self.build(av[3], s)
        if op is C.BRANCH:
            out = self.new()
            for alt in av[1]:
                a = self.new()
                self.eps[s].append(a)
                self.eps[self.build(alt, a)].append(out)
            return out
        raise Unsupported("regular expression operator %s" % op)

    def _set(self, av):
        out = ""
        for op, x in av:
            if op is C.NEGATE:
                out += "^"
            elif op is C.LITERAL:
                out += "\\x%02x" % x if x < 256 else "\\u%04x" % x
            elif op is C.RANGE:
                out += "\\x%02x-\\x%02x" % x if x[1] < 256 else "\\u%04x-\\u%04x" % x
            elif op is C.CATEGORY:
                out += {C.CATEGORY_DIGIT: r"\d", C.CATEGORY_NOT_DIGIT: r"\D", C.CATEGORY_SPACE: r"\s", C.CATEGORY_NOT_SPACE: r"\S",
                        C.CATEGORY_WORD: r"\w", C.CATEGORY_NOT_WORD: r"\W"}[x]
            else:
                raise Unsupported("character class")
        return out

    def close(self, st):
        st = set(st)
        todo = list(st)
        while todo:
            for t in self.eps[todo.pop()]:
                if t not in st:
                    st.add(t)
                    todo.append(t)
        return frozenset(st)

    def move(self, st, c):
        return self.close({t for s in st for f, t in self.edges[s] if f(c)})


CACHE = {}


def nfa(pat):
    k = (pat.pattern, pat.flags)
    if k not in CACHE:
        src = pat.pattern
        head, at_end = src, False
        if head.endswith("$") and not head.endswith("\\$"):
            head, at_end = head[:-1], True
        if head.startswith("^"):
            head = head[1:]
        CACHE[k] = (NFA(head, pat.flags & ~re.U), at_end, src.startswith("^"))
    return CACHE[k]


def lengths(p):
    """(lo, hi) of a part, hi None when unbounded."""
    lo = pmin(p)
    if not isinstance(p, str) and p[0] == "int":
        base = 16 if p[2][-1:] in ("x", "X") else 10
        if not ent(mkbool(p[1] >= 0)):
            return lo, None
        for k in range(1, 41):
            if ent(mkbool(p[1] < base ** k)):
                return lo, max(k, lo)
        return lo, None
    n = plen(p)
    if not is_z(n):
        return n, n
    hi = p[1].hi if p[0] == "atom" else None
    if hi is None:
        for k in (1, 2, 4, 8, 16):
            if ent(mkbool(zint(n) <= k)):
                return lo, k
    return lo, hi


def run(a, states, parts, sticky):
    """All subset states after the text (a set of frozensets)."""
    cur = {states}

    def mv(st, c):
        if sticky and a.end in st:
            return frozenset([a.end])
        return a.move(st, c)

    for p in expand(parts):
        if isinstance(p, str):
            for c in p:
                cur = {mv(st, c) for st in cur}
            continue
        cs = pcs(p)
        chars = [c for c in SAMPLE if cs.has(c)] + [c for c in cs.chars if not cs.neg and c not in SAMPLE]
        lo, hi = lengths(p)
        for _ in range(lo):
            cur = {mv(st, c) for st in cur for c in chars}
        seen = set(cur)
        k = lo
        while cur and (hi is None or k < hi):
            cur = {mv(st, c) for st in cur for c in chars} - seen
            seen |= cur
            k += 1
            if len(seen) > 3000:
                raise Unsupported("regular expression on a text of unknown structure")
        cur = seen
    return cur


class Match:
    """A successful match; its groups are known only where a pattern of one repetition spans the text."""

    def __init__(self, s, pat=None):
        self.string, self.re = s, pat

    def group(self, *k):
        """A pattern of literals around one greedy repetition matches as much as it can: the whole text, if that matches."""
        shape = one_repeat(self.re) if self.re is not None and len(k) < 2 else None
        if shape is None or not matches(self.re, self.string, "fullmatch"):
            raise Unsupported("the groups of a match of %r" % (self.re and self.re.pattern))
        before, group, after = shape
        if k == () or k == (0,):
            return self.string
        if k == (1,) and group:
            return self.string[before:-after] if after else self.string[before:]
        raise IndexError("no such group")

    def __getitem__(self, k):
        return self.group(k)

    def groups(self):
        return (self.group(1),) if one_repeat(self.re) and one_repeat(self.re)[1] else self.__getattr__("groups")

    def __getattr__(self, n):
        raise Unsupported("match.%s on a symbolic text" % n)


def matches(pat, s, how):
    a, at_end, at_start = nfa(pat)
    if how == "search" and not at_start:
        raise Unsupported("regular expression search in a symbolic text")
    full = how == "fullmatch" or at_end
    res = run(a, a.close({a.start}), s.parts, not full)
    ok = {a.end in st for st in res}
    if full and at_end and how != "fullmatch":
        # "$" also matches before a final line feed
        last = s.parts[-1]
        if isinstance(last, str):
            if last.endswith("\n"):
                cut = text.mk(list(s.parts[:-1]) + [last[:-1]])
                if pat.fullmatch(cut) if isinstance(cut, str) else matches(pat, cut, "fullmatch"):
                    return True
        elif pcs(last).has("\n"):
            raise Unsupported("$ before a final line feed")
    if len(ok) != 1:
        # decide which of the parts that may be empty are
        for i, p in enumerate(s.parts):
            if not isinstance(p, str) and pmin(p) == 0:
                if text.nonempty(p):
                    return matches(pat, s, how)
                return matches(pat, text.SymStr(s.parts[:i] + s.parts[i + 1:]), how)
        raise Unsupported("regular expression %r on a text of unknown structure" % pat.pattern)
    return ok.pop()


def one_repeat(pat):
    """(number of literals before, whether it is a group, number behind) of a pattern of literals around one greedy repetition of a character."""
    items, before, found = list(P.parse(pat.pattern, pat.flags & ~re.U)), 0, None
    for op, av in items:
        group = op is C.SUBPATTERN and len(av[3]) == 1
        if group:
            op, av = av[3][0]
        if op is C.LITERAL and not group:
            before += 1
        elif op is C.MAX_REPEAT and found is None and len(av[2]) == 1 and av[2][0][0] in (C.ANY, C.IN, C.LITERAL, C.NOT_LITERAL):
            found, before = (before, group), 0
        else:
            return None
    return found and (*found, before)


def call(pat, name, a):
    if name in ("match", "fullmatch", "search") and len(a) == 1 and isinstance(a[0], SymStr):
        return Match(a[0], pat) if matches(pat, a[0], name) else None
    if name == "sub" and len(a) == 2 and isinstance(a[1], SymStr):
        from . import mapped
        return mapped.sub(pat, *a)
    raise Unsupported("re.%s on a symbolic text" % name)
