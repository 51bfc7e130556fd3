import os
import shutil
import tempfile

from contracts.base import H
from contracts.c20_sections import Cell, anycase, gap, layout, noise, spell
from contracts.c22_fdf import Any, sp, unlike, word
from contracts.routes import BLANK, Rec, Router
from pyvc.core import Unsupported, simp
from pyvc.lists import Indexed, SymList, same
from pyvc.util import AND, NOT, OR, scat

ID = "C23"
LEVEL = "proof"
TRUSTED = ["open and readlines give the lines of the file"]
ASSUMPTIONS = ["StripComment, ReplaceVariables, ProcessConditional and InActiveCode by their own contracts (C17, C19)",
               "a variable is defined once, before it is used; so is a PCD a condition names, with its value only; the block of a component is opened on its line and "
               "closed by a brace on a line of its own; an absolute path lies below the workspace or a package path"]
EXPLANATION = ("The loops over the lines, the scopes of a section and the architectures are proved with invariants over ghost sequences, for files of any length and any names; "
               "what one line does is proved line by line. Whole random files, with includes and conditionals, cross-check.")
PR = "edk2toollib.uefi.edk2.parsers."
M = PR + "dsc_parser:DscParser."


class Paths:
    """os.path, of paths whose start is known."""
    vc_ghost = True

    def __init__(self, vc):
        self.vc = vc

    def isabs(self, x):
        return x.startswith("/")

    def normpath(self, x):
        return Rec("normal", x)

    def abspath(self, x):
        return Rec("absolute", x)

    def __getattr__(self, n):
        return getattr(os.path, n)


class Os:
    vc_ghost = True

    def __init__(self, vc):
        self.path = Paths(vc)

    def __getattr__(self, n):
        return getattr(os, n)


class Util:
    """Edk2Path: the path relative to the workspace or a package path."""
    vc_ghost = True

    def __init__(self, vc):
        self.vc, self.path = vc, None

    def of(self, path):
        """What to list for this path."""
        self.path = path
        self.rel = word_of(self.vc, "relative", "|{}/")
        return self.rel if path.startswith("/") else path

    def GetEdk2RelativePathFromAbsolutePath(self, x, *a):
        self.vc.check(AND(x.startswith("/"), x == self.path), "the absolute path of the line is made relative")
        return self.rel


def word_of(vc, name, but):
    return scat(vc.text(name + ".a", BLANK + but, 1, 1, neg=True), vc.text(name + ".m", "\n" + but, 0, neg=True), vc.text(name + ".z", BLANK + but, 1, 1, neg=True))


class Moved:
    """A dictionary of lists, each in the order of the last additions to its front: by these additions."""
    vc_ghost = True

    def __init__(self, log, there, has):
        self.log, self.there, self.has, self.gone, self.made = log, there, has, False, False

    def __contains__(self, k):
        return self.made or self.there()

    def get(self, k, d=None):
        return Instances(self, k) if k in self else d

    def setdefault(self, k, d):
        if k not in self:
            if d != []:
                self[k] = d
            self.made = True
            self.empty = d == []
        return Instances(self, k)

    def __getitem__(self, k):
        if k not in self:
            raise KeyError(k)
        return Instances(self, k)

    def __setitem__(self, k, v):
        if isinstance(v, Instances):
            if not (v.of is self and (v.key is k or v.key == k)):
                self.log.append(Rec("wrong", k))
            return
        if k in self:
            self.log.append(Rec("lost", k))
        self.made = True
        for x in reversed(v):
            self.log.append(Rec(k, x))

    def __eq__(self, o):
        return isinstance(o, Moved) and not self.gone and same(self.log, o.log)

    __hash__ = None


class Instances:
    vc_ghost = True

    def __init__(self, of, key):
        self.of, self.key = of, key

    def __contains__(self, x):
        return self.of.there() and self.of.has()

    def remove(self, x):
        if x not in self:
            raise ValueError("not in the list")
        self.of.gone = True

    def insert(self, at, x):
        if not isinstance(at, int) or at != 0 or x in self and not self.of.gone:
            self.of.log.append(Rec("wrong", self.key, x))
            return
        self.of.gone = False
        self.of.log.append(Rec(self.key, x))


def scope_list(vc, h, cells):
    """The scopes of a heading: m texts."""
    m = vc.fresh("scopes")
    vc.add(m >= 1)
    seen = []

    def get(k):
        from pyvc.sym import zint
        for y, x in seen:
            if vc.entails(zint(k) == y):
                return x
        x = "common" if vc.bool("common") else vc.text("scope%d" % len(seen), BLANK + ",[]", 1, neg=True)
        seen.append((zint(k), x))
        return x
    return SymList(m, get)


class Scopes(Cell):
    """The scopes before statement i: of the last heading, none for a heading of another section."""

    def at(self, i):
        vc = self.R.vc
        z = self.R.at("own", i)
        if not vc.branch(z == 1):
            return []
        z = self.R.at(self.v, i)
        if self.now is not None and vc.entails(z == self.now[0]):
            return self.now[1]
        for y, x in self.seen:
            if vc.entails(z == y):
                return x
        self.seen.append((z, scope_list(vc, len(self.seen), self)))
        return self.seen[-1][1]


def outer_heading(vc, R, scopes, i, section):
    """A heading and its scopes, by the contract of _get_current_scope."""
    own = vc.bool("own section")
    text = scat("[", vc.text("heading", "\n", 0, neg=True), "]", vc.text("behind", "\n]", 0, neg=True))
    new = scope_list(vc, "new", None) if own else []
    at = scopes.set(i, new)
    return text, new, {"own": int(own), "head": at}


def stubs(vc, D, section, now):
    def scope(self, old, line, kind):
        vc.check(AND(kind == section, line == now["line"].lower()), "the line and the section asked for")
        if now["heading"] is not None:
            return now["heading"]
        return old
    vc.patch(D.DscParser, "_get_current_scope", scope)
    vc.patch(D, "os", Os(vc))


def libraries(vc):
    """Every library instance is listed for its class and scope, the one declared last first, no instance twice."""
    D = vc.module(PR + "dsc_parser")
    if not vc.symbolic:
        return dsc_file(vc)
    import z3
    from pyvc.sym import mkint, zint
    n = vc.int("lines", 0).z
    R = Router(vc, "dsc", n, ["own", "head"], [])
    scopes = Scopes(R, "head", None)
    E = z3.Function("additions", z3.IntSort(), z3.IntSort())
    vc.add(E(0) == 0)
    now = {"records": []}
    util = Util(vc)
    stubs(vc, D, "libraryclasses", now)

    def get(k):
        for at, x in now["records"]:
            if vc.entails(zint(k) == at):
                return x
        raise Unsupported("reading what an earlier line recorded")

    def line(vc, i):
        kind = vc.choice("line", ["heading", "library", "other"])
        old = scopes.at(i)
        now.update(heading=None, i=i, records=[], old=old)
        new, count, text = {}, 0, None
        if kind == "heading":
            text, now["heading"], new = outer_heading(vc, R, scopes, i, "libraryclasses")
        elif kind == "library":
            lib, path = word(vc, "class", "|[]"), word(vc, "path", "|/") if vc.bool("relative") else scat("/", word(vc, "path", "|"))
            text = scat(gap(vc, "g1"), lib, gap(vc, "g2"), "|", gap(vc, "g3"), path, gap(vc, "g4"))
            now.update(lib=lib, value=util.of(path))
            count = zint(old.n) if old else 0
        else:
            bars = vc.choice("bars", ["", "||", "|x|", "|a | b|"])
            text = scat(vc.text("first", BLANK + "|[", 1, 1, neg=True), vc.text("rest", "\n|", 0, neg=True), bars, vc.text("more", "\n|", 0, neg=True))
        now["line"] = text
        R.step(i, **new)
        vc.add(E(zint(i) + 1) == E(zint(i)) + count)
        inner.n = count
        return text

    there = {k: z3.Function(k, z3.IntSort(), z3.IntSort(), z3.BoolSort()) for k in ("there", "has")}

    def lists(i, k):
        vc.fact(E(zint(i)) >= 0)
        return Moved(SymList(simp(E(zint(i)) + zint(k)), get), *[lambda f=f: vc.branch(f(zint(i), zint(k))) for f in there.values()])

    p = D.DscParser()
    p._Edk2PathUtil = util
    p.ScopedLibraryDict = Moved([], lambda: False, lambda: False)
    p.Lines = SymList(n, lambda k: None)

    def heap(vc, i, L):
        return [(p, "ScopedLibraryDict", lists(i, 0))]

    def scope_heap(vc, k, L):
        return [(p, "ScopedLibraryDict", lists(now["i"], k))]

    def scope_facts(vc, k):
        """What the addition for the scope before is."""
        now["records"] = []

    def scope_elem(vc, k):
        s = now["old"].get(k)
        now["records"] = [(simp(E(zint(now["i"])) + zint(k)), Rec(scat(s, ".", now["lib"]).lower(), now["value"]))]
        return s

    inner = Indexed("scopes", lambda vc, k, L: {}, 0, heap=scope_heap, facts=lambda vc, k: None, elem=scope_elem)
    vc.contract(M + "_parse_libraries#0", Indexed("lines", lambda vc, i, L: {"current_scopes": scopes.at(i)}, n, heap=heap, elem=line))
    vc.contract(M + "_parse_libraries#1", inner)
    p._parse_libraries()
    vc.reach("done")
    vc.check(p.ScopedLibraryDict == lists(mkint(n), 0), "all library instances")


def scope(vc):
    """The scopes of a heading of the section; none for another heading; those of before for any other line."""
    D = vc.module(PR + "dsc_parser")
    section = vc.choice("section", ["components", "libraryclasses"])
    other = {"components": "libraryclasses", "libraryclasses": "components"}[section]
    p = D.DscParser()
    old = ["old"]
    kind = vc.choice("line", ["own", "other", "unknown", "line", "open"])
    gen = lambda r: r.choice(["x64", "ia32", "common", "common.peim", "a"])  # noqa: E731
    if kind == "own":
        m = vc.choice("how many", [1, 2, 3])
        vc.bound("headings of at most 3 scopes")
        parts, want = [], []
        for k in range(m):
            # (a component's heading names no section within a scope)
            x = vc.text("scope%d" % k, BLANK + ",[].clC", 1, neg=True, gen=lambda r: r.choice(["x64", "ia32", "aarch64"])) if vc.bool("a scope %d" % k) else ""
            if x != "" and vc.bool("module type %d" % k):
                x = scat(x, ".", vc.text("type%d" % k, BLANK + ",[].clC", 1, neg=True, gen=gen))
            parts += ["," if k else "", vc.text("lead%d" % k, " \t", 0, gen=lambda r: r.choice(["", " "])) if k == 1 else "", section, "." if x != "" else "", x,
                      vc.text("trail%d" % k, " \t", 0, gen=lambda r: r.choice(["", " "])) if k == m - 1 else ""]
            want.append("common" if x == "" else x)
        text = scat("[", *parts, "]")
    elif kind == "other":
        text, want = scat("[", other, vc.text("more", "\n", 0, neg=True, gen=gen), "]"), []
    elif kind == "unknown":
        text, want = scat("[", vc.text("name", "\ncl", 0, neg=True, gen=lambda r: r.choice(["defines", "pdssection"])), "]"), []
    elif kind == "line":
        text, want = scat(vc.text("first", "[\n", 1, 1, neg=True, gen=lambda r: r.choice("xl")), vc.text("rest", "\n", 0, neg=True, gen=lambda r: r.choice(["", "[components]", "a|b"]))), old
    else:
        text, want = scat("[", vc.text("rest", "\n]", 0, neg=True, gen=lambda r: r.choice(["", "components", "libraryclasses"]))), old
    r = p._get_current_scope(old, text, section)
    vc.reach("done")
    vc.check(AND(len(r) == len(want), *[a == b for a, b in zip(r, want)]), "the scopes of the line")


class Component:
    """A component of the list: its path, its architecture, its overrides."""
    vc_ghost = vc_any = True

    def __init__(self, path, arch, over):
        self.path, self.arch, self.over = path, arch, over

    def __eq__(self, o):
        return isinstance(o, tuple) and len(o) == 3 and AND(o[0] == self.path, o[1] == self.arch, o[2] == {"NULL": []} if self.over is None else o[2] is self.over)

    __hash__ = None


class Statements:
    """The iterator over the lines: the next line of the next statement."""
    vc_ghost = vc_any = True

    def __init__(self, take):
        self.take = take

    def __iter__(self):
        return self

    def __next__(self):
        return self.take()

    def __eq__(self, o):
        return isinstance(o, Statements)

    __hash__ = None


class Whole:
    """The lines of the file."""
    vc_ghost = True

    def __init__(self, take):
        self.take = take

    def __iter__(self):
        return Statements(self.take)


class Archs:
    """SUPPORTED_ARCHITECTURES: a text of the architectures."""
    vc_ghost = True

    def __init__(self, archs):
        self.archs = archs

    def split(self, sep):
        assert sep == "|"
        return self.archs


class Variables:
    vc_ghost = True

    def __init__(self, archs):
        self.archs = archs

    def __getitem__(self, k):
        if k != "SUPPORTED_ARCHITECTURES":
            raise Unsupported("another variable")
        return Archs(self.archs)


def components(vc):
    """Every component is listed for each architecture of its section, with the overrides of its block."""
    D = vc.module(PR + "dsc_parser")
    if not vc.symbolic:
        return dsc_file(vc)
    import z3
    from pyvc.sym import mkint, zint
    n = vc.int("statements", 0).z
    a = vc.int("architectures", 1)
    R = Router(vc, "dsc", n, ["own", "head"], [])
    scopes = Scopes(R, "head", None)
    C = z3.Function("components", z3.IntSort(), z3.IntSort(), z3.IntSort())     # how many there are before scope k of statement i
    vc.add(C(0, 0) == 0)
    now = {"records": [], "heading": None}
    util = Util(vc)
    stubs(vc, D, "components", now)
    archs = {}

    def arch(j):
        """Architecture j, with blanks around it."""
        for at, x in archs.items():
            if vc.entails(zint(j) == at):
                return x[0]
        x = vc.text("arch%d" % len(archs), BLANK + "|", 1, neg=True)
        archs[zint(j)] = (scat(gap(vc, "lead%d" % len(archs)), x, gap(vc, "trail%d" % len(archs))), x)
        return archs[zint(j)][0]

    def get(k):
        for at, x in now["records"]:
            if vc.entails(zint(k) == at):
                return x
        raise Unsupported("reading what an earlier line recorded")

    def take():
        i = now["i"]
        if vc.branch(zint(i) == n):
            raise StopIteration
        if now["line"] is not None:
            vc.check(False, "one statement at a time")
        return statement(i)

    def statement(i):
        kind = vc.choice("statement", ["heading", "component", "block", "block"])
        old = scopes.at(i)
        new, count = {}, 0
        now.update(heading=None, old=old, block=None, over=None, done=None)
        if kind == "heading":
            text, now["heading"], new = outer_heading(vc, R, scopes, i, "components")
        else:
            path = word(vc, "path", "{}/[") if vc.bool("relative") else scat("/", word(vc, "path", "{}"))
            text = path
            if kind == "block" and old:
                how = vc.choice("gap", ["blanks", "tab", "tab blanks"])
                text = scat(path, "" if how == "blanks" else gap(vc, "g"), "" if how == "blanks" else "\t", vc.text("blanks", " ", 0) if "blanks" in how else "", "{")
                now["block"], now["over"] = "open", Rec("overrides of the block")
            value = util.of(path)
            # every component has a dictionary of its own
            now.update(value=value, lines=(text, value), count=zint(old.n) if old else 0)
            count = zint(old.n) if old else 0
        now["line"] = text
        R.step(i, **new)
        inner.n = count
        vc.add(C(zint(i) + 1, 0) == C(zint(i), count))
        return text

    def overrides(self, lines):
        vc.check(isinstance(lines, Statements) and now["block"] == "open", "the lines of the block of a component")
        now["block"] = "read"
        return now["over"]

    vc.patch(D.DscParser, "_build_library_override_dictionary", overrides)
    p = D.DscParser()
    p._Edk2PathUtil = util
    p.Lines = Whole(take)
    p.LocalVars = Variables(SymList(a.z, arch))

    def upto(i, k, j=0):
        vc.fact(C(zint(i), zint(k)) >= 0)
        return SymList(simp(C(zint(i), zint(k)) + zint(j)), get)

    def facts(vc, i):
        now.update(i=i, line=None)

    def entry_line(k, L):
        """The line as it is before scope k: the loop may make its path relative within the loop or before."""
        x = L.get("line")
        given = any(x is y for y in now["lines"])
        if isinstance(k, int) and k == 0 and given:
            return x
        if given and x is now["lines"][0] and vc.branch(zint(k) == 0):
            return x
        path = now["value"] if now["value"] is not util.path else now["lines"][0]
        return path

    def scope_heap(vc, k, L):
        return [(p, "Components", upto(now["i"], k))]

    def scope_elem(vc, k):
        i = now["i"]
        s = now["old"].get(k)
        now["k"] = k
        common = isinstance(s, str)
        if not common:
            vc.assume(s != "common")
            now["records"] = [(simp(C(zint(i), zint(k))), Component(now["value"], s, now["over"]))]
        vc.add(C(zint(i), zint(k) + 1) == C(zint(i), zint(k)) + (a.z if common else 1))
        now["common"] = common
        return s

    inner = Indexed("scopes", lambda vc, k, L: {"line": entry_line(k, L)}, 0, heap=scope_heap, elem=scope_elem)

    def arch_elem(vc, j):
        text = arch(j)
        i, k = now["i"], now["k"]
        now["records"] = [(simp(C(zint(i), zint(k)) + zint(j)), Component(now["value"], [x for y, x in archs.values() if y is text][0], now["over"]))]
        return text

    vc.contract(M + "_parse_components#0", Indexed("statements", lambda vc, i, L: {"current_scopes": scopes.at(i)}, simp(n + 1), facts=facts,
                                                   heap=lambda vc, i, L: [(p, "Components", upto(i, 0))], inv=lambda vc, i: [i <= mkint(n)]))
    vc.contract(M + "_parse_components#1", inner)
    vc.contract(M + "_parse_components#2", Indexed("architectures", lambda vc, j, L: {}, a, elem=arch_elem,
                                                   heap=lambda vc, j, L: [(p, "Components", upto(now["i"], now["k"], j))]))
    p._parse_components()
    vc.reach("done")
    vc.check(same(p.Components, upto(n, 0)), "all components")


class Overrides:
    """The dictionary of the overrides: the instances of class NULL in order, and the assignments of the others."""
    vc_ghost = vc_any = True

    def __init__(self, null, log):
        self.null, self.log = null, log

    def __getitem__(self, k):
        if not (isinstance(k, str) and k == "NULL"):
            raise Unsupported("reading another class")
        return Null(self)

    def __setitem__(self, k, v):
        self.log.append(Rec(k, v))

    def __eq__(self, o):
        if isinstance(o, dict):
            return o == {"NULL": []} and AND(same([], self.null), same([], self.log))
        return isinstance(o, Overrides) and AND(same(o.null, self.null), same(o.log, self.log))

    __hash__ = None


class Null:
    vc_ghost = True

    def __init__(self, of):
        self.of = of

    def append(self, x):
        self.of.null.append(x)


def overrides(vc):
    """The overrides of the libraries in the block of a component."""
    D = vc.module(PR + "dsc_parser")
    if not vc.symbolic:
        return dsc_file(vc)
    import z3
    from pyvc.sym import mkbool, mkint, zint
    m = vc.int("lines", 0)
    closed = vc.bool("closed")
    R = Router(vc, "block", m.z, ["libs"], ["null", "other"])
    vc.patch(D, "os", Os(vc))
    util = Util(vc)

    def line(vc, i):
        if vc.branch(zint(i) == m.z):
            return scat(gap(vc, "lead"), "}", gap(vc, "trail"))
        kind = vc.choice("line", ["libraries", "section", "library", "other"])
        if kind == "libraries":
            R.step(i, libs=1)
            return padded(anycase(vc, "section", "<LibraryClasses>"))
        if kind == "section":
            R.step(i, libs=0)
            x = vc.choice("of", ["<LibraryClass>", "<LibraryClasses.X64>", "", "<Defines>"])
            # (a section of another name: the first letter differs)
            return padded(x or scat("<", vc.text("name.a", "\n<>lL", 1, 1, neg=True), vc.text("name", "\n<>", 0, neg=True), ">"))
        if kind == "other":
            vc.assume(mkbool(R.at("libs", i) == 0))
            R.step(i)
            return padded(word(vc, "text", "<}"))
        path = word(vc, "path", "|/") if vc.bool("relative") else scat("/", word(vc, "path", "|"))
        value = util.of(path)
        if vc.bool("null"):
            lib, what = anycase(vc, "null", "NULL"), [("null", value)]
        else:
            lib = vc.choice("like null", ["nul", "nulls", "NULL.x", ""]) or unlike(vc, "class", ["null"], but="|<}")
            what = [("other", Rec(lib.lower(), value))]
        if vc.branch(R.at("libs", i) == 1):
            R.step(i, what)
        else:
            R.step(i)
        return padded(scat(lib, gap(vc, "g2"), "|", gap(vc, "g3"), path))

    def padded(x):
        return scat(gap(vc, "lead"), x, gap(vc, "trail"))

    def upto(i):
        return Overrides(R.list("null", i), R.list("other", i))

    vc.contract(M + "_build_library_override_dictionary#0", Indexed(
        "lines", lambda vc, i, L: {"section": "libraryclasses" if vc.branch(R.at("libs", i) == 1) else "", "library_override_dictionary": upto(i)},
        simp(m.z + 1) if closed else m.z, elem=line, inv=lambda vc, i: [mkbool(z3.And(R.at("libs", i) >= 0, R.at("libs", i) <= 1, zint(i) <= m.z))]))
    p = D.DscParser()
    p._Edk2PathUtil = util
    r = p._build_library_override_dictionary(SymList(m.z, lambda k: None))
    vc.reach("done")
    vc.check(same(r, upto(m)), "the overrides of the block")


class File:
    """An opened file."""
    vc_ghost = True

    def __init__(self, lines):
        self.lines = lines

    def readlines(self):
        return self.lines

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class Text:
    """A line as it is read."""
    vc_ghost = True


class Vars:
    """The variables: those before, whose values have no known variable left, and the new one."""
    vc_ghost = True

    def __init__(self, vc):
        self.vc, self.log, self.old = vc, [], Rec("value of an earlier variable")

    def __iter__(self):
        return iter(["any"] + [k for k, _ in self.log])

    keys = __iter__

    def __getitem__(self, k):
        if isinstance(k, str) and k == "any":
            return self.old
        for x, v in reversed(self.log):
            if x is k or x == k:
                return v
        raise Unsupported("another variable")

    def items(self):
        return [(k, self[k]) for k in self]

    def __setitem__(self, k, v):
        if isinstance(k, str) and k == "any":
            self.vc.check(v is self.old, "the earlier variables keep their values")
            return
        for x, w in self.log:
            if x is k or x == k:
                self.vc.check(v is w or v == w, "the variable keeps its value")
                return
        self.log.append((k, v))


def front(vc, D, p, first=False):
    """One line up to where it is known to be an active statement: (the line, the text to parse, what becomes of it)."""
    now = {"step": 0}
    raw, text = vc.text("raw", BLANK, 1, neg=True), None
    how = vc.choice("line", ["blank", "directive", "inactive", "include", "missing", "heading", "statement"])
    x = Text()
    if how == "include" or how == "missing":
        path = vc.text("path", BLANK, 1, neg=True)
        text = scat(anycase(vc, "include", "!include"), sp(vc), path, gap(vc, "trail"))
    elif how == "heading":
        name = vc.text("section", BLANK + ".,[]", 1, neg=True)
        scope = vc.choice("scope", ["", "one", "two", "more"])
        full = name if scope == "" else scat(name, ".", vc.text("arch", BLANK + ".,[]", 1, neg=True))
        if scope == "two":
            full = scat(full, ".", vc.text("module", BLANK + ".,[]", 1, neg=True))
        text = scat(gap(vc, "lead"), "[", gap(vc, "inner"), full, gap(vc, "inner2"), scat(",", gap(vc, "comma"), name, ".", vc.text("arch2", BLANK + ".,[]", 1, neg=True)) if scope == "more" else "", "]", gap(vc, "trail"))
        now["want"] = (name.upper(), full)
    else:
        text = vc.text("inert", "[]!", 1, neg=True)
    now.update(how=how, raw="" if how == "blank" else raw, text=text)
    found = Rec("path of the include") if how == "include" else None
    lines = Rec("lines of the include")

    def strip(self, y):
        vc.check(y is x, "the comment of the line")
        return now["raw"]

    def pcds(self, y):
        vc.check(y == now["raw"], "the PCDs of the line without its comment")
        return now["raw"]

    def replace(self, y):
        if y is getattr(p.LocalVars, "old", None) or now["step"] == 2:
            return y
        vc.check(y == now["raw"], "the variables of the line without its comment")
        return now["text"]

    def directive(self, y):
        vc.check(AND(y is now["text"], now["step"] == 0), "every line is tried as a directive once")
        now["step"] = 1
        return how == "directive"

    def active(self):
        vc.check(now["step"] == 1, "a line is active after the directives before it")
        now["step"] = 2
        return how != "inactive"

    def find(self, y):
        vc.check(y == path, "the path of the include")
        return found

    def opened(y, *a, **k):
        vc.check(y is found, "the file that was found")
        return File(lines)

    for name, f in (("StripComment", strip), ("ReplacePcds", pcds), ("ReplaceVariables", replace), ("ProcessConditional", directive), ("InActiveCode", active), ("FindPath", find)):
        vc.patch(D.DscParser, name, f)
    vc.patch(D, "open", opened)
    vc.patch(D, "os", Os(vc))
    p._dsc_file_paths = Added()
    p.CurrentSection, p.CurrentFullSection = "before", "before.x"
    p.TargetFilePath = "/here"
    now.update(found=found, lines=lines)
    return x, now


class Added:
    """A set, by the additions."""
    vc_ghost = True

    def __init__(self):
        self.log = []

    def add(self, x):
        self.log.append(x)


def back(vc, p, now, ok, r, first):
    """What a line does that is no statement."""
    how = now["how"]
    none = [] if first else [None]
    now["done"] = True
    if how == "missing":
        vc.check(NOT(ok), "an include that is not found is refused")
        return
    vc.check(ok, "the line is accepted")
    if not ok:
        return
    if how in ("blank", "directive", "inactive"):
        vc.check(list(r) == ["", []] + none, "nothing to parse")
        vc.check(now["step"] == {"blank": 0, "directive": 1, "inactive": 2}[how], "every line is tried as a directive")
    elif how == "include":
        vc.check(AND(r[0] == "", r[1] is now["lines"], first or r[2] is now["found"]), "the lines of the included file")
        vc.check(AND(same(p._dsc_file_paths.log, [Rec("absolute", now["found"])]), p.TargetFilePath == Rec("absolute", now["found"])), "the included file is one of those parsed")
    elif how == "heading":
        vc.check(AND(r[0] is now["text"], r[1] == [], first or r[2] is None), "the heading itself")
        vc.check(AND(p.CurrentSection == now["want"][0], p.CurrentFullSection == now["want"][1]), "the section of the lines behind")
    if how not in ("heading", "statement"):
        vc.check(p.CurrentSection == "before", "the section stays")
    if how != "include":
        vc.check(AND(p._dsc_file_paths.log == [], p.TargetFilePath == "/here"), "the file stays")


def before(vc):
    """A blank, inactive, include or heading line, and directives, in both passes."""
    D = vc.module(PR + "dsc_parser")
    if not vc.symbolic:
        return dsc_file(vc)
    from pyvc.util import outcome
    p = D.DscParser()
    first = vc.bool("first pass")
    x, now = front(vc, D, p, first)
    vc.assume(now["how"] != "statement")
    vc.patch(D.DscParser, "RegisterPcds", lambda self, y: False)
    p.LocalVars = Vars(vc)
    ok, r = outcome(p._DscParser__ParseDefineLine, x) if first else outcome(p._DscParser__ParseLine, x, file_name="/f", lineno=3)
    vc.reach("done")
    back(vc, p, now, ok, r, first)
    vc.check(AND(p.LocalVars.log == [], p.SixMods == [], p.ThreeMods == [], p.OtherMods == [], p.Libs == []), "nothing is listed")


def define(vc):
    """A line of the first pass: a definition in a section of definitions."""
    D = vc.module(PR + "dsc_parser")
    if not vc.symbolic:
        return dsc_file(vc)
    p = D.DscParser()
    x, now = front(vc, D, p, True)
    vc.assume(now["how"] == "statement")
    vc.patch(D.DscParser, "RegisterPcds", lambda self, y: False)
    p.LocalVars = Vars(vc)
    p.CurrentSection = vc.choice("section", ["DEFINES", "BUILDOPTIONS", "COMPONENTS", "LIBRARYCLASSES", "PCDSFIXEDATBUILD", "SKUIDS", ""])
    name, value = word_of(vc, "name", "=[]!"), word(vc, "value") if vc.bool("a value") else ""
    name = vc.text("key", BLANK + "=[]!", 1, neg=True)
    text = scat(gap(vc, "lead"), scat(vc.text("define", BLANK + "=[]!", 1, neg=True), sp(vc)) if vc.bool("define") else "", name, gap(vc, "g2"), "=", gap(vc, "g3"), value, gap(vc, "trail"))
    now["text"] = text
    r = p._DscParser__ParseDefineLine(x)
    vc.reach("done")
    vc.check(AND(r[0] is text, r[1] == []), "the line itself")
    if p.CurrentSection in ("DEFINES", "BUILDOPTIONS"):
        vc.check(len(p.LocalVars.log) == 1, "one definition")
        vc.check(AND(p.LocalVars.log[0][0] == name, p.LocalVars.log[0][1] == value), "its name and value")
    else:
        vc.check(p.LocalVars.log == [], "no definition")


FULL = {"Components.X64": "six", "COMPONENTS.IA32": "three", "components": "other", "Components.AARCH64": "other", "Components.common": "other", "components.x64": "six", "LibraryClasses": "libs",
        "LIBRARYCLASSES.X64.PEIM": "libs", "PcdsFixedAtBuild": "pcds", "PcdsDynamicEx.common": "pcds", "Defines": "", "BuildOptions.X64": "", "SkuIds": ""}


def line(vc):
    """A statement of the second pass: a module, a library or a PCD of its section."""
    D = vc.module(PR + "dsc_parser")
    if not vc.symbolic:
        return dsc_file(vc)
    p = D.DscParser()
    x, now = front(vc, D, p)
    vc.assume(now["how"] == "statement")
    full = vc.choice("section", sorted(FULL))
    p.CurrentFullSection, p.CurrentSection = full, full.split(".")[0].upper()
    depth = vc.int("depth", 0)
    p.ParsingInBuildOption = depth
    inf = vc.bool("inf")
    opens, closes = vc.choice("opens", range(3)), vc.choice("closes", range(3))
    # (the characters that could make up .inf are left out of the other parts)
    start = scat(vc.text("start", "!\n{}[]." + BLANK, 1, 1, neg=True), vc.text("path", "\n{}[]." + BLANK, 0, neg=True))
    text = scat(start, scat(anycase(vc, "inf", ".inf"), vc.text("rest", "\n{}[]", 0, neg=True)) if inf else scat("[0]", vc.text("rest", "\n{}[].", 0, neg=True)), "{" * opens, "}" * closes,
                vc.text("end", "{}[]." + BLANK, 1, 1, neg=True))
    now["text"] = text
    known = vc.bool("a PCD")
    seen = []

    def register(self, y):
        vc.check(y is text, "the PCD of the line")
        seen.append("pcd")
        return known

    def lib(self, y):
        vc.check(y is text, "the library of the line")
        return found

    def mod(self, y):
        vc.check(y is text, "the module of the line")
        return found

    found = Rec("path")
    vc.patch(D.DscParser, "RegisterPcds", register)
    vc.patch(D.DscParser, "ParseInfPathLib", lib)
    vc.patch(D.DscParser, "ParseInfPathMod", mod)
    at = vc.choice("where", ["file", "none"])
    f, no = ("/f.dsc", vc.int("line number", 1)) if at == "file" else (None, None)
    r = p._DscParser__ParseLine(x, file_name=f, lineno=no)
    vc.reach("done")
    vc.check(AND(r[0] is text, r[1] == [], r[2] is None), "the line itself")
    kind = FULL[full]
    comp = kind in ("six", "three", "other")
    inner = comp and depth > 0
    want = {"six": [], "three": [], "other": [], "libs": []}
    if inf and (kind == "libs" or inner):
        want["libs"] = [found]
    elif inf and comp:
        want[kind] = [found]
    vc.check(AND(p.SixMods == want["six"], p.ThreeMods == want["three"], p.OtherMods == want["other"], p.Libs == want["libs"]), "listed in the list of its section")
    where = [{"file": Rec("normal", f), "lineno": no, "data": found}]
    for name, got in (("six", p.SixModsEnhanced), ("three", p.ThreeModsEnhanced)):
        vc.check(AND(len(got) == (len(want[name]) if f else 0), *[AND(*[e[k] == where[0][k] for k in where[0]]) for e in got]), "the place of the module")
    if kind == "three":
        vc.check(AND(len(p.LibsEnhanced) == (len(want["libs"]) if f else 0), *[AND(*[e[k] == where[0][k] for k in where[0]]) for e in p.LibsEnhanced]), "the place of the library")
    vc.check(len(seen) == int(kind == "pcds" or bool(inner and not inf)), "taken for a PCD declaration in a PCD section or in a block")
    vc.check(p.ParsingInBuildOption == (depth + (opens - closes) if comp else depth), "the depth of the block")


def process(vc):
    """All lines are parsed in their order, those of an included file in its place, and paths behind it are relative to this file again."""
    D = vc.module(PR + "dsc_parser")
    if not vc.symbolic:
        return dsc_file(vc)
    import z3
    from pyvc.sym import mkint, zint
    first = vc.bool("first pass")
    n = vc.int("lines", 0).z
    R = Router(vc, "file", n, [], ["lines", "included"])
    quiet = vc.bool("no fail mode")
    now = {}
    me = Rec("this file")
    p = D.DscParser()
    p._no_fail_mode = quiet
    p.TargetFilePath = "/this"

    class Wrong(Exception):
        pass

    def get(k):
        now["line"] = Rec("line")
        now["at"] = k
        return now["line"]

    def parse(self, x, file_name=None, lineno=None):
        i = now["i"]
        vc.check(AND(x is now["line"], zint(now["at"]) == zint(i)), "the next line")
        if not first:
            vc.check(AND(file_name is me, lineno == i + 1), "the file and number of the line")
        kind = vc.choice("line", ["text", "none", "include", "fails"])
        now["kind"] = kind
        if kind == "fails":
            vc.assume(quiet)
            R.step(i)
            raise Wrong
        p.TargetFilePath = "/somewhere"
        text = vc.text("text", "\n", 1, neg=True) if kind == "text" else ""
        now.update(add=Rec("lines of it") if kind == "include" else [], new=Rec("its file") if kind == "include" else None)
        # (an empty list of lines need not be looked at)
        deep = kind == "include" and not vc.bool("fails within")
        if kind == "include" and not deep:
            vc.assume(quiet)
        now["deep"] = deep
        R.step(i, ([("lines", text)] if kind == "text" and not first else []) + ([("included", Rec(now["add"], None if first else now["new"]))] if deep else []))
        return (text, now["add"]) if first else (text, now["add"], now["new"])

    def more(self, lines, file_name=None):
        vc.check(AND(lines is now["add"], first or file_name is now["new"]), "the lines of the include")
        if now["kind"] == "include":
            if not now["deep"]:
                raise Wrong
            p.included.append(Rec(lines, None if first else file_name))
        p.TargetFilePath = "/elsewhere" if vc.bool("left elsewhere") else p.TargetFilePath

    name = "__ProcessDefines" if first else "__ProcessMore"
    run = getattr(D.DscParser, "_DscParser" + name)
    vc.patch(D.DscParser, "_DscParser__ParseDefineLine" if first else "_DscParser__ParseLine", parse)
    vc.patch(D.DscParser, "_DscParser" + name, more)

    def facts(vc, i):
        now["i"] = i

    vc.contract(M + name + "#0", Indexed("lines", lambda vc, i, L: {}, n, facts=facts,
                                         heap=lambda vc, i, L: [(p, "Lines", R.list("lines", i)), (p, "included", R.list("included", i)), (p, "TargetFilePath", "/this")]))
    p.included = []
    lines = SymList(n, get)
    run(p, lines) if first else run(p, lines, file_name=me)
    vc.reach("done")
    vc.check(AND(same(p.Lines, R.list("lines", n)), same(p.included, R.list("included", n)), p.TargetFilePath == "/this"), "all lines")


def parts(vc):
    """The path of a library or module statement; a PCD declaration."""
    D = vc.module(PR + "dsc_parser")
    p = D.DscParser()
    gen = lambda r: r.choice(["A.inf", "x", "Pkg/B"])  # noqa: E731
    g = [vc.text("gap%d" % k, " \t", 0, gen=lambda r: r.choice(["", " ", "\t"])) for k in range(4)]
    a, b = vc.text("first", BLANK + "|{", 1, neg=True, gen=gen), vc.text("second", BLANK + "|", 1, neg=True, gen=gen)
    what = vc.choice("what", ["module", "library", "path", "pcd"])
    vc.reach(what)
    if what == "module":
        line = scat(g[0], a, vc.choice("block", ["", "{", " {", "\t{", "  { <X>"]), g[1])
        vc.check(p.ParseInfPathMod(line) == a, "the path of the module")
        return
    found = Rec("path")
    p.FindPath = lambda x: found
    if what == "path":
        vc.check(p.ParseInfPathLib(scat(g[0], a, g[1])) == a, "the path of the library")
        return
    if what == "library":
        r = p.ParseInfPathLib(scat(g[0], a, g[1], "|", g[2], b, g[3]))
        vc.check(r == b, "the path of the library")
        return
    if not vc.symbolic:
        return dsc_file(vc)
    # (the name: a token space whose name ends with TokenSpaceGuid, and the PCD's)
    name = scat(vc.text("space", "\n|.[]" + BLANK, 1, neg=True), anycase(vc, "guid", "TokenSpaceGuid"), vc.text("more", "\n|." + BLANK, 0, neg=True), ".", vc.text("pcd", BLANK + "|", 1, neg=True))
    value = word_of(vc, "value", "\n")

    class Values:
        vc_ghost = True
        log = []

        def __setitem__(self, k, v):
            self.log.append((k, v))

    p.PcdValueDict = Values()
    p.PcdValueDict.log = []
    r = p.RegisterPcds(scat(g[0], name, g[1], "|", g[2], value, g[3]))
    vc.check(r is True, "a declaration")
    vc.check(AND(len(p.Pcds) == 1, len(p.PcdValueDict.log) == 1), "listed once")
    vc.check(AND(p.Pcds[0] == name, p.PcdValueDict.log[0][0] == name, p.PcdValueDict.log[0][1] == value), "its name and its value")


def passes(vc):
    """The file is parsed twice, the second time from the start again but with the definitions."""
    D = vc.module(PR + "dsc_parser")
    if not vc.symbolic:
        return dsc_file(vc)
    from pyvc.util import outcome
    p = D.DscParser()
    found = Rec("path") if vc.bool("found") else None
    lines = Rec("lines")
    log = []
    p.LocalVars = Vars(vc)

    def find(self, x):
        vc.check(x == "a.dsc", "the file asked for")
        return found

    def opened(x, *a, **k):
        vc.check(x is found, "the file that was found")
        return File(lines)

    def check(self):
        vc.check(AND(self.TargetFilePath == Rec("absolute", found)), "paths are relative to this file")
        vc.check(AND(self.ConditionalStack == [], self.CurrentSection == "", self.CurrentFullSection == "", self.Pcds == [], self.PcdValueDict == {}, self.ParsingInBuildOption == 0), "from the start")

    def defines(self, x):
        vc.check(x is lines, "the lines of the file")
        check(self)
        log.append("defines")
        self.ConditionalStack, self.CurrentSection, self.CurrentFullSection, self.Pcds, self.PcdValueDict = [1], "X", "X.Y", ["p"], {"p": "1"}

    def more(self, x, file_name=None):
        vc.check(AND(x is lines, file_name is found), "the lines of the file and its path")
        check(self)
        log.append("more")

    vc.patch(D, "open", opened)
    vc.patch(D, "os", Os(vc))
    for name, f in (("FindPath", find), ("_DscParser__ProcessDefines", defines), ("_DscParser__ProcessMore", more), ("_parse_libraries", lambda self: log.append("libraries")),
                    ("_parse_components", lambda self: log.append("components"))):
        vc.patch(D.DscParser, name, f)
    p._dsc_file_paths = Added()
    ok, _ = outcome(p.ParseFile, "a.dsc")
    vc.check(ok == (found is not None), "refused exactly if there is no such file")
    if not ok:
        return
    vc.reach("done")
    vc.check(log[:2] == ["defines", "more"] and sorted(log[2:]) == ["components", "libraries"] and p.Parsed, "both passes, then the tables")
    vc.check(AND(len(p._dsc_file_paths.log) > 0, *[x == Rec("absolute", found) for x in p._dsc_file_paths.log]), "the file is one of those parsed")


def conditions(vc):
    """In a condition the name of a PCD stands for its value, whole names only: all conditions of up to four words over two PCDs whose names continue each other."""
    import itertools
    D = vc.module(PR + "dsc_parser")
    p = D.DscParser()
    a, b = "g.Pcd", "g.PcdB"
    p.PcdValueDict = {a: "0x1", b: "g.Pcd"}
    words = {a: "0x1", b: "g.Pcd", "==": "==", "xg.Pcd": "xg.Pcd", "g.Pcd.F": "g.Pcd.F", "(g.Pcd)": "(0x1)", '"g.PcdB"': '"g.Pcd"', "!g.Pcd": "!0x1", "$(A)": "$(A)", "g.Pcd|": "0x1|", "x": "x"}
    n = vc.choice("words", range(5))
    head = vc.choice("directive", ["!if", "!IF", "!elseif", "!ElseIf", "!else", "", "x"])
    vc.bound("conditions of at most four words over %d" % len(words))
    for t in itertools.product(sorted(words), repeat=n):
        line = " ".join([head] + list(t)).strip()
        want = " ".join([head] + [words[x] for x in t]).strip() if head.startswith("!") and head != "!else" else line
        if p.ReplacePcds(line) != want:
            vc.check(False, "the PCDs of %r" % line)
    vc.reach("done")
    vc.check(True, "the PCDs of all conditions")


# ---------------------------------------------------------------- whole files

INFS = ["Pkg/A.inf", "MdePkg/Lib/B.inf", "$(A)/c.inf", "x.INF", "Pkg\\D.inf", "$(NO)/e.inf", "Plat/Real.inf", "@/Pkg/Abs.inf", "$(B)", "Pkg/A.inf"]
VARS = ["A", "B", "FLAG", "MY_DEFINE", "UNDEFINED"]
CLASSES = ["BaseLib", "DebugLib", "baselib", "NULL", "Null", "Pcd.Lib"]
TOKENS = ["gPlatTokenSpaceGuid.PcdA", "gPlatTokenSpaceGuid.PcdAB", "gTokenSpaceGuid.Pcd1", "gXtokenspaceguid.Pcd.Field", "gTokenSpaceGuid.Pcd1.F[0]"]
SECTIONS = ["defines", "libs", "libs", "comps", "comps", "pcds", "pcds", "build", "sku"]


def g_items(r, depth=0):
    out = []
    for _ in range(r.randint(1, 7)):
        k = r.random()
        if k < 0.12 and depth < 3:
            out.append(["if", r.choice(["def", "ndef", "eq", "ne", "pcd", "pcd", "bigpcd"]), r.choice(VARS), r.choice(["1", "x", "0x1", "TRUE"]), g_items(r, depth + 1),
                        r.choice([None, g_items(r, depth + 1)]), r.choice([None, g_items(r, depth + 1)])])
        elif k < 0.2 and depth < 3:
            out.append(["include", g_items(r, depth + 1), r.randint(0, 3)])
        elif k < 0.45:
            out.append(["head", r.choice(SECTIONS), [r.choice(["", "", "X64", "IA32", "common", "Common", "AARCH64", "X64.PEIM", "common.SEC"]) for _ in range(r.choice([1, 1, 1, 2, 3]))]])
        else:
            out.append(["entry", r.getrandbits(30), g_block(r) if r.random() < 0.5 else None])
    return out


def g_block(r, depth=0):
    out = []
    for _ in range(r.randint(0, 7)):
        k = r.random()
        if k < 0.35:
            out.append(["sub", r.choice(["LibraryClasses", "LibraryClasses", "PcdsFixedAtBuild", "BuildOptions", "PcdsPatchableInModule"])])
        elif k < 0.45 and depth < 2:
            out.append(["if", r.choice(["def", "ndef", "pcd"]), r.choice(VARS), r.choice(["1", "0x1"]), g_block(r, depth + 1), None, r.choice([None, g_block(r, depth + 1)])])
        elif k < 0.5 and depth < 2:
            out.append(["include", g_block(r, depth + 1), r.randint(0, 3)])
        else:
            out.append(["entry", r.getrandbits(30), None])
    return out


def g_dsc(r):
    return [g_items(r), r.getrandbits(32), r.choice([{}, {}, {"A": "1"}, {"UNDEFINED": "x", "B": "given/b.inf"}, {"FLAG": True}])]


class Dsc:
    """Writes the items to files below a directory and says what they mean."""

    def __init__(self, r, top, given):
        self.r, self.top, self.given = r, top, given
        self.n, self.used, self.pcds_used = 0, set(), set()
        self.sec, self.scopes, self.sub = "", [], None
        self.vars, self.values = {}, {}
        self.six, self.three, self.other, self.six_at, self.three_at, self.libs, self.libs_at, self.pcds = [], [], [], [], [], [], [], []
        self.instances, self.scoped, self.comps, self.paths = {}, {}, [], set()

    def value(self, v):
        self.used.add(v)
        x = self.given.get(v, self.vars.get(v))
        if isinstance(x, bool) or str(x).upper() in ("TRUE", "FALSE"):
            x = str(x).upper()
        return x

    def replaced(self, t):
        out, k = "", 0
        while k < len(t):
            e = t.find(")", k) if t.startswith("$(", k) else -1
            v = self.value(t[k + 2:e]) if e > 0 else None
            out += t[k] if v is None else v
            k = k + 1 if v is None else e + 1
        return out

    def put(self, out, text):
        out.append(layout(self.r, text))
        at = (self.path, len(out))
        if self.r.random() < 0.2:
            out.append(noise(self.r))
        return at

    def file(self, dir, name, write, active):
        """A file, by what `write` puts into its lines."""
        old = getattr(self, "path", None)
        self.path = os.path.normpath(os.path.join(self.top, dir, name))
        out = [noise(self.r) for _ in range(self.r.randint(0, 2))]
        if active:
            self.paths.add(self.path)
        write(out)
        os.makedirs(os.path.dirname(self.path), exist_ok=True)
        with open(self.path, "w") as f:
            f.write("".join(x + "\n" for x in out))
        self.path = old

    def items(self, out, items, active, block=None):
        r = self.r
        for it in items:
            k = it[0]
            if k == "if":
                self.condition(out, it, active, block)
            elif k == "include":
                self.n += 1
                here = os.path.relpath(os.path.dirname(self.path), self.top)
                dir = os.path.normpath(os.path.join(here, ["", "sub", "..", "other/deep"][it[2]])) if not (here in (".", "") and it[2] == 2) else "."
                name = "inc%d.dsc.inc" % self.n
                how = r.choice(["here", "root"])
                self.put(out, spell(r, "!include") + r.choice([" ", "\t", "   "]) + os.path.relpath(os.path.join(dir, name), here if how == "here" else "."))
                self.file(dir, name, lambda o: self.items(o, it[1], active, block), active)
            elif k == "head":
                self.heading(out, it, active)
            elif k == "sub":
                self.put(out, "<" + r.choice([it[1], spell(r, it[1])]) + ">")
                if active:
                    self.sub = it[1]
            elif block is not None:
                self.block_entry(out, random_of(it[1]), active, block)
            else:
                self.entry(out, random_of(it[1]), active, it[2])

    def condition(self, out, it, active, block):
        r, how, var, val = self.r, it[1], it[2], it[3]
        if how in ("def", "ndef"):
            yes = (self.value(var) is not None) == (how == "def")
            self.put(out, spell(r, "!if" + how) + " " + var)
        elif how == "bigpcd":
            # a PCD whose name another one's continues: not declared, so a text
            yes = False
            if not active:
                return
            self.pcds_used.update(TOKENS)
            x = "gPlatTokenSpaceGuid.PcdA" if "gPlatTokenSpaceGuid.PcdA" not in self.values else "gPlatTokenSpaceGuid.PcdABC"
            self.put(out, spell(r, "!if") + " " + x + " == 1")
        elif how == "pcd":
            have = [p for p, v in self.values.items() if p in TOKENS[:3] and v in ("1", "0x1", "TRUE", "FALSE", "x")]
            if not have or not active:
                return
            p = r.choice(have)
            self.pcds_used.add(p)
            yes = (self.values[p] == val) if "x" in (val, self.values[p]) else num(self.values[p]) == num(val)
            self.put(out, spell(r, "!if") + " " + p + " == " + val)
        else:
            v = self.value(var)
            if v is None:
                v = "0"
            if not v or any(c in v for c in ' ="()$|') or v in ("TRUE", "FALSE") or val in ("TRUE", "0x1"):
                return
            yes = (("1" if v == "0x1" else v) == val) == (how == "eq")
            self.put(out, spell(r, "!if") + " $(" + var + ") " + ("==" if how == "eq" else "!=") + " " + val)
        self.items(out, it[4], active and yes, block)
        if it[5] is not None:
            have = [p for p, v in self.values.items() if p in TOKENS[:3] and v in ("1", "0x1")]
            p = r.choice(have) if have and active and not yes else "1"
            self.pcds_used.add(p)
            other = num(self.values.get(p, "1")) == 1 and r.random() < 0.5
            self.put(out, spell(r, "!elseif") + " " + p + (" == 1" if other else " == 2"))
            self.items(out, it[5], active and not yes and other, block)
            yes = yes or other
        if it[6] is not None:
            self.put(out, spell(r, "!else"))
            self.items(out, it[6], active and not yes, block)
        self.put(out, spell(r, "!endif"))

    def heading(self, out, it, active):
        r, sec, scopes = self.r, it[1], it[2]
        if sec == "comps":
            scopes = [s.split(".")[0] for s in scopes]
        name = {"libs": "LibraryClasses", "comps": "Components", "pcds": r.choice(["PcdsFixedAtBuild", "PcdsFeatureFlag", "PcdsDynamicExDefault"]), "defines": "Defines", "build": "BuildOptions",
                "sku": "SkuIds"}[sec]
        if sec in ("defines", "sku"):
            scopes = [""]
        self.put(out, "[" + r.choice([",", ", "]).join(r.choice([name, spell(r, name)]) + ("." + s if s else "") for s in scopes) + r.choice(["]", "]", " ]"]))
        if active:
            self.sec, self.scopes = sec, [s.lower() or "common" for s in scopes]
            # (the lists of lines go by the first scope)
            self.first = scopes[0].upper()

    def register(self, name, value, active):
        if active:
            self.pcds.append(name)
            self.values[name] = value

    def entry(self, out, q, active, block):
        r = self.r
        sec = self.sec
        if sec in ("defines", "build"):
            if sec == "build":
                k, v = q.choice(["MSFT:*_*_*_CC_FLAGS", "GCC:DEBUG_*_IA32_DLINK_FLAGS"]), q.choice(["-Oa -D X=1", "/Gs", "$(A)"])
                text = k
            else:
                k, v = q.choice(VARS[:4] + ["PLATFORM_NAME"]), q.choice(["1", "x", "a=b", "sub/dir", "$(A)y", "$(NO)", "TRUE", "", "Plat/Real.inf", "false", "0x1"])
                if k in self.used or k in self.vars or not v and k == "A" or "$(" + k + ")" in v:
                    return
                text = q.choice(["", "DEFINE ", "DEFINE\t", "DEFINE   ", "EDK_GLOBAL "]) + k
            self.used.add(k)
            self.put(out, text + q.choice([" = ", "=", "\t="]) + v)
            v = self.replaced(v)
            if active:
                self.vars[k] = v
            return
        if sec == "pcds":
            k, v = q.choice(TOKENS), q.choice(["1", "0x1", "TRUE", "FALSE", "x", '"a|b"', "$(A)", "0x10|UINT32|4", "L\"x\"", "{ 0x1 }"])
            if k in self.pcds_used or k in self.values or any(k == p for p in TOKENS[:3]) and not active:
                return
            self.pcd(out, k, v, active, q)
            return
        if sec == "libs":
            c, v = q.choice(CLASSES), q.choice(INFS).replace("@", self.top)
            self.put(out, c + q.choice(["|", " | ", "|\t"]) + v)
            v = self.replaced(v)
            if active:
                self.library(c, v)
                v = self.relative(v)
                for s in self.scopes:
                    xs = self.scoped.setdefault(s + "." + c.lower(), [])
                    self.scoped[s + "." + c.lower()] = [v] + [x for x in xs if x != v]
            return
        if sec == "comps":
            v = q.choice(INFS[:8]).replace("@", self.top)
            at = self.put(out, v + (q.choice([" {", "{", "\t{", "  {"]) if block is not None else ""))
            v = self.replaced(v)
            over = {"NULL": []}
            if active:
                mods, where = (self.six, self.six_at) if self.first == "X64" else (self.three, self.three_at) if self.first == "IA32" else (self.other, None)
                mods.append(v)
                if where is not None:
                    where.append({"file": at[0], "lineno": at[1], "data": v})
                v = self.relative(v)
                for s in self.scopes:
                    for a in self.archs if s == "common" else [s]:
                        self.comps.append((v, a, over))
            if block is not None:
                self.sub = None
                self.items(out, block, active, over)
                self.put(out, "}")
            return
        if sec == "sku":
            self.put(out, q.choice(["0|DEFAULT", "1|Other.inf", "x"]))

    def relative(self, v):
        return v[len(self.top) + 1:] if v.startswith(self.top) else v

    def pcd(self, out, k, v, active, q):
        self.put(out, k + q.choice(["|", " | ", " |"]) + v)
        self.register(k, self.replaced(v), active)

    def library(self, c, v):
        if ".inf" in v.lower():
            self.libs.append(v)
            real = os.path.join(self.top, v)
            self.instances.setdefault(c, []).append(real if os.path.exists(real) else None)

    def block_entry(self, out, q, active, over):
        if self.sub == "LibraryClasses":
            c, v = q.choice(CLASSES), q.choice(INFS).replace("@", self.top)
            at = self.put(out, c + q.choice(["|", " | ", "|\t"]) + v)
            v = self.replaced(v)
            if active:
                self.library(c, v)
                if self.first == "IA32" and ".inf" in v.lower():
                    self.libs_at.append({"file": at[0], "lineno": at[1], "data": v})
                v = self.relative(v)
                if c.upper() == "NULL":
                    over["NULL"].append(v)
                else:
                    over[c.lower()] = v
        elif self.sub and self.sub.startswith("Pcds"):
            k, v = q.choice(TOKENS), q.choice(["1", "0x1", "TRUE", "a.b", "{ 0x1 }", "{0x1, 0x2}"])
            if k in TOKENS[:3]:
                k = q.choice(TOKENS[3:])
            self.pcd(out, k, v, active, q)
        elif self.sub:
            self.put(out, q.choice(["MSFT:*_*_*_CC_FLAGS = /x", "GCC:*_*_*_CC_FLAGS = -DX=1", "*_*_*_*_FLAGS == $(A)"]))


def num(x):
    return {"TRUE": 1, "FALSE": 0}[x] if x in ("TRUE", "FALSE") else int(x, 0)


def random_of(n):
    import random
    return random.Random(n)


def dsc_run(P, E, items, seed, given, top):
    import random
    x = Dsc(random.Random(seed), top, given)
    x.archs = x.r.choice([["IA32", "X64"], ["X64"], ["AARCH64", "X64", "IA32"]])
    for d in ("Plat", "Pkg"):
        os.makedirs(os.path.join(top, d))
    open(os.path.join(top, "Plat/Real.inf"), "w").close()

    def whole(out):
        x.put(out, "[Defines]")
        x.sec = "defines"
        x.put(out, "SUPPORTED_ARCHITECTURES = " + x.r.choice(["|", " | "]).join(x.archs))
        x.items(out, items, True)

    x.file("Plat", "a.dsc", whole, True)
    p = P.DscParser()
    p.SetEdk2Path(E.Edk2Path(top, []))
    p.SetInputVars(given)
    p.ParseFile(os.path.join(top, "Plat/a.dsc"))
    x.vars.setdefault("SUPPORTED_ARCHITECTURES", p.LocalVars.get("SUPPORTED_ARCHITECTURES"))
    return p, x, [("the library classes per scope", p.ScopedLibraryDict, x.scoped), ("the components", p.Components, x.comps), ("the PCDs", (p.Pcds, p.PcdValueDict), (x.pcds, x.values)),
                  ("the X64 modules", (p.SixMods, p.GetModsEnhanced()[len(x.three_at):]), (x.six, x.six_at)), ("the IA32 modules", (p.ThreeMods, p.ThreeModsEnhanced), (x.three, x.three_at)),
                  ("the other modules", p.OtherMods, x.other), ("all modules", p.GetMods(), x.three + x.six + x.other),
                  ("the libraries", (p.GetLibs(), p.GetLibsEnhanced()), (x.libs, x.libs_at)), ("the instances", p.LibraryClassToInstanceDict, x.instances),
                  ("the definitions", p.LocalVars, x.vars), ("the files", p.GetAllDscPaths(), x.paths), ("marked as parsed", p.Parsed, True)]


def dsc_file(vc):
    """A whole DSC file, with the files it includes."""
    P, E = vc.module(PR + "dsc_parser"), vc.module("edk2toollib.uefi.edk2.path_utilities")
    items, seed, given = vc.data("dsc file", g_dsc)
    top = tempfile.mkdtemp(prefix="pyvc23")
    try:
        for what, got, want in dsc_run(P, E, items, seed, given, top)[2]:
            vc.check(got == want, what)
    finally:
        shutil.rmtree(top)


HARNESSES = [
    H("scope", scope, "scopes of a heading", must_reach=["done"], runs=300),
    H("components", components, "components of a DSC file", must_reach=["done"], runs=1),
    H("overrides", overrides, "overrides in the block of a component", must_reach=["done"], runs=1),
    H("before", before, "directives, includes and headings of a DSC file", must_reach=["done"], runs=1),
    H("define", define, "definitions of a DSC file", must_reach=["done"], runs=1),
    H("line", line, "statements of a DSC file", must_reach=["done"], runs=1),
    H("process", process, "lines of a DSC file and of its includes", must_reach=["done"], runs=1),
    H("parts", parts, "parts of a statement of a DSC file", must_reach=["module", "library", "path", "pcd"], runs=200),
    H("passes", passes, "the two passes over a DSC file", must_reach=["done"], runs=1),
    H("conditions", conditions, "PCDs in conditions", must_reach=["done"], runs=1),
    H("libraries", libraries, "library instances of a DSC file per class and scope", must_reach=["done"], runs=1500),
]
