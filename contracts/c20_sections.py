import os
import shutil
import tempfile

from contracts.base import H
from contracts.routes import BLANK, Bins, LogDict, Rec, Router
from pyvc.lists import Indexed, SymList
from pyvc.util import AND, NOT, OR, outcome, scat

ID = "C20"
LEVEL = "proof"
TRUSTED = ["open and readlines give the lines of the file"]
ASSUMPTIONS = ["StripComment and ReplaceVariables by their own contracts (C19): a text without outer blanks, and any text",
               "a section heading stands on a line of its own, and a structured PCD declaration is closed before the next heading, and a variable is defined before it is used"]
EXPLANATION = ("The loops that sort lines into sections are proved with an invariant over a ghost automaton (the section before line i, the number of entries each list has), "
               "for files of any length, any spelling of the headings and any text of the entries. Whole random files cross-check.")
PR = "edk2toollib.uefi.edk2.parsers."


def anycase(vc, name, word):
    """The word in any capitalisation."""
    return scat(*[vc.text("%s.%d" % (name, k), {c.lower(), c.upper()}, 1, 1) if c.lower() != c.upper() else c for k, c in enumerate(word)])


def entry(vc, name, first="", last=""):
    """A text without outer blanks whose first character is not in `first` and whose last one is not in `last`."""
    if vc.bool(name + ".short"):
        return vc.text(name + ".c", BLANK + first + last, 1, 1, neg=True)
    return scat(vc.text(name + ".a", BLANK + first, 1, 1, neg=True), vc.text(name + ".m", "\n", 0, neg=True), vc.text(name + ".z", BLANK + last, 1, 1, neg=True))


class Line:
    vc_ghost = True

    def __init__(self, text):
        self.text = text


DEC = ["", "defines", "libraryclasses", "protocols", "guids", "ppis", "pcd", "includes"]
DEC_LISTS = {2: ("LibraryClasses", "LibraryClassDeclarationEntry"), 3: ("Protocols", "ProtocolDeclarationEntry"), 4: ("Guids", "GuidDeclarationEntry"),
             5: ("PPIs", "PpiDeclarationEntry"), 6: ("Pcds", "PcdDeclarationEntry"), 7: ("IncludePaths", None)}


def dec(vc):
    """Every entry of a DEC file is declared in the list of its section, in order."""
    D = vc.module(PR + "dec_parser")
    if not vc.symbolic:
        return dec_file(vc)
    from pyvc.sym import mkbool
    n = vc.int("lines", 0).z
    import z3
    R = Router(vc, "dec", n, ["sec", "open", "named"], [x for x, _ in DEC_LISTS.values()] + ["Dict"])
    name = vc.text("package name", BLANK + "=", 1, neg=True)
    for k, (attr, cls) in DEC_LISTS.items():
        if cls:
            vc.patch(D, cls, lambda pkg, text, cls=cls: Rec(cls, pkg, text))

    def package(i):
        return name if vc.branch(R.at("named", i) == 1) else None

    def sec(i):
        for k in range(len(DEC) - 1):
            if vc.branch(R.at("sec", i) == k):
                return k
        return len(DEC) - 1

    def line(vc, i):
        k = sec(i)
        kind = vc.choice("kind", ["blank", "heading", "other heading", "entry"])
        if kind == "blank":
            R.step(i)
            return Line("")
        if kind == "heading":
            s = vc.choice("section", range(1, len(DEC)))
            vc.add(R.at("open", i) == 0)
            R.step(i, sec=s)
            return Line(scat(anycase(vc, "heading", "[" + DEC[s]), vc.text("rest", "\n", 0, neg=True), vc.text("end", BLANK, 1, 1, neg=True)))
        if kind == "other heading":
            vc.add(R.at("open", i) == 0)
            R.step(i, sec=0)
            return Line(vc.choice("unknown", ["[UserExtensions.x.\"y\"]", "[", "[Packages]", "[DefineX]"]))
        if k == 0:
            R.step(i)
            return Line(entry(vc, "line", first="["))
        if k == 1:
            how = vc.choice("define", ["none", "one", "name", "two"])
            key = vc.text("key", BLANK + "=[", 1, neg=True)
            val = vc.text("value", BLANK + "=", 1, neg=True)
            gap = vc.choice("gap", ["", " ", "\t "])
            if how == "none":
                R.step(i)
                return Line(key)
            if how == "two":
                R.step(i)
                return Line(scat(key, gap, "=", val, "=", gap, val))
            if how == "one":
                vc.assume(key != "PACKAGE_NAME")
                R.step(i, [("Dict", Rec(key, val))])
            else:
                key = "PACKAGE_NAME"
                if vc.branch(R.at("named", i) == 0):
                    val = name
                R.step(i, [("Dict", Rec(key, val))], named=1)
            return Line(scat(key, gap, "=", gap, val))
        attr, cls = DEC_LISTS[k]
        if k == 6:
            how = vc.choice("pcd", ["close", "single", "opens"])
            if how == "close":
                R.step(i, open=0)
                return Line(scat("}", vc.text("more", BLANK + "[", 0, neg=True)))
            text = scat(vc.text("pcd.a", BLANK + "[}", 1, 1, neg=True), vc.text("pcd.m", "\n", 0, neg=True),
                        "{" if how == "opens" else vc.text("pcd.z", BLANK + "{", 1, 1, neg=True))
            if vc.branch(R.at("open", i) == 1):
                R.step(i)
            else:
                R.step(i, [(attr, Rec(cls, package(i), text))], open=int(how == "opens"))
            return Line(text)
        text = entry(vc, "entry", first="[")
        R.step(i, [(attr, Rec(cls, package(i), text) if cls else text)])
        return Line(text)

    p = D.DecParser()
    p.Dict = LogDict([])
    vc.patch(D.DecParser, "StripComment", lambda self, x: x.text)
    p.Lines = SymList(n, lambda k: None)
    flags = {"InDefinesSection": 1, "InLibraryClassSection": 2, "InProtocolsSection": 3, "InGuidsSection": 4, "InPPISection": 5, "InPcdSection": 6, "InIncludesSection": 7}
    vc.contract(PR + "dec_parser:DecParser._Parse#0", Indexed(
        "lines", lambda vc, i, L: dict({f: mkbool(R.at("sec", i) == k) for f, k in flags.items()}, InStructuredPcdDeclaration=mkbool(R.at("open", i) == 1)), n,
        heap=lambda vc, i, L: [(p, a, R.list(a, i)) for a, _ in DEC_LISTS.values()] + [(p, "Dict", LogDict(R.list("Dict", i))), (p, "PackageName", package(i))],
        elem=line, inv=lambda vc, i: [mkbool(z3.And(R.at("sec", i) >= 0, R.at("sec", i) < len(DEC), R.at("open", i) >= 0, R.at("open", i) <= 1,
                                                    z3.Implies(R.at("open", i) == 1, R.at("sec", i) == 6), R.at("named", i) >= 0, R.at("named", i) <= 1))]))
    p._Parse()
    vc.reach("done")
    vc.check(p.Parsed is True, "marked as parsed")
    from pyvc.lists import same
    for a, _ in DEC_LISTS.values():
        vc.check(same(getattr(p, a), R.list(a, n)), "all entries of " + a)
    vc.check(p.Dict == LogDict(R.list("Dict", n)), "all definitions")


INF = {"defines": 1, "packages": 2, "libraryclasses": 3, "protocols": 4, "ppis": 5, "guids": 6, "pcd": 7, "patchpcd": 7, "fixedpcd": 7, "featurepcd": 7, "sources": 8, "binaries": 9}
INF_LISTS = {2: "PackagesUsed", 3: "LibrariesUsed", 4: "ProtocolsUsed", 5: "PpisUsed", 6: "GuidsUsed", 7: "PcdsUsed", 8: "Sources", 9: "Binaries"}
INF_FLAGS = {"InDefinesSection": 1, "InPackagesSection": 2, "InLibraryClassSection": 3, "InProtocolsSection": 4, "InPpiSection": 5, "InGuidsSection": 6, "InPcdSection": 7,
             "InSourcesSection": 8, "InBinariesSection": 9}
SCOPES = {"LibraryClasses": [""], "libraryclasses.common": ["common"], "LibraryClasses.X64": ["X64"], "LibraryClasses.IA32, LibraryClasses.X64": ["IA32", "X64"],
          "LIBRARYCLASSES.AARCH64.PEIM,LibraryClasses": ["AARCH64", ""], "Sources": [""], "Sources.IA32": ["IA32"], "sources.X64, Sources.ARM": ["X64", "ARM"],
          "SOURCES.common": ["common"], "Sources.EBC.DXE_DRIVER": ["EBC"]}
OTHER = ["Defines", "Packages", "Protocols.X64", "Depex", "UserExtensions.LibraryClasses.x", "UserExtensions.Sources", "BuildOptions"]


class Cell:
    """A value that some lines replace: variable v of the router is 0, or 1 + the last such line."""
    vc_ghost = True

    def __init__(self, R, v, init):
        self.R, self.v, self.init, self.seen, self.now = R, v, init, [], None

    def at(self, i):
        vc = self.R.vc
        z = self.R.at(self.v, i)
        if vc.branch(z == 0):
            return self.init
        if self.now is not None and vc.entails(z == self.now[0]):
            return self.now[1]
        for y, x in self.seen:
            if vc.entails(z == y):
                return x
        self.seen.append((z, Rec("earlier", len(self.seen))))
        return self.seen[-1][1]

    def set(self, i, value):
        """Line i sets it."""
        from pyvc.core import simp
        from pyvc.sym import zint
        self.now = (simp(zint(i) + 1), value)
        return self.now[0]


class Source:
    """The lines of the file, as the two passes read them."""
    vc_ghost = True

    def __init__(self, lines):
        self.lines = lines

    def readlines(self):
        return self.lines

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def padded(vc, text):
    return scat(vc.text("lead", " \t", 0), text, vc.text("trail", " \t", 0))


def gap(vc, name, at_least=0):
    return vc.text(name, " \t", at_least)


class Raw(Line):
    """A line: without its comment, and then with its variables replaced."""

    def __init__(self, vc, resolved, blank=False):
        self.raw = "" if blank else scat(vc.text("raw.a", BLANK + "#", 1, 1, neg=True), vc.text("raw.m", "\n", 0, neg=True), vc.text("raw.z", BLANK, 1, 1, neg=True))
        self.text = resolved


def callees(vc, I):
    """The contracts of StripComment and ReplaceVariables."""
    now = {}

    def strip(self, x):
        now["line"] = x
        return x.raw

    def replace(self, x):
        vc.check(x is now["line"].raw, "the variables of the line without its comment")
        return now["line"].text

    vc.patch(I.InfParser, "StripComment", strip)
    vc.patch(I.InfParser, "ReplaceVariables", replace)


def definition(vc, p):
    name = vc.text("name", BLANK + "=", 1, neg=True)
    value = vc.text("value", BLANK, 1, neg=True)
    return scat("DEFINE", vc.choice("gap0", [" ", "\t"]), gap(vc, "gap1"), name, gap(vc, "gap2"), "=", gap(vc, "gap3"), value), Rec(name, value)


def inf(vc):
    """Every entry of an INF file is listed for its section, in order; definitions and the library class are recorded."""
    I = vc.module(PR + "inf_parser")
    if not vc.symbolic:
        return inf_file(vc)
    import z3
    from pyvc.lists import same
    from pyvc.sym import mkbool
    n = vc.int("lines", 0).z
    R = Router(vc, "inf", n, ["sec", "lib"], list(INF_LISTS.values()) + ["Dict", "LocalVars"])
    lib, phases = Cell(R, "lib", ""), Cell(R, "lib", [])
    callees(vc, I)

    def sec(i):
        for k in range(9):
            if vc.branch(R.at("sec", i) == k):
                return k
        return 9

    def line(vc, i):
        kind = vc.choice("kind", ["no text", "blank", "heading", "other heading", "define", "entry"])
        if kind == "no text":
            R.step(i)
            return Raw(vc, "", True)
        if kind == "blank":
            R.step(i)
            return Raw(vc, gap(vc, "blank"))
        if kind == "heading":
            h = vc.choice("section", sorted(INF))
            R.step(i, sec=INF[h])
            return Raw(vc, padded(vc, scat(anycase(vc, "heading", "[" + h), vc.text("rest", "\n", 0, neg=True), vc.text("end", BLANK, 1, 1, neg=True))))
        if kind == "other heading":
            R.step(i, sec=0)
            return Raw(vc, padded(vc, vc.choice("unknown", ["[UserExtensions.x.\"y\"]", "[Depex]", "[BuildOptions]", "[DEFINE"])))
        if kind == "define":
            text, rec = definition(vc, p)
            R.step(i, [("LocalVars", rec)])
            return Raw(vc, padded(vc, text))
        k = sec(i)
        # an entry: not a heading, and its first word is not DEFINE
        first = vc.choice("first", ["D", "other", "defined"])
        start = {"D": "D", "other": vc.text("first", BLANK + "[D|=", 1, 1, neg=True), "defined": "DEFINE"}[first]
        body = scat(start, vc.text("char", BLANK + "[|=E", 1, 1, neg=True), vc.text("body", BLANK + "|=", 0, neg=True)) if first != "other" else \
            scat(start, vc.text("body", BLANK + "|=", 0, neg=True))
        if k == 0:
            R.step(i)
            return Raw(vc, padded(vc, body))
        if k == 1:
            how = vc.choice("define", ["none", "one", "class", "two"])
            val = vc.text("val", BLANK + "=|", 1, neg=True)
            if how == "none":
                R.step(i)
                return Raw(vc, padded(vc, body))
            if how == "two":
                R.step(i)
                return Raw(vc, padded(vc, scat(body, gap(vc, "g1"), "=", val, "=", gap(vc, "g2"), val)))
            if how == "one":
                vc.assume(body.lower() != "library_class")
                R.step(i, [("Dict", Rec(body, val))])
                return Raw(vc, padded(vc, scat(body, gap(vc, "g1"), "=", gap(vc, "g2"), val)))
            key = anycase(vc, "key", "library_class")
            which = vc.choice("phases", ["none", "empty", "base", "one", "two"])
            w = [vc.text("phase%d" % j, BLANK + "=|", 1, neg=True) for j in range(2)]
            if which in ("none", "empty"):
                tail, want = "" if which == "none" else "|", I.AllPhases
            elif which == "base":
                tail, want = scat("|", gap(vc, "g3"), anycase(vc, "base", "base")), I.AllPhases
            elif which == "one":
                vc.assume(w[0].lower() != "base")
                tail, want = scat("|", gap(vc, "g3"), w[0]), [w[0]]
            else:
                tail, want = scat("|", gap(vc, "g3"), w[0], gap(vc, "g4", 1), w[1]), w
            at = lib.set(i, val)
            phases.set(i, want)
            g5 = gap(vc, "g5") if tail != "" else ""
            R.step(i, [("Dict", Rec(key, scat(val, g5, tail)))], lib=at)
            return Raw(vc, padded(vc, scat(key, gap(vc, "g1"), "=", gap(vc, "g2"), val, g5, tail)))
        R.step(i, [(INF_LISTS[k], body)])
        tail = vc.choice("tail", ["none", "empty", "flag"])
        if tail == "none":
            return Raw(vc, padded(vc, body))
        return Raw(vc, padded(vc, scat(body, gap(vc, "g1"), "|", "" if tail == "empty" else scat(vc.text("flag", "\n", 0, neg=True), vc.text("flag.z", BLANK, 1, 1, neg=True)))))

    p = I.InfParser()
    p.Dict, p.LocalVars = LogDict([]), LogDict([])
    lines = SymList(n, lambda k: None)
    vc.patch(I, "open", lambda *a, **k: Source(lines))
    key = PR + "inf_parser:InfParser.ParseFile#"

    def heap(vc, i, L):
        return [(p, a, R.list(a, i)) for a in INF_LISTS.values()] + [(p, a, LogDict(R.list(a, i))) for a in ("Dict", "LocalVars")] + \
            [(p, "LibraryClass", lib.at(i)), (p, "SupportedPhases", phases.at(i))]

    class Rest(Exception):
        pass

    class Cut:
        """The second pass has its own harness."""

        def entry(self, *a):
            raise Rest

    vc.contract(key + "0", Indexed("lines", lambda vc, i, L: {f: mkbool(R.at("sec", i) == k) for f, k in INF_FLAGS.items()}, n, heap=heap, elem=line,
                                   inv=lambda vc, i: [mkbool(z3.And(R.at("sec", i) >= 0, R.at("sec", i) <= 9, R.at("lib", i) >= 0, R.at("lib", i) <= i.z if hasattr(i, "z") else R.at("lib", i) == 0))]))
    vc.contract(key + "1", Cut())
    try:
        p.ParseFile("/x/y.inf")
        vc.check(False, "both passes run")
    except Rest:
        pass
    vc.reach("done")
    for a in INF_LISTS.values():
        vc.check(same(getattr(p, a), R.list(a, n)), "all entries of " + a)
    vc.check(AND(p.Dict == LogDict(R.list("Dict", n)), p.LocalVars == LogDict(R.list("LocalVars", n))), "all definitions")


HEADS = [("", [])] + [("LibraryClasses" if "lib" in h.lower() else "Sources", a) for h, a in SCOPES.items()] + [(h, []) for h in OTHER]
HEADINGS = [""] + list(SCOPES) + OTHER


def scoped(vc):
    """Every library and source of an INF file is recorded for each architecture its section is for."""
    I = vc.module(PR + "inf_parser")
    if not vc.symbolic:
        return inf_file(vc)
    import z3
    from pyvc.sym import mkbool
    n = vc.int("lines", 0).z
    R = Router(vc, "inf", n, ["head"], ["libs", "sources", "LocalVars"])
    callees(vc, I)
    known = [z3.Function("lib there", z3.StringSort(), z3.IntSort(), z3.BoolSort()), z3.Function("source there", z3.StringSort(), z3.IntSort(), z3.BoolSort())]

    def head(i):
        for k in range(len(HEADS) - 1):
            if vc.branch(R.at("head", i) == k):
                return k
        return len(HEADS) - 1

    def line(vc, i):
        kind = vc.choice("kind", ["no text", "blank", "heading", "define", "entry"])
        if kind == "no text":
            R.step(i)
            return Raw(vc, "", True)
        if kind == "blank":
            R.step(i)
            return Raw(vc, gap(vc, "blank"))
        if kind == "heading":
            h = vc.choice("heading", range(1, len(HEADS)))
            R.step(i, head=h)
            return Raw(vc, padded(vc, "[" + HEADINGS[h] + "]"))
        if kind == "define":
            text, rec = definition(vc, p)
            R.step(i, [("LocalVars", rec)])
            return Raw(vc, padded(vc, text))
        first = vc.choice("first", ["D", "other", "defined"])
        start = {"D": "D", "other": vc.text("first", BLANK + "[D|", 1, 1, neg=True), "defined": "DEFINE"}[first]
        body = scat(start, vc.text("char", BLANK + "[|E", 1, 1, neg=True), vc.text("body", BLANK + "|", 0, neg=True)) if first != "other" else \
            scat(start, vc.text("body", BLANK + "|", 0, neg=True))
        k = head(i)
        section, archs = HEADS[k]
        bin = {"LibraryClasses": "libs", "Sources": "sources"}.get(section)
        R.step(i, [(bin, Rec(a.lower() or "common", body)) for a in archs] if bin else [])
        tail = vc.choice("tail", ["none", "empty", "flag"])
        if tail == "none":
            return Raw(vc, padded(vc, body))
        return Raw(vc, padded(vc, scat(body, gap(vc, "g1"), "|", "" if tail == "empty" else scat(vc.text("flag", "\n", 0, neg=True), vc.text("flag.z", BLANK, 1, 1, neg=True)))))

    def bins(which, i):
        f = known[which]
        from pyvc.sym import zint
        z = zint(i)
        return Bins(R.list(("libs", "sources")[which], i), lambda k: vc.branch(f(z3.StringVal(k), z)))

    p = I.InfParser()
    p.LocalVars = LogDict([])
    p.ScopedLibraryDict, p.ScopedSourceDict = Bins([], lambda k: False), Bins([], lambda k: False)
    lines = SymList(n, lambda k: None)
    vc.patch(I, "open", lambda *a, **k: Source(lines))
    key = PR + "inf_parser:InfParser.ParseFile#"
    # the first pass has its own harness: here it changes nothing the second one reads, except the variables
    vc.contract(key + "0", Indexed("first pass", lambda vc, i, L: {}, 0))
    vc.contract(key + "1", Indexed("lines", lambda vc, i, L: (lambda h: {"current_section": h[0], "arch_list": h[1]})(HEADS[head(i)]), n,
                                   heap=lambda vc, i, L: [(p, "LocalVars", LogDict(R.list("LocalVars", i))), (p, "ScopedLibraryDict", bins(0, i)), (p, "ScopedSourceDict", bins(1, i))],
                                   elem=line, inv=lambda vc, i: [mkbool(z3.And(R.at("head", i) >= 0, R.at("head", i) < len(HEADS)))]))
    p.ParseFile("/x/y.inf")
    vc.reach("done")
    vc.check(p.Parsed is True, "marked as parsed")
    vc.check(AND(p.ScopedLibraryDict == bins(0, n), p.ScopedSourceDict == bins(1, n)), "all libraries and sources")


def entries(vc):
    """One declaration of a DEC file: its name, its path or GUID, its package."""
    D = vc.module(PR + "dec_parser")
    gen = lambda r: r.choice(["Foo", "x y", "gFooGuid"])  # noqa: E731
    name = scat(vc.text("name.a", BLANK + "|=", 1, 1, neg=True, gen=lambda r: "g"), vc.text("name.b", BLANK + "|=", 0, neg=True, gen=gen))
    rest = scat(vc.text("rest.a", BLANK + "|=", 1, 1, neg=True, gen=lambda r: "I"), vc.text("rest.b", BLANK, 0, neg=True, gen=lambda r: r.choice(["nclude/A.h", "a|b", "x=y"])))
    g = [vc.text("gap%d" % k, " \t", 0, gen=lambda r: r.choice(["", " ", "\t "])) for k in range(4)]
    if vc.bool("library class"):
        e = D.LibraryClassDeclarationEntry("pkg", scat(g[0], name, g[1], "|", g[2], rest, g[3]))
        vc.reach("library")
        vc.check(AND(e.name == name, e.path == rest, e.package_name == "pkg"), "name and path")
        return
    cls = vc.choice("class", ["ProtocolDeclarationEntry", "PpiDeclarationEntry", "GuidDeclarationEntry"])
    good = vc.bool("a GUID")
    if vc.symbolic:
        import uuid
        want = uuid.UUID(int=5) if good else None

        def parse(text):
            vc.check(text == rest, "the text behind the first equals sign")
            return want
        vc.patch(D.GuidParser, "uuid_from_guidstring", staticmethod(parse))
        text = rest
    else:
        import uuid
        want = uuid.UUID(int=vc.int("guid", 0, (1 << 128) - 1))
        text = str(want).upper() if good else rest
    ok, e = outcome(getattr(D, cls), "pkg", scat(g[0], name, g[1], "=", g[2], text, g[3]))
    vc.check(ok == good, "refused exactly if it is no GUID")
    if ok:
        vc.reach("guid")
        vc.check(AND(e.name == name, e.guidstring == text, e.guid == want, e.package_name == "pkg"), "name and GUID")
        vc.check(e.type == {"Pr": e.PROTOCOL, "Pp": e.PPI, "Gu": e.GUID}[cls[:2]], "the kind of declaration")


# ---------------------------------------------------------------- whole files

def spell(r, w):
    return "".join(r.choice([c.lower(), c.upper()]) for c in w) if r.random() < 0.3 else r.choice([w, w.upper(), w.lower(), w.capitalize()])


def layout(r, text):
    """One line with blanks and a comment."""
    t = r.choice(["", "  ", "\t"]) + text + r.choice(["", "", " ", "\t"])
    return t + r.choice(["", "", "", " # note", "# [Guids]", " ## it's = a|b {", "#"])


def noise(r):
    return r.choice(["", "", "   ", "# [Defines]", "  ## x = y", "#", "\t"])


NAMED = {"defines": "Defines", "libraryclasses": "LibraryClasses", "protocols": "Protocols", "guids": "Guids", "ppis": "Ppis", "includes": "Includes",
         "packages": "Packages", "sources": "Sources", "binaries": "Binaries"}
ARCH = ["X64", "IA32", "common", "AARCH64", "x64", "ia32", "EBC", "ARM", "RISCV64", "LOONGARCH64", "Common", "PPC"]


def g_head(r, section, scopes=True):
    """A heading: its text and its architectures."""
    name = {"pcd": r.choice(["PcdsFixedAtBuild", "PcdsFeatureFlag", "PcdsDynamicEx"]), "pcd2": r.choice(["Pcd", "FixedPcd", "FeaturePcd", "PatchPcd", "PcdEx"])}.get(section) or \
        r.choice([NAMED[section], spell(r, section)])
    if not scopes or r.random() < 0.5:
        return "[" + name + "]", [""]
    archs = [r.choice(ARCH) for _ in range(r.choice([1, 1, 2, 3]))]
    return "[" + r.choice([", ", ","]).join(name + "." + a + r.choice(["", "", ".PEIM"] if section == "libraryclasses" else [""]) for a in archs) + "]", archs


def g_guid(r):
    return "%08x-%04x-%04x-%04x-%012x" % (r.getrandbits(32), r.getrandbits(16), r.getrandbits(16), r.getrandbits(16), r.getrandbits(48))


def g_dec(r):
    out = []
    for _ in range(r.randint(1, 7)):
        sec = r.choice(["defines", "libraryclasses", "protocols", "guids", "ppis", "includes", "pcd", "pcd", "unknown", "none"])
        entries = []
        for _ in range(r.randint(0, 4)):
            word = r.choice(["Abc", "gDefines", "x_1", "Pcd", "Guids"])
            if sec == "defines":
                entries.append(r.choice([["PACKAGE_NAME", r.choice(["P1", "P2"])], ["K" + word, "1.0"], ["K", ""]]))
            elif sec in ("protocols", "guids", "ppis"):
                entries.append([word, g_guid(r)])
            elif sec == "pcd":
                v = r.choice(["0x1", "TRUE", '"a|b"', "L'x|y'", '"it\'s|z"', "{ 0x1 }", "{0x1,{ 0x2}}", "1.5", "$(X)", "0x1 }", '"{"', "a=b", "[0]", "{0x1, 0x2}", '"a#b"'])
                if r.random() < 0.25:
                    entries.append(["field", "gTok" + word, "Pcd" + word + ".Field" + r.choice(["", "[0]", ".x"]), v])
                else:
                    entries.append([r.choice(["plain", "plain", "struct"]), "gTok" + word, "Pcd" + word, v, r.choice(["UINT8", "VOID*", "BOOLEAN"]), "0x%08x" % r.getrandbits(32)])
            else:
                entries.append([word, r.choice(["Include/A.h", "a b.h", "Include"])])
        out.append([sec, g_head(r, sec)[0] if sec not in ("unknown", "none") else "[UserExtensions.guids]", entries])
    return [out, r.getrandbits(32)]


def c_guid(r, g):
    h = g.replace("-", "")
    n = [h[:8], h[8:12], h[12:16]] + [h[16 + 2 * k:18 + 2 * k] for k in range(8)]
    n = ["0x" + spell(r, x) for x in n]
    return "{ " + ", ".join(n[:3]) + ", {" + ", ".join(n[3:]) + r.choice(["}}", " } }"])


def dec_file(vc):
    """A whole DEC file."""
    import io
    import random
    import uuid
    D = vc.module(PR + "dec_parser")
    secs, seed = vc.data("file", g_dec)
    r = random.Random(seed)
    text, pkg = [], None
    want = {k: [] for k in ("lib", "protocols", "guids", "ppis", "includes", "pcd")}
    defs = {}
    for n, (sec, head, entries) in enumerate(secs):
        if sec == "none" and n:
            continue
        text += [noise(r) for _ in range(r.randint(0, 2))]
        if sec != "none":
            text.append(layout(r, head))
        for e in entries:
            if r.random() < 0.2:
                text.append(noise(r))
            if sec == "defines":
                text.append(layout(r, e[0] + r.choice(["=", " = "]) + e[1]))
                defs[e[0]] = e[1]
                if e[0] == "PACKAGE_NAME" and pkg is None:
                    pkg = e[1]
            elif sec == "libraryclasses":
                text.append(layout(r, r.choice(["|", " | "]).join(e)))
                want["lib"].append((e[0], e[1], pkg))
            elif sec in ("protocols", "guids", "ppis"):
                text.append(layout(r, e[0] + r.choice([" = ", "="]) + c_guid(r, e[1])))
                want[sec].append((e[0], uuid.UUID(e[1]), pkg))
            elif sec == "includes":
                text.append(layout(r, e[1]))
                want["includes"].append(e[1])
            elif sec == "pcd":
                bar = r.choice(["|", " | ", "  |"])
                text.append(layout(r, e[1] + "." + bar.join(e[2:]) + ((r.choice([" {", bar + "{", "{"]) if len(e) > 4 else " {") if e[0] == "struct" else "")))
                if e[0] == "struct":
                    text += [layout(r, x) for x in ["<HeaderFiles>", "a.h", "<Packages>", "b.dec", "}"]]
                want["pcd"].append((e[1], e[2], e[3], e[4] if len(e) > 4 else "STRUCTURED_PCD", e[5] if len(e) > 5 else "STRUCTURED_PCD", pkg))
            else:
                text.append(layout(r, e[0]))
    p = D.DecParser()
    p.ParseStream(io.StringIO("".join(t + "\n" for t in text)))
    vc.check([(x.name, x.path, x.package_name) for x in p.LibraryClasses] == want["lib"], "the library classes")
    for k, xs in (("protocols", p.Protocols), ("guids", p.Guids), ("ppis", p.PPIs)):
        vc.check([(x.name, x.guid, x.package_name) for x in xs] == want[k], "the " + k)
    vc.check([(x.token_space_name, x.name, x.default_value, x.type, x.id, x.package_name) for x in p.Pcds] == want["pcd"], "the PCDs")
    vc.check(p.IncludePaths == want["includes"] and p.Dict == defs and p.PackageName == pkg and p.Parsed, "the include paths and definitions")


def g_inf(r):
    out, known = [], set()
    for _ in range(r.randint(1, 7)):
        sec = r.choice(["defines", "libraryclasses", "libraryclasses", "sources", "sources", "protocols", "guids", "ppis", "packages", "binaries", "pcd2", "unknown"])
        entries = []
        for _ in range(r.randint(0, 4)):
            if r.random() < 0.2:
                entries.append(["DEFINE", r.choice(["A", "MY_DEFINE", "B"]), r.choice(["x", "", "sub/dir", "DEFINED", "a=b", "$(A)/y"])])
            elif sec == "defines":
                entries.append(r.choice([["BASE_NAME", "Foo"], ["K", "v"], ["LIBRARY_CLASS", "MyLib"], ["library_class", "MyLib|" + r.choice(["PEIM DXE_DRIVER", "PEIM  DXE_DRIVER", "SEC\tPEIM", "  SEC", "base", "Base", "BASED"])], ["LIBRARY_CLASS", "L2 | BASE"],
                                         ["LIBRARY_CLASS", "L3|SEC"]]))
            else:
                entries.append([r.choice(["Foo.c", "Resources.c", "LibraryClasses.h", "X64/Sources.nasm", "BaseLib", "gTok.PcdX", "DEFINED_X", "$(A)/f.c", "{a}", "<x>", "a.inf", "Sources", "Sources.X64]", "libraryclasses.X64,", "a[1].c", "DEFINEX", "define x", "$(MY_DEFINE)", "$(B)Sources.c", "$(NO)x",
                                          "Pkg/Pkg.dec"]), r.choice([None, None, "GCC", "", " ## CONSUMES", "a|b"])])
        ok = []
        for e in entries:
            # a variable is used after its definition
            if all("$(" + v + ")" not in e[-1 if e[0] == "DEFINE" else 0] or v in known for v in ("A", "B", "MY_DEFINE")):
                ok.append(e)
                if e[0] == "DEFINE":
                    known.add(e[1])
        entries = ok
        out.append([sec, *(g_head(r, sec) if sec != "unknown" else (r.choice(["[Depex]", "[UserExtensions.Sources.x]", "[UserExtensions.Sources]", "[UserExtensions.LibraryClasses]", "[BuildOptions.X64]"]), [])), entries])
    return [out, r.getrandbits(32), [r.choice(ARCH) for _ in range(r.randint(0, 2))]]


def expand(text, vars):
    """The text with known variables replaced."""
    for k, v in vars.items():
        text = text.replace("$(" + k + ")", v)
    return text


def inf_file(vc):
    """A whole INF file."""
    import random
    I = vc.module(PR + "inf_parser")
    secs, seed, ask = vc.data("file", g_inf)
    r = random.Random(seed)
    lists = {"packages": "PackagesUsed", "libraryclasses": "LibrariesUsed", "protocols": "ProtocolsUsed", "ppis": "PpisUsed", "guids": "GuidsUsed", "pcd2": "PcdsUsed",
             "sources": "Sources", "binaries": "Binaries"}
    want = {k: [] for k in lists}
    scopes = {"libraryclasses": {}, "sources": {}}
    vars, defs, lib, phases = {}, {}, "", []
    text = []
    for sec, head, archs, entries in secs:
        text += [noise(r) for _ in range(r.randint(0, 2))]
        text.append(layout(r, head))
        for e in entries:
            if e[0] == "DEFINE":
                text.append(layout(r, "DEFINE" + r.choice([" ", "\t", "  "]) + e[1] + r.choice([" = ", "="]) + e[2]))
                vars[e[1]] = expand(e[2], {k: v for k, v in vars.items() if k != e[1]} if "$(" + e[1] + ")" not in e[2] else vars)
                continue
            if sec == "defines":
                text.append(layout(r, e[0] + r.choice([" = ", "="]) + e[1]))
                defs[e[0]] = e[1]
                if e[0].lower() == "library_class":
                    lib, _, ph = (x.strip() for x in e[1].partition("|"))
                    phases = I.AllPhases if ph.upper() in ("", "BASE") else ph.split()
                continue
            text.append(layout(r, e[0] + ("" if e[1] is None else r.choice(["|", " | "]) + e[1])))
            name = expand(e[0], vars)
            if sec in want and (name or e[1] is not None):
                want[sec].append(name)
                for a in archs if sec in scopes else []:
                    scopes[sec].setdefault((a or "common").lower(), []).append(name)
    top = tempfile.mkdtemp(prefix="pyvc20")
    try:
        path = os.path.join(top, "a.inf")
        with open(path, "w") as f:
            f.write("".join(t + "\n" for t in text))
        p = I.InfParser()
        p.ParseFile(path)
    finally:
        shutil.rmtree(top)
    for k, a in lists.items():
        vc.check(getattr(p, a) == want[k], "the entries of " + a)
    vc.check(p.Dict == defs and p.LibraryClass == lib and p.SupportedPhases == phases and p.Parsed, "the definitions")
    vc.check(p.ScopedLibraryDict == scopes["libraryclasses"] and p.ScopedSourceDict == scopes["sources"], "the libraries and sources per architecture")
    for get, m in ((p.get_libraries, scopes["libraryclasses"]), (p.get_sources, scopes["sources"])):
        vc.check(sorted(get(ask)) == sorted({x for a in ["common"] + ask for x in m.get(a.lower(), [])}), "those for some architectures")


HARNESSES = [
    H("scoped", scoped, "libraries and sources per architecture of an INF file", must_reach=["done"], runs=3000),
    H("inf", inf, "sections of an INF file", must_reach=["done"], runs=3000),
    H("entries", entries, "declarations of a DEC file", must_reach=["library", "guid"], runs=200),
    H("dec", dec, "sections of a DEC file", must_reach=["done"], runs=3000),
]
