import datetime
import os
import shutil
import tempfile

import z3

from contracts.base import H
from contracts.c20_sections import Source, anycase, gap
from contracts.c27_inf import Ghost
from contracts.routes import BLANK, LogDict, Rec, Router
from pyvc.core import Unsupported
from pyvc.lists import Indexed, SymList, same
from pyvc.util import AND, NOT, OR, outcome, scat

ID = "C31"
LEVEL = "proof"
TRUSTED = ["open, read and readlines give the text of the file; int, datetime.strptime and os.path.normpath of a text", "os.walk descends exactly into the folders that are left in its list"]
ASSUMPTIONS = ["StripComment by its own contract (C19); the DEC and INF parsers by theirs (C18, C20); what a gitignore rule matches is not specified", "an override line has at most six fields"]
EXPLANATION = ("The loops over the lines of a file, the override lines, the declared GUIDs and the folders, subfolders and files below a root are proved with invariants for any number of them and texts of any content. "
               "Random files and trees through the real parsers cross-check.")
OV, TG, GL = "edk2toollib.uefi.edk2.parsers.override_parser", "edk2toollib.uefi.edk2.parsers.targettxt_parser", "edk2toollib.uefi.edk2.guid_list"
FORMAT = "%Y-%m-%dT%H-%M-%S"


def padded(vc, name, text):
    return scat(vc.text(name + " lead", " \t", 0), text, vc.text(name + " trail", " \t", 0))


def body(vc, name, bad=""):
    """A text without outer blanks and without the bad characters, not empty."""
    if vc.bool(name + " short"):
        return vc.text(name + ".c", BLANK + bad, 1, 1, neg=True)
    return scat(vc.text(name + ".a", BLANK + bad, 1, 1, neg=True), vc.text(name + ".m", "\n" + bad, 0, neg=True), vc.text(name + ".z", BLANK + bad, 1, 1, neg=True))


# ---------------------------------------------------------------- overrides

class Times:
    """datetime: reads a time in the given format, or not."""
    vc_ghost = True

    def __init__(self, vc, text, good):
        self.vc, self.text, self.good, self.result = vc, text, good, Rec("time")
        self.datetime = self

    def strptime(self, text, fmt):
        self.vc.check(fmt == FORMAT, "the format of the time")
        self.vc.check(text == self.text, "the time is the last field")
        if not self.good:
            raise ValueError(text)
        return self.result


class Paths(Ghost):
    """os: the normal form of a path."""
    vc_ghost = True

    def __init__(self, vc, text):
        self.vc, self.text, self.result = vc, text, Rec("path")
        self.path = self

    def normpath(self, text):
        self.vc.check(text == self.text, "the path is the second field")
        return self.result


def override(vc):
    """The fields of one override line."""
    M = vc.module(OV)
    if not vc.symbolic:
        return override_text(vc)
    heading = scat("#", anycase(vc, "heading", "override"), vc.text("more", "\n:", 0, neg=True))
    colon = vc.bool("colon")
    n = vc.choice("fields", [1, 2, 3, 4, 5, 6])
    version = body(vc, "version", "|")
    fields = [version] + [vc.choice("empty %d" % k, [True, False]) and "" or body(vc, "field %d" % k, "|") for k in range(1, min(n, 4))] + ["x"] * (n - 4)
    number = vc.choice("number", ["none", "some"])
    v = vc.int("version number")
    good = vc.bool("time is valid")

    def integer(t, base=10):
        vc.check(t == (version if colon else ""), "the version is the first field")
        if number == "none" or not colon:
            raise ValueError(t)
        return v
    vc.patch(M, "int", integer)
    times = Times(vc, fields[3] if n > 3 else "", good)
    paths = Paths(vc, fields[1] if n > 1 else "")
    vc.patch(M, "datetime", times)
    vc.patch(M, "os", paths)
    line = heading
    if colon:
        for k, f in enumerate(fields):
            line = scat(line, "|" if k else ":", padded(vc, "pad %d" % k, f) if k < 4 else f)
    else:
        n = 0
    ok, r = outcome(M.OverrideParser.parse_override_line, line)
    valid = AND(number == "some", v == 1) if n == 4 else False
    if ok:
        vc.check(valid, "version 1, of four fields")
        vc.check(good, "the time is valid")
        vc.check(r == {"version": v, "original_path": paths.result, "current_hash": fields[2], "datetime": times.result}, "each field says what it says")
        vc.reach("read")
    else:
        vc.check(isinstance(r, M.OpParseError), "the error of a malformed line")
        if r.type == "DATE":
            vc.check(not good, "the time is not valid")
            vc.reach("time")
        else:
            vc.check(r.type == "VERSION", "the field at fault")
            vc.check(NOT(valid), "the version or number of fields is wrong")
            vc.reach("version")


class Text(Ghost):
    """A text of any number of lines."""
    vc_ghost = True

    def __init__(self, vc, lines):
        self.vc, self.lines = vc, lines

    def __bool__(self):
        return True

    def split(self, sep=None):
        self.vc.check(sep == "\n", "lines end with a newline")
        return self.lines


def overrides(vc):
    """The override lines of a text, and what is made of them."""
    M = vc.module(OV)
    if not vc.symbolic:
        return override_text(vc)
    n = vc.int("lines", 1).z
    R = Router(vc, "overrides", n, [], ["found"])

    def line(vc, i):
        kind = vc.choice("kind", ["override", "other", "blank", "part"])
        if kind == "blank":
            R.step(i)
            return vc.text("blank", BLANK.replace("\n", ""), 0)
        if kind == "override":
            t = scat("#", anycase(vc, "heading", "override"), vc.text("rest", "\n", 0, neg=True), vc.text("end", BLANK, 1, 1, neg=True))
            R.step(i, [("found", {"lineno": i + 1, "line": t})])
        else:
            if kind == "other":
                t = body(vc, "other", "#")
            else:
                word = "#override"
                k = vc.choice("same", range(1, len(word)))
                t = scat(anycase(vc, "part", word[:k]), vc.text("differs", {chr(x) for x in range(33, 127)} - {word[k], word[k].upper()}, 1, 1), vc.text("rest", "\n", 0, neg=True), vc.text("end", BLANK, 1, 1, neg=True))
            R.step(i)
        return scat(vc.text("lead", " \t\r", 0), t, vc.text("trail", " \t\r", 0))
    lines = SymList(n, Once(vc, line))
    vc.contract(OV + ":OverrideParser.get_override_lines#0", Indexed("lines", lambda vc, i, L: {"result": R.list("found", i)}, n))
    r = M.OverrideParser.get_override_lines(Text(vc, lines))
    vc.check(same(r, R.list("found", n)), "the override lines, by their numbers")
    vc.reach("done")


class Once:
    """An element, made when it is first read."""

    def __init__(self, vc, make):
        self.vc, self.make, self.seen = vc, make, []

    def __call__(self, k):
        from pyvc.sym import mkint, zint
        for j, x in self.seen:
            if j is k or self.vc.entails(zint(k) == zint(j)):
                return x
        x = self.make(self.vc, mkint(k))
        self.seen.append((k, x))
        return x


def parser(vc):
    """A parser of a file or text: all its overrides, or an error."""
    M = vc.module(OV)
    if not vc.symbolic:
        return override_text(vc)
    n = vc.int("override lines", 0).z
    R = Router(vc, "read", n, [], ["read"])
    from pyvc.sym import mkint
    given = vc.choice("given", ["neither", "both", "path", "text"])
    there, empty = vc.bool("the file is there"), vc.bool("there is no text")
    content = "" if empty else Rec("content")
    bad = {}
    path = Rec("path")

    class Os(Ghost):
        vc_ghost = True

        def isfile(self, p):
            vc.check(p is path, "the file asked for")
            return there

        def abspath(self, p):
            return p

    class Content:
        vc_ghost = True

        def read(self):
            return content

        def close(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass
    os_ = Os()
    os_.path = os_
    vc.patch(M, "os", os_)

    def opened(p, *a, **k):
        vc.check(p is path and there, "the file asked for is read")
        return Content()
    vc.patch(M, "open", opened)

    def line(k):
        t = Rec("line", k)
        if vc.bool("malformed"):
            bad["x"] = True
        R.step(k, [("read", Rec("override", k))])
        return {"lineno": k + 1, "line": t}

    def parse(x):
        vc.check(isinstance(x, Rec) and x.vals[0] == "line", "the text of the line")
        if bad:
            raise M.OpParseError(vc.choice("fault", ["VERSION", "PATH", "HASH", "DATE"]))
        return Rec("override", x.vals[1])
    found = SymList(n, Once(vc, lambda vc, k: line(k)))
    vc.patch(M.OverrideParser, "get_override_lines", staticmethod(lambda t: (vc.check(t is content, "the lines of the whole text"), found)[1]))
    vc.patch(M.OverrideParser, "parse_override_line", staticmethod(parse))
    p = object.__new__(M.OverrideParser)
    vc.contract(OV + ":OverrideParser.__init__#0", Indexed("override lines", lambda vc, i, L: {}, n, heap=lambda vc, i, L: [(p, "overrides", R.list("read", i))]))
    ok, r = outcome(p.__init__, *[path if given in ("path", "both") else None, content if given in ("text", "both") else None])
    fine = given in ("path", "text") and (given == "text" or there) and not empty
    if ok:
        vc.check(fine and not bad, "one of the two was given, is there and is not empty, and no line is malformed")
        vc.check(mkint(n) > 0, "there are overrides")
        vc.check(p.override_lines is found and same(p.overrides, R.list("read", n)), "all overrides, in order")
        vc.reach("read")
    else:
        vc.check(isinstance(r, ValueError), "an error of the value")
        if fine:
            vc.check(OR(bool(bad), mkint(n) == 0), "a line is malformed, or there is none")
            vc.reach("refused")


def override_text(vc):
    """Random texts, from a file or not."""
    M = vc.module(OV)
    lines, want, bad = [], [], False
    for j in range(vc.int("lines", 0, 5)):
        c = lambda name, xs: vc.choice("%s%d" % (name, j), xs)  # noqa: E731
        kind = c("kind", ["override", "override", "text", "malformed", "malformed"]) if j else c("kind", ["override", "override", "text", "malformed"])
        head = c("head", ["#Override", "#OVERRIDE ", "  #override", "\t#OvErRiDe note"])
        ver = c("version", ["00000001", "1", " 01 "])
        path = c("path", ["A/B.inf", "a/../b//c.inf", "C:/x/y.inf", "\\\\srv\\x.inf", "Pkg/My File.inf"])
        h = c("hash", ["4e367990b327501d1ea6fbee4002f9c8", "sha1:4E36", "x"])
        y, mo, d, hh, mi, ss = [vc.int("%s%d" % (nm, j), lo, hi) for nm, lo, hi in (("y", 1, 9999), ("mo", 1, 12), ("d", 1, 28), ("hh", 0, 23), ("mi", 0, 59), ("ss", 0, 59))]
        t = "%04d-%02d-%02dT%02d-%02d-%02d" % (y, mo, d, hh, mi, ss)
        sp = c("space", ["", " ", "\t "])
        if kind == "text":
            lines.append(c("text", ["", "# OVERRIDE : 1", "#OVERRID", "x #OVERRIDE : 1 | a | b | c", "[Defines]"]))
            continue
        fields = [ver, path, h, t]
        tail = ""
        if kind == "malformed":
            how = c("how", ["version", "text", "count", "more", "date", "colon"])
            if how == "version":
                fields[0] = c("bad version", ["2", "0", "10", "-1"])
            elif how == "text":
                fields[0] = c("bad text", ["", "x", "1.0", "0x1"])
            elif how == "count":
                fields = fields[:vc.int("count%d" % j, 1, 3)]
            elif how == "more":
                fields.append("y")
            elif how == "date":
                fields[3] = c("bad date", ["", "NOTADATE", "2018-13-01T00-00-00", "2018-11-27 22-36-30", t + "x", "2018-02-30T00-00-00"])
            bad = True
            lines.append(head + ("" if how == "colon" else ":" + sp) + (sp + "|").join(fields) if how != "colon" else head.strip().replace(":", ""))
        else:
            want.append((len(lines) + 1, {"version": 1, "original_path": os.path.normpath(path), "current_hash": h, "datetime": datetime.datetime(y, mo, d, hh, mi, ss)}))
            lines.append(head + sp + ":" + sp + (sp + "|" + sp).join(fields) + tail)
    text = "\n".join(lines)
    if vc.bool("from a file"):
        d = tempfile.mkdtemp()
        try:
            f = os.path.join(d, "x.inf")
            with open(f, "w") as o:
                o.write(text)
            ok, r = outcome(M.OverrideParser, f)
        finally:
            shutil.rmtree(d)
    else:
        ok, r = outcome(M.OverrideParser, None, text)
    if ok:
        vc.check(not bad and want, "no line is malformed, and there are overrides")
        vc.check(r.overrides == [w for _, w in want], "all overrides, in order")
        vc.check([x["lineno"] for x in r.override_lines] == [k for k, _ in want] and [x["line"] for x in r.override_lines] == [lines[k - 1].strip() for k, _ in want], "the lines and their numbers")
    else:
        vc.check(isinstance(r, ValueError) and (bad or not want), "an error of the value, for a malformed line or none")


# ---------------------------------------------------------------- target.txt

class Line(Ghost):
    vc_ghost = True

    def __init__(self, text):
        self.text = text


def target(vc):
    """Every line with an = gives a key and its value."""
    M = vc.module(TG)
    if not vc.symbolic:
        return target_text(vc)
    n = vc.int("lines", 0).z
    R = Router(vc, "target", n, [], ["Dict"])
    p = M.TargetTxtParser()

    def line(vc, i):
        kind = vc.choice("kind", ["none", "empty", "other", "value"])
        if kind in ("none", "empty"):
            R.step(i)
            return Line(None if kind == "none" else "")
        if kind == "other":
            R.step(i)
            return Line(body(vc, "other", "="))
        key = "" if vc.bool("no key") else body(vc, "key", "=")
        value = "" if vc.bool("no value") else body(vc, "value")
        R.step(i, [("Dict", Rec(key, value))])
        return Line(scat(key, "" if isinstance(key, str) and key == "" else gap(vc, "before"), "=", "" if isinstance(value, str) and value == "" else gap(vc, "after"), value))
    p.Dict = LogDict([])
    absolute = vc.bool("absolute")
    name, found = Rec("name"), Rec("found")
    lines = SymList(n, lambda k: None)

    class Os(Ghost):
        vc_ghost = True

        def isabs(self, f):
            return absolute
    os_ = Os()
    os_.path = os_
    vc.patch(M, "os", os_)
    vc.patch(M, "open", lambda f, *a, **k: (vc.check(f is (name if absolute else found), "the file asked for"), Source(lines))[1])
    vc.patch(M.TargetTxtParser, "FindPath", lambda self, f: (vc.check(f is name, "the file asked for"), found)[1])
    vc.patch(M.TargetTxtParser, "StripComment", lambda self, x: x.text)
    vc.contract(TG + ":TargetTxtParser.ParseFile#0", Indexed("lines", lambda vc, i, L: {}, n, heap=lambda vc, i, L: [(p, "Dict", LogDict(R.list("Dict", i)))], elem=line))
    p.ParseFile(name)
    vc.check(p.Lines is lines and p.Parsed is True and p.Path is (name if absolute else found), "the lines and the path of the file")
    vc.check(p.Dict == LogDict(R.list("Dict", n)), "every key and its value")
    vc.reach("done")


def target_text(vc):
    """Random target.txt files."""
    M = vc.module(TG)
    lines, want = [], {}
    for j in range(vc.int("lines", 0, 6)):
        c = lambda name, xs: vc.choice("%s%d" % (name, j), xs)  # noqa: E731
        kind = c("kind", ["value", "value", "comment", "blank", "other"])
        key, value = c("key", ["ACTIVE_PLATFORM", "TARGET", "TARGET_ARCH", "MAX_CONCURRENT_THREAD_NUMBER"]), c("value", ["", "A/B.dsc", "IA32 X64", "-D A=B", "a==b", "x=y=z", "1"])
        sp, end = c("space", ["", " ", "\t"]), c("end", ["", " ", " # note", " # note = x"])
        if kind == "value":
            lines.append(sp + key + sp + "=" + sp + value + end)
            want[key] = value
        else:
            lines.append({"comment": "# " + key + " = " + value, "blank": sp, "other": sp + key + end}[kind])
    d = tempfile.mkdtemp()
    try:
        f = os.path.join(d, "target.txt")
        with open(f, "w") as o:
            o.write("\n".join(lines))
        p = M.TargetTxtParser()
        p.ParseFile(f)
    finally:
        shutil.rmtree(d)
    vc.check(p.Dict == want and p.Parsed and p.Path == f, "every key and its value")
    vc.check("".join(p.Lines) == "\n".join(lines), "all lines")


# ---------------------------------------------------------------- GUID lists

class Entries:
    """A list the GUIDs of whole files are added to."""
    vc_ghost = True
    vc_any = True

    def __init__(self, log):
        self.log = log

    def extend(self, xs):
        self.log.append(xs)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def __eq__(self, o):
        if isinstance(o, list):
            return len(o) == 0 and self.log.vc_len() == 0
        return isinstance(o, Entries) and same(o.log, self.log)

    __hash__ = None


class Dirs(Ghost):
    """The subfolders of a folder, of different names; those removed."""
    vc_ghost = True

    def __init__(self, vc, names):
        self.vc, self.names, self.removed, self.now = vc, names, [], None

    def __getitem__(self, k):
        if isinstance(k, slice) and k.start is k.stop is k.step is None:
            return self.names
        raise Unsupported("subfolders")

    def copy(self):
        return self.names

    def remove(self, x):
        self.vc.check(x is self.now, "the subfolder at hand")
        self.removed.append(x)


def tree(vc):
    """The GUIDs of all files below a folder, except what is ignored."""
    M = vc.module(GL)
    if not vc.symbolic:
        return guid_tree(vc)
    from pyvc.core import simp
    from pyvc.sym import mkint, zint
    I = z3.IntSort()
    folders, nd, nf = vc.int("folders", 0).z, vc.int("subfolders", 0).z, vc.int("files", 0).z
    T, D, F = [z3.Function("tree." + x, I, I) for x in "TDF"]
    now = {}
    vc.add(z3.And(T(0) == 0, D(0) == 0))

    def get(k):
        if "file" in now and vc.entails(zint(k) == now["at"]):
            return now["file"]
        raise Unsupported("the GUIDs of an earlier file")

    def getd(k):
        if "dir" in now and vc.entails(zint(k) == now["dat"]):
            return now["dir"]
        raise Unsupported("an earlier subfolder")
    z = lambda k: simp(zint(k)) if z3.is_expr(simp(zint(k))) else z3.IntVal(simp(zint(k)))  # noqa: E731

    def upto(f, k, g):
        vc.fact(f(z(k)) >= 0)
        return SymList(f(z(k)), g)
    folder, lines, log = Rec("folder"), Rec("rules"), []
    root = Rec("root")
    join = lambda *a: Rec("join", *a)  # noqa: E731

    class Os(Ghost):
        vc_ghost = True

        def join(self, *a):
            return join(*a)

        def walk(self, f, *a, **k):
            vc.check(f is folder and not a and not k, "the folder asked for is walked, from the top")
            return SymList(folders, lambda k: None)
    os_ = Os()
    os_.path = os_
    vc.patch(M, "os", os_)

    def rules(ls, where, base):
        vc.check(ls is lines and base is folder, "the rules, relative to the folder")

        def ignore(p):
            vc.check(p == join(root, now["name"]), "the path at hand")
            return now["ignored"]
        return ignore
    vc.patch(M, "parse_gitignore_lines", rules)

    def parse(p):
        vc.check(p == join(root, now["name"]) and not now["ignored"], "a file that is not ignored is read")
        return Rec("guids", p)
    vc.patch(M.GuidList, "parse_guids_from_edk2_file", staticmethod(parse))
    dirs = Dirs(vc, SymList(nd, lambda k: None))
    files = SymList(nf, lambda k: None)

    class Walk(Indexed):
        def back(self, vc, loc, g, loop):
            vc.check(same(dirs.removed, upto(D, mkint(nd), getd)), "the ignored subfolders are not descended into")
            return Indexed.back(self, vc, loc, g, loop)

    def turn(vc, i):
        vc.add(z3.And(F(0) == T(z(i)), T(z(i) + 1) == F(nf)))
        dirs.removed = []
        return root, dirs, files

    def subfolder(vc, i):
        now["name"], now["ignored"] = Rec("subfolder", i), vc.bool("the subfolder is ignored")
        dirs.now = now["name"]
        vc.add(D(z(i) + 1) == D(z(i)) + int(now["ignored"]))
        now["dat"], now["dir"] = simp(D(z(i))), now["name"]
        return now["name"]

    def file(vc, i):
        now["name"], now["ignored"] = Rec("file", i), vc.bool("the file is ignored")
        vc.add(F(z(i) + 1) == F(z(i)) + (1 - int(now["ignored"])))
        now["at"], now["file"] = simp(F(z(i))), Rec("guids", join(root, now["name"]))
        return now["name"]
    class Over(Indexed):
        """The loop runs over this list, which does not change meanwhile."""

        def next(self, vc, g, loop):
            if loop.src is not self.src:
                raise Unsupported("a loop over something else")
            return Indexed.next(self, vc, g, loop)
    key = GL + ":GuidList.guidlist_from_filesystem#"
    vc.contract(key + "0", Walk("folders", lambda vc, i, L: {"guids": Entries(upto(T, i, get))}, folders, heap=lambda vc, i, L: [], elem=turn, mod=lambda vc, L: [dirs]))
    inner = [Over("subfolders", lambda vc, i, L: {}, nd, heap=lambda vc, i, L: [(dirs, "removed", upto(D, i, getd))], elem=subfolder),
             Over("files", lambda vc, i, L: {"guids": Entries(upto(F, i, get))}, nf, elem=file)]
    inner[0].src, inner[1].src = dirs.names, files
    vc.contract(key + "1", inner[0])
    vc.contract(key + "2", inner[1])
    r = M.GuidList.guidlist_from_filesystem(folder, lines)
    vc.check(isinstance(r, Entries) and r == Entries(upto(T, mkint(folders), get)), "the GUIDs of every file that is not ignored")
    vc.reach("done")


def entry(name, guid, filepath):
    return Rec("entry", name, guid, filepath)


def declared(vc):
    """The GUIDs of a DEC file, and of an INF file."""
    M = vc.module(GL)
    if not vc.symbolic:
        return guid_tree(vc)
    from pyvc.sym import mkint, zint
    e = M.GuidListEntry("a", "b", "c")
    vc.check((e.name, e.guid, e.absfilepath) == ("a", "b", "c"), "an entry")
    vc.patch(M, "GuidListEntry", entry)
    filename = "/x/y.dec"
    has = {k: vc.bool("has " + k) for k in ("name", "guid")}
    kind = vc.choice("kind", ["dec", "inf"])
    guid = vc.text("guid", "0123456789abcdefABCDEF-", 36, 36)
    d = {"X": "y"}
    d.update({k: v for k, v, h in ((("PACKAGE_NAME", "Pkg", "name"), ("PACKAGE_GUID", guid, "guid")) if kind == "dec" else (("BASE_NAME", "Pkg", "name"), ("FILE_GUID", guid, "guid"))) if has[h]})
    both = has["name"] and has["guid"]
    whole = [entry("Pkg", guid.upper(), filename)] if both else []
    if kind == "inf":
        class Inf(Ghost):
            vc_ghost = True
            Dict = d

            def ParseFile(self, f):
                vc.check(f == filename, "the file asked for is read")
        vc.patch(M, "InfParser", Inf)
        r = M.GuidList.parse_guids_from_inf(filename)
        vc.check(same(r, whole), "the module's GUID")
        vc.reach("inf")
        return
    stream = Rec("stream")
    lens = [vc.int(k, 0).z for k in ("protocols", "ppis", "guids")]
    now = {}

    class Decl(Ghost):
        vc_ghost = True

        def __init__(self, name, guid):
            self.name, self.guid = name, guid

    def elem(base):
        def make(vc, i):
            g = vc.text("declared guid", "0123456789abcdef-", 36, 36)
            x = Decl(Rec("name", i), g)
            now["at"], now["item"] = zint(base) + zint(i), entry(x.name, g.upper(), filename)
            return x
        return make

    def get(k):
        if now and vc.entails(zint(k) == now["at"]):
            return now["item"]
        raise Unsupported("an earlier GUID")

    class Dec(Ghost):
        vc_ghost = True
        Dict = d
        Protocols, PPIs, Guids = [SymList(k, lambda j: None) for k in lens]

        def ParseStream(self, s):
            vc.check(s is stream, "the contents given are read")
    vc.patch(M, "DecParser", Dec)
    base = 0
    for k, n in enumerate(lens):
        vc.contract(GL + ":GuidList.parse_guids_from_dec#%d" % k, Indexed("guids %d" % k, lambda vc, i, L, b=base: {"results": SymList(zint(b) + zint(i), get)}, n, elem=elem(base)))
        base = base + n
    r = M.GuidList.parse_guids_from_dec(stream, filename)
    want = SymList(base, get)
    want.tail = list(whole)
    vc.check(isinstance(r, SymList) and AND(mkint(r.n) == mkint(base), same(r.tail, whole)), "all declared GUIDs, and the package's")
    vc.reach("dec")


def files(vc):
    """Which parser reads a file."""
    M = vc.module(GL)
    if not vc.symbolic:
        return guid_tree(vc)
    kind = vc.choice("kind", ["dec", "inf", "other", "part"])
    stem = vc.text("stem", "\0", 0, neg=True)
    if kind in ("dec", "inf"):
        name = scat(stem, ".", anycase(vc, "suffix", kind))
    elif kind == "other":
        name = scat(stem, vc.text("last", "cCfF\u212a", 1, 1, neg=True))
    else:
        name = scat(stem, vc.choice("end", ["xdec", ".dsc", "_inf", ".fdf", ".uf", ".dec.c", "/.inf.f"]))
    content, r1, r2 = Rec("content"), [1], [2]

    class Content(Ghost):
        vc_ghost = True

        def __enter__(self):
            return content

        def __exit__(self, *a):
            pass
    vc.patch(M, "open", lambda f, *a, **k: (vc.check(f is name or f == name, "the file is read"), Content())[1])
    vc.patch(M.GuidList, "parse_guids_from_dec", staticmethod(lambda s, f: (vc.check(s is content and f == name and kind == "dec", "a DEC file"), r1)[1]))
    vc.patch(M.GuidList, "parse_guids_from_inf", staticmethod(lambda f: (vc.check(f == name and kind == "inf", "an INF file"), r2)[1]))
    r = M.GuidList.parse_guids_from_edk2_file(name)
    vc.check(r is r1 if kind == "dec" else r is r2 if kind == "inf" else r == [], "the GUIDs of DEC and INF files, and none of others")
    vc.reach(kind)


def guid_tree(vc):
    """Random trees of DEC, INF and other files, some ignored."""
    M = vc.module(GL)
    top = os.path.realpath(tempfile.mkdtemp())
    try:
        want, num = [], [0]
        rules = [r for k, r in enumerate(["Build/", "*.skip.inf", "/top.dec", "Skip", "# note", ""]) if vc.bool("rule %d" % k)]

        def guid():
            num[0] += 1
            return "%08x-%04x-4aBc-9DeF-%012x" % (num[0] * 0x1234567 % 2**32, num[0], num[0] * 0xabcdef)

        def c_guid(g):
            a = g.split("-")
            b = a[3] + a[4]
            return "{0x%s, 0x%s, 0x%s, {%s}}" % (a[0], a[1], a[2], ", ".join("0x" + b[j:j + 2] for j in range(0, 16, 2)))
        for j in range(vc.int("number of files", 0, 6)):
            c = lambda name, xs: vc.choice("%s%d" % (name, j), xs)  # noqa: E731
            d = c("folder", ["", "Build", "A", "A/Build", "A/B", "Skip", "A/Skip/x"])
            name = c("name", ["top.dec", "m%d.inf" % j, "m%d.INF" % j, "p%d.dec" % j, "p%d.DEC" % j, "s%d.skip.inf" % j, "t%d.txt" % j])
            path = os.path.join(top, *d.split("/"), name) if d else os.path.join(top, name)
            if os.path.exists(path):
                continue
            parts = d.split("/")
            ignored = "Build/" in rules and "Build" in parts or "*.skip.inf" in rules and name.endswith(".skip.inf") or "/top.dec" in rules and path == os.path.join(top, "top.dec") or "Skip" in rules and "Skip" in parts
            os.makedirs(os.path.dirname(path), exist_ok=True)
            out, got = ["[Defines]"], []
            g, missing = guid(), c("missing", ["no", "no", "no", "name", "guid"])
            dec = name.lower().endswith(".dec")
            if missing != "name":
                out.append("  %s = N%d" % ("PACKAGE_NAME" if dec else "BASE_NAME", j))
            if missing != "guid":
                out.append("  %s = %s" % ("PACKAGE_GUID" if dec else "FILE_GUID", g))
            if dec:
                for sec in ("Guids", "Protocols", "Ppis"):
                    out.append("[%s]" % sec)
                    for k in range(c("n" + sec, [0, 1, 2])):
                        x = guid()
                        out.append("  g%s%d = %s" % (sec, num[0], c_guid(x)))
                        got.append(("g%s%d" % (sec, num[0]), x.upper(), path))
            if missing == "no":
                got.append(("N%d" % j, g.upper(), path))
            with open(path, "w") as o:
                o.write("\n".join(out) + "\n")
            if not ignored and not name.endswith(".txt"):
                want += got
        r = M.GuidList.guidlist_from_filesystem(top, rules)
        vc.check(sorted((e.name, e.guid, e.absfilepath) for e in r) == sorted(want), "the GUIDs of every file that is not ignored")
    finally:
        shutil.rmtree(top)


HARNESSES = [
    H("override", override, "the fields of an override line", must_reach=["read", "version", "time"], runs=1500),
    H("overrides", overrides, "the override lines of a text", must_reach=["done"], runs=300),
    H("parser", parser, "the overrides of a file or text", must_reach=["read", "refused"], runs=300),
    H("target", target, "keys and values of target.txt", must_reach=["done"], runs=1500),
    H("tree", tree, "the GUIDs below a folder", must_reach=["done"], runs=500),
    H("declared", declared, "the GUIDs of a file", must_reach=["dec", "inf"], runs=300),
    H("files", files, "the parser of each file", must_reach=["dec", "inf", "other", "part"], runs=100),
]
