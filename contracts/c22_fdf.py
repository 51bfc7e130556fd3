import os
import shutil
import tempfile

from contracts.base import H
from contracts.c20_sections import Cell, anycase, expand, gap, layout, noise, spell
from contracts.routes import BLANK, LogDict, Rec, Router
from pyvc.core import Unsupported, simp
from pyvc.lists import Indexed, SymList, same
from pyvc.util import AND, NOT, OR, scat

ID = "C22"
LEVEL = "proof"
TRUSTED = ["open and readlines give the lines of the file"]
ASSUMPTIONS = ["StripComment, ReplaceVariables, ProcessConditional and InActiveCode by their own contracts (C17, C19)",
               "a section heading names one volume or device; the names of the files of a volume differ; braces only open and close blocks, "
               "the opening one of a FILE stands on the line of its name; an include stands outside of a FILE block"]
EXPLANATION = ("The loop over the statements and the loop over the lines of a FILE block are proved with invariants over ghost automata (the section, the nesting depth, what each "
               "dictionary holds), for files and blocks of any length and any names and values; the line reader is proved to return the next active statement. "
               "Whole random files, with includes and conditionals, cross-check.")
PR = "edk2toollib.uefi.edk2.parsers."
M = PR + "fdf_parser:FdfParser."


class Any:
    """Any text."""
    vc_ghost = vc_any = True

    def __eq__(self, o):
        return o is not None

    __hash__ = None


class Either:
    """A flag the proof does not depend on."""
    vc_ghost = vc_any = True

    def __init__(self, vc):
        self.vc = vc

    def __eq__(self, o):
        return isinstance(o, (bool, Either))

    def __bool__(self):
        return bool(self.vc.bool("either"))

    __hash__ = None


class Names:
    """A dictionary by the names it got, in order; whether it has the current section's name already is arbitrary."""
    vc_ghost = True

    def __init__(self, log, name, old, what, empty):
        self.log, self.name, self.old, self.what, self.empty = log, name, old, what, empty

    def _tail(self):
        return self.log.tail if isinstance(self.log, SymList) else self.log

    def _known(self, k):
        if not (k is self.name or k == self.name):
            raise Unsupported("another name than that of the section")

    def __contains__(self, k):
        self._known(k)
        return any(e.vals[0] == self.what for e in self._tail()) or self.old()

    def __setitem__(self, k, v):
        if k in self:
            self.log.append(Rec("lost", k))
        self.log.append(Rec(self.what, k) if v == self.empty else Rec("wrong", k))

    def setdefault(self, k, v):
        if k not in self:
            self[k] = v
        return self[k]

    def get(self, k, d=None):
        return self[k] if k in self else d

    def __getitem__(self, k):
        if k not in self:
            raise KeyError(k)
        return self._item(k)

    def __eq__(self, o):
        return isinstance(o, Names) and same(self.log, o.log)

    __hash__ = None


class FDs(Names):
    vc_ghost = True

    def _item(self, k):
        return None


class FVs(Names):
    """The volumes: `log` has the volumes, INFs and files in order, `sect` what the files' blocks hold."""
    vc_ghost = True

    def __init__(self, vc, log, sect, name, old):
        super().__init__(log, name, old, "volume", {"Dict": {}, "Infs": [], "Files": {}})
        self.vc, self.sect = vc, sect

    def _item(self, k):
        return {"Infs": Infs(self, k), "Files": Files(self, k)}

    def __eq__(self, o):
        return isinstance(o, FVs) and AND(same(self.log, o.log), same(self.sect, o.sect))

    __hash__ = None


class Infs:
    vc_ghost = True

    def __init__(self, fvs, vol):
        self.fvs, self.vol = fvs, vol

    def append(self, x):
        self.fvs.log.append(Rec("inf", self.vol, x))


class Files:
    """The files of a volume; whether the one being read is there already is arbitrary."""
    vc_ghost = True

    def __init__(self, fvs, vol):
        self.fvs, self.vol = fvs, vol

    def _made(self, k):
        return any(e.vals[0] == "file" and (e.vals[2] is k or e.vals[2] == k) for e in self.fvs._tail()) or self.fvs.vc.opened(k)

    def __contains__(self, k):
        return self._made(k)

    def __setitem__(self, k, v):
        self.fvs.log.append(Rec("lost" if self._made(k) else "file" if v == {} else "wrong", self.vol, k))

    def setdefault(self, k, v):
        if not self._made(k):
            self[k] = v
        return self[k]

    def __getitem__(self, k):
        if not self._made(k):
            raise KeyError(k)
        return File(self, k)


class File:
    """One file: its type, and the sections of its block."""
    vc_ghost = True

    def __init__(self, files, name):
        self.files, self.name = files, name
        self.fvs = files.fvs

    def __contains__(self, k):
        return self.fvs.vc.kind(self.fvs, k)

    def __setitem__(self, k, v):
        if isinstance(k, str) and k == "type":
            self.fvs.log.append(Rec("type", self.name, v))
            return
        if k in self:
            self.fvs.sect.append(Rec("lost", k))
        self.fvs.sect.append(Rec("guided" if isinstance(v, dict) else "kind", self.files.vol, self.name, k))
        for x in v:
            self.fvs.sect.append(Rec("wrong", x))

    def setdefault(self, k, v):
        if k not in self:
            self[k] = v
        return self[k]

    def __getitem__(self, k):
        if k not in self:
            raise KeyError(k)
        return Sections(self, k)


class Sections:
    vc_ghost = True

    def __init__(self, file, kind):
        self.file, self.kind = file, kind

    def append(self, x):
        self.file.fvs.sect.append(Rec("section", self.file.files.vol, self.file.name, self.kind, x))


def sp(vc):
    """One blank or more."""
    return scat(vc.choice("gap", [" ", "\t"]), gap(vc, "more"))


def word(vc, name, but=""):
    """A text without outer blanks that has none of these characters."""
    if vc.bool(name + " short"):
        return vc.text(name + ".c", BLANK + but, 1, 1, neg=True)
    return scat(vc.text(name + ".a", BLANK + but, 1, 1, neg=True), vc.text(name + ".m", "\n" + but, 0, neg=True), vc.text(name + ".z", BLANK + but, 1, 1, neg=True))


def spellings(c):
    """The characters that have this letter in upper or in lower case."""
    if c not in _SPELL:
        _SPELL[c] = "".join(x for x in map(chr, range(0x20000)) if c.upper() in x.upper() or c.lower() in x.lower())
    return _SPELL[c]


_SPELL = {}


def unlike(vc, name, words, but="", last=""):
    """A text without outer blanks and without the characters `but` that starts with none of the words (lower case: in any capitalisation)."""
    nodes = {}
    for w in words:
        for k in range(len(w)):
            nodes.setdefault(w[:k], set()).add(w[k])
    node = vc.choice(name + " like", sorted(nodes))
    start = scat(*[vc.text("%s %s.%d" % (name, node, k), {c, c.upper()}, 1, 1) if c != c.upper() else c for k, c in enumerate(node)])
    if node and vc.bool(name + " ends"):
        return start
    nxt = "".join(spellings(c) for c in nodes[node])
    if vc.bool(name + " short"):
        return scat(start, vc.text(name + ".x", BLANK + nxt + but + last, 1, 1, neg=True))
    return scat(start, vc.text(name + ".x", ("\n" if node else BLANK) + nxt + but, 1, 1, neg=True), vc.text(name + ".m", "\n" + but, 0, neg=True),
                vc.text(name + ".z", BLANK + but + last, 1, 1, neg=True))


OTHER, DEFINES, FD, FV, CAPSULE, RULE = range(6)
HEADS = {"[Defines]": DEFINES, "[DEFINES]": DEFINES, "[defines]": DEFINES, "[Rule.Common.SEC]": RULE, "[rule.x]": RULE, "[Capsule.Cap]": CAPSULE, "[CAPSULE.C]": CAPSULE,
         "[FmpPayload.P]": OTHER, "[VTF.x]": OTHER, "[OptionRom.R]": OTHER, "[]": OTHER}


class All:
    """Stands for all entries at once when a dictionary is copied into another."""
    vc_ghost = True


ALL = All()


class Macros(LogDict):
    """The dictionary of definitions: it can be copied as a whole."""
    vc_ghost = True

    def keys(self):
        return [ALL]

    def __getitem__(self, k):
        return len(self.log.tail) if k is ALL else super().__getitem__(k)

    def copy(self):
        return {ALL: self[ALL]}

    def items(self):
        return [(ALL, self[ALL])]


class Locals(LogDict):
    """The variables: the definitions copied at the heading, then those since."""
    vc_ghost = vc_any = True

    def __init__(self, log, fresh=False):
        super().__init__(log)
        self.fresh = fresh

    def __eq__(self, o):
        if isinstance(o, dict):
            # a copy of the definitions made by this very line
            return self.fresh and list(o.items()) == [(ALL, 0)]
        return NOT(self.fresh) and isinstance(o, Locals) and same(o.log, self.log)

    __hash__ = None


def statements(vc):
    """Every statement of an FDF file goes where its section says."""
    parse(vc, "statements")


def blocks(vc):
    """Every section of a FILE block is listed for its file."""
    parse(vc, "blocks")


def parse(vc, mode):
    F = vc.module(PR + "fdf_parser")
    if not vc.symbolic:
        return fdf_file(vc)
    import z3
    from pyvc.sym import mkbool, mkint, zint
    n = vc.int("statements", 0)
    R = Router(vc, "fdf", n.z, ["sec", "name", "depth"], ["FVs", "FDs", "Dict", "LocalVars", "included"])
    names = Cell(R, "name", None)
    has = {k: z3.Function("has " + k, z3.IntSort(), z3.BoolSort()) for k in ("fv", "fd")}
    pos = {"outer": None, "inner": None}
    p = F.FdfParser()
    block = {}

    S = z3.Function("sections", z3.IntSort(), z3.IntSort())     # how many sections of files the statements before the i-th have
    vc.add(S(0) == 0)

    def section(k):
        for at, x in block.get("now", ()):
            if vc.entails(zint(k) == at):
                return x
        raise Unsupported("reading an earlier section of a file")

    def go(i, records=(), lines=0, **new):
        R.step(i, records, **new)
        vc.add(S(zint(i) + 1) == S(zint(i)) + lines)
        block["log"] = [r for b, r in records if b == "FVs"]

    def sec(i):
        for k in range(RULE):
            if vc.branch(R.at("sec", i) == k):
                return k
        return RULE

    def name(i):
        """The name of the section before statement i."""
        z = R.at("name", i)
        if names.now is not None and vc.entails(z == names.now[0]):
            return names.now[1]
        for y, x in names.seen:
            if vc.entails(z == y):
                return x
        names.seen.append((z, vc.text("name", BLANK + "[],", 1, neg=True)))
        return names.seen[-1][1]

    def there(k, i):
        return lambda: vc.branch(has[k](zint(i)))

    def statement(i):
        """The next statement, and what it is to do."""
        s = sec(i)
        d = R.at("depth", i)
        if vc.branch(zint(i) == n.z):
            return None
        if mode == "blocks":
            vc.assume(s == FV)
            return file_statement(s, d, i)
        kind = vc.choice("statement", ["blank", "include", "heading", "own heading", "define", "other"])
        if kind == "blank":
            text = gap(vc, "blank")
            go(i, records(s, i))
            return text
        if kind == "include":
            path = vc.text("path", BLANK + "=", 1, neg=True)
            go(i, [("included", Rec(path))])
            pos["path"] = path
            return scat(anycase(vc, "include", "!include"), gap(vc, "g", 1), path)
        if kind == "heading":
            vc.add(d == 0)
            h = vc.choice("heading", sorted(HEADS))
            x = h.strip("[]").split(".", 1)[-1]
            go(i, [("LocalVars", Rec("reset"))], sec=HEADS[h], name=names.set(i, x))
            return h
        if kind == "own heading":
            vc.add(d == 0)
            x = vc.text("volume", BLANK + "[],", 1, neg=True)
            fv = vc.bool("of a volume")
            go(i, [("LocalVars", Rec("reset"))], sec=FV if fv else FD, name=names.set(i, x))
            return scat("[", anycase(vc, "head", "fv." if fv else "fd."), x, vc.choice("before ]", ["", " "]), "]")
        if kind == "define":
            k = word(vc, "key", "=[{}")
            v = word(vc, "value", "={}") if vc.bool("a value") else ""
            text = scat("DEFINE", vc.choice("gap0", [" ", "\t"]), gap(vc, "gap1"), k, gap(vc, "gap2"), "=", gap(vc, "gap3") if v != "" else "", v)
            go(i, ([("Dict", Rec(k, v))] if s == DEFINES else []) + [("LocalVars", Rec(k, v))])
            return text
        if s == DEFINES and vc.bool("an entry"):
            k, v = unlike(vc, "key", ["!", "[", "DEFINE ", "DEFINE\t"], but="={}"), word(vc, "value", "={}")
            text = scat(k, "" if isinstance(k, str) else gap(vc, "gap2"), "=", gap(vc, "gap3"), v)
            go(i, [("Dict", Rec(k, v)), ("LocalVars", Rec(k, v))])
            return text
        if s == FV:
            k = vc.choice("in a volume", ["INF", "FILE", "other"])
            if k == "INF":
                x = word(vc, "module", "[{}")
                go(i, records(s, i) + [("FVs", Rec("inf", name(i), x))])
                return scat(anycase(vc, "inf", "INF"), sp(vc), x)
            if k == "FILE":
                return file_statement(s, d, i)
        # another statement: it may open or close blocks
        text = unlike(vc, "other", ["!", "[", "DEFINE ", "DEFINE\t"] + (["inf ", "inf\t", "file"] if s == FV else []), but="={}")
        if vc.bool("a block"):
            text = scat(text, "{" if vc.bool("opens") else "}")
        e = vc.fresh("change")
        vc.add(zint(d) + e >= 0)
        go(i, records(s, i), depth=mkint(zint(d) + e))
        p._BracketCount = p._BracketCount + mkint(e)
        return text

    def file_statement(s, d, i):
        """A FILE statement, with its block if it has one (its lines are looked at in the harness "blocks")."""
        vc.add(d == 0)
        t, x = vc.text("type", BLANK + "={}", 1, neg=True), vc.text("file", BLANK + "={}", 1, neg=True) if mode == "blocks" else word(vc, "file", "={}")
        how = vc.choice("block", ["none", "closed", "lines"]) if mode == "statements" else "lines"
        text = scat("FILE ", t, " = ", x, " {") if mode == "blocks" else scat(anycase(vc, "file", "FILE"), sp(vc), t, gap(vc, "gap2"), "=", gap(vc, "gap3"), x,
                    "" if how == "none" else scat(gap(vc, "gap4"), "{}" if how == "closed" else "{"))
        block.update(file=x, old=not records(s, i) and vc.bool("listed before"), i=i)
        new = records(s, i) + [("FVs", Rec("file", name(i), x))] * (not block["old"]) + [("FVs", Rec("type", x, t))]
        inner.n = 0
        if how == "lines":
            inner.n = m = vc.fresh("lines")
            vc.add(m >= 1)
            B = block["B"] = Router(vc, "block", m, ["depth"], ["sect"])
            go(i, new, B.cnt["sect"](m))
            p._BracketCount = p._BracketCount + 1
        else:
            go(i, new)
        return text

    def records(s, i):
        """A section is listed with its first statement."""
        if s == FV and not there("fv", i)():
            return [("FVs", Rec("volume", name(i)))]
        if s == FD and not there("fd", i)():
            return [("FDs", Rec("device", name(i)))]
        return []

    def line(j):
        """Line j of a FILE block."""
        B, i, f = block["B"], block["i"], block["file"]
        kind = vc.choice("line", ["section", "guided", "other"])
        what = []
        d = B.at("depth", j)
        e = vc.fresh("change")
        if kind == "section":
            t, x = unlike(vc, "kind", ["guided"], but="={}"), word(vc, "content", "{}")
            text = scat(anycase(vc, "section", "SECTION"), sp(vc), t, gap(vc, "gap2"), "=", gap(vc, "gap3"), x)
            new = not vc.branch(block["has"](zint(j)))
            what = [Rec("kind", name(i), f, t)] * new + [Rec("section", name(i), f, t, x)]
        elif kind == "guided":
            t = vc.text("guid", BLANK + "={}", 1, neg=True)
            text = scat(anycase(vc, "guided", "SECTION GUIDED"), sp(vc), t)
            new = not vc.branch(block["has"](zint(j)))
            what = [Rec("guided", name(i), f, t)] * new
        else:
            t, text = None, unlike(vc, "more", ["section "], but="={}")
        if vc.bool("closes or opens"):
            text = scat(text, "{" if vc.bool("opens") else "}")
        block["kind"] = t
        B.step(j, [("sect", x) for x in what], depth=mkint(zint(d) + e))
        p._BracketCount = p._BracketCount + mkint(e)
        # the block ends with its last line
        vc.add(z3.If(zint(j) + 1 == inner.n, zint(d) + e == -1, zint(d) + e >= 0))
        base = S(zint(i)) + B.cnt["sect"](zint(j))
        block["now"] = [(simp(base + q), x) for q, x in enumerate(what)]
        return text

    def next_line(self):
        if pos["inner"] is not None:
            vc.assume(mode == "blocks")
            return line(pos["inner"])
        return statement(pos["outer"])

    def opened(k):
        """Is the file listed already?"""
        if not (k is block["file"] or k == block["file"]):
            raise Unsupported("another file than that of the statement")
        return pos["inner"] is not None or block["old"]

    vc.opened = opened
    vc.kind = lambda fvs, k: any(e.vals[0] in ("kind", "guided") and e.vals[3] is k for e in (fvs.sect.tail if isinstance(fvs.sect, SymList) else fvs.sect)) or \
        vc.branch(block["has"](zint(pos["inner"])))
    block["has"] = z3.Function("has kind", z3.IntSort(), z3.BoolSort())

    def fvs(i, sect):
        return FVs(vc, R.list("FVs", i), sect, name(i), there("fv", i))

    def heap(vc, i, L):
        fresh = any(x.vals == ("reset",) for _, x in R.now.get("LocalVars", ()))
        return [(p, "FVs", fvs(i, SymList(S(zint(i)), section))), (p, "FDs", FDs(R.list("FDs", i), name(i), there("fd", i), "device", {"Dict": {}})),
                (p, "Dict", Macros(R.list("Dict", i))), (p, "LocalVars", Locals(R.list("LocalVars", i), fresh)),
                (p, "_BracketCount", mkint(zint(R.at("depth", i)))), (p, "included", R.list("included", i)),
                (p, "CurrentSection", [name(i)] if vc.branch(R.at("name", i) > 0) else [])]

    flags = {"InDefinesSection": [DEFINES], "InFdSection": [FD], "InFvSection": [FV], "InCapsuleSection": [CAPSULE], "InRuleSection": [RULE]}

    def state(vc, i, L):
        s = {f: mkbool(R.at("sec", i) == k[0]) for f, k in flags.items()}
        return dict(s, sline=Any(), InFmpPayloadSection=Either(vc))

    def facts(vc, i):
        pos["outer"], pos["inner"] = i, None

    vc.contract(M + "ParseFile#0", Indexed("statements", state, n, heap=heap, facts=facts,
                inv=lambda vc, i: [mkbool(z3.And(R.at("sec", i) >= 0, R.at("sec", i) <= RULE, R.at("depth", i) >= 0, R.at("name", i) >= 0,
                                                 z3.Implies(R.at("sec", i) > 0, R.at("name", i) > 0)))]))

    def block_heap(vc, j, L):
        i = block["i"]
        none = not hasattr(inner.n, "sexpr")
        x = fvs(i, SymList(S(zint(i)) + (0 if none else block["B"].cnt["sect"](zint(j))), section))
        for r in block["log"]:
            x.log.append(r)
        return [(p, "FVs", x), (p, "_BracketCount", 0 if none else mkint(zint(block["B"].at("depth", j)) + 1))]

    def block_facts(vc, j):
        pos["inner"] = j

    def block_inv(vc, j):
        if not hasattr(inner.n, "sexpr"):
            return []
        d = zint(block["B"].at("depth", j))
        return [mkbool(z3.If(zint(j) < inner.n, d >= 0, d == -1))]

    inner = Indexed("lines of the block", lambda vc, j, L: {"sline": Any()}, 0, heap=block_heap, facts=block_facts, inv=block_inv)
    vc.contract(M + "ParseFile#3", inner)
    vc.patch(F.FdfParser, "GetNextLine", next_line)
    vc.patch(F.FdfParser, "FindPath", lambda self, x: Rec(x))
    vc.patch(F.FdfParser, "InsertLinesFromFile", lambda self, x: self.included.append(x))
    p.included = []
    p.FVs = FVs(vc, [], [], None, lambda: False)
    p.FDs = FDs([], None, lambda: False, "device", {"Dict": {}})
    p.Dict, p.LocalVars = Macros([]), Locals([])
    vc.patch(F, "open", lambda *a, **k: Source())
    p.ParseFile("/x/y.fdf")
    vc.reach("done")
    vc.check(p.Parsed is True, "marked as parsed")


class Source:
    vc_ghost = True

    def readlines(self):
        return []

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def lines(vc):
    """The next line to parse is the first one that is neither blank nor a directive nor inactive, without its comment and with its variables replaced."""
    F = vc.module(PR + "fdf_parser")
    if not vc.symbolic:
        return fdf_file(vc)
    import z3
    from pyvc.sym import mkint, zint
    n, first, at, depth = vc.int("lines", 0), vc.int("first", 0), vc.int("line"), vc.int("depth")
    vc.assume(first <= n)
    now = {}

    class Text:
        vc_ghost = True

        def __init__(self, k):
            self.k = k

    def line(k):
        """The k-th line from the end."""
        k = mkint(simp(n.z - 1 - zint(k)))
        now.clear()
        x = Text(k)
        if vc.branch(zint(k) == first.z):
            how = "active"
        else:
            vc.add(zint(k) < first.z)
            how = vc.choice("line", ["blank", "directive", "inactive"])
        stripped = "" if how == "blank" else scat(vc.text("raw.a", BLANK, 1, 1, neg=True), vc.text("raw", "\n", 0, neg=True))
        opens, closes = (vc.choice("opens", range(3)), vc.choice("closes", range(3))) if how == "active" else (0, 0)
        parts = [vc.text("text%d" % q, "\n{}", 0, neg=True) for q in range(4)]
        text = scat(parts[0], "{" * min(opens, 1), parts[1], "}" * closes, parts[2], "{" * (opens - min(opens, 1)), parts[3])
        now.update(line=x, how=how, raw=stripped, text=text, step=0, change=opens - closes)
        return x

    def strip(self, x):
        vc.check(x is now["line"], "the line just read")
        return now["raw"]

    def replace(self, x):
        vc.check(x is now["raw"], "the variables of the line without its comment")
        return now["text"]

    def directive(self, x):
        vc.check(AND(x is now["text"], now["step"] == 0), "every line is tried as a directive once")
        now["step"] = 1
        return now["how"] == "directive"

    def active(self):
        vc.check(now["step"] == 1, "a line is active after the directives before it")
        return now["how"] != "inactive"

    p = F.FdfParser()
    p.Lines = SymList(n.z, line)
    p.CurrentLine, p._BracketCount = at, depth
    for name, f in (("StripComment", strip), ("ReplaceVariables", replace), ("ProcessConditional", directive), ("InActiveCode", active)):
        vc.patch(F.FdfParser, name, f)

    def facts(vc, i):
        if now:
            vc.check(now["how"] == "blank" or now["step"] == 1, "every line is tried as a directive once")

    vc.contract(M + "GetNextLine#0", Indexed("lines", lambda vc, i, L: {}, n,
                heap=lambda vc, i, L: [(p, "CurrentLine", at + i), (p, "_BracketCount", depth), (p, "Lines", SymList(simp(n.z - zint(i)), line))],
                facts=facts, inv=lambda vc, i: [i <= first]))
    r = p.GetNextLine()
    if r is None:
        vc.reach("end")
        vc.check(AND(first == n, p.CurrentLine == at + n, p._BracketCount == depth), "no line is left")
        return
    vc.reach("line")
    vc.check(AND(r is now["text"], now["how"] == "active"), "the first active line")
    vc.check(AND(p.CurrentLine == at + first + 1, p._BracketCount == depth + now["change"]), "its number and its braces")
    vc.check(AND(mkint(p.Lines.n) == n - first - 1, p.Lines.tail == []), "the lines behind it are left")


def insert(vc):
    """The lines of an included file come next, in their order."""
    F = vc.module(PR + "fdf_parser")
    if not vc.symbolic:
        return fdf_file(vc)
    p = F.FdfParser()
    m = vc.choice("lines of it", range(4))
    new = ["new %d" % k for k in range(m)]
    p.Lines, p.CurrentLine = ["last", "next"], 7
    vc.bound("an included file of at most 3 lines")

    class Read(Source):
        def readlines(self):
            return list(new)

    def opened(path, *a, **k):
        vc.check(path == "/x/y.inc", "the file that was found")
        return Read()

    vc.patch(F, "open", opened)
    p.InsertLinesFromFile("/x/y.inc")
    vc.reach("done")
    vc.check(p.Lines == ["last", "next"] + new[::-1], "its lines come next")


# ---------------------------------------------------------------- whole files

NAME = ["FVMAIN", "FvRecovery", "MAINFV", "A.B", "X"]
TEXTS = ["Pkg/A.inf", "MdeModulePkg/Core/Dxe/DxeMain.inf", "USE = X64 Pkg/B.inf", "$(A)/c.inf", "RuleOverride=ACPITABLE Pkg/d.inf", "$(B)", "$(NO)/x.inf", "DEFINED.inf", "a\tb.inf", "INF.inf", "$(DEFINE_DIR)/x.inf"]
VARS = ["A", "B", "DEFINE_DIR", "MY_DEFINE", "UNDEFINED"]


def g_items(r, depth=0):
    out = []
    for _ in range(r.randint(0, 7)):
        k = r.random()
        if k < 0.12:
            out.append(["if", r.choice(["def", "ndef", "eq", "ne"]), r.choice(VARS), r.choice(["1", "x"]), g_items(r, depth + 1) if depth < 3 else [], r.choice([None, g_items(r, depth + 1) if depth < 3 else []])])
        elif k < 0.17 and depth < 3:
            out.append(["include", g_items(r, depth + 1)])
        elif k < 0.35:
            out.append(["head", r.choice(["defines", "fd", "fv", "fv", "fv", "fv", "rule", "capsule", "fmppayload", "vtf"]), r.choice(NAME)])
        elif k < 0.5:
            out.append(["define", r.choice(VARS), r.choice(["1", "x", "", "a=b", "sub/dir", "DEFINEs", "$(A)y", "$(NO)", "my DEFINE x"])])
        elif k < 0.6:
            out.append(["entry", r.choice(["K", "FD_SIZE", "DEFINED", "XDEFINE"]), r.choice(["1", "$(A)", "0x1000|g.P", "a=b"])])
        elif k < 0.75:
            out.append(["inf", r.choice(TEXTS)])
        elif k < 0.93:
            out.append(["file", r.choice(["DRIVER", "FREEFORM", "RAW", "FV_IMAGE", "PEIM", "SEC"]), r.choice(["7E175642-F3AD-490A-9F8A-2E9FC6933DDD", "$(A)", "PCD(gX.PcdY)", "11111111-2222-3333-4444-555555555555"]), g_block(r)])
        elif k < 0.97:
            out.append(["apriori", [r.choice(TEXTS) for _ in range(r.randint(0, 2))]])
        else:
            out.append(["noise", r.choice([3, 3, 6000]) if depth == 0 else 2])
    return out


def g_block(r, depth=0):
    out = []
    for _ in range(r.randint(0, 3)):
        k = r.random()
        if k < 0.6:
            out.append(["section", r.choice(["UI", "PE32", "RAW", "DXE_DEPEX", "VERSION STRING", "UI"]), r.choice(['"Generic"', "$(A)/x.efi", "a = b", "x.bin"])])
        elif k < 0.75 and depth < 2:
            out.append(["guided", r.choice(["EE4E5898-3914-4259-9D6E-DC7BD79403CF", "AAAA5898-3914-4259-9D6E-DC7BD79403CF"]), r.choice(["", " PROCESSING_REQUIRED = TRUE"]), g_block(r, depth + 1)])
        elif k < 0.9 and depth < 2:
            out.append(["compress", g_block(r, depth + 1)])
        else:
            out.append(["other", r.choice(["FILE UI = x", "INF a.inf", "SECTIONX", "ALIGN = 4"])])
    return out


def g_fdf(r):
    return [g_items(r), r.getrandbits(32), r.choice([{}, {}, {"A": "1"}, {"UNDEFINED": "x", "B": "given"}])]


class Fdf:
    """Writes the items to files and says what they mean."""

    def __init__(self, r, top, given):
        self.r, self.top, self.given = r, top, given
        self.n = 0
        self.sec, self.name = None, None
        self.FVs, self.FDs, self.Dict, self.vars = {}, {}, {}, {}

    def value(self, v):
        return self.given.get(v, self.vars.get(v))

    def replaced(self, t):
        out, k = "", 0
        while k < len(t):
            e = t.find(")", k) if t.startswith("$(", k) else -1
            v = self.value(t[k + 2:e]) if e > 0 else None
            if v is not None:
                # (a value that names its own variable is dropped)
                out += "" if "$(" + t[k + 2:e] + ")" in v else v
                k = e + 1
            else:
                out += t[k]
                k += 1
        return out

    def put(self, out, text):
        out.append(layout(self.r, text))
        if self.r.random() < 0.2:
            out.append(noise(self.r))

    def touch(self, active):
        if active and self.sec == "fv":
            return self.FVs.setdefault(self.name, {"Dict": {}, "Infs": [], "Files": {}})
        if active and self.sec == "fd":
            self.FDs.setdefault(self.name, {"Dict": {}})
        return None

    def items(self, out, items, active):
        r = self.r
        for it in items:
            k = it[0]
            if k == "noise":
                out += [noise(r) for _ in range(it[1])]
            elif k == "if":
                v = self.value(it[2])
                if it[1] in ("def", "ndef"):
                    yes = (v is not None) == (it[1] == "def")
                    self.put(out, spell(r, "!if" + it[1]) + " " + it[2])
                else:
                    yes = ('"%s"' % ("0" if v is None else v) == '"%s"' % it[3]) == (it[1] == "eq")
                    if v is not None and (not v or any(c in v for c in ' ="()$')):
                        continue
                    self.put(out, spell(r, "!if") + " $(" + it[2] + ") " + ("==" if it[1] == "eq" else "!=") + " " + it[3])
                self.items(out, it[4], active and yes)
                if it[5] is not None:
                    self.put(out, spell(r, "!else"))
                    self.items(out, it[5], active and not yes)
                self.put(out, spell(r, "!endif"))
            elif k == "include":
                self.n += 1
                f = "inc%d.fdf.inc" % self.n
                self.put(out, spell(r, "!include") + r.choice([" ", "\t", "   "]) + f)
                sub = []
                self.items(sub, it[1], active)
                with open(os.path.join(self.top, f), "w") as h:
                    h.write("".join(x + "\n" for x in sub))
            elif k == "head":
                named = {"rule": "Rule.Common.", "fmppayload": "FmpPayload.", "vtf": "VTF.", "capsule": "Capsule.", "fd": "FD.", "fv": "FV."}.get(it[1])
                self.put(out, "[" + (spell(r, named) + it[2] if named else r.choice(["Defines", "DEFINES", "defines"])) + r.choice(["", "", " "]) + "]")
                if active:
                    self.sec, self.name = it[1], it[2]
                    self.vars = dict(self.Dict)
            elif k in ("define", "entry"):
                text = ("DEFINE" + r.choice([" ", "\t", "  "]) if k == "define" else "") + it[1] + r.choice([" = ", "=", "\t= "]) + it[2]
                self.put(out, text)
                if not active:
                    continue
                v = self.replaced(it[2])
                if self.sec == "defines":
                    if "=" not in v:
                        self.Dict[it[1]] = self.vars[it[1]] = v
                elif k == "define":
                    self.vars[it[1]] = v
                else:
                    self.touch(active)
            elif k in ("inf", "apriori"):
                if k == "apriori":
                    self.put(out, "APRIORI DXE {")
                    self.touch(active)
                for x in [it[1]] if k == "inf" else it[1]:
                    text = r.choice(["INF", "inf", "Inf"]) + r.choice([" ", "\t", "   "]) + x
                    self.put(out, text)
                    self.define_like(active, text)
                    fv = self.touch(active)
                    if fv:
                        fv["Infs"].append(self.replaced(x))
                if k == "apriori":
                    self.put(out, "}")
            elif k == "file":
                self.file(out, it, active)

    def define_like(self, active, text):
        """A statement with one equals sign in the Defines section is a definition there."""
        if active and self.sec == "defines" and self.replaced(text).count("=") == 1:
            a, b = (x.strip() for x in self.replaced(text).split("="))
            self.Dict[a] = self.vars[a] = b

    def file(self, out, it, active):
        r = self.r
        if self.sec != "fv":
            return
        fv = self.touch(active)
        how = r.choice(["none", "{}", "block", "block", "block"])
        self.put(out, r.choice(["FILE", "file"]) + r.choice([" ", "\t"]) + it[1] + r.choice([" = ", "="]) + it[2] + {"none": "", "{}": " {}"}.get(how, r.choice([" {", "{"])))
        name = self.replaced(it[2])
        if not active:
            f = {}
        else:
            f = fv["Files"].setdefault(name, {})
            f["type"] = it[1]
        if how == "block":
            self.block(out, it[3], f)
            self.put(out, "}")

    def block(self, out, items, f):
        for it in items:
            if it[0] == "section":
                self.put(out, spell(self.r, "SECTION") + self.r.choice([" ", "\t", "  "]) + it[1] + self.r.choice([" = ", "="]) + it[2])
                f.setdefault(it[1], []).append(self.replaced(it[2]))
            elif it[0] == "other":
                self.put(out, it[1])
            else:
                self.put(out, {"guided": "SECTION GUIDED ", "compress": "SECTION COMPRESS"}[it[0]] + ("" if it[0] == "compress" else it[1] + it[2]) + " {")
                if it[0] == "guided":
                    f.setdefault((it[1] + it[2]).split("=")[0].strip(), {})
                self.block(out, it[-1], f)
                self.put(out, "}")


def fdf_file(vc):
    """A whole FDF file."""
    import random
    F = vc.module(PR + "fdf_parser")
    items, seed, given = vc.data("fdf file", g_fdf)
    r = random.Random(seed)
    top = tempfile.mkdtemp(prefix="pyvc22")
    try:
        x = Fdf(r, top, given)
        out = []
        x.items(out, items, True)
        path = os.path.join(top, "a.fdf")
        with open(path, "w") as f:
            f.write("".join(t + "\n" for t in out))
        p = F.FdfParser()
        p.SetInputVars(given)
        p.ParseFile(path)
    finally:
        shutil.rmtree(top)
    vc.check(p.FVs == x.FVs, "the firmware volumes")
    vc.check(p.FDs == x.FDs, "the flash devices")
    vc.check(p.Dict == x.Dict and p.LocalVars == x.vars and p.Parsed, "the definitions")


HARNESSES = [
    H("statements", statements, "statements of an FDF file", must_reach=["done"], runs=2500),
    H("blocks", blocks, "blocks of the FILE statements of an FDF file", must_reach=["done"], runs=1),
    H("lines", lines, "the next line of an FDF file", must_reach=["line", "end"], runs=1),
    H("insert", insert, "lines of an included file", must_reach=["done"], runs=1),
]
