import io
import logging
import os
import shutil
import tempfile

import z3

from contracts.base import H
from contracts.c27_inf import Ghost
from pyvc.core import Unsupported
from pyvc.fold import Fold, FoldStr
from pyvc.lists import Indexed, SymList
from pyvc.sym import SymStr, mkint, zint
from pyvc.util import AND, OR, outcome, scat

ID = "C29"
LEVEL = "proof"
TRUSTED = ["logging's own Handler, StreamHandler, FileHandler and Formatter; io.StringIO", "re: the control sequences found in a text follow one another and are those the pattern describes (compared with a scanner at random)"]
ASSUMPTIONS = ["not on Windows", "one thread at a time reads from a string handler's stream"]
EXPLANATION = ("The handlers run on records of any level, filters of any answer and streams of any content and position; colours are compared with the message for texts of any content. Removing control sequences is a loop "
               "contract over any number of them, at any places. Random logging through the real handlers cross-checks.")
ANSI, FILE, STR = ("edk2toollib.log." + m for m in ("ansi_handler", "file_handler", "string_handler"))
CLASSES = [(ANSI, "ColoredStreamHandler"), (FILE, "FileHandler"), (STR, "StringStreamHandler")]
LEVELS = {"WARNING": 33, "INFO": 36, "DEBUG": 34, "CRITICAL": 97, "ERROR": 31, "STATUS": 32, "PROGRESS": 32, "SECTION": 36}
AZURE = {"CRITICAL": "##[section]", "ERROR": "##[error]"}
RESET = "\033[39m"


# ---------------------------------------------------------------- handle

def handled(vc):
    """A record is emitted, under the lock, exactly if the filters let it pass and it is of the level or above; the answer is that of the filters."""
    mod, name = vc.choice("handler", CLASSES)
    M = vc.module(mod)
    cls = getattr(M, name)
    h = object.__new__(cls)
    rec, other = logging.makeLogRecord({"levelno": vc.int("levelno", -5, 200)}), logging.makeLogRecord({"levelno": vc.int("other levelno", -5, 200)})
    level = vc.int("level", -5, 200)
    h.level = level
    how = vc.choice("filter", ["no", "yes", "other record", "same record"])
    rv = {"no": False, "yes": True, "other record": other, "same record": rec}[how]
    boom = vc.bool("emission fails")
    log = []

    def emit(r):
        log.append(("emit", r))
        if boom:
            raise KeyError("x")
    h.filter = lambda r: (log.append(("filter", r)), rv)[1]
    h.acquire = lambda: log.append(("acquire", None))
    h.release = lambda: log.append(("release", None))
    h.emit = emit
    ok, r = outcome(h.handle, rec)
    emitted = [x for k, x in log if k == "emit"]
    use = other if how == "other record" else rec
    vc.check(log[0] == ("filter", rec) and len([k for k, x in log if k == "filter"]) == 1, "the filters are asked once")
    if emitted:
        vc.check(how != "no" and len(emitted) == 1 and emitted[0] is use and bool(use.levelno >= level), "what is emitted passed the filters, is what they made of it, and is of the level")
        kinds = [k for k, x in log if k != "filter"]
        vc.check(kinds == ["acquire", "emit", "release"], "under the lock, which is released whatever happens")
        vc.check(ok != boom, "an error is passed on")
        vc.reach("emitted")
    else:
        vc.check(how == "no" or bool(use.levelno < level), "what is not emitted did not pass, or is below the level")
        ks = [k for k, x in log]
        vc.check(ks.count("acquire") == ks.count("release") and ok, "the lock is not kept")
        vc.reach("not emitted")
    if ok:
        vc.check(r is rv or how == "same record" and r is rec or how == "other record" and r is other, "the answer is that of the filters")


# ---------------------------------------------------------------- the string handler

class Str(Ghost):
    """A StringIO of any content, at any position."""
    vc_ghost = True

    def __init__(self, vc, n, pos):
        self.vc, self.n, self.pos, self.added = vc, n, pos, ""

    def __bool__(self):
        return True

    def tell(self):
        return self.pos

    def seek(self, offset, whence=0):
        if whence == 0:
            self.vc.check(offset >= 0, "a position in the stream")
            self.pos = offset
        elif whence == 2 and isinstance(offset, int) and offset == 0:
            self.pos = self.n
        else:
            raise Unsupported("seek")
        return self.pos

    def write(self, t):
        self.vc.check(self.pos == self.n, "nothing that was logged is overwritten")
        self.added = self.added + t
        self.n = self.n + self.vc_len(t)
        self.pos = self.n

    @staticmethod
    def vc_len(t):
        return t.vc_len() if isinstance(t, SymStr) else len(t)

    def flush(self):
        pass


def appended(vc):
    """A record is added at the end, whatever has been read or sought; what was not read yet is read next."""
    if not vc.symbolic:
        return session(vc)
    M = vc.module(STR)
    h = M.StringStreamHandler()
    n = vc.int("length", 0)
    pos = vc.int("position", 0)
    s = h.stream = Str(vc, n, pos)
    t = vc.text("message", "\r", neg=True)
    rec = logging.makeLogRecord({"levelno": 20})
    h.format = lambda r: (vc.check(r is rec, "the record is formatted"), t)[1]
    h.handleError = lambda r: vc.check(False, "no error")
    h.handle(rec)
    vc.check(s.added == scat(t, "\n"), "the record is added, on a line of its own")
    if bool(pos < n):
        vc.check(s.pos == pos, "what was not read yet is read next")
        vc.reach("behind")
    else:
        vc.check(OR(s.pos == s.n, s.pos == pos), "at the end, the position is no earlier")
        vc.reach("at the end")


def session(vc):
    """Random logging, seeking and reading."""
    M = vc.module(STR)
    h = M.StringStreamHandler()
    h.setLevel(vc.choice("level", [0, 10, 20]))
    all_, pos, low = "", 0, 0
    for k in range(vc.choice("steps", [1, 3, 8, 20])):
        what = vc.choice("what %d" % k, ["log", "log", "log", "read", "read all", "start", "end", "seek"])
        if what == "log":
            t = vc.text("text %d" % k, "\r", neg=True, gen=lambda r: "".join(r.choice("ab \n\u00e9") for _ in range(r.randint(0, 6))))
            lv = vc.choice("levelno %d" % k, [5, 10, 20, 50])
            passed = vc.choice("pass %d" % k, [True, True, True, False])
            f = lambda r: passed  # noqa: E731
            h.addFilter(f)
            got = h.handle(logging.makeLogRecord({"levelno": lv, "msg": t.replace("%", "%%")}))
            h.removeFilter(f)
            vc.check(bool(got) == passed, "the answer is that of the filters")
            if passed and lv >= h.level:
                end = pos >= len(all_)
                all_ += t.replace("%", "%%") + "\n"
                if end:
                    pos = len(all_)
        elif what == "read":
            r = h.readlines(vc.choice("hint %d" % k, [1, 2, 5]))
            vc.check(all_[pos:].startswith("".join(r)) and (r or pos >= len(all_)), "what was not read yet is read next")
            pos += len("".join(r))
        elif what == "read all":
            vc.check("".join(h.readlines()) == all_[pos:], "what was not read yet is read next")
            pos = len(all_)
        elif what == "seek":
            pos = vc.choice("where %d" % k, [0, 1, 2, 7])
            pos = min(pos, len(all_))
            h.seek(pos, 0)
        else:
            (h.seek_start if what == "start" else h.seek_end)()
            pos = 0 if what == "start" else len(all_)
    h.seek_start()
    vc.check("".join(h.readlines()) == all_, "everything that was logged is there, once and in order")
    vc.reach("behind")
    vc.reach("at the end")


# ---------------------------------------------------------------- colours

def coloured(vc):
    """The message and level name are those of the record, in the colour of its level; the record is left as it was."""
    M = vc.module(ANSI)
    azure = vc.bool("azure")
    f = M.ColoredFormatter("%(levelname)s|%(message)s", azure)
    name = vc.choice("level", sorted(LEVELS) + ["NOTSET", "Level 7"])
    no = vc.int("levelno", 0, 60)
    fails = vc.bool("cannot be formatted")
    t = vc.text("message", "", neg=True, gen=lambda r: "".join(r.choice("ab \n\033%[3m") for _ in range(r.randint(0, 6))))
    if not vc.symbolic:
        t = t.replace("%", "")
    msg = Said(t) if not vc.symbolic and vc.bool("not a text") else t
    rec = logging.makeLogRecord({"levelno": no, "levelname": name, "msg": msg})
    seen = []
    if vc.symbolic:
        class Fmt(Ghost):
            def format(self, me, r):
                seen.append((r.levelname, r.msg))
                if fails:
                    raise TypeError("not all arguments converted")
                return scat(r.levelname, "|", r.msg)

        class Logging(Ghost):
            WARNING = 30
            Formatter = Fmt()
        vc.patch(M, "logging", Logging())
    elif fails:
        rec.args = (1, 2, 3)
    ok, r = outcome(f.format, rec)
    vc.check(AND(rec.levelname == name, rec.msg is msg or rec.msg == msg, rec.levelno == no), "the record is left as it was")
    vc.check(ok != fails, "an error is passed on")
    if not ok:
        vc.reach("error")
        return
    if azure:
        want = scat(AZURE.get(name, name), "|", t)
    elif name not in LEVELS:
        want = scat(name, "|", t)
    elif bool(no < 30):
        want = scat("\033[%dm%s" % (LEVELS[name], name), RESET, "|", t)
    else:
        want = scat("\033[%dm%s|" % (LEVELS[name], name), t, RESET)
    vc.check(r == want, "level name and message in the level's colour")
    vc.reach("azure" if azure else "coloured")


class Said:
    """A message that is no text."""

    def __init__(self, t):
        self.t = t

    def __str__(self):
        return self.t


def codes(vc):
    """A colour's control sequence is the colour's; any other number is the default colour."""
    M = vc.module(ANSI)
    known = {v for k, v in vars(M.AnsiColor).items() if isinstance(v, int)}
    want = set(range(30, 38)) | {39} | set(range(90, 98)) | set(range(40, 48)) | {49} | set(range(100, 108))
    vc.check(known == want, "the colours are those of ECMA-48 and the bright ones")
    for k in range(-2, 256):
        vc.check(M.get_ansi_string(k) == ("\033[%dm" % k if k in want else RESET), "code %d" % k)
    vc.check(M.get_ansi_string() == RESET, "the default")
    vc.reach("codes")


# ---------------------------------------------------------------- removing control sequences

class Sink(Ghost):
    """A stream that is no terminal."""
    vc_ghost = True

    def __init__(self, tty=False):
        self.text, self.flushed, self.tty, self.closed = "", 0, tty, False

    def __bool__(self):
        return True

    def isatty(self):
        return self.tty

    def write(self, t):
        self.text = self.text + t

    def flush(self):
        self.flushed += 1


def removed(vc):
    """Of a text with any number of control sequences, everything else is written, in order."""
    if not vc.symbolic:
        return written(vc)
    M = vc.module(ANSI)
    n = vc.int("sequences", 0)
    t = vc.text("text", "", neg=True)
    size = t.vc_len()
    start, end = z3.Function("start", z3.IntSort(), z3.IntSort()), z3.Function("end", z3.IntSort(), z3.IntSort())
    groups = vc.text("params", "0123456789;"), vc.text("command", "m", 1, 1)

    def facts(vc, i):
        """Matches follow one another within the text."""
        z = zint(i)
        vc.add(z3.Implies(z3.And(z >= 0, z < n.z), z3.And(start(z) >= 0, start(z) < end(z), end(z) <= zint(size))))
        vc.add(z3.Implies(z3.And(z >= 1, z < n.z), z3.And(end(z - 1) <= start(z), start(z - 1) >= 0, start(z - 1) < end(z - 1))))
        vc.add(z3.Implies(z3.And(z >= 1, z == n.z), z3.And(start(z - 1) >= 0, start(z - 1) < end(z - 1), end(z - 1) <= zint(size))))

    class Match(Ghost):
        def __init__(self, k):
            self.k = k

        def span(self, *a):
            facts(vc, self.k)
            return mkint(start(zint(self.k))), mkint(end(zint(self.k)))

        def start(self, *a):
            return self.span()[0]

        def end(self, *a):
            return self.span()[1]

        def groups(self):
            return groups

    class Re(Ghost):
        def finditer(self, x):
            vc.check(x is t, "the text is searched")
            return SymList(n.z, Match)
    vc.patch(M.ColoredStreamHandler, "ANSI_CSI_RE", Re())
    out = Sink()
    h = object.__new__(M.ColoredStreamHandler)
    h.stream, h.strip, h.convert, h.win32_calls = out, True, vc.bool("convert"), None
    h.flush = out.flush

    def last(i):
        """End of the sequence before number i."""
        if not vc.branch(zint(i) > 0):
            return 0
        return mkint(end(zint(i) - 1))

    def piece(k):
        a, b = last(k), start(zint(k))
        facts(vc, k)
        if vc.branch(zint(a) < b):
            return t[a:mkint(b)]
        return ""
    fold = Fold("pieces", piece).vc_register(vc)

    def cursor(vc, i, L):
        facts(vc, i)
        return {"cursor": last(i)}
    vc.contract(ANSI + ":ColoredStreamHandler.write_and_convert#0",
                Indexed("pieces", cursor, n.z, facts=facts, heap=lambda vc, i, L: [(out, "text", fold.upto(i)), (out, "flushed", L["self"].stream.flushed)]))
    facts(vc, 0)
    facts(vc, n)
    h.write(t)
    a = last(n)
    tail = t[a:size] if vc.branch(zint(a) < zint(size)) else ""
    want = FoldStr(list(fold.upto(n).parts) + list(SymStr.of(tail)))
    vc.check(want == out.text, "everything between the sequences is written, once and in order")
    vc.reach("removed")


def bare(t):
    """The text without control sequences: ESC [ digits and semicolons, a letter, perhaps between the marks readline wants."""
    out, i = "", 0
    while i < len(t):
        j = i + (t[i] == "\1")
        if t[j:j + 2] == "\033[":
            k = j + 2
            while k < len(t) and (t[k].isdecimal() or t[k] == ";"):
                k += 1
            if k < len(t) and t[k] in "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ":
                i = k + 1 + (t[k + 1:k + 2] == "\2")
                continue
        out, i = out + t[i], i + 1
    return out


def written(vc):
    """Random texts through the handler's own pattern, by emit()."""
    M = vc.module(ANSI)
    out = io.StringIO()
    strip = vc.choice("strip", [True, True, None, False])
    convert = vc.choice("convert", [False, None, True])
    h = M.ColoredStreamHandler(out, strip=strip, convert=convert)
    want = ""
    for k in range(vc.choice("records", [1, 2, 4])):
        t = vc.text("text %d" % k, "", neg=True, gen=lambda r: "".join(r.choice(["\033[", "\033", "\1", "\2", "31", ";", "m", "a", "[", " ", "\033[0m", "x\n", "\033[39m"]) for _ in range(r.choice([0, 1, 3, 6, 12]))))
        h.handle(logging.makeLogRecord({"levelno": 20, "msg": t.replace("%", "")}))
        t = t.replace("%", "")
        want += (t if strip is False and not convert else bare(t)) + "\n"
    vc.check(out.getvalue() == want, "the text, without the control sequences where they are to be removed")
    vc.reach("removed")


def emitted(vc):
    """A record is written as it is formatted, with its sequences only if they are not to be removed; a failure is handed to handleError."""
    M = vc.module(ANSI)
    tty = vc.bool("terminal")
    strip, convert = vc.choice("strip", [None, True, False]), vc.choice("convert", [None, False])
    out = Sink(tty)
    h = M.ColoredStreamHandler(out, strip=strip, convert=convert)
    vc.check(h.strip == (not tty if strip is None else strip), "sequences are removed if asked for, or the stream is no terminal")
    vc.check(not h.convert, "nothing is converted")
    rec = logging.makeLogRecord({"levelno": 20})
    t = vc.text("message", "\1\033", neg=True)
    colour = vc.choice("sequence", ["", "\033[31m", "\033[0;1;31m", "\1\033[m\2"])
    what = vc.choice("fails", ["", "", "format"])
    errors = []
    h.handleError = errors.append

    def form(r):
        vc.check(r is rec, "the record is formatted")
        if what:
            raise ValueError("x")
        return scat(t, colour)
    h.format = form
    if vc.symbolic and h.strip:
        class Re(Ghost):
            def finditer(self, x):
                if isinstance(x, str):
                    return REAL.finditer(x)
                if not colour:
                    return iter(())
                vc.check(x == scat(t, colour), "the text is searched")
                n = t.vc_len()

                class Match(Ghost):
                    def span(self, *a):
                        return n, n + len(colour)

                    def groups(self):
                        return REAL.fullmatch(colour).groups()
                return iter([Match()])
        REAL = M.ColoredStreamHandler.ANSI_CSI_RE
        vc.patch(M.ColoredStreamHandler, "ANSI_CSI_RE", Re())
    ok, e = outcome(h.emit, rec)
    vc.check(ok, "logging does not fail")
    if what:
        vc.check(errors == [rec] and out.text == "", "a failure is reported, and nothing written")
        vc.reach("failure")
        return
    vc.check(not errors, "no failure")
    vc.check(out.text == scat(t, "" if h.strip else colour, "\n"), "the record is written, on a line of its own")
    vc.check(out.flushed > 0, "and flushed")
    vc.reach("stripped" if h.strip else "as it is")


def files(vc):
    """Logging to a real file."""
    M = vc.module(FILE)
    d = tempfile.mkdtemp(prefix="c29")
    try:
        p = os.path.join(d, "log.txt")
        old = vc.choice("old", ["", "old\n"])
        with open(p, "w") as f:
            f.write(old)
        mode = vc.choice("mode", ["default", "w", "a"])
        h = M.FileHandler(p) if mode == "default" else M.FileHandler(p, mode)
        h.setLevel(vc.choice("level", [0, 20, 40]))
        want = old if mode == "a" else ""
        for k in range(vc.choice("records", [0, 1, 3, 6])):
            t = vc.text("text %d" % k, "", neg=True, gen=lambda r: "".join(r.choice("ab \u00e9\u4e2d") for _ in range(r.randint(0, 6)))).replace("%", "").replace("\r", "")
            lv = vc.choice("levelno %d" % k, [10, 20, 30, 50])
            h.handle(logging.makeLogRecord({"levelno": lv, "msg": t}))
            if lv >= h.level:
                want += t + "\n"
        h.close()
        with open(p, encoding="utf-8", newline="") as f:
            vc.check(f.read() == want, "the file holds the records of the level, in order")
        vc.reach("files")
    finally:
        shutil.rmtree(d)


HARNESSES = [
    H("handled", handled, "a record is emitted, under the lock, exactly if the filters pass it and it is of the level", runs=300, must_reach=["emitted", "not emitted"]),
    H("appended", appended, "a record is added at the end of a string handler's stream, wherever that has been sought to", runs=300, must_reach=["behind", "at the end"]),
    H("coloured", coloured, "a record is formatted in its level's colour and left as it was", runs=300, must_reach=["azure", "coloured", "error"]),
    H("codes", codes, "the control sequences of all colours, and of all other numbers up to 255", must_reach=["codes"]),
    H("removed", removed, "of a text with any number of control sequences, everything else is written", runs=400, must_reach=["removed"]),
    H("emitted", emitted, "a record is written with its sequences only if they are not to be removed", runs=200, must_reach=["stripped", "as it is", "failure"]),
    H("files", files, "random records to a file", runs=100, symbolic=False, must_reach=["files"], why_bounded="files are the operating system's; what the handler itself decides is proved in `handled`"),
]
