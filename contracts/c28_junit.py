import os
import re
import shutil
import tempfile
import xml.etree.ElementTree as ET

import z3

from contracts.base import H
from contracts.c27_inf import Ghost, each
from pyvc import mapped
from pyvc.core import Unsupported
from pyvc.fold import Fold, FoldStr
from pyvc.lists import Indexed, SymList
from pyvc.sym import SymStr, mkint, zint
from pyvc.text import WS
from pyvc.util import AND, fmt, outcome, scat

ID = "C28"
LEVEL = "proof"
TRUSTED = ["xml.sax.saxutils.escape, str.replace and re.sub replace character by character (the former's code runs on the unknown texts)", "io.StringIO and files keep what is written",
           "a test suite's clock is time.time"]
ASSUMPTIONS = ["identifiers and texts are Python strings of any characters"]
EXPLANATION = ("What is written is read back by a small XML reader that decides, for every character, how it comes back from the escapes made of it; texts are of any content and length. Reports of any number of "
               "suites and test cases are covered by contracts on the loops that write and count them. The reader itself is compared with expat on random reports.")
J = "edk2toollib.log.junit_report_format"
NOT_XML = frozenset(c for c in mapped.ALL if not (c in "\t\n\r" or " " <= c <= "\ud7ff" or "\ue000" <= c <= "\ufffd" or c >= "\U00010000"))
HARD = "\t\n\r&<>\"'\0\x08\x1b\x1f\x85\ufffe\ufffd\ud800\U0001f600]; é"
NEW, SKIPPED, FAILED, ERROR, SUCCESS = 1, 2, 3, 4, 5


# ---------------------------------------------------------------- the reader

class Bad(Exception):
    """Not well-formed."""


ENTITY = re.compile("&(?:#([0-9]+)|#x([0-9a-fA-F]+)|(amp|lt|gt|quot|apos));")


def plain(t, attr):
    """What a parser makes of a text without unknown parts."""
    out, i = "", 0
    while i < len(t):
        c = t[i]
        if c == "&":
            m = ENTITY.match(t, i)
            if not m:
                raise Bad("reference")
            d, x, n = m.groups()
            r = chr(int(d)) if d else chr(int(x, 16)) if x else {"amp": "&", "lt": "<", "gt": ">", "quot": '"', "apos": "'"}[n]
            if r in NOT_XML:
                raise Bad("reference to a character that no XML document holds")
            out += r
            i = m.end()
            continue
        if c == "<" or c in NOT_XML:
            raise Bad("character")
        if c == "\r":
            c = "\n"
            if t[i + 1:i + 2] == "\n":
                i += 1
        out += " " if attr and c in "\t\n" else c
        i += 1
    return out


def decoded(t, attr):
    """What a parser makes of a text of an element or attribute."""
    if isinstance(t, str):
        return plain(t, attr)
    out = []
    for p in t.parts:
        if isinstance(p, str):
            out.append(plain(p, attr))
        elif p[0] == "int":
            out.append(p)
        else:
            base, images = mapped.root(p)
            new = {c: plain(v, attr) for c, v in images.items()}
            for c in set("&<\t\n\r") | NOT_XML:
                if c not in images and base.cs.has(c):
                    new[c] = plain(c, attr)
            out.append(mapped.image(base.part(), lambda c: new.get(c, c), new))
    return SymStr(out) if any(not isinstance(x, str) for x in out) else "".join(out)


def element(t):
    """(tag, attributes, children and texts) of the element the text begins with, and what follows it."""
    if not bool(t[:1] == "<"):
        raise Bad("start")
    t = t[1:]
    tag, attrs = "", []
    while bool(t[:1] not in (" ", ">", "/")):
        tag, t = tag + t[:1], t[1:]
    while True:
        t = t.lstrip(" ") if isinstance(t, str) or isinstance(t.parts[0], str) else t
        if t[:1] == ">":
            t = t[1:]
            break
        if t[:2] == "/>":
            return (tag, attrs, []), t[2:]
        name, eq, t = t.partition('="')
        value, end, t = t.partition('"')
        if not isinstance(name, str) or not eq or not end:
            raise Bad("attribute")
        attrs.append((name, decoded(value, True)))
    inner = []
    while True:
        text, lt, rest = t.partition("<")
        if not lt:
            raise Bad("end")
        if isinstance(text, SymStr) or text:
            inner.append(decoded(text, False))
        t = scat("<", rest)
        if t[:2] == "</":
            close = scat("</", tag, ">")
            if t[:len(close)] != close:
                raise Bad("end tag")
            return (tag, attrs, inner), t[len(close):]
        x, t = element(t)
        inner.append(x)


def document(vc, t):
    """The root element."""
    decl = '<?xml version="1.0" encoding="UTF-8"?>'
    try:
        if t[:2] == "<?":
            vc.check(t[:len(decl)] == decl, "the declaration")
            t = t[len(decl):]
        x, rest = element(t)
    except Bad as e:
        vc.check(False, "the report is well-formed (%s)" % e)
        raise Unsupported("not well-formed")
    vc.check(rest == "", "nothing follows the root")
    return x


def text_of(x):
    return scat(*[y for y in x[2] if isinstance(y, (str, SymStr))])


def kids(x):
    return [y for y in x[2] if isinstance(y, tuple)]


def attr(vc, x, name):
    got = [v for n, v in x[1] if n == name]
    vc.check(len(got) == 1, "%s has one %s" % (x[0], name))
    return got[0]


# ---------------------------------------------------------------- texts

def safe(t):
    """The text, as far as XML can hold it."""
    if isinstance(t, str):
        return "".join("\ufffd" if c in NOT_XML else c for c in t)
    return mapped.each_char(t, lambda c: "\ufffd" if c in NOT_XML else c, NOT_XML)


def words(vc, name, full=True):
    """A text with blanks around it, and the text."""
    if not vc.symbolic:
        t = vc.text(name, "", neg=True, gen=lambda r: "".join(r.choice(r.choice([HARD, "ab<&", 'xy"\'', "a b\n"])) for _ in range(r.choice([0, 1, 2, 5, 9]))))
        return t, t.strip()
    vc.charwise = True
    if not full:
        t = scat(vc.text(name, WS, 1, 1, neg=True))
        return t, t
    t = scat(vc.text(name + " first", WS, 1, 1, neg=True), vc.text(name, "", neg=True), vc.text(name + " last", WS, 1, 1, neg=True))
    return scat(vc.text(name + " before", WS), t, vc.text(name + " after", WS)), t


class Stream(Ghost):
    """What is written."""
    vc_ghost = True

    def __init__(self, text=""):
        self.text = text

    def write(self, t):
        self.text = self.text + t

    def getvalue(self):
        return self.text


class Clock(Ghost):
    """time.time() of a test that takes a number of seconds."""
    vc_ghost = True

    def __init__(self, vc):
        self.ticks, self.vc = [], vc

    def time(self):
        t = self.vc.int("clock %d" % len(self.ticks), 0) + (self.ticks[-1] if self.ticks else 0)
        self.ticks.append(t)
        return t


def seconds(vc, x, clock):
    t = attr(vc, x, "time")
    if vc.symbolic:
        vc.check(t == fmt(clock.ticks[-1] - clock.ticks[0]), "the time is that from the start to the result")
    else:
        vc.check(0 <= float(t) < 600, "the time is in seconds")


# ---------------------------------------------------------------- test cases

def finish(vc, case, how):
    """Give a test case its result; returns (message, type) if it has them."""
    if how in (FAILED, ERROR):
        m, mt = words(vc, "message")
        k, kt = words(vc, "type")
        vc.check((case.SetFailed if how == FAILED else case.SetError)(m, k) is None, "the result is taken")
        return mt, kt
    (case.SetSuccess if how == SUCCESS else case.SetSkipped)()
    return None


def check_case(vc, x, name, cls, how, what, out, err):
    vc.check(x[0] == "testcase" and AND(attr(vc, x, "name") == safe(name), attr(vc, x, "classname") == safe(cls)), "the test case has the names given")
    vc.check(len(x[1]) == 3, "and its time")
    by = {}
    for k in kids(x):
        by.setdefault(k[0], []).append(k)
    vc.check(sorted(by) == sorted(["system-out", "system-err"] + {SKIPPED: ["skipped"], FAILED: ["failure"], ERROR: ["error"], SUCCESS: []}[how]) and all(len(v) == 1 for v in by.values()),
             "the result is the one set, and output and errors are there")
    vc.check(text_of(by["system-out"][0]) == out, "the output is what was logged")
    vc.check(text_of(by["system-err"][0]) == err, "the errors are what was logged")
    if how in (FAILED, ERROR):
        r = by["failure" if how == FAILED else "error"][0]
        vc.check(AND(attr(vc, r, "message") == safe(what[0]), attr(vc, r, "type") == safe(what[1])), "message and type are those given")


def one_case(vc):
    """A test case of any names, messages and output is read back as it was recorded."""
    M = vc.module(J)
    clock = None
    if vc.symbolic:
        clock = Clock(vc)
        vc.patch(M, "time", clock)
    n, nt = words(vc, "name")
    c, ct = words(vc, "class")
    case = M.JunitReportTestCase(n, c)
    how = vc.choice("result", [SKIPPED, FAILED, ERROR, SUCCESS])
    what = finish(vc, case, how)
    out, err = "", ""
    if how in (SKIPPED, SUCCESS):
        for k in range(2):
            for method, w in ((case.LogStdOut, "out"), (case.LogStdError, "err")):
                t, tt = words(vc, "%s %d" % (w, k))
                method(t)
                if w == "out":
                    out = scat(out, safe(tt), "\n ")
                else:
                    err = scat(err, safe(tt), "\n ")
    s = Stream()
    case.Output(s)
    x = document(vc, s.text)
    check_case(vc, x, nt, ct, how, what, out, err)
    seconds(vc, x, clock)
    vc.reach("result %d" % how)


def logged(vc):
    """A message is added to whatever was logged before."""
    M = vc.module(J)
    case = M.JunitReportTestCase("n", "c")
    before = vc.text("before", '<&', neg=True) if vc.symbolic else vc.choice("before", ["", "x\n "])
    case.StdOut = case.StdErr = before
    err = vc.bool("err")
    t, tt = words(vc, "text")
    (case.LogStdError if err else case.LogStdOut)(t)
    got, other = (case.StdErr, case.StdOut) if err else (case.StdOut, case.StdErr)
    vc.check(other == before, "the other one is as it was")
    vc.check(got[:len(before)] == before if isinstance(before, str) else got.parts[0] == before.parts[0], "what was logged stays")
    rest = got[len(before):] if isinstance(before, str) else SymStr(got.parts[1:])
    try:
        vc.check(decoded(rest, False) == scat(safe(tt), "\n "), "the message follows, on a line of its own")
    except Bad:
        vc.check(False, "the message can be read")
    vc.reach("logged")


def states(vc):
    """The first result set stays; a second one is refused, and a test case without one cannot be written."""
    M = vc.module(J)
    case = M.JunitReportTestCase("n", "c")

    def put(w, tag):
        return outcome(*[(case.SetSuccess,), (case.SetSkipped,), (case.SetFailed, "m" + tag, "t"), (case.SetError, "m" + tag, "t")][w])
    if vc.bool("none"):
        s = Stream()
        vc.check(not outcome(case.Output, s)[0], "a test case without a result cannot be written")
        vc.reach("none")
        return
    a = vc.choice("first", [0, 1, 2, 3])
    vc.check(put(a, "1")[0], "a result is taken")
    s = Stream()
    case.Output(s)
    for _ in range(1 if vc.symbolic else vc.choice("times", [1, 2, 4])):
        vc.check(not put(vc.choice("second %d" % _, [0, 1, 2, 3]), "2")[0], "a second one is refused")
    s2 = Stream()
    case.Output(s2)
    vc.check(s.text == s2.text, "and the first one stays")
    vc.reach("again")


# ---------------------------------------------------------------- suites and reports

class Case(Ghost):
    """A test case that writes itself."""
    vc_ghost = True

    def __init__(self, status, body):
        self.Status, self.body = status, body

    def Output(self, s):
        s.write(self.body)


def suite(vc):
    """A suite of any number of test cases writes each, and how many there are of each result."""
    if not vc.symbolic:
        return whole(vc)
    M = vc.module(J)
    n = vc.int("cases", 0)
    nm, nt = words(vc, "name")
    pk, pt = words(vc, "package")
    ident = vc.int("id", 0)
    s = M.JunitReportTestSuite(nm, pk, ident)
    status = z3.Function("status", z3.IntSort(), z3.IntSort())
    count = {k: z3.Function("count %d" % k, z3.IntSort(), z3.IntSort()) for k in (SKIPPED, FAILED, ERROR)}
    cases = each(lambda k: Case(None, scat("<testcase ", vc.text("case %s" % k, "<>", neg=True), "/>")))

    def facts(vc, i):
        z = zint(i)
        vc.add(z3.And(status(z) >= SKIPPED, status(z) <= SUCCESS))
        for k, f in count.items():
            vc.add(f(0) == 0)
            vc.add(f(z) >= 0)
            vc.add(f(z + 1) == f(z) + z3.If(status(z) == k, 1, 0))

    def at(i):
        c = cases(i)
        c.Status = mkint(status(zint(i)))
        return c
    s.TestCases = SymList(n.z, at)
    body = Fold("cases", lambda k: cases(k).body).vc_register(vc)
    O = J + ":JunitReportTestSuite.Output"
    vc.contract(O + "#0", Indexed("count", lambda vc, i, L: {"Errors": mkint(count[ERROR](zint(i))), "Failures": mkint(count[FAILED](zint(i))), "Skipped": mkint(count[SKIPPED](zint(i)))}, n.z, facts=facts))
    start = {}
    vc.contract(O + "#1", Indexed("cases", lambda vc, i, L: {}, n.z, facts=facts,
                                  heap=lambda vc, i, L: [(L["outstream"], "text", body.upto(i, start.setdefault(0, L["outstream"].text)))]))
    out = Stream()
    facts(vc, 0)
    facts(vc, n)
    s.Output(out)
    head = start[0]
    vc.check(ends(body, n, head, "</testsuite>", out.text), "every test case once and in order, and the end of the suite")
    x = document(vc, scat(head, "</testsuite>"))
    vc.check(x[0] == "testsuite" and AND(attr(vc, x, "name") == safe(nt), attr(vc, x, "package") == safe(pt)), "the suite has the names given")
    vc.check(attr(vc, x, "id") == fmt(ident), "its number")
    for k, w in ((SKIPPED, "skipped"), (FAILED, "failures"), (ERROR, "errors")):
        vc.check(attr(vc, x, w) == fmt(mkint(count[k](zint(n)))), "the number of %s" % w)
    vc.check(attr(vc, x, "tests") == fmt(n), "the number of test cases")
    vc.check(not kids(x), "and nothing else")
    vc.reach("suite")


def ends(fold, n, head, tail, got):
    return FoldStr(list(fold.upto(n, head).parts) + [tail]) == got


class Suite(Ghost):
    vc_ghost = True

    def __init__(self, body):
        self.body = body

    def Output(self, s):
        s.write(self.body)


def report(vc):
    """A report of any number of suites is the suites in order, in a file; nothing is written if one of them cannot be."""
    if not vc.symbolic:
        return whole(vc)
    M = vc.module(J)
    n = vc.int("suites", 0)
    r = M.JunitTestReport()
    suites = each(lambda k: Suite(scat("<testsuite ", vc.text("suite %s" % k, "<>", neg=True), "/>")))
    r.TestSuites = SymList(n.z, lambda k: suites(k))
    body = Fold("suites", lambda k: suites(k).body).vc_register(vc)
    files = []

    class File(Stream):
        def __init__(self):
            self.text, self.closed = "", False

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

        def close(self):
            self.closed = True

    def opened(path, mode="r", encoding=None, **k):
        vc.check(path == "report.xml" and mode == "w" and encoding.lower() == "utf-8", "the file asked for is written, in UTF-8")
        files.append(File())
        return files[-1]

    class Io(Ghost):
        StringIO = Stream
    vc.patch(M, "open", opened)
    if hasattr(M, "io"):
        vc.patch(M, "io", Io())
    start = {}
    broken = vc.bool("one cannot be written")
    bad = vc.int("which", 0) if broken else None
    vc.contract(J + ":JunitTestReport.Output#0", Indexed("suites", lambda vc, i, L: {}, n.z, inv=lambda vc, i: [bad >= i] if broken else [], heap=lambda vc, i, L: [(L["f"], "text", body.upto(i, start.setdefault(0, L["f"].text)))]))
    if broken:
        vc.assume(bad < n)

        class Broken(Suite):
            def Output(self, s):
                s.write("<half")
                raise RuntimeError("no result")
        r.TestSuites = SymList(n.z, lambda k: Broken("") if vc.branch(zint(k) == bad.z) else suites(k))
        ok, e = outcome(r.Output, "report.xml")
        vc.check(not ok and not files, "nothing is written before all are known to be complete")
        vc.reach("broken")
        return
    r.Output("report.xml")
    vc.check(len(files) == 1 and files[0].closed, "one file is written and closed")
    vc.check(start[0][-12:] == "<testsuites>", "the suites are in the root")
    x = document(vc, scat(start[0], "</testsuites>"))
    vc.check(x[0] == "testsuites" and not kids(x), "the root is testsuites")
    vc.check(ends(body, n, start[0], "</testsuites>", files[0].text), "every suite once and in order, and the end of the report")
    vc.reach("report")


def made(vc):
    """Suites are numbered in order, and suites and test cases are those that were created."""
    M = vc.module(J)
    r = M.JunitTestReport()
    n = vc.choice("suites", [0, 1, 2, 3])
    for k in range(n):
        nm, nt = words(vc, "name %d" % k, False)
        s = r.create_new_testsuite(nm, "p")
        vc.check(len(r.TestSuites) == k + 1 and r.TestSuites[k] is s and s.TestId == k, "the suites are numbered in order")
        a = [s.create_new_testcase("t%d" % i, "c") for i in range(k)]
        vc.check(len(s.TestCases) == k and all(x is y for x, y in zip(s.TestCases, a)), "the test cases are those created")
        out = Stream()
        for c in a:
            c.SetSuccess()
        s.Output(out)
        x = document(vc, out.text)
        vc.check(attr(vc, x, "name") == safe(nt) and attr(vc, x, "tests") == str(k) and len(kids(x)) == k, "and are written")
    vc.reach("made")


def tree(e):
    return (e.tag, sorted(e.attrib.items()), [x for c in e for x in [tree(c), c.tail or ""]], e.text or "")


def mine(x):
    """The reader's result in the same form."""
    first, rest, cur = "", [], None
    for y in x[2]:
        if isinstance(y, tuple):
            rest += [mine(y), ""]
        elif rest:
            rest[-1] += y
        else:
            first += y
    return (x[0], sorted(x[1]), rest, first)


def whole(vc):
    """A whole report is read back by expat."""
    M = vc.module(J)
    r = M.JunitTestReport()
    want, late = [], []
    for k in range(1 if vc.symbolic else vc.choice("suites", [0, 1, 1, 2, 4])):
        nm, nt = words(vc, "suite %d" % k)
        pk, pt = words(vc, "package %d" % k)
        s = r.create_new_testsuite(nm, pk)
        cases = []
        for i in range(1 if vc.symbolic else vc.choice("cases %d" % k, [0, 1, 2, 3, 5])):
            q = "%d.%d " % (k, i)
            (n, nt2), (c, ct) = words(vc, q + "name"), words(vc, q + "class")
            case = s.create_new_testcase(n, c)
            how = vc.choice(q + "result", [SKIPPED, FAILED, ERROR, SUCCESS])
            out = err = ""
            for j in range(vc.choice(q + "logs", [0, 0, 1, 2, 3])):
                t, tt = words(vc, q + "log %d" % j)
                if vc.bool(q + "err %d" % j):
                    case.LogStdError(t)
                    err += safe(tt) + "\n "
                else:
                    case.LogStdOut(t)
                    out += safe(tt) + "\n "
            m, mt = words(vc, q + "message")
            y, yt = words(vc, q + "type")
            late.append((case, how, m, y))
            cases.append((nt2, ct, how, (mt, yt), out, err))
        want.append((nt, pt, cases))
    missing = late and not vc.symbolic and vc.choice("missing", [0, 0, 0, 1])
    for k, (case, how, m, y) in enumerate(late):
        if missing and k == len(late) // 2:
            continue
        {SKIPPED: case.SetSkipped, SUCCESS: case.SetSuccess, FAILED: lambda: case.SetFailed(m, y), ERROR: lambda: case.SetError(m, y)}[how]()
    d = tempfile.mkdtemp(prefix="c28")
    try:
        p = os.path.join(d, "r.xml")
        old = vc.choice("there before", [None, "old"])
        if old:
            with open(p, "w") as f:
                f.write(old)
        ok, e = outcome(r.Output, p)
        if missing:
            vc.check(not ok, "a report with a test case that has no result is refused")
            vc.check(os.path.exists(p) == bool(old) and (not old or open(p).read() == old), "and the file is left as it was")
            vc.reach("missing")
            return
        vc.check(ok, "the report is written")
        with open(p, encoding="utf-8", newline="") as f:
            text = f.read()
    finally:
        shutil.rmtree(d)
    x = document(vc, text)
    try:
        root = tree(ET.fromstring(text.encode("utf-8")))
    except ET.ParseError:
        vc.check(False, "the report is well-formed")
        return
    vc.check(mine(x) == root, "the reader reads what expat reads")
    vc.check(x[0] == "testsuites" and len(kids(x)) == len(want), "every suite")
    for k, (s, (nt, pt, cases)) in enumerate(zip(kids(x), want)):
        vc.check(s[0] == "testsuite" and attr(vc, s, "name") == safe(nt) and attr(vc, s, "package") == safe(pt) and attr(vc, s, "id") == str(k), "the suite has the names given")
        vc.check(len(kids(s)) == len(cases) and attr(vc, s, "tests") == str(len(cases)), "every test case")
        for h, w in ((SKIPPED, "skipped"), (FAILED, "failures"), (ERROR, "errors")):
            vc.check(attr(vc, s, w) == str(sum(c[2] == h for c in cases)), "the number of %s" % w)
        for t, (nt2, ct, how, what, out, err) in zip(kids(s), cases):
            check_case(vc, t, nt2, ct, how, what, out, err)
            seconds(vc, t, None)
    vc.reach("whole")


HARNESSES = [
    H("one_case", one_case, "a test case of any names, messages and output is read back as it was recorded", runs=400, must_reach=["result %d" % k for k in (2, 3, 4, 5)]),
    H("logged", logged, "a message is added to whatever was logged before", runs=200, must_reach=["logged"]),
    H("states", states, "the first result set stays, and a test case without one is not written", must_reach=["none", "again"]),
    H("suite", suite, "any number of test cases are written once and counted by their results", must_reach=["suite"]),
    H("report", report, "any number of suites are written once, and nothing if one of them cannot be", must_reach=["report", "broken"]),
    H("made", made, "suites and test cases are those created, up to three suites", must_reach=["made"]),
    H("whole", whole, "random reports are read by expat as they were recorded", runs=300, symbolic=False, must_reach=["whole", "missing"],
      why_bounded="expat is no Python code; random reports of up to four suites compare it with the reader of the proofs"),
]
