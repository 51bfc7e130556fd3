import datetime
import os
import re
import shutil
import string
import tempfile
import uuid

from contracts.base import H
from contracts.routes import LogDict, Rec
from pyvc.core import Unsupported
from pyvc.fold import Fold
from pyvc.lists import Indexed, SymList
from pyvc.sym import SymStr
from pyvc.text import to_int
from pyvc.util import AND, NOT, OR, fmt, outcome, scat

ID = "C27"
LEVEL = "proof"
TRUSTED = ["Inf2Cat reads the INF as the reference reader does; it writes the catalogue it announces", "datetime.date.strftime, uuid.UUID"]
ASSUMPTIONS = ["values are single lines; percent signs mean nothing in them", "tags and file names differ by more than case", "POSIX paths"]
EXPLANATION = ("The text made is read back with a reader written from the INF syntax, and compared with what was asked for, for texts of any content. The sections of any number of firmwares, their files and "
               "strings are covered by contracts on the loops that put the text together, and adding a firmware is proved over arbitrary earlier ones. Random whole files cross-check.")
ONE, TWO, CAT = ("edk2toollib.windows.capsule." + m for m in ("inf_generator", "inf_generator2", "cat_generator"))
NAME = string.ascii_letters + string.digits + "_-"
WORD = string.ascii_letters + string.digits + "_"
FILE = NAME + "."
ARCH = {"amd64": "amd64", "x64": "amd64", "arm": "arm", "arm64": "arm64", "aarch64": "arm64"}
CLASS = "{f2e7dd72-6468-4e36-b6f1-6488f42c1b52}"
FLOOR = "10.0...17134"


# ---------------------------------------------------------------- the reference reader

def item(line):
    """One line of a section: a pair, or its fields."""
    if "=" in line:
        k, _, v = line.partition("=")
        return (k.strip(), v.strip())
    return fields(line)


def fields(v):
    return tuple(x.strip() for x in v.split(","))


def lines(text):
    """(section, None) at its head, and (None, item)."""
    out = []
    for line in text.split("\n"):
        if not line:
            continue
        line = line.strip()
        if not line or line.startswith(";"):
            continue
        if line.startswith("["):
            out.append((line[1:-1] if line.endswith("]") else scat("broken ", line), None))
        else:
            out.append((None, item(line)))
    return out


class Inf:
    """The sections of a text and their lines."""

    def __init__(self, vc, text):
        self.vc, self.all = vc, []
        for name, x in lines(text):
            if x is None:
                self.all.append((name, []))
            else:
                vc.check(bool(self.all), "a line belongs to a section")
                self.all[-1][1].append(x)

    def has(self, name):
        return any(n == name for n, _ in self.all)

    def get(self, name, what):
        got = [x for n, x in self.all if n == name]
        self.vc.check(len(got) == 1, "%s: there once" % what)
        return got[0]

    def value(self, sec, key, what):
        got = [x[1] for x in sec if len(x) == 2 and x[0] == key]
        self.vc.check(len(got) == 1, "%s: once" % what)
        return got[0]

    def only(self, sec, n, what):
        self.vc.check(len(sec) == n, "%s: nothing else in it" % what)


def same(x, y):
    if isinstance(x, tuple) or isinstance(y, tuple):
        return type(x) is type(y) and len(x) == len(y) and AND(*([True] + [same(a, b) for a, b in zip(x, y)]))
    return x == y


def quoted(vc, name, yes):
    """A value with up to two quotation marks in it, and as an INF spells it."""
    def part(k):
        return vc.text("%s %s" % (name, k), '\n\r"\v\f\x1c\x1d\x1e\x85\u2028\u2029', neg=True)
    a = part("text")
    if not yes:
        return a, scat('"', a, '"')
    b = part("rest")
    return scat(a, '"', b, '"'), scat('"', a, '""', b, '"""')


def guid(vc, name):
    g = vc.uuid(name)
    return g.sstr if hasattr(g, "sstr") else str(g)


def number(vc, t):
    """The value of a hexadecimal field."""
    vc.check(t[:2] == "0x", "a number in hexadecimal")
    return to_int(t[2:], 16) if isinstance(t, SymStr) else int(t[2:], 16)


def turn(vc, name, values, k):
    """Option number k of those given; any of them for random data."""
    return values[k % len(values)] if vc.symbolic else vc.choice(name, values)


def version(vc, name, k):
    """A version as text, and its value."""
    v = vc.int(name, 0, 0xFFFFFFFF)
    how = turn(vc, name + " spelling", ["", "x", "X"], k)
    return scat("0x", fmt(v, how)) if how else fmt(v), v


def dotted(vc, name, k=0):
    n = turn(vc, name + " dots", [1, 2, 3], k)
    return scat(*[x for k in range(n + 1) for x in ([".", vc.text("%s %d" % (name, k), string.digits, 1, 5)] if k else [vc.text("%s %d" % (name, k), string.digits, 1, 5)])])


class Out:
    """The file written."""
    vc_ghost = True

    def __init__(self, log):
        self.log = log

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def write(self, t):
        self.log.append(t)


def written(vc, module, path, run):
    """What run(path) writes."""
    if vc.symbolic:
        log = []
        vc.patch(module, "open", lambda p, mode="r", **k: (vc.check(p == path and mode == "w", "the file asked for is written"), Out(log))[1])
        run(path)
        return scat(*log)
    d = tempfile.mkdtemp(prefix="c27")
    try:
        p = os.path.join(d, path)
        run(p)
        with open(p) as f:
            return f.read()
    finally:
        shutil.rmtree(d)


def header(vc, inf, name, ver, date, arch, os_version, provider, maker):
    sec = inf.get("Version", "Version")
    for k, v in [("Signature", '"$WINDOWS NT$"'), ("Class", "Firmware"), ("ClassGuid", CLASS), ("Provider", "%Provider%"), ("DriverVer", scat(date, ",", ver)), ("PnpLockdown", "1"),
                 ("CatalogFile", scat(name, ".cat"))]:
        vc.check(same(inf.value(sec, k, k), v), "%s is as given" % k)
    inf.only(sec, 7, "Version")
    sec = inf.get("Manufacturer", "Manufacturer")
    v = fields(inf.value(sec, "%MfgName%", "the manufacturer"))
    vc.check(len(v) == 2 and v[0] == "Firmware" and v[1].lower() == scat("nt", arch, ".", os_version), "the manufacturer's models are those of the architecture and system version")
    inf.only(sec, 1, "Manufacturer")
    text = inf.get("Strings", "Strings")
    vc.check(AND(inf.value(text, "Provider", "the provider") == provider, inf.value(text, "MfgName", "the manufacturer's name") == maker), "provider and manufacturer are as given, in quotes")
    vc.check(inf.value(text, "REG_DWORD", "REG_DWORD") == "0x00010001", "REG_DWORD is defined")
    vc.check(same(inf.get("DestinationDirs", "DestinationDirs"), []) or same(tuple(inf.get("DestinationDirs", "DestinationDirs")), (("DefaultDestDir", "13"),)), "run from the driver store")
    vc.check(same(tuple(inf.get("SourceDisksNames", "SourceDisksNames")), (("1", "%DiskName%"),)), "the disk")
    return text


def models(inf, arch, os_version):
    """The models section, whatever the case of the architecture."""
    got = [x for n, x in inf.all if bool(n.lower() == scat("firmware.nt", arch, ".", os_version))]
    inf.vc.check(len(got) == 1, "one models section, of the architecture and system version")
    return got[0]


def firmware(vc, inf, model, g, v, payload, integrity, rollback, desc, text):
    """The sections that belong to one line of the models section; returns the number of sections."""
    m = fields(model[1])
    vc.check(len(model) == 2 and len(m) == 2 and m[1] == scat("UEFI\\RES_{", g, "}"), "the model is the firmware resource")
    inst = m[0]
    if text is not None:
        vc.check(model[0][-1:] == "%", "the description is a string")
        vc.check(inf.value(text, model[0][1:-1], "the description") == desc, "the description is as given, in quotes")
    sec = inf.get(scat(inst, ".NT"), "the install section")
    copy = fields(inf.value(sec, "CopyFiles", "CopyFiles"))
    vc.check(len(copy) == 1, "one list of files to copy")
    files = [payload] + ([integrity] if integrity is not None else [])
    got = inf.get(copy[0], "the list of files")
    vc.check(len(got) == len(files) and AND(*[OR(*[same(f, (x,)) for f in got]) for x in files]), "payload and integrity file are copied, and nothing else")
    inf.only(sec, 2 if rollback else 1, "the install section")
    if rollback:
        add = fields(inf.value(sec, "AddReg", "AddReg"))
        vc.check(len(add) == 1, "one policy section")
        pol = inf.get(add[0], "the policy section")
        vc.check(len(pol) == 1 and same(pol[0], ("HKLM", scat("SYSTEM\\CurrentControlSet\\Control\\FirmwareResources\\{", g, "}"), "Policy", "%REG_DWORD%", "1")),
                 "rollback is allowed for the firmware")
    vc.check(same(tuple(inf.get(scat(inst, ".NT.Services"), "the services section")), (("AddService", ",2"),)), "no service")
    hw = inf.get(scat(inst, ".NT.Hw"), "the hardware section")
    add = fields(inf.value(hw, "AddReg", "AddReg of the hardware section"))
    vc.check(len(add) == 1, "one registry section")
    inf.only(hw, 1, "the hardware section")
    reg = inf.get(add[0], "the registry section")

    def one(key, n, what):
        got = [x for x in reg if len(x) == n and x[0] == "HKR" and x[1] == "" and x[2] == key]
        vc.check(len(got) == 1, "%s once" % what)
        return got[0][3:]
    vc.check(same(one("FirmwareId", 5, "the firmware's id"), ("", scat("{", g, "}"))), "the id is the GUID")
    t = one("FirmwareVersion", 5, "the firmware's version")
    vc.check(t[0] == "%REG_DWORD%" and number(vc, t[1]) == v, "the version is the one given")
    vc.check(same(one("FirmwareFilename", 5, "the payload's name"), ("", scat("%13%\\", payload))), "the payload is the file given")
    if integrity is not None:
        vc.check(same(one("FirmwareIntegrityFilename", 5, "the integrity file's name"), ("", scat("%13%\\", integrity))), "the integrity file is the one given")
    inf.only(reg, 3 + (integrity is not None), "the registry section")
    return 6 if rollback else 5


def sources(vc, inf, files):
    got = inf.get("SourceDisksFiles", "SourceDisksFiles")
    vc.check(len(got) == len(files) and AND(*[OR(*[same(f, (x, "1")) for f in got]) for x in files]), "every file once among the source files")


# ---------------------------------------------------------------- inf_generator

def made(vc):
    """An INF of one firmware says what was asked for."""
    G = vc.module(ONE)
    name, payload = vc.text("name", NAME, 1), vc.text("payload", FILE, 1)
    rollback = vc.bool("rollback")
    integrity = vc.text("integrity", FILE, 1) if vc.bool("integrity file") else None
    case = vc.choice("quotes in", ["", "provider", "manufacturer", "description"])

    def value(which):
        return quoted(vc, which, case == which)
    (p, pq), (d, dq) = value("provider"), value("description")
    m, mq = value("manufacturer") if vc.bool("another manufacturer") or case == "manufacturer" else (None, pq)
    if integrity is not None:
        vc.assume(NOT(payload == integrity))
    k = ["", "provider", "manufacturer", "description"].index(case)
    g, dots = guid(vc, "guid"), dotted(vc, "version", k)
    vt, v = version(vc, "number", k)
    arch = turn(vc, "arch", ["x64", "AMD64", "arm", "ARM64", "AArch64"], k + (integrity is None))
    gen = G.InfGenerator(name, p, g, arch, d, dots, vt)
    gen.Date = datetime.date(2024, 2, 9)
    if m is not None:
        gen.Manufacturer = m
    if integrity is not None:
        gen.IntegrityFilename = integrity
    where = turn(vc, "folder", ["", "/out/bin/", "bin/"], k)
    inf = Inf(vc, written(vc, G, "fw.inf", lambda path: vc.check(gen.MakeInf(path, scat(where, payload), rollback) == 0, "success is reported")))
    arch = ARCH[arch.lower()]
    text = header(vc, inf, name, dots, "02/09/2024", arch, FLOOR, pq, mq)
    sec = models(inf, arch, FLOOR)
    vc.check(len(sec) == 1, "one model")
    n = firmware(vc, inf, sec[0], g, v, payload, integrity, rollback, dq, text)
    inf.value(text, "DiskName", "the name of the disk")
    files = [payload] + ([integrity] if integrity is not None else [])
    sources(vc, inf, files)
    vc.check(len(inf.all) == 8 - 1 + n, "no other section")
    vc.reach("rollback" if rollback else "no rollback")
    vc.reach("integrity" if integrity is not None else "no integrity")


def spelled(vc):
    """Architectures and GUIDs in any spelling; names, versions, architectures and GUIDs of no such form are refused."""
    G, T = vc.module(ONE), vc.module(TWO)
    which = vc.choice("which", ["arch", "guid", "name", "number", "dots", "arch refused", "guid refused", "date"])
    good = {"name": "fw", "guid": "3cad7a0c-d35b-4b75-96b1-03a9fb07b7fc", "arch": "x64", "dots": "1.2", "number": "1"}
    two = vc.bool("several")
    fault = False
    if which == "arch":
        t = vc.choice("arch", sorted(ARCH))
        good["arch"] = "".join(c.upper() if vc.bool("upper %d" % i) else c for i, c in enumerate(t))
    elif which == "guid":
        g = good["guid"]
        good["guid"] = vc.choice("guid", [g, g.upper(), "{%s}" % g, g.replace("-", ""), "{%s}" % g.upper(), "urn:uuid:" + g])
    elif which == "name":
        a, c, b = vc.text("a", NAME), vc.choice("char", list("\n .;[]%\"/\\\r\t{}=,+\u2028") + ([] if vc.symbolic else ["\n"] * 9)), ""
        if vc.bool("inside"):
            b = vc.text("b", NAME, 1)
        good["name"], fault = scat(a, c, b), True
    elif which == "number":
        kind = vc.choice("kind", ["range", "big", "negative", "hex negative", "text"])
        v = vc.int("v", 1)
        if kind == "range":
            good["number"] = scat("0x", fmt(v, "x")) if vc.bool("hex") else fmt(v)
            fault = bool(v > 0xFFFFFFFF)
        else:
            good["number"] = {"big": vc.choice("big", ["0x100000000", "4294967296", "0xFFFFFFFFFF"]), "negative": "-" + vc.choice("n", ["1", "4294967295"]), "hex negative": "-0x10",
                              "text": vc.choice("t", ["", "x", "1.2", "0x", "12h", "0xg"])}[kind]
            fault = True
    elif which == "dots":
        n = vc.choice("n", [0, 4, 5])
        good["dots"], fault = ".".join(vc.choice("d%d" % i, ["1", "20"]) for i in range(n + 1)), True
    elif which == "arch refused":
        good["arch"], fault = vc.choice("arch", ["", "ia32", "x86", "x64 ", "x64\n", "arm32", "aarch", "riscv64", "amd", "64"]), True
    elif which == "guid refused":
        good["guid"], fault = vc.choice("guid", ["", "3cad7a0c-d35b-4b75-96b1-03a9fb07b7f", "3cad7a0c-d35b-4b75-96b1-03a9fb07b7fcc", "3cad7a0c-d35b-4b75-96b1-03a9fb07b7fg", "none"]), True

    def one():
        gen = G.InfGenerator(good["name"], "P", good["guid"], good["arch"], "D", good["dots"], good["number"])
        gen.Date = "02/09/2024" if which == "date" else datetime.date(2024, 2, 9)
        return written(vc, G, "fw.inf", lambda path: gen.MakeInf(path, "fw.bin"))

    def more():
        f = T.InfFile(good["name"], good["dots"], "13/09/2024" if which == "date" else "02/09/2024", "P", "M", good["arch"])
        f.AddFirmware("fw", "D", good["guid"], good["number"], "fw.bin")
        return f.__str__()
    ok, r = outcome(more if two else one)
    if fault or which == "date":
        vc.check(not ok, "what has no such form is refused")
        vc.reach("refused")
        return
    vc.check(ok, "what has the form is taken")
    inf = Inf(vc, r)
    arch = ARCH[good["arch"].lower()]
    sec = models(inf, arch, FLOOR)
    firmware(vc, inf, sec[0], str(uuid.UUID(good["guid"])), v if which == "number" else 1, "fw.bin", None, False, None, None)
    vc.reach("taken " + which)


# ---------------------------------------------------------------- inf_generator2

class Ghost:
    """Whatever a stand-in does not do, the proof does not reach."""
    vc_ghost = True

    def _no(self, *a, **k):
        raise Unsupported("another use of %s" % type(self).__name__)

    __setitem__ = __getitem__ = __contains__ = __iter__ = __len__ = __bool__ = __str__ = __iadd__ = __or__ = __ior__ = __delitem__ = _no

    def __getattr__(self, name):
        raise Unsupported("%s of %s" % (name, type(self).__name__))


class Unknown(Ghost):
    """A list or dictionary of earlier files or strings: a text is in it or not, arbitrarily; what is added is recorded."""
    vc_ghost = True

    def __init__(self, vc, what):
        self.vc, self.what, self.added, self.asked = vc, what, [], []

    def __contains__(self, x):
        for y in self.added:
            if y is x or y == x:
                return True
        for y, b in self.asked:
            if y is x or y == x:
                return b
        b = self.vc.bool("%s has %d" % (self.what, len(self.asked)))
        b = bool(b)
        self.asked.append((x, b))
        return b

    def append(self, x):
        self.added.append(x)


class Texts(Ghost):
    """A dictionary of strings, by what is assigned."""
    vc_ghost = True

    def __init__(self):
        self.log = []

    def __setitem__(self, k, v):
        self.log.append((k, v))


def package(vc, T):
    f = T.InfFile("fw", "1.2", "02/09/2024", "P", "M", "x64")
    f.InfStrings.LocalizableStrings, f.InfStrings.NonLocalizableStrings = Texts(), Texts()
    f.InfFirmwareSections.Sections = Texts()
    f.InfSourceFiles.Files = Unknown(vc, "earlier files")
    return f


def added(vc):
    """Adding a firmware to any number of earlier ones: its section, its description, and its files unless they are there."""
    if not vc.symbolic:
        return whole(vc)
    T = vc.module(TWO)
    f = package(vc, T)
    tag, payload, desc, g = vc.text("tag", WORD, 1), vc.text("payload", FILE, 1), vc.text("desc", "\n\r", neg=True), guid(vc, "guid")
    integrity = vc.text("integrity", FILE, 1) if vc.bool("with integrity") else None
    rollback = vc.bool("rollback")
    bad = vc.choice("refused", ["", "tag", "tag start", "payload", "integrity", "guid", "number", "tag for a string"])
    vt, v = version(vc, "number", 1)
    nl = vc.choice("char", ["\n", " ", "/", "]", "\\"]) if bad in ("tag", "tag start", "payload", "integrity") else ""
    args = dict(Tag=scat(nl, tag) if bad == "tag start" else scat(tag, nl if bad == "tag" else "-" if bad == "tag for a string" else ""), Description=desc,
                EsrtGuid=g if bad != "guid" else scat(g, "0"), VersionInt=vt if bad != "number" else "-1", FirmwareFile=scat(payload, nl if bad == "payload" else ""), Rollback=rollback,
                IntegrityFile=scat(integrity, nl if bad == "integrity" else "") if integrity is not None else None)
    vc.assume(not (bad == "integrity" and integrity is None))
    ok, e = outcome(f.AddFirmware, **args)
    secs, texts, fixed, files = f.InfFirmwareSections.Sections.log, f.InfStrings.LocalizableStrings.log, f.InfStrings.NonLocalizableStrings.log, f.InfSourceFiles.Files
    if bad:
        vc.check(not ok and isinstance(e, ValueError), "a firmware of no such form is refused")
        vc.check(not secs, "it leaves no section behind")
        vc.reach("refused")
        return
    vc.check(ok, "a firmware is added")
    vc.check(len(secs) == 1 and secs[0][0] == tag, "its section is there under its tag")
    vc.check(len(texts) == 1 and AND(texts[0][0] == scat(tag, "Desc"), texts[0][1] == desc), "its description is a string")
    vc.check(len(fixed) == 1 and fixed[0] == ("REG_DWORD", "0x00010001"), "the constant it uses is defined")
    want = []
    for x in [payload] + ([integrity] if integrity is not None else []):
        if not any(bool(x is y or x == y) for y, b in files.asked if b) and not any(bool(x == y) for y in want):
            want.append(x)
    vc.check(len(files.added) == len(want) and AND(*([True] + [x == y for x, y in zip(files.added, want)])), "its files are listed once")
    inf = Inf(vc, secs[0][1].__str__())
    n = firmware(vc, inf, ("", scat(tag, "_Install,UEFI\\RES_{", g, "}")), g, v, payload, integrity, rollback, None, None)
    vc.check(len(inf.all) == n, "no other section")
    vc.reach("added")


class Firmware(Ghost):
    """One of the firmwares of the list."""
    vc_ghost = True

    def __init__(self, tag, g, body):
        self.Tag, self.EsrtGuid, self.body = tag, g, body

    def __str__(self):
        return self.body


class Table(Ghost):
    """A dictionary of any number of entries."""
    vc_ghost = True

    def __init__(self, n, key, value):
        self.n, self.key, self.value = n, key, value

    def _list(self, f, kind):
        f.key = (kind, id(self))
        return SymList(self.n, f)

    def keys(self):
        return self._list(lambda k: self.key(k), "keys")

    def values(self):
        return self._list(lambda k: self.value(k), "values")

    def items(self):
        return self._list(lambda k: (self.key(k), self.value(k)), "items")

    def __iter__(self):
        return iter(self.keys())

    def vc_len(self):
        return self.keys().vc_len()


def each(make):
    """make(k), once for each k."""
    known = {}

    def get(k):
        from pyvc.core import simp
        from pyvc.sym import zint
        k = simp(zint(k))
        if repr(k) not in known:
            known[repr(k)] = make(str(k))
        return known[repr(k)]
    return get


def sections(vc):
    """The models and the sections of any number of firmwares."""
    if not vc.symbolic:
        return whole(vc)
    T = vc.module(TWO)
    n = vc.int("firmwares", 0)
    arch = vc.choice("arch", ["x64", "AArch64"])
    osv = vc.choice("system", [None, "10.0...22000", " 10.0.1\t", "10.0\n"])
    s = T.InfFirmwareSections(arch, T.InfStrings(), osv)
    fws = each(lambda k: Firmware(vc.text("tag %s" % k, WORD, 1), guid(vc, "guid %s" % k), scat("[", vc.text("head %s" % k, NAME, 1), "]\n", vc.text("line %s" % k, FILE, 1), "\n")))
    s.Sections = Table(n, lambda k: fws(k).Tag, fws)
    one = Fold("models", lambda k: scat("%", fws(k).Tag, "Desc% = ", fws(k).Tag, "_Install,UEFI\\RES_{", fws(k).EsrtGuid, "}\n"), lines).vc_register(vc)
    two = Fold("sections", lambda k: fws(k).body, lines).vc_register(vc)
    start = {}

    def state(name, fold):
        def f(vc, i, loc):
            t = start.setdefault(name, loc["firmwareStr"])
            return {"firmwareStr": fold.upto(i, t)}
        return f
    vc.contract(TWO + ":InfFirmwareSections.__str__#0", Indexed("models", state("models", one), n.z))
    vc.contract(TWO + ":InfFirmwareSections.__str__#1", Indexed("sections", state("sections", two), n.z))
    got = s.__str__()
    head = scat("[Firmware.NT", {"x64": "amd64", "AArch64": "ARM64"}[arch], ".", (osv or FLOOR).strip(), "]\n")
    vc.check(two.upto(n, scat(one.upto(n, head), "\n")) == got, "the models of all firmwares, each once and in order, and then their sections")
    vc.reach("sections")


def files(vc):
    """The source files of any number."""
    if not vc.symbolic:
        return whole(vc)
    T = vc.module(TWO)
    n = vc.int("files", 0)
    s = T.InfSourceFiles("disk", T.InfStrings())
    name = each(lambda k: vc.text("file %s" % k, FILE, 1))
    s.Files = SymList(n.z, lambda k: name(k))
    f = Fold("files", lambda k: scat(name(k), " = 1\n"), lines).vc_register(vc)
    got = s.__str__()
    want = f.upto(n, "[SourceDisksNames]\n1 = %DiskName%\n\n[SourceDisksFiles]\n")
    vc.check(same_text(want, "\n[DestinationDirs]\nDefaultDestDir = 13\n\n", got), "each file once")
    vc.reach("files")


def same_text(want, rest, got):
    from pyvc.fold import FoldStr
    return FoldStr(list(want.parts) + [rest]) == got


def strings(vc):
    """The strings of any number, with their values."""
    if not vc.symbolic:
        return whole(vc)
    T = vc.module(TWO)
    s = T.InfStrings()
    n, m = vc.int("strings", 1), vc.int("constants", 1)

    yes = vc.choice("quotes", [False, True])
    key, val = each(lambda k: vc.text("key %s" % k, WORD, 1)), each(lambda k: quoted(vc, "value %s" % k, yes))
    key2, val2 = each(lambda k: vc.text("constant %s" % k, WORD, 1)), each(lambda k: vc.text("number %s" % k, WORD, 1))
    s.LocalizableStrings, s.NonLocalizableStrings = Table(n, key, lambda k: val(k)[0]), Table(m, key2, val2)
    one = Fold("strings", lambda k: scat(key(k), " = ", val(k)[1], "\n"), lines).vc_register(vc)
    two = Fold("constants", lambda k: scat(key2(k), " = ", val2(k), "\n"), lines).vc_register(vc)
    vc.contract(TWO + ":InfStrings.__str__#0", Indexed("strings", lambda vc, i, loc: {"LocalizedStrings": one.upto(i)}, n.z))
    vc.contract(TWO + ":InfStrings.__str__#1", Indexed("constants", lambda vc, i, loc: {"NonLocalizedStrings": two.upto(i)}, m.z))
    got = s.__str__()
    vc.check(two.upto(m, scat(one.upto(n, "[Strings]\n"), "\n")) == got, "every string with its value, in quotes, and every constant")
    vc.reach("strings")


def whole(vc):
    """A package of several firmwares: what is read is what was asked for."""
    T = vc.module(TWO)
    n = 2 if vc.symbolic else vc.choice("firmwares", [1, 1, 2, 3, 6])
    name, dots = vc.text("name", NAME, 1), dotted(vc, "version")
    p, pq = quoted(vc, "provider", vc.bool("quotes"))
    m, mq = quoted(vc, "maker", not vc.symbolic and vc.bool("quotes in maker"))
    disk, diskq = quoted(vc, "disk", not vc.symbolic and vc.bool("quotes in disk"))
    arch = turn(vc, "arch", ["x64", "AMD64", "arm", "ARM64", "AArch64"], 3)
    osv = turn(vc, "system", [None, "10.0...22000", " 10.0.1\t", "10.0\n", "10.0.2...1"], 2)
    f = T.InfFile(name, dots, "02/09/2024", p, m, arch, disk, osv)
    osv, arch = (osv or FLOOR).strip(), ARCH[arch.lower()]
    want, srcs = [], []
    for k in range(n):
        tag = "F%d" % k + ("" if vc.symbolic else vc.text("tag %d" % k, WORD))
        payload = vc.text("payload %d" % k, FILE, 1)
        integrity = vc.text("integrity %d" % k, FILE, 1) if (k == 1 if vc.symbolic else vc.bool("integrity file %d" % k)) else None
        if integrity is not None:
            vc.assume(NOT(payload == integrity))
        rollback = k == 0 if vc.symbolic else vc.bool("rollback %d" % k)
        vt, v = version(vc, "number %d" % k, k)
        d, dq = quoted(vc, "desc %d" % k, k == 0 if vc.symbolic else vc.bool("quotes in %d" % k))
        g = guid(vc, "guid %d" % k)
        if not vc.symbolic and vc.bool("refused first %d" % k):
            bad = dict(Tag=tag, Description=d, EsrtGuid=g, VersionInt=vt, FirmwareFile=payload, Rollback=rollback, IntegrityFile=integrity)
            what = vc.choice("what is refused %d" % k, ["Tag", "tag sign", "EsrtGuid", "VersionInt", "FirmwareFile"])
            if what == "tag sign":
                bad["Tag"] = "x-" + tag
            else:
                bad[what] = {"Tag": tag + "\n", "EsrtGuid": g[1:], "VersionInt": "-1", "FirmwareFile": payload + "\n"}[what]
            ok, e = outcome(f.AddFirmware, **bad)
            vc.check(not ok and isinstance(e, ValueError), "a firmware of no such form is refused")
        vc.check(outcome(f.AddFirmware, tag, d, g, vt, payload, rollback, integrity)[0], "a firmware is added")
        want.append((tag, g, v, payload, integrity, rollback, dq))
        for x in [payload] + ([integrity] if integrity is not None else []):
            if not any(bool(x == y) for y in srcs):
                srcs.append(x)
    inf = Inf(vc, f.__str__())
    text = header(vc, inf, name, dots, "02/09/2024", arch, osv, pq, mq)
    vc.check(inf.value(text, "DiskName", "the name of the disk") == diskq, "the disk's name is as given")
    sec = models(inf, arch, osv)
    vc.check(len(sec) == n, "a model for each firmware")
    count = 7
    for model, (tag, g, v, payload, integrity, rollback, dq) in zip(sec, want):
        count += firmware(vc, inf, model, g, v, payload, integrity, rollback, dq, text)
    sources(vc, inf, srcs)
    vc.check(len(inf.all) == count and len(text) == 3 + n + 1, "nothing else")
    vc.reach("whole")


def parts(vc):
    """A package is its header, firmwares, files and strings."""
    T = vc.module(TWO)
    f = T.InfFile("fw", "1.2", "02/09/2024", "P", "M", "x64")
    f.AddFirmware("fw", "D", "3cad7a0c-d35b-4b75-96b1-03a9fb07b7fc", "1", "fw.bin")
    ts = [vc.text("part %d" % k, "\r", neg=True) for k in range(4)]

    class Part(Ghost):
        def __init__(self, t):
            self.t = t

        def __str__(self):
            return self.t
    f.InfHeader, f.InfFirmwareSections, f.InfSourceFiles, f.InfStrings = map(Part, ts)
    vc.check(f.__str__() == scat(*ts), "header, firmwares, files and strings, each once and in that order")
    vc.reach("parts")


# ---------------------------------------------------------------- cat_generator

SYSTEMS = ("10 10_AU 10_RS2 10_RS3 10_RS4 10_RS5 10_19H1 10_VB 10_CO 10_NI Server10 Server2016 ServerRS2 ServerRS3 ServerRS4").split()
ARCHS = {"x64": "X64", "amd64": "X64", "arm": "ARM", "arm64": "ARM64", "aarch64": "ARM64"}
TOOL = """#!/bin/sh
pwd > "$0.log"
for a in "$@"; do echo "$a"; done >> "$0.log"
[ -z "$CAT_OUT" ] || : > "$CAT_OUT"
exit %d
"""


def catalogue(vc):
    """The catalogue is asked for where the INF is, for the architecture and system; only a tool that ran and left it counts."""
    if not vc.symbolic:
        return tool(vc)
    C = vc.module(CAT)
    target = vc.bool("any target")
    arch = vc.choice("arch", sorted(ARCHS) + ["ia32", "x64 ", ""]) if target else "x64"
    system = vc.choice("system", SYSTEMS + ["WIN10", "win10", "10_x", "", "11"]) if target else "10_VB"
    system = system if target and vc.bool("as it is") else system.swapcase()
    ok, gen = outcome(C.CatGenerator, arch.upper() if target and vc.bool("upper") else arch, system)
    known = {s.lower(): s for s in SYSTEMS}
    known["win10"] = "10"
    if arch not in ARCHS or system.lower() not in known:
        vc.check(not ok and isinstance(gen, ValueError), "other architectures and systems are refused")
        vc.reach("refused")
        return
    vc.check(ok, "the architecture and system are taken")
    named, found, there, made = [vc.bool(x) if not target else True for x in ("tool named", "tool found", "tool there", "catalogue there")]
    code = vc.int("exit code") if not target else 0
    folder = vc.choice("folder", ["", "/out", "out/bin"]) if not target else "out"
    runs = []
    tools = ["given.exe", "found.exe"]

    class Os:
        vc_ghost = True

        class path:
            vc_ghost = True
            dirname, join, basename = staticmethod(os.path.dirname), staticmethod(os.path.join), staticmethod(os.path.basename)

            @staticmethod
            def exists(p):
                vc.check(p in tools, "the tool is looked for")
                return there

            @staticmethod
            def isfile(p):
                if p in tools:
                    return there
                vc.check(p == os.path.join(folder, "fw.cat") and len(runs) == 1, "the catalogue is looked for, once the tool has run")
                return made

    def run(cmd, parameters, workingdir=None, **k):
        runs.append((cmd, parameters.split(), workingdir))
        return code
    vc.patch(C, "os", Os)
    vc.patch(C, "RunCmd", run)
    vc.patch(C, "FindToolInWinSdk", lambda name, *a: (vc.check(name.lower() == "inf2cat.exe", "Inf2Cat is looked for"), "found.exe" if found else None)[1])
    ok, r = outcome(gen.MakeCat, os.path.join(folder, "fw.cat"), *(["given.exe"] if named else []))
    use = (named or found) and there
    if not use:
        vc.check(not ok and not runs, "without the tool, nothing is run, and that is reported")
        vc.reach("no tool")
        return
    vc.check(len(runs) == 1 and runs[0][0] == ("given.exe" if named else "found.exe"), "the tool is run, once")
    vc.check(sorted(runs[0][1]) == sorted(["/driver:.", "/os:%s_%s" % (known[system.lower()], ARCHS[arch]), "/verbose", "/uselocaltime"]), "for the architecture and system")
    vc.check(runs[0][2] == folder or folder == "" and runs[0][2] in (None, "."), "in the folder of the catalogue")
    good = AND(code == 0, made)
    vc.check(AND(good, r == 0) if ok else NOT(good), "success is reported if the tool succeeded and the catalogue is there")
    vc.reach("made" if ok else "failed")


def tool(vc):
    """A tool that is really run."""
    C = vc.module(CAT)
    arch, system = vc.choice("arch", sorted(ARCHS)), vc.choice("system", SYSTEMS)
    code, made, there, bare = vc.choice("code", [0, 0, 1, 3]), vc.bool("made"), vc.choice("there", [True, True, True, False]), vc.choice("folder", ["", "sub", "full"])
    d = tempfile.mkdtemp(prefix="c27 cat" if vc.bool("blank in the path") else "c27cat")
    old = os.getcwd()
    try:
        exe = os.path.join(d, "inf2cat.sh")
        if there:
            with open(exe, "w") as f:
                f.write((TOOL % code).replace("$CAT_OUT", "fw.cat" if made else ""))
            os.chmod(exe, 0o755)
        out = os.path.join(d, "sub")
        os.mkdir(out)
        os.chdir(out if bare == "" else d)
        ok, r = outcome(C.CatGenerator(arch, system).MakeCat, {"": "fw.cat", "sub": "sub/fw.cat", "full": os.path.join(out, "fw.cat")}[bare], exe)
        vc.check(ok == (there and made and code == 0) and (not ok or r == 0), "success is reported if the tool succeeded and the catalogue is there")
        vc.check(os.path.exists(exe + ".log") == there, "the tool is run")
        if there:
            with open(exe + ".log") as f:
                got = f.read().splitlines()
            vc.check(os.path.realpath(got[0]) == os.path.realpath(out), "in the folder of the catalogue")
            vc.check(sorted(got[1:]) == sorted(["/driver:.", "/os:%s_%s" % (system, ARCHS[arch]), "/verbose", "/uselocaltime"]), "for the architecture and system")
        vc.reach("run")
    finally:
        os.chdir(old)
        shutil.rmtree(d)


HARNESSES = [
    H("made", made, "an INF of one firmware says what was asked for, for texts of any content", runs=200),
    H("spelled", spelled, "architectures and GUIDs in any spelling are taken, and other names, versions, architectures, GUIDs and dates refused", runs=400, must_reach=["refused", "taken arch", "taken guid", "taken number"]),
    H("added", added, "adding a firmware to any number of earlier ones adds its section, description and files, or it is refused", must_reach=["added", "refused"]),
    H("sections", sections, "the models and sections of any number of firmwares are written, each once", must_reach=["sections"]),
    H("files", files, "any number of source files are written, each once", must_reach=["files"]),
    H("strings", strings, "any number of strings are written, with their values in quotes", must_reach=["strings"]),
    H("parts", parts, "a package is its header, firmwares, files and strings", must_reach=["parts"]),
    H("whole", whole, "the package of two firmwares, and of up to six at random, says what was asked for", must_reach=["whole"]),
    H("catalogue", catalogue, "the catalogue is asked for where the INF is, for the architecture and system, and success means the tool succeeded and left it", runs=60,
      must_reach=["made", "failed", "no tool", "refused"]),
]
