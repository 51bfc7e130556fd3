import re
import uuid

from contracts.base import H
from pyvc.util import fmt, outcome, scat

ID = "C18"
LEVEL = "proof"
TRUSTED = []
ASSUMPTIONS = ["uuid.UUID and the regular expression engine are replaced by models (checked differentially by --selftest)",
               "the symbolic texts have one field of any width and the others of full width, digits all in lower or all in upper case, and blanks of any number in one place at a time"]
EXPLANATION = ("Every value of every field is covered in both notations; a GUID text is read to exactly that GUID and written back to it. "
               "Random texts with an independent reader cross-check mixed case, any mixture of widths and blanks, and damaged texts.")
G = "edk2toollib.uefi.edk2.parsers.guid_parser"
B = "edk2toollib.uefi.edk2.parsers.base_parser"
W = [8, 4, 4] + [2] * 8


def fields(vc, free=range(11)):
    """Arbitrary values; of those not in `free` only the ones without leading zeros."""
    return [vc.int("f%d" % k, 0 if k in free else 16 ** (w - 1), 16 ** w - 1) for k, w in enumerate(W)]


def c_parts(fs):
    """The tokens of the C notation, between which blanks may stand."""
    out = ["{"]
    for k, f in enumerate(fs):
        if k:
            out.append(",")
        if k == 3:
            out.append("{")
        out.append(f)
    return out + ["}", "}"]


def blanks(vc, toks, *kinds):
    """The tokens with blanks: none or one everywhere, and any number in one place."""
    chars = vc.choice("kind of blanks", kinds)
    gap = vc.choice("gap", ["", " "])
    where = vc.choice("where", range(len(toks) + 1))
    out = []
    for k, t in enumerate(toks + [""]):
        if k == where:
            out.append(vc.text("blanks", chars, 0))
        elif 0 < k < len(toks):
            out.append(gap)
        out.append(t)
    return scat(*out)


def reg(fs, spec="x"):
    """Registry notation of the fields."""
    t = [fmt(f, "0%d%s" % (w, spec)) for f, w in zip(fs, W)]
    return scat(t[0], "-", t[1], "-", t[2], "-", t[3], t[4], "-", *t[5:])


def numbers(vc, fs, short=None, styles=(("0x", "x"), ("0x", "X"), ("0X", "x"), ("0X", "X"))):
    """Each field as a number: full width, but the chosen one as short as it can be."""
    pre, spec = vc.choice("style", styles)
    return [scat(pre, fmt(f, spec if k == short else "0%d%s" % (w, spec))) for k, (f, w) in enumerate(zip(fs, W))]


def c_read(vc):
    """C notation to registry notation and to a UUID, for all values, with blanks of any number in any one place."""
    P = vc.module(G)
    fs = fields(vc)
    t = blanks(vc, c_parts(numbers(vc, fs, None, [("0x", "x"), ("0X", "X")])), " ", "\t\n")
    t = scat(t, vc.choice("end", ["", ";", " ;"]))
    vc.check(P.GuidParser.is_guid_in_c_format(t), "is C notation")
    vc.check(not P.GuidParser.is_guid_in_reg_format(t), "is not registry notation")
    r = P.GuidParser.reg_guid_from_c_format(t)
    vc.reach("read")
    vc.check(r == reg(fs), "the same GUID in registry notation")


def c_short(vc):
    """A number may be written with fewer digits."""
    P = vc.module(G)
    fs = fields(vc)
    t = scat(*c_parts(numbers(vc, fs, vc.choice("short", range(11)))))
    r = P.GuidParser.reg_guid_from_c_format(t)
    vc.reach("read")
    vc.check(r == reg(fs), "the same GUID in registry notation")


def c_uuid(vc):
    """uuid_from_guidstring of C notation."""
    P = vc.module(G)
    fs = fields(vc)
    t = scat(*[x if k == 0 else scat(" ", x) for k, x in enumerate(c_parts(numbers(vc, fs)))])
    u = P.GuidParser.uuid_from_guidstring(t)
    vc.reach("read")
    same_uuid(vc, u, fs)
    vc.check(P.GuidParser.reg_guid_str_from_uuid(u) == reg(fs), "its registry notation")


def same_uuid(vc, u, fs):
    from pyvc.util import be, cat
    vc.check(u.bytes == cat(*[be(f, w // 2) for f, w in zip(fs, W)]), "the bytes of the UUID")


def damaged(vc):
    """C notation with a number too long, without digits, missing, or followed by something else is refused by every reader."""
    P = vc.module(G)
    fs = fields(vc)
    ns = numbers(vc, fs)
    k = vc.choice("field", range(11))
    how = vc.choice("damage", ["long", "letter", "empty", "prefix only", "missing", "more", "junk", "bare"])
    tail = ""
    if how == "long":
        ns[k] = scat("0x", fmt(vc.int("extra", 0, 15), "x"), fmt(fs[k], "0%dx" % W[k]))
    elif how == "letter":
        ns[k] = scat("0x", vc.text("letter", "0123456789abcdefABCDEF{} ", 1, 1, neg=True))
    elif how == "empty":
        ns[k] = ""
    elif how == "prefix only":
        ns[k] = "0x"
    elif how == "missing":
        del ns[k]
    elif how == "more":
        ns.insert(k, "0x00")
    elif how == "bare":
        ns[k] = fmt(fs[k], "0%dx" % W[k])
    else:
        tail = vc.choice("tail", ["}", "{", ", 0x00", "text"])
        if tail == "text":
            tail = vc.text("junk", " \t\n\v\f\r\x1c\x1d\x1e\x1f\x85\xa0\u1680\u2028\u2029\u202f\u205f\u3000{};" + "".join(map(chr, range(0x2000, 0x200b))), 1, neg=True,
                           gen=lambda r: r.choice(["x", "zz", "//", "0x00"]))
    t = scat(*c_parts(ns), tail)
    vc.reach(how)
    vc.check(not P.GuidParser.is_guid_in_c_format(t), "is not C notation")
    vc.check(P.GuidParser.reg_guid_from_c_format(t) == "", "not converted")
    vc.check(P.GuidParser.uuid_from_guidstring(t) is None, "no UUID")


def parse(vc):
    """BaseParser.ParseGuid of C notation, for all values."""
    P = vc.module(B)
    fs = fields(vc, vc.choice("free", [(0, 1, 2), (3, 4, 5, 6), (7, 8, 9, 10)]))
    gap = vc.choice("gap", ["", " "])
    t = scat(*[x for y in c_parts(numbers(vc, fs, vc.choice("short", [None, 0, 3, 10]))) for x in (y, gap)])
    r = P.BaseParser().ParseGuid(t)
    vc.reach("read")
    vc.check(r == reg(fs, "X"), "the same GUID in registry notation")


def parse_blanks(vc):
    """ParseGuid with blanks of any number in any one place."""
    P = vc.module(B)
    fs = fields(vc, ())
    t = blanks(vc, c_parts(numbers(vc, fs)), " ")
    r = P.BaseParser().ParseGuid(t)
    vc.reach("read")
    vc.check(r == reg(fs, "X"), "the same GUID in registry notation")


def parse_damaged(vc):
    """BaseParser.ParseGuid refuses a number too long, without digits, or missing."""
    P = vc.module(B)
    fs = fields(vc)
    ns = numbers(vc, fs)
    k = vc.choice("field", range(11))
    how = vc.choice("damage", ["long", "letter", "empty", "prefix only", "missing", "more"])
    if how == "long":
        ns[k] = scat("0x", fmt(vc.int("extra", 1, 15), "x"), fmt(fs[k], "0%dx" % W[k]))
    elif how == "letter":
        ns[k] = scat("0x", vc.text("letter", "0123456789abcdefABCDEF, \t{}", 1, 1, neg=True))
    elif how == "empty":
        ns[k] = ""
    elif how == "prefix only":
        ns[k] = "0x"
    elif how == "missing":
        del ns[k]
    elif how == "more":
        ns.insert(k, "0x00")
    ok, r = outcome(P.BaseParser().ParseGuid, scat(*c_parts(ns)))
    vc.reach(how)
    vc.check(not ok and isinstance(r, RuntimeError), "refused")


def reg_read(vc):
    """Registry notation to C notation and to a UUID."""
    P = vc.module(G)
    b = vc.bytes("bytes", 16)
    h = b.hex()
    if vc.bool("upper"):
        h = h.upper()
    bare = scat(h[:8], "-", h[8:12], "-", h[12:16], "-", h[16:20], "-", h[20:])
    form = vc.choice("form", ["bare", "blanks before", "blanks after", "braces", "blanks and braces"])
    t = bare
    if form == "blanks before":
        t = scat(vc.text("blanks", " \t\n"), t)
    elif form == "blanks after":
        t = scat(t, vc.text("blanks", " \t\n"))
    elif form != "bare":
        s = " " if form != "braces" else ""
        t = scat(s, "{", s, t, s, "}", s)
    vc.check(P.GuidParser.is_guid_in_reg_format(t), "is registry notation")
    vc.check(not P.GuidParser.is_guid_in_c_format(t), "is not C notation")
    c = P.GuidParser.c_guid_from_reg_format(t)
    n = [scat("0x", h[2 * a:2 * e]) for a, e in ((0, 4), (4, 6), (6, 8), (8, 9), (9, 10), (10, 11), (11, 12), (12, 13), (13, 14), (14, 15), (15, 16))]
    vc.check(c == scat("{", n[0], ", ", n[1], ", ", n[2], ", {", n[3], *[x for y in n[4:] for x in (", ", y)], "}}"), "its C notation")
    u = P.GuidParser.uuid_from_guidstring(t)
    vc.check(u.bytes == b, "the bytes of the UUID")
    vc.reach("read")


def reg_damaged(vc):
    """Registry notation with a digit too many or missing, another character, or anything behind it is refused."""
    P = vc.module(G)
    h = vc.bytes("bytes", 16).hex()
    g = [h[:8], h[8:12], h[12:16], h[16:20], h[20:]]
    k = vc.choice("group", range(5))
    how = vc.choice("damage", ["less", "more", "letter", "behind", "before", "missing", "dash"])
    if how == "less":
        g[k] = g[k][2:]
    elif how == "more":
        g[k] = scat(g[k], fmt(vc.int("extra", 0, 255), "02x"))
    elif how == "letter":
        g[k] = scat(g[k][:2], vc.text("letter", "0123456789abcdefABCDEF", 1, 1, neg=True), g[k][4:] if vc.bool("instead") else g[k][2:])
    elif how == "missing":
        del g[k]
    text = g[0]
    for x in g[1:]:
        text = scat(text, "" if how == "dash" and x is g[max(k, 1)] else "-", x)
    if how in ("behind", "before"):
        j = vc.text("junk", " \t\n\v\f\r\x1c\x1d\x1e\x1f\x85\xa0\u1680\u2028\u2029\u202f\u205f\u3000{}" + "".join(map(chr, range(0x2000, 0x200b))), 1, neg=True)
        text = scat(text, j) if how == "behind" else scat(j, text)
    vc.reach(how)
    vc.check(not P.GuidParser.is_guid_in_reg_format(text), "is not registry notation")
    vc.check(P.GuidParser.c_guid_from_reg_format(text) == "", "not converted")
    vc.check(P.GuidParser.uuid_from_guidstring(text) is None, "no UUID")


def written(vc):
    """Any UUID, written in either notation, is read back as that UUID."""
    P = vc.module(G)
    u = vc.uuid("guid")
    c = P.GuidParser.c_guid_str_from_uuid(u)
    r = P.GuidParser.reg_guid_str_from_uuid(u)
    vc.check(P.GuidParser.is_guid_in_c_format(c) and P.GuidParser.is_guid_in_reg_format(r), "each is in its notation")
    vc.check(P.GuidParser.uuid_from_guidstring(c) == u, "C notation read back")
    vc.check(P.GuidParser.uuid_from_guidstring(r) == u, "registry notation read back")
    vc.check(P.GuidParser.reg_guid_from_c_format(c) == r, "C to registry notation")
    vc.check(P.GuidParser.c_guid_from_reg_format(r) == c, "registry to C notation")
    vc.reach("done")


# random texts

def g_text(r):
    def num(w):
        s = "".join(r.choice("0123456789abcdefABCDEF") for _ in range(r.choice([w, w, w, r.randint(1, w), 1])))
        return r.choice(["0x", "0x", "0X"]) + s

    sp = lambda: r.choice(["", "", " ", "  ", "\t"])  # noqa: E731
    if r.random() < 0.6:
        t = sp().join(x + sp() for x in c_parts([num(w) for w in W])) + r.choice(["", "", ";"])
    else:
        h = "".join(r.choice("0123456789abcdefABCDEF") for _ in range(32))
        t = "-".join([h[:8], h[8:12], h[12:16], h[16:20], h[20:]])
        if r.random() < 0.3:
            t = "{" + t + "}"
    q = r.random()
    if q < 0.45 and t:
        for _ in range(r.choice([1, 1, 2])):
            i = r.randrange(len(t))
            j = r.choice("0xX,{}g-z;f ")
            t = t[:i] + r.choice(["", j, j]) + t[i + r.choice([0, 1]):]
    return sp() + t + sp()


def tokens(t):
    """C notation read without regular expressions: the eleven (digits) or None."""
    t = t.strip()
    if t.endswith(";"):
        t = t[:-1].strip()
    out, pos = [], [0]

    def skip():
        while pos[0] < len(t) and t[pos[0]].isspace():
            pos[0] += 1

    def eat(c):
        skip()
        if t[pos[0]:pos[0] + 1] != c:
            return False
        pos[0] += 1
        return True

    def num(w):
        skip()
        if t[pos[0]:pos[0] + 2].lower() != "0x":
            return False
        e = pos[0] + 2
        while e < len(t) and t[e] in "0123456789abcdefABCDEF":
            e += 1
        d = t[pos[0] + 2:e]
        pos[0] = e
        out.append(d)
        return 1 <= len(d) <= w

    if not eat("{"):
        return None
    for k, w in enumerate(W):
        if k and not eat(","):
            return None
        if k == 3 and not eat("{"):
            return None
        if not num(w):
            return None
    if not eat("}") or not eat("}"):
        return None
    return out if pos[0] == len(t) else None


def texts(vc):
    """Random texts near the two notations: read to the right GUID, or refused."""
    P = vc.module(G).GuidParser
    Q = vc.module(B).BaseParser
    t = vc.data("text", g_text)
    d = tokens(t)
    want = None
    if d is not None:
        want = "".join(x.rjust(w, "0") for x, w in zip(d, W)).lower()
        want = "-".join([want[:8], want[8:12], want[12:16], want[16:20], want[20:]])
        vc.check(P.reg_guid_from_c_format(t) == want, "registry notation")
        if not t.strip().endswith(";"):
            vc.check(Q().ParseGuid(t.strip()) == want.upper(), "ParseGuid")
    else:
        vc.check(P.reg_guid_from_c_format(t) == "", "not C notation")
        s = t.strip().strip("{} ")
        gs = s.split("-")
        if [len(x) for x in gs] == [8, 4, 4, 4, 12] and all(c in "0123456789abcdefABCDEF" for x in gs for c in x):
            want = s.lower()
            c = P.c_guid_from_reg_format(t)
            vc.check("".join(x for x in tokens(c)).lower() == want.replace("-", ""), "C notation")
        else:
            vc.check(P.c_guid_from_reg_format(t) == "", "not registry notation")
            if "{" not in t and "}" not in t:
                vc.check(not outcome(Q().ParseGuid, t)[0], "ParseGuid refuses")
    vc.check(P.uuid_from_guidstring(t) == (uuid.UUID(want) if want else None), "the UUID")
    vc.check(bool(P.is_guid_in_c_format(t)) == (d is not None), "is C notation")
    vc.check(bool(P.is_guid_in_reg_format(t)) == (want is not None and d is None), "is registry notation")


HARNESSES = [
    H("c_read", c_read, "C notation of any GUID", must_reach=["read"], parts=4),
    H("c_short", c_short, "numbers with fewer digits", must_reach=["read"], parts=2),
    H("c_uuid", c_uuid, "C notation to UUID", must_reach=["read"]),
    H("damaged", damaged, "damaged C notation", must_reach=["long", "letter", "empty", "prefix only", "missing", "more", "junk", "bare"], parts=2, runs=600),
    H("parse", parse, "ParseGuid of any GUID", must_reach=["read"], parts=3),
    H("parse_blanks", parse_blanks, "ParseGuid with blanks", must_reach=["read"]),
    H("parse_damaged", parse_damaged, "ParseGuid of damaged C notation", must_reach=["long", "letter", "empty", "prefix only", "missing", "more"], runs=600),
    H("reg_read", reg_read, "registry notation of any GUID", must_reach=["read"]),
    H("reg_damaged", reg_damaged, "damaged registry notation", must_reach=["less", "more", "letter", "behind", "before", "missing", "dash"], runs=600),
    H("written", written, "writing and reading back any UUID", must_reach=["done"]),
    H("texts", texts, "random texts", symbolic=False, runs=8000, why_bounded="free mixtures of widths, cases, blanks and damage"),
]
