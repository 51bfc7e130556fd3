import itertools

from contracts.base import H
from pyvc.lists import Indexed, SymList
from pyvc.util import AND, NOT, OR, fmt, outcome, scat

ID = "C19"
LEVEL = "proof"
TRUSTED = []
ASSUMPTIONS = ["names and values of variables contain no '$'; names no ')'",
               "the texts around variables contain no '$' other than the listed stray ones"]
EXPLANATION = ("StripComment is proved for lines of any length with a loop invariant over every position (quote, escape); ReplaceVariables for any texts, names and values "
               "with up to two references. All short lines over the special characters are enumerated as a cross-check.")
B = "edk2toollib.uefi.edk2.parsers.base_parser"
SPECIAL = "\"'#\\"
DQ, SQ, HASH, BS = range(4)


def comment_start(line):
    """Where the comment of a line begins, or its length: independent scanner."""
    quote, k = None, 0
    while k < len(line):
        c = line[k]
        if c == "#" and quote is None:
            return k
        if c == "\\":
            # the next character is taken as it is, except that a '#' is never protected by it
            k += 1
            if k < len(line) and line[k] == "#":
                continue
        elif quote is None and c in "\"'":
            quote = c
        elif c == quote:
            quote = None
        k += 1
    return len(line)


def comment(vc):
    """StripComment of a line of any length."""
    P = vc.module(B)
    line = vc.chars("line", SPECIAL)
    if not vc.symbolic:
        r = P.HashFileParser("x").StripComment(line)
        vc.check(r == line[:comment_start(line)].strip(), "the text before the comment")
        return
    import z3
    from pyvc.sym import mkbool, mkint, zint
    ch = line.chars
    Q = z3.Function("quote", z3.IntSort(), z3.IntSort())        # -1 outside of strings
    E = z3.Function("escaped", z3.IntSort(), z3.BoolSort())
    vc.add(Q(0) == -1)
    vc.add(z3.Not(E(0)))
    stop = vc.fresh("stop")         # the first '#' outside of strings, or the end
    vc.add(stop >= 0)
    vc.add(stop <= ch.n)

    def starts(k):
        return z3.And(ch.code(k) == HASH, Q(k) == -1)

    vc.add(z3.Implies(stop < ch.n, starts(stop)))
    ch.seen.append(stop)

    def facts(vc, i):
        # the recurrence at i-1 and i, and that no comment starts before `stop`
        for k in (zint(i) - 1, zint(i)):
            c = ch.code(k)
            q = z3.And(z3.Or(c == DQ, c == SQ), z3.Not(E(k)))
            vc.add(z3.Implies(k >= 0, z3.And(Q(k + 1) == z3.If(q, z3.If(Q(k) == -1, c, z3.If(Q(k) == c, -1, Q(k))), Q(k)),
                                             E(k + 1) == z3.And(c == BS, z3.Not(E(k))))))
            vc.add(z3.Implies(z3.And(k >= 0, k < stop), z3.Not(starts(k))))
        vc.add(z3.Or(*[Q(zint(i)) == x for x in (-1, DQ, SQ)]))

    def state(vc, i, loc):
        k = zint(i)
        q = None
        if vc.branch(Q(k) == DQ):
            q = '"'
        elif vc.branch(Q(k) == SQ):
            q = "'"
        return {"inside_quotes": q is not None, "quote_char": q, "escaped": mkbool(E(k)), "result": line.list(k)}

    vc.contract(B + ":HashFileParser.StripComment#0", Indexed("characters", state, ch.n, facts=facts, inv=lambda vc, i: [i <= mkint(stop)]))
    r = P.HashFileParser("x").StripComment(line)
    vc.reach("done")
    vc.check(ch.piece(0, stop).strip().is_piece(r), "the text before the comment")


def short_lines(vc):
    """All lines of up to six characters over a, blank and the special characters."""
    P = vc.module(B)
    p = P.HashFileParser("x")
    for n in range(0, 7):
        for t in itertools.product("a \"'\\#", repeat=n):
            line = "".join(t)
            if p.StripComment(line) != line[:comment_start(line)].strip():
                vc.check(False, "the text before the comment of %r" % line)
    vc.check(True, "all lines")


# ---------------------------------------------------------------- variables

BLANKS = " \t\n\r\v\f\x1c\x1d\x1e\x1f\x85\xa0\u1680\u2028\u2029\u202f\u205f\u3000" + "".join(map(chr, range(0x2000, 0x200b)))
NAME = "$()" + BLANKS


def name(vc, k):
    return vc.text(k, NAME, 1, neg=True, gen=lambda r: r.choice(["A", "B", "AB", "ARCH", "a"]))


def value(vc, k):
    """A value as stored and as it appears in a line."""
    form = vc.choice(k + ".form", ["text", "number", "True", "False", "text true", "empty"])
    if form == "text":
        v = vc.text(k, "$eE", 1, neg=True, gen=lambda r: r.choice(["x", "A", "(", ")", "0x10", "xyz(1)"]))
        return v, v
    if form == "number":
        v = vc.int(k)
        return v, fmt(v)
    if form == "empty":
        return "", ""
    if form == "text true":
        return "tRue", "TRUE"
    return form == "True", form.upper()


def lookup(vc):
    """The value of one variable: the input's, else the file's, else none."""
    P = vc.module(B)
    p = P.BaseParser()
    n, m = name(vc, "name"), name(vc, "other")
    vi, wi = value(vc, "input value") if vc.bool("is input") else (None, None)
    vl, wl = value(vc, "file value") if vc.bool("is defined") else (None, None)
    vc.assume(n != m)
    inputs, local = with_key(vc, {}, m, "1"), with_key(vc, {}, m, "2")
    if vi is not None:
        p.InputVars = with_key(vc, inputs, n, vi)
    else:
        p.InputVars = inputs
    p.LocalVars = with_key(vc, local, n, vl) if vl is not None else local
    zero = vc.bool("zero if undefined")
    r = p._FindReplacementForToken(n, zero)
    vc.reach("done")
    want = wi if vi is not None else wl if vl is not None else "0" if zero else None
    if want is None:
        vc.check(r is None, "no value")
    else:
        vc.check(r == want, "the value of the variable")


def with_key(vc, d, k, v):
    if vc.symbolic:
        from pyvc.models import HOOKS
        HOOKS.setitem(d, k, v)
    else:
        d[k] = v
    return d


def replace(vc):
    """Every reference is replaced by its value where it stands; everything else stays."""
    P = vc.module(B)
    p = P.BaseParser()
    n1, n2, n3 = name(vc, "name1"), name(vc, "name2"), name(vc, "name3")
    vc.assume(AND(n1 != n2, AND(n1 != n3, n2 != n3)))
    value = lambda k: vc.text(k, "$", 0, neg=True, gen=lambda r: r.choice(["", "x", "A", "(", ")", "0x10"]))  # noqa: E731
    v1, v2 = value("value1"), value("value2")

    def find(token, zero=False):
        # contract of _FindReplacementForToken, see harness "lookup"
        return v1 if token == n1 else v2 if token == n2 else "0" if zero else None

    p._FindReplacementForToken = find
    head = vc.choice("head", ["", "!if ", "!elseif ", " !If"])
    zero = head != ""
    line = want = scat(head, " ") if zero else head
    for k in range(vc.choice("references", range(0, 3))):
        t = vc.text("text%d" % k, "$" + BLANKS, 0, neg=True, gen=lambda r: r.choice(["", "a", ")", "(", "a==(b)"])) if not zero or k else ""
        if k == 1:
            t = scat(t, " $ ")
        if k == 0 and zero:
            t = vc.choice("lead", ["(", "1 == "])
        which = vc.choice("reference%d" % k, [1, 2, 3])
        n = (n1, n2, n3)[which - 1]
        v = (v1, v2, "0" if zero else scat("$(", n, ")"))[which - 1]
        line, want = scat(line, t, "$(", n, ")"), scat(want, t, v)
    tail = vc.choice("tail", ["", "$", " $5 == $(", "$(A", " $ )"])
    if vc.symbolic:
        vc.bound("up to two references in a line")
    line, want = scat(line, tail), scat(want, tail)
    r = p.ReplaceVariables(line)
    vc.reach("done")
    vc.check(r == want, "every reference replaced where it stands")


def ifdef(vc):
    """!ifdef and !ifndef ask for the definition of the macro, with or without $( )."""
    P = vc.module(B)
    p = P.BaseParser()
    n = name(vc, "name")
    known = vc.bool("defined")
    v = vc.text("value", "", 0, neg=True)
    p._FindReplacementForToken = lambda token, zero=False: v if known and token == n else None
    d = vc.choice("directive", ["!ifdef", "!IfNDef", "!ifndef"])
    line = scat(vc.choice("before", ["", "  "]), d, vc.choice("gap", [" ", "\t "]), *(["$(", n, ")"] if vc.bool("dollar") else [n]))
    r = p.ReplaceVariables(line)
    vc.reach("done")
    vc.check(r == scat(d, " ", "1" if known else "0"), "whether the macro is defined")


def g_line(r):
    out = ""
    for _ in range(r.randint(0, 6)):
        out += r.choice(["a", " ", "$", "(", ")", "$(A)", "$(B)", "$(C)", "$(N)", "$(F)", "$(A", "B)", "x=", '"', "$(L)", "$(S)", "$(U)"])
    return r.choice(["", "", "", "!if ", "!elseif ", "DEFINE X = "]) + out


def lines(vc):
    """Random lines with an independent reader."""
    P = vc.module(B)
    line = vc.data("line", g_line)
    p = P.BaseParser()
    p.SetInputVars({"A": "in", "N": 10, "F": False})
    p.LocalVars = {"A": "local", "B": "b", "L": "tRUE", "S": "<$(S)>", "U": "$(B)"}
    vals = {"A": "in", "N": "10", "F": "FALSE", "B": "b", "L": "TRUE", "S": "", "U": "$(B)"}
    w = line.split()
    zero = len(w) > 1 and w[0] in ("!if", "!elseif")
    out, rest = "", line
    while "$(" in rest:
        a, b = rest.split("$(", 1)
        if ")" not in b:
            break
        n, rest = b.split(")", 1)
        out += a + vals.get(n, "0" if zero else "$(" + n + ")")
    vc.check(p.ReplaceVariables(line) == out + rest, "every reference replaced where it stands")


HARNESSES = [
    H("comment", comment, "comments of lines of any length", must_reach=["done"], runs=3000),
    H("lookup", lookup, "the value of any variable", must_reach=["done"], runs=400),
    H("replace", replace, "references in any texts", must_reach=["done"], runs=1500, parts=4),
    H("ifdef", ifdef, "definition of any macro", must_reach=["done"]),
    H("short_lines", short_lines, "all lines of up to six characters", symbolic=False, runs=1, why_bounded="cross-check of the reading of quotes and escapes"),
    H("lines", lines, "random lines", symbolic=False, runs=6000, why_bounded="values that refer to variables, stray and unclosed references in any place"),
]
