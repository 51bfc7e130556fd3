import logging

from contracts.base import H
from contracts.c11_dmar import _z
from pyvc.lists import Indexed, SymList
from pyvc.util import AND, NOT, OR, fmt, outcome, scat

ID = "C17"
LEVEL = "proof"
TRUSTED = []
ASSUMPTIONS = ["the words of a directive line contain no quotation mark, except in the harness about quoted operands",
               "conditions whose operators are not separated by parentheses, and the operator IN, are not under contract"]
EXPLANATION = ("One directive on an arbitrary stack of any depth is proved against the specification of a chain (first true branch), for every outcome of its "
               "condition; the activity test is proved with a loop invariant for any depth. Evaluation is proved for ComputeResult and, for all integer operands, "
               "for the listed expression shapes; random nested programs and expressions cross-check tokenising and whole files.")
A = "edk2toollib.uefi.edk2.parsers.base_parser"
OPEN, DONE, TAKEN = 0, 1, 2     # no branch yet true / an earlier branch was / the current branch is


def word(vc, name):
    return vc.text(name, " \t\n\r\v\f\x1c\x1d\x1e\x1f\x85\xa0\u1680\u2028\u2029\u202f\u205f\u3000\"" + "".join(map(chr, range(0x2000, 0x200b))), 1, neg=True,
                   gen=lambda r: r.choice(["0", "1", "x", "!else", "!if", "$(A)", "(1", "==", "TRUE", "[Defines]"]))


def stack(vc, p):
    """An arbitrary stack of open chains; returns its codes and its depth."""
    codes = vc.bytes("chains", gen=lambda r: bytes(r.choice([0, 1, 2, 2, 2]) for _ in range(r.choice([0, 1, 1, 2, 3]))))
    n = len(codes) if not vc.symbolic else codes.vc_len()

    def item(k):
        s = codes[_z(k) if vc.symbolic else k] % 3 if not vc.symbolic else codes[_idx(k)] % 3
        return (s == TAKEN, s != OPEN)

    p.ConditionalStack = SymList(n, item) if vc.symbolic else [item(k) for k in range(n)]
    return codes, n, item


def _idx(k):
    from pyvc.sym import mkint
    return mkint(_z(k))


def is_stack(vc, p, item, n, *top):
    """The stack is its first n old entries followed by `top` (pairs)."""
    s = p.ConditionalStack
    size = s.vc_len() if vc.symbolic else len(s)
    vc.check(size == n + len(top), "depth of the stack")
    for k, (v, a) in enumerate(top):
        e = s[n + k]
        vc.check(AND(e[0] == v, e[1] == a), "the entry of the chain")
    if vc.symbolic:
        i = vc.int("any", 0)
        vc.assume(i < n)
        e = s[i]
        w = item(i.z)
        vc.check(AND(e[0] == w[0], e[1] == w[1]), "outer chains are untouched")
    else:
        vc.check(s[:n] == [item(k) for k in range(n)], "outer chains are untouched")


def active(vc):
    """InActiveCode is true exactly when the current branch of every open chain is the taken one."""
    P = vc.module(A)
    p = P.BaseParser()
    codes, n, item = stack(vc, p)
    if vc.symbolic:
        from pyvc.sym import mkint, zint
        first = vc.fresh("first")       # the first chain in an untaken branch, or n
        vc.add(first >= 0)
        vc.add(first <= zint(n))

        def facts(vc, i):
            if vc.branch((i < mkint(first)).z):
                vc.assume(item(zint(i))[0])
            elif vc.branch(zint(i) == first) and i < n:
                vc.assume(NOT(item(zint(i))[0]))

        vc.contract(A + ":BaseParser.InActiveCode#0", Indexed("chains", lambda vc, i, L: {"ret": True}, n, facts=facts, inv=lambda vc, i: [i <= mkint(first)]))
        want = mkint(first) == n
    else:
        want = all(item(k)[0] for k in range(n))
    r = p.InActiveCode()
    vc.reach("done")
    vc.check(r == want, "active exactly when every chain is in its taken branch")


CASES = {"!if": ["!if", "!IF", "!If"], "!elseif": ["!elseif", "!ELSEIF", "!ElseIf"], "!else": ["!else", "!ELSE", "!Else"], "!endif": ["!endif", "!ENDIF", "!EndIf"],
         "!ifdef": ["!ifdef", "!IFDEF", "!IfDef"], "!ifndef": ["!ifndef", "!IFNDEF", "!IfnDef"]}


def directive(vc):
    """Any directive on any stack: the chain's state becomes what the first true branch so far demands."""
    P = vc.module(A)
    p = P.BaseParser()
    codes, n, item = stack(vc, p)
    kind = vc.choice("kind", sorted(CASES))
    text = vc.choice("spelling", CASES[kind])
    words = vc.choice("words", range(0, 3))
    ws = []
    gap = vc.choice("gap", [" ", "\t "])
    for k in range(words):
        ws.append(word(vc, "w%d" % k))
        text = scat(text, gap, ws[-1])
    text = scat(text, gap) if vc.bool("blank at the end") else text
    cond = vc.bool("condition")
    asked = []

    def evaluate(t):
        asked.append(t)
        return cond

    p.EvaluateConditional = evaluate
    act = vc.bool("active")
    if vc.symbolic:
        p.InActiveCode = lambda: act            # (its own contract: harness "active")
        if n > 0:
            vc.assume(OR(NOT(act), item((n - 1).z)[0]))
    else:
        vc.assume(act == all(item(k)[0] for k in range(n)))
    ok, r = outcome(p.ProcessConditional, text)
    bad = kind in ("!ifdef", "!ifndef") and words != 1 or kind in ("!else", "!endif") and words != 0 or \
        kind in ("!elseif", "!else", "!endif") and bool(n == 0)
    vc.check(ok == (not bad), "refused exactly when malformed or without an open chain")
    if not ok:
        vc.reach("refused")
        return
    vc.check(r is True, "a directive is recognised")
    for t in asked:
        vc.check(t == text, "the condition evaluated is that of the line")
    if kind == "!if":
        vc.reach("if")
        vc.check(len(asked) == 1, "the condition is evaluated")
        is_stack(vc, p, item, n, (cond, cond))
    elif kind in ("!ifdef", "!ifndef"):
        vc.reach("ifdef")
        d = ws[0] != "0" if kind == "!ifdef" else ws[0] == "0"
        is_stack(vc, p, item, n, (d, d))
    elif kind == "!endif":
        vc.reach("endif")
        is_stack(vc, p, item, n - 1)
    else:
        top = item((n - 1).z if vc.symbolic else n - 1)
        if kind == "!else":
            vc.reach("else")
            is_stack(vc, p, item, n - 1, (NOT(top[1]), True))
        else:
            vc.reach("elseif")
            if top[1]:
                is_stack(vc, p, item, n - 1, (False, True))
            else:
                is_stack(vc, p, item, n - 1, (cond, cond))


def other(vc):
    """A line whose first word is no directive leaves every chain as it is."""
    P = vc.module(A)
    p = P.BaseParser()
    codes, n, item = stack(vc, p)
    first = vc.choice("first", ["word", "!include", "!error", "!", "!elsif", "!end"])
    if first == "word":
        text = vc.text("name", " \t\n\r\v\f\x1c\x1d\x1e\x1f\x85\xa0\u1680\u2028\u2029\u202f\u205f\u3000\"!" + "".join(map(chr, range(0x2000, 0x200b))), 1, neg=True,
                       gen=lambda r: r.choice(["DEFINE", "if", "[Defines]", "x!if", "else"]))
    else:
        text = first
    for k in range(vc.choice("words", range(0, 3))):
        text = scat(text, " ", word(vc, "w%d" % k))
    ok, r = outcome(p.ProcessConditional, text)
    vc.reach("done")
    vc.check(ok and r is False, "not a directive")
    is_stack(vc, p, item, n)


def number(vc, name):
    """An operand: how it is written and its value."""
    how = vc.choice(name + ".form", ["dec", "hex", "HEX", "0dec", "0hex", "TRUE", "false"])
    if how in ("TRUE", "false"):
        return how, int(how == "TRUE")
    v = vc.int(name, 0, (1 << 64), gen=lambda r: r.choice([0, 1, 2, 9, 10, 16]))
    if how[0] == "0":       # with a leading zero
        return (scat("0", fmt(v)) if how == "0dec" else scat("0x00", fmt(v, "x"))), v
    return (fmt(v) if how == "dec" else scat("0x", fmt(v, "x")) if how == "hex" else scat("0X", fmt(v, "X"))), v


def op_value(op, a, b):
    return {"==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b,
            "EQ": lambda: a == b, "NE": lambda: a != b}[op]()


def compare(vc):
    """Two operands and a comparison: the mathematical answer; ordering truth values is refused."""
    P = vc.module(A)
    p = P.BaseParser()
    op = vc.choice("op", ["==", "!=", "<", "<=", ">", ">="])
    a, va = number(vc, "a")
    b, vb = number(vc, "b")
    if vc.bool("a computed"):
        a = va = vc.bool("a value")
    if vc.bool("b computed"):
        b = vb = vc.bool("b value")
    words = any(isinstance(x, str) and x in ("TRUE", "false") for x in (a, b))
    ok, r = outcome(p.ComputeResult, a, op, b)
    if words and op not in ("==", "!="):
        vc.reach("refused")
        vc.check(not ok and isinstance(r, ValueError), "truth values have no order")
        return
    vc.reach("compared")
    vc.check(ok and r == op_value(op, _int(va), _int(vb)), "the comparison of the two values")


def _int(v):
    from pyvc import models, sym
    return models.VcInt(v) if isinstance(v, (sym.SymInt, sym.SymBool)) else int(v)


LETTERS = " abcdeghijklmnopqrsuvwxyzABCDEGHIJKLMNOPQRSUVWXYZ_./:"     # no number and neither TRUE nor FALSE can be written with these


def strings(vc):
    """Quoted texts are equal exactly when they are the same text."""
    P = vc.module(A)
    p = P.BaseParser()
    op = vc.choice("op", ["==", "!="])
    a = vc.text("a", LETTERS, 0, gen=lambda r: r.choice(["", "a", "A", "DEBUG", "RELEASE", " a", "a ", " ", "a  b"]))
    b = vc.text("b", LETTERS, 0, gen=lambda r: r.choice(["", "a", "A", "DEBUG", "RELEASE", " a", "a ", " ", "a b"]))
    q = vc.choice("quoted", ['"', '']) if bool(a != "") and bool(b != "") else '"'
    ok, r = outcome(p.ComputeResult, scat('"', a, '"'), op, scat(q, b, q))
    vc.reach("done")
    vc.check(ok and r == op_value(op, a, b), "equality of texts")


def logic(vc):
    """AND, OR and NOT of two computed truth values."""
    P = vc.module(A)
    p = P.BaseParser()
    a, b = vc.bool("a"), vc.bool("b")
    op = vc.choice("op", ["AND", "OR", "and", "or"])
    ok, r = outcome(p.ComputeResult, a, op, b)
    vc.reach("done")
    vc.check(ok and r == (AND(a, b) if op.upper() == "AND" else OR(a, b)), "the conjunction or disjunction")


SHAPES = [["A"], ["NOT", "(", "A", ")"], ["(", "A", ")", "AND", "(", "B", ")"], ["(", "A", ")", "OR", "(", "B", ")"], ["(", "NOT", "(", "A", ")", ")", "AND", "(", "B", ")"],
          ["(", "A", ")", "OR", "(", "NOT", "(", "B", ")", ")"], ["(", "(", "A", ")", "AND", "(", "B", ")", ")", "OR", "(", "A", ")"],
          ["(", "B", ")", "AND", "(", "(", "A", ")", "OR", "(", "B", ")", ")"], ["NOT", "(", "(", "A", ")", "OR", "(", "B", ")", ")"], ["(", "(", "A", ")", ")"]]


def shape_value(sh, A, B):
    """Independent evaluation of a fully parenthesised shape."""
    def expr(i):
        if sh[i] == "NOT":
            v, i = atom(i + 1)
            return NOT(v), i
        v, i = atom(i)
        if i < len(sh) and sh[i] in ("AND", "OR"):
            o = sh[i]
            w, i = atom(i + 1)
            v = AND(v, w) if o == "AND" else OR(v, w)
        return v, i

    def atom(i):
        if sh[i] == "(":
            v, i = expr(i + 1)
            return v, i + 1
        return (A if sh[i] == "A" else B), i + 1

    return expr(0)[0]


def evaluate(vc):
    """A fully parenthesised condition over two comparisons of any integers has its logical value."""
    P = vc.module(A)
    p = P.BaseParser()
    sh = SHAPES[vc.choice("shape", range(len(SHAPES)))]
    ops = ["==", "!=", "<", ">="]
    o1, o2 = vc.choice("op1", ops), vc.choice("op2", ops)
    v = [vc.int("v%d" % k, 0, 1 << 32, gen=lambda r: r.randint(0, 3)) for k in range(4)]
    A_ = [fmt(v[0]), o1, fmt(v[1])]
    B_ = [fmt(v[2]), o2, fmt(v[3])]
    toks = []
    for t in sh:
        toks += A_ if t == "A" else B_ if t == "B" else [t]
    text = scat(vc.choice("directive", ["!if ", "!ElseIf "]), *[x for t in toks for x in (t, " ")])
    if vc.symbolic:
        vc.bound("conditions of the %d listed shapes; tokenising is only run on concrete texts" % len(SHAPES))
        want = []
        k = 0
        real = P.BaseParser._TokenizeConditional
        # the real tokenizer on the same text with numerals in place of the operands, which are then put back
        numerals = ["101", "102", "103", "104"]
        it = {id(x): numerals[j] for j, x in enumerate((A_[0], A_[2], B_[0], B_[2]))}
        plain = " ".join(t if isinstance(t, str) else it[id(t)] for t in toks)
        back = {numerals[j]: x for j, x in enumerate((A_[0], A_[2], B_[0], B_[2]))}
        got = [back.get(t, t) for t in real(plain)]
        vc.patch(P.BaseParser, "_TokenizeConditional", classmethod(lambda cls, t: got))
    ok, r = outcome(p.EvaluateConditional, text)
    vc.reach("done")
    vc.check(ok and r == shape_value(sh, op_value(o1, v[0], v[1]), op_value(o2, v[2], v[3])), "the value of the condition")


def g_expr(r, d):
    """(text, value) of a random condition."""
    q = r.random()
    if d == 0 or q < 0.35:
        k = r.random()
        if k < 0.25:
            a, b = r.choice(["abc", "Abc", "x y", "DEBUG", " abc", "abc ", ""]), r.choice(["abc", "x y", "RELEASE", "abc ", "x  y", " ", ""])
            o = r.choice(["==", "!=", "EQ", "NE", "eq", "ne"])
            return '"%s" %s "%s"' % (a, o, b), (a == b) == (o in ("==", "EQ", "eq"))
        if k < 0.35:
            b = r.random() < 0.5
            t = r.choice(["TRUE", "True", "true"] if b else ["FALSE", "false", "False"])
            o = r.choice(["==", "!="])
            c = r.random() < 0.5
            return "%s %s %s" % (t, o, "TRUE" if c else "FALSE"), (b == c) == (o == "==")
        a, b = r.randint(0, 20), r.randint(0, 20)
        if r.random() < 0.3:
            b = a
        f = r.choice(["%d", "%d", "%03d", "0x%x", "0X%02X", "0x%08x"])
        o = r.choice(["==", "!=", "<", ">", "<=", ">="])
        s = r.choice([" ", " ", "  ", ""])
        return (f % a) + s + o + s + (f % b), op_value(o, a, b)
    if q < 0.55:
        t, v = g_expr(r, d - 1)
        return r.choice(["NOT (%s)", "not (%s)", "!(%s)", "NOT(%s)"]) % t, not v
    t, v = g_expr(r, d - 1)
    u, w = g_expr(r, d - 1)
    o = r.choice(["AND", "OR", "and", "or", "&&", "||"])
    return "(%s) %s (%s)" % (t, o, u), (v and w) if o in ("AND", "and", "&&") else (v or w)


def expressions(vc):
    """Random parenthesised conditions, tokenised and evaluated by the real code."""
    P = vc.module(A)
    d = vc.data("condition", lambda r: list(g_expr(r, r.choice([0, 1, 1, 2, 3]))))
    p = P.BaseParser()
    ok, r = outcome(p.EvaluateConditional, vc.choice("directive", ["!if ", "!elseif "]) + d[0])
    vc.check(ok and r is bool(d[1]), "the value of the condition")


def g_prog(r, d):
    """A random program: list of (line, condition value or None, kind)."""
    out = []
    for _ in range(r.randint(0, 3)):
        q = r.random()
        if q < 0.4 or d == 0:
            out.append("line")
            continue
        k = r.choice(["if", "if", "ifdef", "ifndef"])
        out.append([k, r.random() < 0.5])
        out += g_prog(r, d - 1)
        for _ in range(r.choice([0, 0, 1, 2])):
            out.append(["elseif", r.random() < 0.5])
            out += g_prog(r, d - 1)
        if r.random() < 0.6:
            out.append(["else", None])
            out += g_prog(r, d - 1)
        out.append(["endif", None])
    return out


def program(vc):
    """Whole programs: a line is kept exactly when every enclosing branch is the first true one of its chain."""
    P = vc.module(A)
    prog = vc.data("program", lambda r: g_prog(r, 3))
    p = P.HashFileParser("x")
    p.SetInputVars({"YES": "1"})
    chains = []
    got, want = [], []
    for k, s in enumerate(prog):
        if s == "line":
            line = "L%d" % k
            if all(c[0] for c in chains):
                want.append(line)
        else:
            kind, c = s
            if kind == "if":
                line = "!if %d == 1" % c
            elif kind == "elseif":
                line = "!elseif %d == 1" % c
            elif kind == "ifdef":
                line = "!ifdef %s" % ("YES" if c else "NO")
            elif kind == "ifndef":
                line = "!ifndef $(%s)" % ("NO" if c else "YES")
            else:
                line = "!" + kind
            if kind in ("if", "ifdef", "ifndef"):
                chains.append([c, c])
            elif kind == "endif":
                chains.pop()
            else:
                c = True if kind == "else" else c
                chains[-1] = [c and not chains[-1][1], c or chains[-1][1]]
        t = p.ReplaceVariables(line)
        if not p.ProcessConditional(t) and p.InActiveCode():
            got.append(t)
    vc.check(got == want, "the active lines")
    vc.check(p.ConditionalStack == [], "every chain is closed")


HARNESSES = [
    H("active", active, "the activity test, for any number of open chains", must_reach=["done"]),
    H("directive", directive, "every directive on every stack, whatever its condition", must_reach=["refused", "if", "ifdef", "endif", "else", "elseif"], parts=3, runs=600),
    H("other", other, "other lines change nothing", must_reach=["done"]),
    H("compare", compare, "comparison of any two numbers or truth values", must_reach=["refused", "compared"], runs=400),
    H("strings", strings, "equality of any two quoted texts", must_reach=["done"]),
    H("logic", logic, "AND and OR of any two truth values", must_reach=["done"], runs=40),
    H("evaluate", evaluate, "conditions of the listed shapes over any integers", must_reach=["done"], parts=2),
    H("expressions", expressions, "random parenthesised conditions", symbolic=False, runs=3000, why_bounded="the tokenizer works character by character on the whole text"),
    H("program", program, "random nested programs", symbolic=False, runs=1500, why_bounded="whole programs (each step is proved separately)"),
]
