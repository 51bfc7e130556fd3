"""Differential check of the library models: each operation is run on symbolic values pinned to concrete ones and compared with CPython."""
import io
import operator
import posixpath
import random
import re
import struct
import textwrap
import uuid

from . import models, sym
from .core import VC, PathEnd, Unsupported
from .loader import Loader
from .models import HOOKS


def conc(vc, v):
    """Concrete value of a symbolic result under the (pinned) path condition."""
    if isinstance(v, sym.SymInt):
        r = vc.concretize(v.z)
        if r is None:
            raise Unsupported("abstract result")
        return r
    if isinstance(v, sym.SymBool):
        t = vc.entails(v.z)
        if not t:
            import z3
            if not vc.entails(z3.Not(v.z)):
                raise Unsupported("abstract result")
        return t
    if isinstance(v, (sym.SymBytes, sym.SymByteArray)):
        n = v.vc_len()
        n = conc(vc, n)
        return bytes(conc(vc, v[i]) for i in range(n))
    if isinstance(v, sym.SymUUID):
        return uuid.UUID(bytes_le=conc(vc, v.bytes_le))
    if isinstance(v, (tuple, list)):
        return type(v)(conc(vc, x) for x in v)
    if isinstance(v, sym.SymStr):
        return "".join(conc_part(vc, p) for p in v.parts)
    return v


def conc_part(vc, p):
    if isinstance(p, str):
        return p
    if p[0] == "atom":
        a = p[1]
        how = None
        if a.origin:
            how, a = a.origin
        if a.name not in vc.pins:
            raise Unsupported("abstract result")
        t = vc.pins[a.name]
        if how:
            t = getattr(t, how)()
        i, j = (conc(vc, sym.mkint(x)) for x in p[2:4])
        return t[i:j]
    if p[0] == "int":
        return format(conc(vc, sym.mkint(p[1])), p[2])
    if p[0] in ("hex", "hex_u"):
        h = conc(vc, sym.mkbytes(list(p[1]))).hex()
        return h.upper() if p[0] == "hex_u" else h
    raise Unsupported("abstract result")


TEXTS = [("ab", False), ("AB", False), ("01", False), (" \t", False), ("-", False), ("aB", False), ("ab", True), (" \t\n\v\f\r\x1c\x1d\x1e\x1f\x85\xa0", True),
         ("xX=", True), ("", False), ("0123456789abcdef", False)]


def text_op(rng, consts):
    """One random operation as a function of (text, other text)."""
    c = rng.choice(consts)
    i, j = rng.randint(-5, 6), rng.randint(-5, 6)
    k = rng.choice([-1, -1, 0, 1, 2])
    pat = re.compile(rng.choice([r"a*b?", r"[ab]+", r"\s*[0-9a-f]{1,3}\s*", r"[^a]*-?", r"(ab|a|0x)\w*", r".*=", r"a.{0,2}b", r"^\S+$", r"x{2}|[^\d]", r"(?i)aB-?[a-f]*"]))
    how = rng.choice(["match", "fullmatch"])
    rng2 = rng.choice(["basename", "dirname", "split", "isabs"]), rng.choice(["\n", "\n  ", "\n\n    ", "\n \t\n "]), rng.choice(["", " ", "  ", "\t"])
    return rng.choice([
        ("strip", lambda s, t: s.strip()), ("lstrip", lambda s, t: s.lstrip()), ("rstrip", lambda s, t: s.rstrip()),
        ("strip " + c, lambda s, t: s.strip(c)), ("rstrip " + c, lambda s, t: s.rstrip(c)), ("lower", lambda s, t: s.lower()),
        ("upper", lambda s, t: s.upper()), ("split", lambda s, t: s.split()), ("split n", lambda s, t: s.split(None, k)),
        ("split c" + c, lambda s, t: s.split(c)), ("split cn", lambda s, t: s.split(c, k)), ("rsplit", lambda s, t: s.rsplit(c, k)),
        ("partition", lambda s, t: s.partition(c)), ("rpartition", lambda s, t: s.rpartition(c)), ("find", lambda s, t: s.find(c)),
        ("rfind", lambda s, t: s.rfind(c)), ("index", lambda s, t: s.index(c)), ("count", lambda s, t: s.count(c)),
        ("replace", lambda s, t: s.replace(c, "zz")), ("replace t", lambda s, t: HOOKS.callm(s, "replace", t, "Z", 1)),
        ("startswith", lambda s, t: s.startswith(c)), ("endswith", lambda s, t: s.endswith(c)),
        ("startswith t", lambda s, t: HOOKS.callm(s, "startswith", t)), ("in", lambda s, t: HOOKS.contains(c, s)),
        ("in const", lambda s, t: HOOKS.contains(s, "abaB01")), ("slice", lambda s, t: HOOKS.getitem(s, slice(i, j))),
        ("slice a", lambda s, t: HOOKS.getitem(s, slice(i, None))), ("slice b", lambda s, t: HOOKS.getitem(s, slice(None, j))),
        ("index i", lambda s, t: HOOKS.getitem(s, i)), ("len", lambda s, t: models.vc_len(s)), ("== t", lambda s, t: s == t),
        ("== c", lambda s, t: s == c), ("lower ==", lambda s, t: s.lower() == t.lower()), ("upper == c", lambda s, t: s.upper() == c.upper()),
        ("+", lambda s, t: s + "," + t), ("join", lambda s, t: HOOKS.callm(c, "join", [s, t])), ("bool", lambda s, t: bool(s)),
        ("isdigit", lambda s, t: s.isdigit()), ("int", lambda s, t: models.VcInt(s, 10)), ("int 16", lambda s, t: models.VcInt(s, 16)),
        ("int 0", lambda s, t: models.VcInt(s, 0)), ("zfill", lambda s, t: s.zfill(6)), ("splitlines", lambda s, t: s.splitlines()),
        ("removeprefix", lambda s, t: HOOKS.callm(s, "removeprefix", c)), ("format", lambda s, t: HOOKS.fstr("<", (s, None, ""), ">")),
        ("percent", lambda s, t: HOOKS.mod("%s:%s", (s, t))), ("dict", lambda s, t: use_dict(s, t, c)),
        ("basename", lambda s, t: HOOKS.callm(posixpath, rng2[0], s)), ("path join", lambda s, t: HOOKS.callm(posixpath, "join", s, t, c)),
        ("path ends", lambda s, t: HOOKS.callm(posixpath, rng2[0], s + "/" + t)), ("dedent", lambda s, t: HOOKS.callm(textwrap, "dedent", "  " + s + rng2[1] + t)),
        ("dedent lines", lambda s, t: HOOKS.callm(textwrap, "dedent", "\t x\n\t" + rng2[2] + "a" + s + rng2[1] + "b" + t)),
        ("replace away", lambda s, t: s.replace(c[0], "")),
        ("re " + pat.pattern, lambda s, t: bool(HOOKS.callm(pat, how, s))),
        ("re " + pat.pattern, lambda s, t: bool(HOOKS.callm(pat, how, s))),
        ("isspace", lambda s, t: s.isspace()), ("list in", lambda s, t: HOOKS.contains(s, ["ab", "a", "", "01"]))])


def use_dict(s, t, c):
    d = {}
    HOOKS.setitem(d, s, 1)
    HOOKS.setitem(d, c, 2)
    HOOKS.setitem(d, t, 3)
    r = [HOOKS.getitem(d, s), HOOKS.getitem(d, c), HOOKS.contains(c + "a", d), HOOKS.callm(d, "get", t, 9), len(d), HOOKS.contains("ab", d)]
    r.append(HOOKS.callm(d, "pop", s))
    return r + [len(d)]


def run_text(rng, st):
    """A random template; its unknown texts are pinned to values, and the model's answers compared with CPython's."""
    from . import text
    loader = Loader()
    consts = ["a", "b", "ab", "-", "=", " ", "0", "x", "aB", "A", "\t ", "0x"]

    def tmpl():
        out = []
        for _ in range(rng.randint(0, 4)):
            q = rng.random()
            if q < 0.5:
                out.append(rng.choice(consts))
            elif q < 0.6:
                out.append(("int", rng.choice([0, 1, 10, 255, rng.randint(0, 70000)]), rng.choice(["d", "x", "X", "02x", "04X", "", "08x"])))
            elif q < 0.7:
                out.append(("hex", rng.randbytes(rng.randint(1, 3))))
            else:
                ch, neg = rng.choice(TEXTS)
                cs = text.CS(ch, neg)
                lo = rng.choice([0, 0, 1])
                hi = rng.choice([None, None, 1, 3])
                v = "".join(rng.choice(cs.sample()) for _ in range(min(lo + rng.choice([0, 0, 1, 2, 4]), hi or 9))) if cs.sample() else ""
                lo = min(lo, len(v))
                out.append((ch, neg, lo, hi, v))
        return out

    a, b = tmpl(), tmpl()
    what, op = text_op(rng, consts)

    def plain(t):
        return "".join(p if isinstance(p, str) else format(p[1], p[2]) if p[0] == "int" else p[1].hex() if p[0] == "hex" else p[4] for p in t)

    def h(vc):
        vc.pins = {}
        n = [0]

        def build(t):
            out = []
            for p in t:
                n[0] += 1
                if isinstance(p, str):
                    out.append(p)
                elif p[0] == "int":
                    i = vc.int("i%d" % n[0])
                    vc.assume(i == p[1])
                    out += sym.SymStr.of(HOOKS.fmt1(i, p[2]))
                elif p[0] == "hex":
                    s = vc.bytes("b%d" % n[0], len(p[1]))
                    for k, c in enumerate(p[1]):
                        vc.assume(s[k] == c)
                    out += sym.SymStr.of(s.hex())
                else:
                    s = vc.text("t%d" % n[0], p[0], p[2], p[3], neg=p[1])
                    at = s.parts[0][1] if s.parts else None
                    if at is not None:
                        vc.pins[at.name] = p[4]
                        vc.fact(sym.zint(at.n) == len(p[4]) if not isinstance(at.n, int) else at.n == len(p[4]))
                        vc.fact(at.val == text.lit(p[4]))
                    out += s.parts
            return text.mk(out)

        s, t = build(a), build(b)
        if isinstance(s, str):
            return
        assert vc.feasible()
        try:
            x = attempt(lambda: conc(vc, op(s, t)))
        except (Unsupported, AssertionError):
            st.text_unsupported += 1
            return
        if not vc.feasible():
            return      # (the case distinction's other branch)
        y = attempt(lambda: op(plain(a), plain(b)))
        st.text_n += 1
        if x[0] == y[0] == "exc":
            return
        assert x == y, "model of %s disagrees on %r, %r: model %r, CPython %r" % (what, a, b, x, y)

    vc = VC(loader)
    r = vc.run(h)
    if r and "unsupported" not in r and "limit" not in r:
        raise AssertionError(r)


def attempt(f):
    try:
        return ("ok", f())
    except (PathEnd, Unsupported):
        raise
    except Exception as e:
        return ("exc", type(e).__name__)


class Case:
    def __init__(self, n_ok=0):
        self.n = 0
        self.unsupported = 0
        self.text_n = self.text_unsupported = 0


def run_one(rng, st):
    loader = Loader()

    def h(vc):
        k = [0]

        def pin_int(v):
            k[0] += 1
            s = vc.int("i%d" % k[0])
            vc.assume(s == v)
            return s

        def pin_bytes(b):
            k[0] += 1
            s = vc.bytes("b%d" % k[0], max_len=64)
            vc.assume(s.vc_len() == len(b))
            for i, c in enumerate(b):
                vc.assume(s[i] == c)
            return s

        def cmp(what, f, g):
            try:
                a = attempt(lambda: conc(vc, f()))
            except Unsupported:
                st.unsupported += 1
                return
            b = attempt(g)
            st.n += 1
            assert a == b, "model of %s disagrees: model %r, CPython %r" % (what, a, b)

        kind = rng.choice(["int", "int", "bytes", "struct", "unpack", "stream", "uuid", "cmp", "bytearray"])
        if kind == "int":
            op = rng.choice(["add", "sub", "mul", "floordiv", "mod", "and_", "or_", "xor", "lshift", "rshift", "neg", "invert", "eq", "lt", "le"])
            x = rng.choice([rng.randint(-300, 300), rng.randint(-(1 << 40), 1 << 40), rng.choice([0, 1, 255, 256, 65535, 1 << 32])])
            y = rng.choice([rng.randint(-20, 20), rng.randint(0, 70000), 1 << rng.randint(0, 33), (1 << rng.randint(0, 33)) - 1])
            f = getattr(operator, op)
            if op in ("neg", "invert"):
                cmp(op, lambda: f(pin_int(x)), lambda: f(x))
            else:
                if op in ("lshift", "rshift"):
                    y = rng.randint(0, 40)
                cmp("%s %r %r" % (op, x, y), lambda: f(pin_int(x), y), lambda: f(x, y))
                if op not in ("and_", "or_", "xor", "lshift", "rshift"):
                    cmp(op, lambda: f(pin_int(x), pin_int(y)), lambda: f(x, y))
        elif kind in ("bytes", "bytearray"):
            b = rng.randbytes(rng.randint(0, 9))
            i, j = rng.randint(-12, 12), rng.randint(-12, 12)
            s = pin_bytes(b)
            si = pin_int(i) if rng.random() < 0.5 else i
            sj = pin_int(j) if rng.random() < 0.5 else j
            if kind == "bytes":
                cmp("slice", lambda: s[si:sj], lambda: b[i:j])
                cmp("slice from", lambda: s[si:], lambda: b[i:])
                cmp("index", lambda: s[si], lambda: b[i])
                t = rng.choice([b[:3], rng.randbytes(3)])
                cmp("startswith", lambda: s.startswith(t), lambda: b.startswith(t))
                cmp("==", lambda: s == b[:4], lambda: b == b[:4])
                cmp("cat", lambda: s + t + s, lambda: b + t + b)
                cmp("ljust", lambda: s.ljust(abs(i), b"\0"), lambda: b.ljust(abs(i), b"\0"))
                cmp("sum", lambda: models.vc_sum(s), lambda: sum(b))
                cmp("from_bytes", lambda: models.VcInt.from_bytes(s, "little"), lambda: int.from_bytes(b, "little"))
                cmp("from_bytes", lambda: models.VcInt.from_bytes(s, "big", signed=True), lambda: int.from_bytes(b, "big", signed=True))
            else:
                def g(cls, src, jj):
                    a = cls(src)
                    a.extend(b"xy")
                    a.append(7)
                    if len(b) > 2:
                        a[1] = 9
                    a += b"z"
                    return bytes(a) if cls is bytearray else a
                cmp("bytearray", lambda: g(models.VcByteArray, s, sj), lambda: g(bytearray, b, j))
        elif kind == "struct":
            fmt = rng.choice(["<I", ">H", "<HIQ", "=BHI", "<bhiq", "<4sI", "<B3xI", ">Q2s", "BHI", "<16sHH"])
            args, sargs = [], []
            for knd, n, off, signed in models.parse_fmt(fmt)[0]:
                if knd == "x":
                    continue
                if knd == "s":
                    v = rng.randbytes(rng.randint(0, n + 2))
                    args.append(v)
                    sargs.append(pin_bytes(v))
                else:
                    v = rng.choice([0, 1, -1, rng.randint(-(1 << (8 * n)), 1 << (8 * n)), rng.randint(0, (1 << (8 * n - 1)) - 1)])
                    args.append(v)
                    sargs.append(pin_int(v))
            cmp("pack " + fmt, lambda: models.STRUCT.pack(fmt, *sargs), lambda: struct.pack(fmt, *args))
        elif kind == "unpack":
            fmt = rng.choice(["<I", ">H", "<HIQ", "=BHI", "<bhiq", "<4sI", "<B3xI", "BHI"])
            n = struct.calcsize(fmt)
            b = rng.randbytes(rng.choice([n, n, n, n + 1, n - 1]))
            s = pin_bytes(b)
            cmp("unpack " + fmt, lambda: models.STRUCT.unpack(fmt, s), lambda: struct.unpack(fmt, b))
            o = rng.randint(-2, 3)
            cmp("unpack_from " + fmt, lambda: models.STRUCT.unpack_from(fmt, s, o), lambda: struct.unpack_from(fmt, b, o))
        elif kind == "stream":
            b = rng.randbytes(rng.randint(0, 8))
            ops = [(rng.choice(["read", "seek", "tell", "write", "seek2", "all", "seek1"]), rng.randint(0, 10), rng.randbytes(rng.randint(0, 4)))
                   for _ in range(5)]

            def g(fs):
                out = []
                for o, n, w in ops:
                    if o == "read":
                        out.append(fs.read(n))
                    elif o == "all":
                        out.append(fs.read())
                    elif o == "seek":
                        out.append(fs.seek(n))
                    elif o == "seek1":
                        out.append(fs.seek(n, 1))
                    elif o == "seek2":
                        out.append(fs.seek(0, 2))
                    elif o == "tell":
                        out.append(fs.tell())
                    else:
                        out.append(fs.write(w))
                out.append(fs.getvalue())
                return tuple(out)
            cmp("stream %r" % (ops,), lambda: g(sym.SymStream(pin_bytes(b))), lambda: g(io.BytesIO(b)))
        elif kind == "uuid":
            b = rng.randbytes(rng.choice([16, 16, 16, 15]))
            s = pin_bytes(b)
            cmp("uuid", lambda: models.VcUUID(bytes_le=s), lambda: uuid.UUID(bytes_le=b))
            cmp("uuid.bytes", lambda: models.VcUUID(bytes=s).bytes_le, lambda: uuid.UUID(bytes=b).bytes_le)
            cmp("uuid.int", lambda: models.VcUUID(bytes_le=s).int, lambda: uuid.UUID(bytes_le=b).int)
        else:
            b, c = rng.randbytes(rng.randint(0, 3)), rng.randbytes(rng.randint(0, 3))
            for op in ("lt", "le", "gt", "ge", "eq", "ne"):
                f = getattr(operator, op)
                cmp("bytes " + op, lambda: bool(f(pin_bytes(b), pin_bytes(c))), lambda: f(b, c))

    vc = VC(loader)
    r = vc.run(h)
    if r and "unsupported" not in r:
        raise AssertionError(r)


def main(n=500, seed=1):
    rng = random.Random(seed)
    st = Case()
    for i in range(n):
        run_one(random.Random(rng.getrandbits(64)), st)
    print("selftest: %d model operations agree with CPython (%d outside the modelled subset)" % (st.n, st.unsupported))
    assert st.n > n
    for i in range(6 * n):
        run_text(random.Random(rng.getrandbits(64)), st)
    print("selftest: %d text operations agree with CPython (%d outside the modelled subset)" % (st.text_n, st.text_unsupported))
    assert st.text_n > n
    return 0
