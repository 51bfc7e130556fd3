"""os.path and textwrap on texts with unknown parts."""

from . import sym  # noqa: F401
from .core import Unsupported
from .text import CS, SymStr, ent, mk, mkbool, norm, pcs, plen, pmin, zint

PATHS = ("basename", "dirname", "split", "isabs", "join")
BLANKS = CS(" \t")


def call(name, a):
    if name == "isabs":
        return a[0].startswith("/")
    if name == "join":
        r = a[0]
        for b in a[1:]:
            if b.startswith("/"):
                r = b
            elif not r or r.endswith("/"):
                r = r + b
            else:
                r = r + "/" + b
        return r
    head, slash, tail = a[0].rpartition("/")
    if name == "basename":
        return tail
    cut = head.rstrip("/")
    if not cut:         # "//…/x": the slashes are the head
        cut = head + slash
    return cut if name == "dirname" else (cut, tail)


def _margin(ps):
    """The blanks a line (its parts) starts with; None: there is nothing else."""
    out = ""
    for p in ps:
        if isinstance(p, str):
            k = len(p) - len(p.lstrip(" \t"))
            out += p[:k]
            if k < len(p):
                return out
        elif pcs(p).disjoint(BLANKS):
            if pmin(p) > 0:
                return out
            if not ent(mkbool(zint(plen(p)) == 0)):
                raise Unsupported("dedent of a line with a part that may be empty")
        else:
            raise Unsupported("dedent of a line that may start with more blanks")
    return None


def dedent(s):
    if any(isinstance(p, str) and ("\r" in p or "\v" in p or "\f" in p) for p in s.parts):
        raise Unsupported("dedent with other line ends")
    lines = [SymStr.of(x) for x in s.split("\n")]
    ms = [_margin(norm(ps)) for ps in lines]
    got = [m for m in ms if m is not None]
    k = 0
    while got and k < min(map(len, got)) and len({m[k] for m in got}) == 1:
        k += 1
    out = []
    for i, (ps, m) in enumerate(zip(lines, ms)):
        if i:
            out.append("\n")
        if m is not None:
            ps = norm(ps)
            out += [ps[0][k:]] + list(ps[1:]) if k else ps
    return mk(out)
