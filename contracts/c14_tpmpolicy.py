import hashlib
import random

from contracts.base import H
from pyvc.lists import Indexed, SymList
from pyvc.util import AND, NOT, OR, all_eq, be, blen, cat, outcome

ID = "C14"
LEVEL = "proof"
TRUSTED = []
ASSUMPTIONS = ["PolicyCalculator, which computes nothing yet, is not under contract"]
EXPLANATION = ("Every node type is verified against the digest formula of TPM 2.0 Part 3 with its children represented by arbitrary digests or buffers; the "
               "loops over components and localities have invariants for any number of them. Whole trees are a labelled random search.")
A = "edk2toollib.tpm.tpm2_policy_calc"
D = "edk2toollib.tpm.tpm2_defs"
CC = {"PolicyNV": 0x149, "PolicySecret": 0x151, "PolicySigned": 0x160, "PolicyCommandCode": 0x16C, "PolicyLocality": 0x16F, "PolicyOR": 0x171, "Clear": 0x126,
      "NV_Write": 0x137, "NV_Read": 0x14E, "NV_ReadPublic": 0x169, "GetRandom": 0x17B, "NV_UndefineSpaceSpecial": 0x11F, "Startup": 0x144}


def _z(x):
    import z3
    from pyvc.sym import zint
    x = zint(x)
    return x if z3.is_expr(x) else z3.IntVal(x)


def hasher(vc):
    """The hasher is SHA-256 or SHA-384 of exactly the data; other types are refused."""
    M = vc.module(A)
    t = vc.choice("type", ["sha256", "sha384", "sha512", "SHA256", ""])
    ok, h = outcome(M.PolicyHasher, t)
    vc.check(ok == (t in ("sha256", "sha384")), "types")
    if ok:
        d = vc.bytes("data")
        want = _hash(vc, t, d)
        vc.check(h.get_size() == (32 if t == "sha256" else 48), "size")
        vc.check(h.hash(d) == want, "digest of the data")
        vc.check(blen(h.hash(d)) == h.get_size(), "the size is the length of the digest")
        vc.reach(t)


def _hash(vc, t, d):
    if vc.symbolic:
        from pyvc.models import HashModel
        return HashModel(t, d).digest()
    return getattr(hashlib, t)(d).digest()


class Spy:
    """A hasher that only lets the expected data through; in concrete mode the real one."""

    def __init__(self, size, expect):
        self.size, self.expect, self.k = size, expect, 0

    def get_size(self):
        return self.size

    def hash(self, d):
        return self.expect(d)


class Part:
    def __init__(self, k, b):
        self.b = b

    def get_buffer_for_digest(self):
        return self.b

    def validate(self):
        return True


class Sub:
    def __init__(self, k, b):
        self.b = b

    def get_policy(self, h):
        return self.b

    def validate(self):
        return True


def solo(vc):
    """A single claim: the hash of zeros and the claim."""
    M = vc.module(A)
    b = vc.bytes("claim", max_len=1000)
    size = vc.choice("size", [32, 48])
    seen = []

    def expect(d):
        seen.append(d)
        return "digest"
    ok, t = outcome(M.PolicyTreeSolo, Part(0, b))
    vc.check(ok and t.get_policy(Spy(size, expect)) == "digest" and len(seen) == 1, "one hash")
    vc.check(seen[0] == cat(bytes(size), b), "zeros and the claim")
    vc.check(t.get_policy_buffer(Spy(size, expect)) == cat(bytes(size), b), "the buffer")
    vc.check(t.validate() and not outcome(M.PolicyTreeSolo, object())[0] and not outcome(M.PolicyTreeSolo, Sub(0, b""))[0], "only claims are taken")
    vc.reach("done")


def anded(vc):
    """Any number of claims: the digest is extended by each of them in order, starting from zeros; other components are refused."""
    M = vc.module(A)
    size = vc.choice("size", [32, 48])
    c = vc.chunks("claim", min_item=1, max_total=1 << 30)
    n = c.n
    bad = vc.int("refused", 0, None if vc.symbolic else 12, gen=lambda r: r.choice([12, 12, 0, 1, 2]))    # first component that is no claim
    if vc.symbolic:
        import z3
        from pyvc.sym import mkbytes, mkint
        F = vc.fresh_fun("digest")

        def dig(i):
            return mkbytes([("a", F, z3.simplify(_z(i) * size), size)])

        vc.assume(dig(0) == bytes(size))
        state = {"i": 0}

        def get(k):
            k = _z(k)
            if vc.branch(k == _z(bad)):
                return Sub(0, b"")
            return Part(k, c.item(k))

        comps = SymList(n, get)

        def expect(d):
            i = state["i"]
            vc.check(d == cat(dig(i), c.item(i)), "the digest so far, extended by claim i")
            return dig(i + 1)

        def elem(vc, i):
            state["i"] = i
            return get(i)

        vc.contract(A + ":PolicyTreeAnd.__init__#0", Indexed(
            "components are claims", lambda vc, i, L: {}, n, facts=lambda vc, i: c.fact(i), inv=lambda vc, i: [OR(i <= bad, bad >= n)]))
        vc.contract(A + ":PolicyTreeAnd.get_policy#0", Indexed(
            "extend", lambda vc, i, L: {"current_digest": dig(i)}, n, facts=lambda vc, i: c.fact(i), elem=elem,
            inv=lambda vc, i: []))
        hsh = Spy(size, expect)
    else:
        comps = [Sub(0, b"") if k == bad else Part(k, c.item(k)) for k in range(n)]
        hsh = M.PolicyHasher("sha256" if size == 32 else "sha384")
    ok, t = outcome(M.PolicyTreeAnd, comps)
    vc.check(ok == bool(bad >= n), "accepted exactly when all components are claims")
    if ok:
        d = t.get_policy(hsh)
        if vc.symbolic:
            vc.check(d == dig(n), "the digest after all claims")
        else:
            want = bytes(size)
            for k in range(n):
                want = hsh.hash(want + c.item(k))
            vc.check(d == want, "the digest after all claims")
        vc.reach("accepted")


def ored(vc):
    """Up to eight alternatives: the hash of zeros, the PolicyOR code and every alternative's digest in order; validity is that of all alternatives."""
    M = vc.module(A)
    size = vc.choice("size", [32, 48])
    c = vc.chunks("digest", min_item=1, max_total=1 << 20)
    n = c.n
    kind = [vc.int("first_bad", 0, None if vc.symbolic else 12, gen=lambda r: r.choice([12, 0, 1])), vc.choice("how", ["invalid", "no policy", "no validate"])]

    def get(k):
        s = Sub(k, c.item(k))
        if bool(k == kind[0]) if not vc.symbolic else vc.branch(_z(k) == _z(kind[0])):
            class Odd:
                pass
            o = Odd()
            if kind[1] != "no policy":
                o.get_policy = s.get_policy
            if kind[1] != "no validate":
                o.validate = lambda: kind[1] != "invalid"
            return o
        return s
    if vc.symbolic:
        comps = SymList(n, get)
        vc.contract(A + ":PolicyTreeOr.validate#0", Indexed(
            "alternatives are valid", lambda vc, i, L: {"result": OR(i <= kind[0], False)}, n, facts=lambda vc, i: c.fact(i)))
        good = SymList(n, lambda k: Sub(k, c.item(k)))
    else:
        comps = [get(k) for k in range(n)]
        good = [Sub(k, c.item(k)) for k in range(n)]
    ok, t = outcome(M.PolicyTreeOr, comps)
    vc.check(ok == bool(n <= 8), "at most eight alternatives")
    if not ok:
        return
    vc.check(bool(t.validate()) == bool(kind[0] >= n), "valid exactly when every alternative is")
    vc.reach("valid")
    t = M.PolicyTreeOr(good)
    want = cat(bytes(size), be(0x171, 4), c.all())
    seen = []

    def expect(d):
        seen.append(d)
        return "digest"
    vc.check(t.get_policy(Spy(size, expect)) == "digest" and len(seen) == 1, "one hash")
    vc.check(seen[0] == want, "zeros, code and digests in order")
    vc.check(t.get_policy_buffer(Spy(size, expect)) == want, "the buffer")
    vc.reach("digest")


def locality(vc):
    """Localities 0 to 4 become their bits, one from 32 to 255 itself, everything else is refused; the claim is code and locality."""
    M = vc.module(A)
    if vc.bool("none"):
        o = M.PolicyLocality(None)
        vc.check(o.get_bitfield() == 0 and o.get_buffer_for_digest() == be(0x16F, 4) + b"\0", "no locality")
        return
    if vc.symbolic:
        import z3
        from pyvc.sym import mkbool, mkint
        V, B, N, n = vc.fresh_fun("Locality"), vc.fresh_fun("Bits"), vc.fresh("N"), vc.fresh("n")
        vc.fact(z3.And(0 <= N, N <= n, B(0) == 0))
        loc = SymList(n, lambda k: mkint(V(_z(k))))

        def valid(v):
            return z3.Or(z3.And(v >= 0, v < 5), z3.And(v >= 32, v < 256, n == 1))

        def facts(vc, i):
            i = _z(i)
            vc.fact(z3.And(z3.Implies(z3.And(i >= 0, i < N), valid(V(i))), z3.Implies(z3.And(i == N, i < n), z3.Not(valid(V(i))))))

        def facts2(vc, i):
            """Bits(i+1) is Bits(i) with the bit of locality i set."""
            i = _z(i)
            facts(vc, i)
            vc.fact(z3.Implies(i >= 0, z3.And(B(i) >= 0, B(i) < 32)))
            for k in range(5):
                p = 1 << k
                vc.fact(z3.Implies(z3.And(i >= 0, i < n, V(i) == k), B(i + 1) == B(i) + z3.If((B(i) / p) % 2 == 1, 0, p)))

        vc.contract(A + ":PolicyLocality.calc_bitfield_from_list#0", Indexed(
            "localities are valid", lambda vc, i, L: {}, mkint(n), facts=facts, inv=lambda vc, i: [i <= mkint(N)]))
        vc.contract(A + ":PolicyLocality.calc_bitfield_from_list#1", Indexed(
            "set the bits", lambda vc, i, L: {"bitfield": mkint(B(_z(i)))}, mkint(n), facts=facts2))
        good = mkbool(N == n)
        facts2(vc, 0)
        want = mkint(z3.If(z3.And(n == 1, V(0) >= 32), V(0), B(n)))
        single = None
    else:
        rr = random.Random(vc.int("seed", 0, 100000))
        k = rr.choice([0, 1, 1, 2, 3, 5, 7])
        loc = [rr.choice([0, 1, 2, 3, 4, 0, 1, 2, 3, 4] + [5, 31, 32, 255, 256, -1] * (rr.random() < 0.3 or k == 1)) for _ in range(k)]
        if k == 1 and rr.random() < 0.5:
            loc = [rr.randrange(20, 260)]
        if rr.random() < 0.2:
            loc = tuple(loc)
        good = all(0 <= v < 5 for v in loc) or (len(loc) == 1 and 32 <= loc[0] < 256)
        want = loc[0] if len(loc) == 1 and loc[0] >= 32 else sum(1 << v for v in {x for x in loc if 0 <= x < 5})
    ok, o = outcome(M.PolicyLocality, loc)
    vc.check(ok == bool(good), "accepted exactly when the localities are valid and can be combined")
    if ok:
        vc.check(o.get_bitfield() == want, "bits of the localities")
        vc.check(o.get_buffer_for_digest() == cat(be(0x16F, 4), be(want, 1)), "code and locality")
        vc.reach("accepted")


def command(vc):
    """Every known command code: name and number belong together in both directions, and the claim is PolicyCommandCode and the number."""
    M = vc.module(A)
    Df = vc.module(D)
    names = sorted(k for k in vars(Df) if k.startswith("TPM_CC_") and isinstance(getattr(Df, k), int) and k != "TPM_CC_Size" and not k.endswith(("_FIRST", "_LAST")))
    if not vc.symbolic:
        name = vc.choice("name", names + ["TPM_CC_Nothing", "None"])
        names = [name]
    for name in names:
        code = getattr(Df, name, None)
        ok, o = outcome(M.PolicyCommandCode, name)
        if code is None:
            vc.check(not ok, "an unknown command is refused")
            continue
        vc.check(ok and Df.CommandCode.get_code(name) == code, "number of the command")
        vc.check(Df.CommandCode.get_string(code) == name, "name of the number")
        vc.check(o.get_code() == name and o.get_buffer_for_digest() == be(0x16C, 4) + be(code, 4), "the claim")
    for k, v in CC.items():
        vc.check(Df.CommandCode.get_code("TPM_CC_" + k) == v, "numbers of the specification")
    vc.check(not outcome(M.PolicyCommandCode)[0] and not outcome(M.PolicyCommandCode, "TPM_CC_None")[0], "no command is refused")
    vc.reach("done")


def tree(vc):
    """Whole trees: the digest is that of an independent calculation."""
    M = vc.module(A)
    r = random.Random(vc.int("seed", 0, 1 << 30))
    t = r.choice(["sha256", "sha384"])
    h = M.PolicyHasher(t)
    hs = lambda d: getattr(hashlib, t)(d).digest()
    z = bytes(h.get_size())

    def prim():
        if r.random() < 0.5:
            loc = r.sample(range(5), r.randrange(6))
            return M.PolicyLocality(loc), bytes.fromhex("0000016f") + bytes([sum(1 << x for x in loc)])
        n = r.choice(sorted(CC))
        return M.PolicyCommandCode("TPM_CC_" + n), bytes.fromhex("0000016c") + be(CC[n], 4)

    def node(d):
        k = r.choice(["and", "solo", "or"] if d else ["and", "solo"])
        if k == "solo":
            p, b = prim()
            return M.PolicyTreeSolo(p), hs(z + b)
        if k == "and":
            ps = [prim() for _ in range(r.choice([0, 1, 2, 4]))]
            ps = [ps[r.randrange(len(ps))] if r.random() < 0.2 else p for p in ps]
            w = z
            for _, b in ps:
                w = hs(w + b)
            return M.PolicyTreeAnd([p for p, _ in ps]), w
        xs = [node(d - 1) for _ in range(r.choice([0, 1, 2, 3, 8]))]
        xs = [xs[r.randrange(len(xs))] if r.random() < 0.2 else x for x in xs]
        return M.PolicyTreeOr([a for a, _ in xs]), hs(z + bytes.fromhex("00000171") + b"".join(b for _, b in xs))
    o, want = node(2)
    vc.check(o.validate(), "valid")
    vc.check(o.get_policy(h) == want and o.get_policy(h) == want, "digest of the tree, every time")
    vc.reach("done")


HARNESSES = [H("hasher", hasher, hasher.__doc__, must_reach=["sha256", "sha384"]), H("solo", solo, solo.__doc__, must_reach=["done"]),
             H("anded", anded, anded.__doc__, must_reach=["accepted"]), H("ored", ored, ored.__doc__, must_reach=["valid", "digest"]),
             H("locality", locality, locality.__doc__, must_reach=["accepted"], runs=400), H("command", command, command.__doc__, must_reach=["done"], runs=400),
             H("tree", tree, tree.__doc__, symbolic=False, why_bounded="recursive composition of the proved nodes", runs=300)]
