import random
import types

from contracts.base import H
from pyvc.lists import Indexed
from pyvc.util import AND, NOT, OR, all_eq, be, blen, cat, outcome

ID = "C13"
LEVEL = "proof"
TRUSTED = []
ASSUMPTIONS = ["a socket delivers a prefix of the bytes sent, in pieces of at least one byte, and b'' once the peer has closed",
               "sendall delivers everything or raises"]
EXPLANATION = ("Marshalling is verified for every element list; the receive loop for every fragmentation of every response (a ghost function gives the "
               "piece size at each position), the polling loop for any number of empty results.")
S = "edk2toollib.tpm.tpm2_stream"
SIM = "edk2toollib.tpm.tpm2_simulator"
D = "edk2toollib.tpm.tpm2_defs"


def primitive(vc):
    """A primitive is its value big-endian in exactly its size, or refused."""
    M = vc.module(S)
    size = vc.choice("size", [1, 2, 4, 8, 0, 3, 16])
    v = vc.int("value", -5, (1 << 64) + 5, gen=lambda r: r.choice([0, 1, 255, 256, 65535, 1 << 32, (1 << 64) - 1, 1 << 64, -1, r.getrandbits(8 * size) if size else 0]))
    ok, p = outcome(M.Tpm2StreamPrimitive, size, v)
    vc.check(ok == (size in (1, 2, 4, 8)), "sizes")
    if not ok:
        return
    vc.check(p.get_size() == size, "size of the primitive")
    ok, b = outcome(p.marshal)
    vc.check(ok == bool(AND(v >= 0, v < 256 ** size)), "accepted exactly when the value fits")
    if ok:
        vc.check(b == be(v, size), "big-endian value")
        vc.reach("fits")


def tpm2b(vc):
    """A TPM2B is its size as 16 bits and its data, also after an update."""
    M = vc.module(S)
    d = vc.bytes("data", gen=lambda r: r.randbytes(r.choice([0, 1, 2, 255, 256, 300, 70000 if r.random() < 0.05 else 3])))
    if vc.bool("updated"):
        o = M.TPM2B(vc.bytes("old", max_len=100))
        o.update_data(d)
    else:
        o = M.TPM2B(d)
    vc.check(o.get_size() == 2 + blen(d), "size")
    ok, b = outcome(o.marshal)
    vc.check(ok == bool(blen(d) <= 65535), "accepted exactly when the size fits")
    if ok:
        vc.check(b == cat(be(blen(d), 2), d), "size and data")
        vc.reach("fits")


def stream(vc):
    """Any command: tag, size, code, then the elements in order; the size is the length of the whole, also when elements change after being added."""
    M = vc.module(S)
    tag, code = vc.int("tag", 0, 65535), vc.int("code", 0, (1 << 32) - 1)
    s = M.Tpm2CommandStream(tag, vc.int("ignored", 0, 1000), code)
    vc.check(s.get_size() == 10, "size of an empty command")
    vc.check(s.get_stream() == cat(be(tag, 2), be(10, 4), be(code, 4)), "an empty command")
    c = vc.chunks("element", min_item=0, max_total=1 << 31)
    old = vc.int("old_size", 0, 65537)

    class E:
        """Contract of an element: get_size is the length of marshal (harnesses primitive, tpm2b)."""

        def __init__(self, k, b):
            self.b = b

        def get_size(self):
            return blen(self.b)

        def marshal(self):
            return self.b

    class Changing(E):
        size = None

        def get_size(self):
            return blen(self.b) if self.size is None else self.size

    s.stream_elements = c.list(E)
    vc.prefix_sum(lambda k: c.off(k), c.fact) if vc.symbolic else None
    new = Changing(0, vc.bytes("new", max_len=65537))
    if vc.bool("changes"):
        new.size = old
    s.add_element(new)
    vc.check(s.header.size == 10 + c.off(c.n) + new.get_size(), "the size follows the added element")
    new.size = None
    vc.check(s.get_size() == 10 + c.off(c.n) + blen(new.b), "the size is the length of the command")
    vc.check(s.get_stream() == cat(be(tag, 2), be(10 + c.off(c.n) + blen(new.b), 4), be(code, 4), c.all(), new.b), "header and elements in order")
    vc.reach("done")


class Closed(Exception):
    pass


def frag(r):
    return r.choice([1, 1, 2, 3, 4, 5, 7, 1000])


class Sock:
    """A socket with the given bytes to come; piece(p) bytes are there when reading at position p."""

    def __init__(self, b, piece):
        self.b, self.piece, self.pos, self.sent = b, piece, 0, []

    def sendall(self, d):
        self.sent.append(d)

    def send(self, d):
        """May take only a part."""
        if blen(d) > 1:
            d = d[0:1]
        self.sent.append(d)
        return blen(d)

    def recv(self, k, flags=0):
        m = self.piece(self.pos)
        if m > k:
            m = k
        if self.pos + m > blen(self.b):
            m = blen(self.b) - self.pos
        d = self.b[self.pos:self.pos + m]
        self.pos = self.pos + m
        return d


def mksim(vc, M, sock):
    t = M.TpmSimulator.__new__(M.TpmSimulator)
    t.tpmSock = sock
    return t


def read(vc):
    """Exactly the requested bytes are returned however the network cuts them; a closed connection is an error."""
    M = vc.module(SIM)
    b = vc.bytes("incoming", gen=lambda r: r.randbytes(r.choice([0, 1, 4, 10, 30])))
    n = blen(b)
    at = vc.int("position", 0, None if vc.symbolic else n, gen=lambda r: r.choice([0, 0, n]))
    vc.assume(at <= n)
    count = vc.int("count", 0, None if vc.symbolic else 40, gen=lambda r: max(0, n - at + r.choice([0, 0, -1, 1, -3])))
    if vc.symbolic:
        import z3
        from pyvc.sym import mkint, zint
        R, P, N = vc.fresh_fun("Piece"), vc.fresh_fun("P"), vc.fresh("n")
        vc.fact(z3.And(P(0) == 0, N >= 0))

        def piece(p):
            vc.fact(R(_z(p)) >= 1)
            return mkint(R(_z(p)))

        def facts(vc, i):
            i = _z(i)
            more = z3.And(P(i) < _z(count), _z(at) + P(i) < _z(n))
            m = R(_z(at) + P(i))
            m1 = z3.If(m > _z(count) - P(i), _z(count) - P(i), m)
            m2 = z3.If(_z(at) + P(i) + m1 > _z(n), _z(n) - _z(at) - P(i), m1)
            vc.fact(z3.And(z3.Implies(z3.And(i < N, i >= 0), z3.And(more, P(i + 1) == P(i) + m2)), z3.Implies(i == N, z3.Not(more)), m >= 1))

        vc.contract(SIM + ":TpmSimulator.read_raw_data#0", Indexed(
            "receive", lambda vc, i, L: {"data": b[at:at + mkint(P(_z(i)))]}, mkint(N), facts=facts,
            heap=lambda vc, i, L: [(L["self"].tpmSock, "pos", at + mkint(P(_z(i))))],
            inv=lambda vc, i: [mkint(P(_z(i))) >= i, mkint(P(_z(i))) <= count, at + mkint(P(_z(i))) <= n]))
    else:
        sizes = {}
        r = random.Random(vc.int("fragments", 0, 1000))

        def piece(p):
            return sizes.setdefault(p, frag(r))
    k = Sock(b, piece)
    k.pos = at
    ok, d = outcome(mksim(vc, M, k).read_raw_data, count)
    vc.check(ok == bool(at + count <= n), "all bytes or an error")
    if ok:
        vc.check(AND(d == b[at:at + count], k.pos == at + count), "exactly the requested bytes, and no more taken")
        vc.reach("whole")


def _z(x):
    import z3
    from pyvc.sym import zint
    x = zint(x)
    return x if z3.is_expr(x) else z3.IntVal(x)


def send(vc):
    """Sending a command writes command code, locality, size and data, and returns exactly the next result that is not empty."""
    M = vc.module(SIM)
    cmd = vc.bytes("command", gen=lambda r: r.randbytes(r.choice([0, 10, 12, 30])))
    vc.assume(blen(cmd) <= 0xFFFFFFFF)
    b = vc.bytes("incoming", gen=lambda r: b"\0\0\0\0" * r.choice([0, 1, 2]) + be_(r.choice([5, 10])) + r.randbytes(r.choice([5, 10, 10])) + r.choice([b"", b"rest"]))
    n = blen(b)
    r = None if vc.symbolic else random.Random(vc.int("fragments", 0, 1000))
    sizes = {}
    k = Sock(b, None if vc.symbolic else lambda p: sizes.setdefault(p, frag(r)))
    t = mksim(vc, M, k)
    word = lambda p: M_int(vc, b[p:p + 4])
    if vc.symbolic:
        import z3
        from pyvc.sym import mkint, zint
        N = vc.fresh("n")
        vc.fact(N >= 0)

        def sendraw(self, d):
            self.tpmSock.sendall(d)

        def readraw(self, count):
            """Contract of read_raw_data (harness read)."""
            p = k.pos
            if p + count > n:
                raise ConnectionError("closed")
            k.pos = p + count
            return b[p:p + count]

        vc.patch(M.TpmSimulator, "read_raw_data", readraw)

        def facts(vc, i):
            p = 4 * i
            if vc.branch(_z(i) < N):
                vc.fact(_z(p) + 4 <= _z(n))
                vc.fact(zint(word(p)) == 0)
            elif p + 4 <= n:
                vc.fact(z3.Implies(_z(i) == N, zint(word(p)) != 0))

        vc.contract(SIM + ":TpmSimulator.send_data#0", Indexed(
            "poll", lambda vc, i, L: {}, mkint(N) + 1, facts=facts, heap=lambda vc, i, L: [(k, "pos", 4 * i)], inv=lambda vc, i: [4 * i <= n, i <= mkint(N)]))
        p = 4 * mkint(N)
    else:
        p = 0
        while p + 4 <= n and word(p) == 0:
            p += 4
    good = bool(p + 4 <= n) and bool(p + 4 + word(p) <= n)
    ok, d = outcome(t.send_data, cmd)
    vc.check(ok == good, "an error exactly when the connection ends before the result")
    sent = b"" if vc.symbolic else None
    vc.check(cat(*k.sent) == cat(be(8, 4), b"\3", be(blen(cmd), 4), cmd), "what is sent")
    if ok:
        vc.check(AND(d == b[p + 4:p + 4 + word(p)], k.pos == p + 4 + word(p)), "the result")
        vc.check(blen(d) > 0, "a result is not empty")
        vc.reach("result")


def be_(x):
    return x.to_bytes(4, "big")


def M_int(vc, b):
    from pyvc.models import VcInt
    return VcInt.from_bytes(b, "big")


def start(vc):
    """Connecting power cycles the TPM and enables NV over the platform port; startup sends the startup command and returns its result."""
    M = vc.module(SIM)
    made = []

    class F(Sock):
        def __init__(self, *a):
            Sock.__init__(self, be_(10) + b"0123456789", lambda p: 3)
            made.append(self)

        def connect(self, a):
            self.to = a

        def send(self, d):
            self.sent.append(d)
            return len(d)

    old = M.socket
    M.socket = types.SimpleNamespace(socket=F, AF_INET=2, SOCK_STREAM=1)
    try:
        port = vc.int("port", 1, 65534)
        t = M.TpmSimulator("host", port)
        ty = vc.int("type", 0, 65535)
        r = t.startup(ty)
    finally:
        M.socket = old
    plat = [s for s in made if bool(s.to[1] == port + 1)]
    tpm = [s for s in made if bool(s.to[1] == port)]
    vc.check(len(plat) == 1 and len(tpm) == 1 and len(made) == 2, "both ports")
    vc.check(cat(*plat[0].sent) == be_(2) + be_(1) + be_(11), "power off, power on, NV on")
    vc.check(cat(*tpm[0].sent) == cat(be_(8), b"\3", be_(12), be(0x8001, 2), be_(12), be(0x144, 4), be(ty, 2)), "the startup command")
    vc.check(r == b"0123456789", "its result")
    vc.reach("done")


def response(vc):
    """Every response code is classified by its bits, as the TPM 2.0 specification lays them out."""
    M = vc.module(D)
    rc = vc.int("rc", 0, 0xFFF, gen=lambda r: r.choice([r.randrange(4096), r.randrange(4096), 0x100 + r.randrange(64), 0x900 + r.randrange(48), 0x80 + r.randrange(64)]))
    ok, t = outcome(M.ResponseCode.parse_code, rc)
    f = (rc // 128) % 2
    v = (rc // 256) % 2
    if rc == 0:
        vc.check(ok and t == ("Success", "None", 0, "TPM_RC_SUCCESS", "NA"), "success")
    elif bool(AND(f == 0, v == 0)):
        vc.check(ok and t == ("Tpm1.2 Response", "None", 0, 0, "NA"), "a TPM 1.2 response")
    elif f == 0:
        code = rc % 128
        if (rc // 1024) % 2 == 1:
            vc.check(ok and t == ("Vendor Defined Code", "None", 0, 0, "NA"), "a vendor code")
            vc.reach("vendor")
        elif rc // 2048 == 1:
            vc.check(ok or spec_name(vc, M, "TPM_RC_", code, 0x900) is None, "every warning of the specification is known")
            if ok:
                vc.check(bool(t[0] == "Warning") and t[1] == "None" and t[2] == 0, "a warning")
                vc.check(t[3] == spec_name(vc, M, "TPM_RC_", code, 0x900), "name of the warning")
                vc.reach("warning")
        elif not ok:
            vc.check(spec_name(vc, M, "TPM_RC_", code, 0x100) is None, "every error of the specification is known")
        else:
            vc.check(AND(t[0] == "Error", t[1] == "None", t[2] == 0, t[3] == code), "an error")
            vc.check(t[4] == spec_name(vc, M, "TPM_RC_", code, 0x100), "name of the error")
            vc.reach("error")
    else:
        code = rc % 64
        if (rc // 64) % 2 == 1:
            vc.check(ok and AND(t[0] == "Error", t[1] == "Parameter", t[2] == rc // 256, t[3] == code), "a parameter error")
            vc.reach("parameter")
        elif rc // 2048 == 1:
            vc.check(ok and AND(t[0] == "Error", t[1] == "Session", t[2] == (rc // 256) % 8, t[3] == code), "a session error")
            vc.reach("session")
        elif not ok:
            vc.check(spec_name(vc, M, "TPM_RC_", code, 0x80) is None, "every handle error of the specification is known")
        else:
            vc.check(AND(t[0] == "Error", t[1] == "Handle", t[2] == (rc // 256) % 8, t[3] == code), "a handle error")
            vc.check(t[4] == spec_name(vc, M, "TPM_RC_", code, 0x80), "name of the handle error")
            vc.reach("handle")


def names(vc):
    """The names of simple response codes, and the simulator's platform commands, are those of the specifications."""
    D_, S_ = vc.module(D), vc.module(SIM)
    codes = range(0x1000) if vc.symbolic else [vc.int("rc", 0, 0x1FF)]
    for rc in codes:
        n = TABLES[0x100].get(rc - 0x100)
        vc.check(D_.ResponseCode.get_simple_string(rc) == ("TPM_RC_" + n if n else None), "name of the response")
    for k, v in PLATFORM.items():
        vc.check(S_.PLAT_COMMANDS.get("TPM_" + k) == v, "number of the platform command")
    vc.reach("done")


# TPM 2.0 reference implementation, TpmTcpProtocol.h
PLATFORM = {"SIGNAL_POWER_ON": 1, "SIGNAL_POWER_OFF": 2, "SIGNAL_PHYS_PRES_ON": 3, "SIGNAL_PHYS_PRES_OFF": 4, "SIGNAL_HASH_START": 5, "SIGNAL_HASH_DATA": 6,
            "SIGNAL_HASH_END": 7, "SEND_COMMAND": 8, "SIGNAL_CANCEL_ON": 9, "SIGNAL_CANCEL_OFF": 10, "SIGNAL_NV_ON": 11, "SIGNAL_NV_OFF": 12,
            "SIGNAL_KEY_CACHE_ON": 13, "SIGNAL_KEY_CACHE_OFF": 14, "REMOTE_HANDSHAKE": 15, "SET_ALTERNATIVE_RESULT": 16, "SIGNAL_RESET": 17, "SESSION_END": 20,
            "STOP": 21, "GET_COMMAND_RESPONSE_SIZES": 25, "TEST_FAILURE_MODE": 30}



def spec_name(vc, M, prefix, code, base):
    for k, v in TABLES[base].items():
        if code == k:
            return "TPM_RC_" + v
    return None


# TPM 2.0 Library Specification Part 2, table 17 (RC_VER1, RC_FMT1, RC_WARN)
TABLES = {
    0x100: {0: "INITIALIZE", 1: "FAILURE", 3: "SEQUENCE", 0xB: "PRIVATE", 0x19: "HMAC", 0x20: "DISABLED", 0x21: "EXCLUSIVE", 0x24: "AUTH_TYPE",
            0x25: "AUTH_MISSING", 0x26: "POLICY", 0x27: "PCR", 0x28: "PCR_CHANGED", 0x2D: "UPGRADE", 0x2E: "TOO_MANY_CONTEXTS", 0x2F: "AUTH_UNAVAILABLE",
            0x30: "REBOOT", 0x31: "UNBALANCED", 0x42: "COMMAND_SIZE", 0x43: "COMMAND_CODE", 0x44: "AUTHSIZE", 0x45: "AUTH_CONTEXT", 0x46: "NV_RANGE",
            0x47: "NV_SIZE", 0x48: "NV_LOCKED", 0x49: "NV_AUTHORIZATION", 0x4A: "NV_UNINITIALIZED", 0x4B: "NV_SPACE", 0x4C: "NV_DEFINED", 0x50: "BAD_CONTEXT",
            0x51: "CPHASH", 0x52: "PARENT", 0x53: "NEEDS_TEST", 0x54: "NO_RESULT", 0x55: "SENSITIVE"},
    0x80: {1: "ASYMMETRIC", 2: "ATTRIBUTES", 3: "HASH", 4: "VALUE", 5: "HIERARCHY", 7: "KEY_SIZE", 8: "MGF", 9: "MODE", 0xA: "TYPE", 0xB: "HANDLE", 0xC: "KDF",
           0xD: "RANGE", 0xE: "AUTH_FAIL", 0xF: "NONCE", 0x10: "PP", 0x12: "SCHEME", 0x15: "SIZE", 0x16: "SYMMETRIC", 0x17: "TAG", 0x18: "SELECTOR",
           0x1A: "INSUFFICIENT", 0x1B: "SIGNATURE", 0x1C: "KEY", 0x1D: "POLICY_FAIL", 0x1F: "INTEGRITY", 0x20: "TICKET", 0x21: "RESERVED_BITS",
           0x22: "BAD_AUTH", 0x23: "EXPIRED", 0x24: "POLICY_CC", 0x25: "BINDING", 0x26: "CURVE", 0x27: "ECC_POINT"},
    0x900: {1: "CONTEXT_GAP", 2: "OBJECT_MEMORY", 3: "SESSION_MEMORY", 4: "MEMORY", 5: "SESSION_HANDLES", 6: "OBJECT_HANDLES", 7: "LOCALITY", 8: "YIELDED",
            9: "CANCELED", 0xA: "TESTING", 0x10: "REFERENCE_H0", 0x11: "REFERENCE_H1", 0x12: "REFERENCE_H2", 0x13: "REFERENCE_H3", 0x14: "REFERENCE_H4",
            0x15: "REFERENCE_H5", 0x16: "REFERENCE_H6", 0x18: "REFERENCE_S0", 0x19: "REFERENCE_S1", 0x1A: "REFERENCE_S2", 0x1B: "REFERENCE_S3",
            0x1C: "REFERENCE_S4", 0x1D: "REFERENCE_S5", 0x1E: "REFERENCE_S6", 0x20: "NV_RATE", 0x21: "LOCKOUT", 0x22: "RETRY", 0x23: "NV_UNAVAILABLE"}}

HARNESSES = [H("primitive", primitive, primitive.__doc__, must_reach=["fits"]), H("tpm2b", tpm2b, tpm2b.__doc__, must_reach=["fits"]),
             H("stream", stream, stream.__doc__, must_reach=["done"]), H("read", read, read.__doc__, must_reach=["whole"], runs=400),
             H("send", send, send.__doc__, must_reach=["result"], runs=400), H("start", start, start.__doc__, must_reach=["done"], runs=20),
             H("response", response, response.__doc__, must_reach=["vendor", "warning", "error", "parameter", "session", "handle"], runs=6000),
             H("names", names, names.__doc__, must_reach=["done"])]
