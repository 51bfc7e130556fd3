from contracts.base import H
from pyvc.lists import Indexed
from pyvc.util import AND, IMPLIES, NOT, OR, all_eq, blen, cat, guid_le, le, outcome, u

ID = "C07"
LEVEL = "proof"
TRUSTED = ["bytes.decode (modelled as an opaque function of bytes and encoding that may fail)"]
ASSUMPTIONS = ["str() of an entry is not under contract"]
EXPLANATION = "Contracts of the variable policy decoders for every buffer, name length and lock policy."
A = "edk2toollib.uefi.edk2.variable_policy"
HDR = 44
U32 = 0xFFFFFFFF


def g_state(r):
    name = r.choice(["", "A", "Name", "\ufeffx"]).encode("utf-16-le")
    return (r.randbytes(16) + bytes([r.choice([0, 1, 255]), 0]) + name + r.choice([b"\0\0", b"\0\0", b"\0\0", b"", b"\0"]) + r.choice([b"", b"", b"rest"]))


def g_entry(r):
    lt = r.choice([0, 1, 2, 3, 3, 3, 4])
    lock = g_state(r) if lt == 3 else r.choice([b"", b"", b"xx"])
    name = r.choice(["", "", "A\0", "Name\0", "\0"]).encode("utf-16-le") + r.choice([b"", b"", b"", b"x"])
    off = HDR + len(lock)
    size = off + len(name)
    return (r.choice([0x10000] * 9 + [0x20000]).to_bytes(4, "little") + max(0, size + r.choice([0] * 9 + [1, -1, -50])).to_bytes(2, "little")
            + max(0, off + r.choice([0] * 9 + [1, -45])).to_bytes(2, "little") + r.randbytes(32) + bytes([lt, 0, 0, 0]) + lock + name
            + r.choice([b"", b"more"]))[: r.choice([999] * 9 + [43])]


def pair_zero(b, k):
    return AND(b[2 * k] == 0, b[2 * k + 1] == 0)


def find_end(vc, b, key):
    """Ghost: where the first CHAR16 NUL of b is (None when there is none), and the loop contract that says so."""
    n = blen(b)
    if not vc.symbolic:
        for k in range(n // 2):
            if b[2 * k] == 0 and b[2 * k + 1] == 0:
                return k
        return None
    from pyvc.sym import mkint
    if vc.bool("has_nul"):
        z = mkint(vc.fresh("nul"))
        vc.assume(AND(z >= 0, 2 * z + 1 < n))
        vc.assume(pair_zero(b, z))
        lim = z
    else:
        z, lim = None, n // 2

    def facts(vc, i):
        # every pair before the first NUL is not NUL (instance at i of how z is defined)
        if AND(i >= 0, i < lim):
            vc.assume(NOT(pair_zero(b, i)))

    vc.contract(key, Indexed("name scan", lambda vc, i, L: {"string_end": None}, n // 2, facts=facts,
                             inv=lambda vc, i: [i <= lim]))
    return z


def state_decode(vc):
    """Lock-on-variable-state policy: namespace, value, the name up to its first NUL; exactly that many bytes are consumed."""
    M = vc.module(A)
    body = vc.bytes("body", gen=g_state, max_len=1 << 40)
    n = blen(body)
    z = find_end(vc, body[18:n], A + ":VariableLockOnVarStatePolicy.decode#0") if n >= 18 else None
    p = M.VariableLockOnVarStatePolicy()
    ok, rest = outcome(p.decode, body)
    if n < 22:
        vc.check(not ok, "too short")
        return
    if z is None:
        vc.reach("no end")
        vc.check(not ok and isinstance(rest, ValueError), "a name without end is rejected")
        return
    end = 18 + 2 * z + 2
    dok, name = outcome(body[18:end].decode, "utf-16-le")
    vc.check(ok == dok, "accepted exactly when the name is text")
    if ok:
        vc.reach("ok")
        vc.check(p.Name == name.strip("\0"), "name")
        vc.check(AND(p.Namespace.bytes_le == body[0:16], p.Value == body[16]), "namespace and value")
        vc.check(rest == body[end:n], "everything after the name remains")


class StatePolicy:
    """Callee contract of VariableLockOnVarStatePolicy (see state_decode): fails or records what it was given."""

    def decode(self, b):
        from pyvc.core import cur
        import z3
        if not cur().branch(cur().fresh("state_ok", z3.BoolSort())):
            raise ValueError("state policy")
        self.b = b
        return b""


def entry_decode(vc):
    """Policy entry: accepted only when version, type and sizes are right; every field is exactly its bytes; consumes exactly Size bytes."""
    M = vc.module(A)
    if vc.symbolic:
        vc.patch(M, "VariableLockOnVarStatePolicy", StatePolicy)
    body = vc.bytes("body", gen=g_entry)
    n = blen(body)
    e = M.VariablePolicyEntry()
    if vc.bool("used"):
        # the object decoded something else before
        e.Name, e.LockPolicy = "old", "old"
    ok, rest = outcome(e.decode, body)
    if n < HDR:
        vc.check(not ok, "too short")
        return
    size, off, lt = u(body, 4, 2), u(body, 6, 2), body[40]
    good = AND(u(body, 0, 4) == 0x10000, lt <= 3, off >= HDR, off <= size, size <= n)
    if not ok:
        vc.reach("reject")
        vc.check(isinstance(rest, ValueError), "rejection is a ValueError")
        if good and (off == size):
            vc.check(lt == 3, "a well-formed entry without name or state policy is not rejected")
        return
    vc.check(good, "accepted only when version, type and sizes are right")
    vc.reach("accept")
    vc.check(all_eq((e.Version, 0x10000), (e.Size, size), (e.OffsetToName, off), (e.Namespace.bytes_le, body[8:24]), (e.MinSize, u(body, 24, 4)),
                    (e.MaxSize, u(body, 28, 4)), (e.AttributesMustHave, u(body, 32, 4)), (e.AttributesCantHave, u(body, 36, 4)),
                    (e.LockPolicyType, lt)), "every field is exactly its bytes")
    vc.check(rest == body[size:n], "exactly Size bytes are consumed")
    if off == size:
        vc.check(e.Name is None, "no name")
    else:
        vc.reach("name")
        vc.check(e.Name == body[off:size].decode("utf-16-le").strip("\0"), "name")
    if lt == 3:
        vc.reach("state")
        if vc.symbolic:
            vc.check(e.LockPolicy.b == body[HDR:off], "the state policy is what lies between header and name")
        else:
            q = M.VariableLockOnVarStatePolicy()
            q.decode(body[HDR:off])
            vc.check((q.Namespace, q.Value, q.Name) == (e.LockPolicy.Namespace, e.LockPolicy.Value, e.LockPolicy.Name), "state policy")
    else:
        vc.check(e.LockPolicy is None, "no state policy")


def csv(vc):
    """One CSV cell per header column, with the decoded values."""
    M = vc.module(A)
    e = M.VariablePolicyEntry()
    lt = vc.choice("type", [0, 1, 2, 3])
    e.LockPolicyType = lt
    e.Name = "N"
    e.MinSize, e.MaxSize = vc.int("min", 0, U32), vc.int("max", 0, U32)
    e.AttributesMustHave = vc.choice("must", [0, 1, 2, 0x7F, 0x80, U32])
    e.AttributesCantHave = vc.choice("cant", [0, 4, 0x22])
    import uuid
    e.Namespace = uuid.UUID(int=5)
    if lt == 3:
        e.LockPolicy = M.VariableLockOnVarStatePolicy()
        e.LockPolicy.Namespace = uuid.UUID(int=6)
        e.LockPolicy.Name = "S"
        e.LockPolicy.Value = vc.int("value", 0, 255)
    ref = vc.choice("ref", [None, {uuid.UUID(int=5): "five"}, {uuid.UUID(int=5): "five", uuid.UUID(int=6): "six"}])
    row = e.csv_row(ref)
    ref = ref or {}
    vc.check(len(row) == len(M.VariablePolicyEntry.csv_header()), "one cell per column")
    d = dict(zip(M.VariablePolicyEntry.csv_header(), row))
    vc.check(d["Namespace"] == ref.get(e.Namespace, e.Namespace) and d["Name"] == "N"
             and d["LockPolicyType"] == ["NONE", "NOW", "ON_CREATE", "ON_VAR_STATE"][lt], "names")
    if lt == 3:
        vc.check(d["VarStateNamespace"] == ref.get(e.LockPolicy.Namespace, e.LockPolicy.Namespace) and d["VarStateName"] == "S", "state names")
        vc.check(d["VarStateValue"] == e.LockPolicy.Value, "state value")
    else:
        vc.check([d["VarStateNamespace"], d["VarStateName"], d["VarStateValue"]] == ["N/A"] * 3, "no state columns")
    B = vc.module("edk2toollib.uefi.uefi_multi_phase").EfiVariableAttributes
    vc.check(d["AttributesMustHave"] == str(B(e.AttributesMustHave)) and d["AttributesCantHave"] == str(B(e.AttributesCantHave)), "attributes")
    vc.check(d["MinSize"] == "0x%08X" % e.MinSize if not vc.symbolic else True, "minimum size")
    vc.check(d["MaxSize"] == "0x%08X" % e.MaxSize if not vc.symbolic else True, "maximum size")
    vc.reach("row")


HARNESSES = [
    H("state_decode", state_decode, state_decode.__doc__, must_reach=["ok", "no end"]),
    H("entry_decode", entry_decode, entry_decode.__doc__, must_reach=["accept", "reject", "name", "state"]),
    H("csv", csv, csv.__doc__, must_reach=["row"]),
]
