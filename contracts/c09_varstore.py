import os
import tempfile

from contracts.base import H
from pyvc.lists import Indexed, SymList
from pyvc.util import AND, NOT, OR, blen, cat, le, outcome, stream, u

ID = "C09"
LEVEL = "proof"
TRUSTED = ["open(), mmap.mmap (stand-ins over one byte string: a slice assignment of another length or outside the map is an error); real files are used "
           "by the end_to_end stand-in"]
ASSUMPTIONS = ["the store loops are verified against the contract of a variable (loaded from its bytes, reports the size of its padded serialization), which "
               "C08 verifies for VariableHeader and AuthenticatedVariableHeader", "little-endian host"]
EXPLANATION = ("Loading is verified for any ROM, store position, header length and number of variables; flushing for any number of variables of any size: "
               "what is written, where, and that no other byte of the ROM changes.")
A = "edk2toollib.uefi.edk2.variablestore_manulipulations"
VF = "edk2toollib.uefi.edk2.variable_format"
FV = "edk2toollib.uefi.pi_firmware_volume"
NVFV = bytes.fromhex("8d2bf1ff96768b4ca9852747075b4f50")
VARG = bytes.fromhex("1636cfdd7532644198b6fe85707ffe7d")
AUTHG = bytes.fromhex("782cf3aa7b949a43a1802e144ec37792")


class Map:
    """mmap over the bytes of the ROM: slices are replaced by slices of the same length inside the map."""

    def __init__(self, content):
        self.content = content

    def size(self):
        return blen(self.content)

    def __setitem__(self, k, v):
        a, b = k.start, k.stop
        if NOT(AND(0 <= a, a <= b, b <= blen(self.content))) or NOT(blen(v) == b - a):
            raise IndexError("mmap slice assignment is wrong size")
        self.content = cat(self.content[:a], v, self.content[b:])

    def flush(self):
        pass

    def close(self):
        pass


def var_bytes(r, auth):
    name = (r.choice(["A", "Boot0001", "dbx", "\ufeffx", "\u00e4\u20ac"]) + "\0").encode("utf-16-le")
    data = r.randbytes(r.choice([0, 1, 2, 3, 4, 17]))
    b = (0x55AA).to_bytes(2, "little") + bytes([r.choice([0x3F, 0xFD]), 0]) + r.randbytes(4) + (r.randbytes(28) if auth else b"")
    b += len(name).to_bytes(4, "little") + len(data).to_bytes(4, "little") + r.randbytes(16) + name + data
    return b + b"\xff" * (-len(b) % 4)


def g_rom(r):
    """(file, base, size)"""
    auth = r.random() < 0.5
    body = b"".join(var_bytes(r, auth) for _ in range(r.choice([0, 1, 2, 3])))
    slack = r.choice([0, 0, 8, 60, 64, 200])
    hl = r.choice([72, 72, 72, 80])
    size = 28 + len(body) + slack
    total = hl + size + r.choice([0, 0, 16])
    fv = (bytes(16) + (NVFV if r.random() < 0.93 else r.randbytes(16)) + (total + r.choice([0] * 12 + [1])).to_bytes(8, "little") + (b"_FVH" if r.random() < 0.95 else b"_FVX")
          + r.randbytes(4) + hl.to_bytes(2, "little") + r.randbytes(22))
    fv += r.randbytes(hl - 72)
    st = r.choice([AUTHG if auth else VARG] * 12 + [bytes(16)]) + size.to_bytes(4, "little") + bytes([r.choice([0x5A] * 12 + [0]), r.choice([0xFE] * 12 + [0])]) + r.randbytes(6)
    base = r.choice([0, 0, 16, 100])
    # behind the store: sometimes something that looks like a variable
    after = r.choice([b"", b"\xff" * 70, var_bytes(r, auth) * 2])
    return r.randbytes(base) + fv + st + body + b"\xff" * slack + bytes(total - hl - size) + after, base, total


def open_store(vc, M, rom, base, size):
    """VariableStore(path, base, size) on a file with this content."""
    if vc.symbolic:
        s = stream(vc, rom, 0)
        s.fileno = lambda: 3

        class Os:
            SEEK_CUR = 1

            class path:
                isfile = staticmethod(lambda p: True)

        class Mm:
            mmap = staticmethod(lambda fd, n: Map(rom))

        vc.patch(M, "os", Os)
        vc.patch(M, "mmap", Mm)
        vc.patch(M, "open", lambda p, m: s)
        st = M.VariableStore.__new__(M.VariableStore)
        return st, s, lambda: st.__init__("rom", base, size)
    st = M.VariableStore.__new__(M.VariableStore)

    def init():
        with tempfile.NamedTemporaryFile(prefix="c09_", delete=False) as f:
            f.write(bytes(rom) or b"\0")
        try:
            st.__init__(f.name, base, size)
        finally:
            os.unlink(f.name)
    return st, None, init


def load(vc):
    """Any ROM: refused exactly when the headers are not those of a healthy store, otherwise the variables are all consecutive ones inside the store."""
    M = vc.module(A)
    F = vc.module(VF)
    if vc.symbolic:
        rom = vc.bytes("rom", min_len=1, max_len=1 << 40)
        base = vc.int("base", 0)
        size = vc.int("size", 0)
    else:
        import random
        rom = vc.bytes("rom", min_len=1, gen=lambda r: r.choice([g_rom(r)[0], g_rom(r)[0][:r.randrange(1, 200)]]))
        base = vc.int("base", 0, 1 << 40, gen=lambda r: max(rom.find(NVFV) - 16, 0))
        size = vc.int("size", 0, 1 << 40, gen=lambda r: u(rom, base + 32, 8) if len(rom) >= base + 40 else 5)
    n = blen(rom)
    st, s, init = open_store(vc, M, rom, base, size)
    auth = False
    good = AND(base + size <= n, base + 72 <= n)
    V = None
    if good:
        good = AND(rom[base + 40:base + 44] == b"_FVH", rom[base + 16:base + 32] == NVFV, u(rom, base + 32, 8) == size)
    if good:
        S = base + u(rom, base + 48, 2)
        good = S + 28 <= n
        if good:
            auth = bool(rom[S:S + 16] == AUTHG)
            good = AND(OR(auth, rom[S:S + 16] == VARG), rom[S + 20] == 0x5A, rom[S + 21] == 0xFE)
            V = S + 28
            end = S + u(rom, S + 16, 4)
    good = bool(good)
    H0 = 60 if auth else 32
    NS, DS = (36, 40) if auth else (8, 12)
    if good:
        vc.assume(end <= n)                 # the store lies inside the ROM

    def var_size(p):
        t = H0 + u(rom, p + NS, 4) + u(rom, p + DS, 4)
        return t + (4 - t % 4) % 4

    if vc.symbolic and good:
        import z3
        from pyvc.sym import mkint, zint
        P = vc.fresh_fun("P")               # offset of variable k
        vc.fact(P(0) == 0)

        class Var:
            """Contract of a variable (C08)."""

            def __init__(self):
                self.StructSize = H0

            def load_from_file(self, f):
                p = f.tell()
                vc.check(p + H0 <= n, "a variable is read only where one fits")
                if not u(rom, p, 2) == 0x55AA:
                    raise EOFError("No variable data!")
                if not vc.branch(vc.fresh("text", z3.BoolSort())):
                    raise UnicodeDecodeError("utf-16-le", b"", 0, 1, "name")
                self.at = p
                return self

            def get_buffer_size(self):
                return var_size(self.at)

            def __eq__(self, o):
                return self.at == o.at

        def item(k):
            o = Var()
            o.at = V + mkint(P(_z(k)))
            return o

        class Wrong:
            def __init__(self):
                vc.check(False, "the class of a variable follows the store type")

        vc.patch(F, "AuthenticatedVariableHeader" if auth else "VariableHeader", Var)
        vc.patch(F, "VariableHeader" if auth else "AuthenticatedVariableHeader", Wrong)

        def facts(vc, i):
            p = V + mkint(P(_z(i)))
            vc.fact(z3.Implies(_z(i) >= 0, z3.And(P(_z(i)) >= 0)))
            if AND(p >= 0, p + H0 <= n):
                vc.fact(P(_z(i) + 1) == P(_z(i)) + zint(var_size(p)))

        vc.contract(A + ":VariableStore.__init__#0", Indexed(
            "load variables", lambda vc, i, L: {}, n, facts=facts,
            heap=lambda vc, i, L: [(L["self"], "variables", SymList(_z(i), item)), (s, "pos", V + mkint(P(_z(i))))],
            inv=lambda vc, i: [mkint(P(_z(i))) >= 32 * i]))
    ok, r = outcome(init)
    if not ok:
        if isinstance(r, UnicodeDecodeError):
            return
        vc.reach("reject")
        vc.check(not good, "a healthy store is not refused")
        return
    vc.check(good, "only a healthy store is accepted")
    vc.reach("auth" if auth else "plain")
    if vc.symbolic:
        cnt = st.variables.vc_len()
        last = V + mkint(P(_z(cnt)))
        vc.check(s.tell() == base, "the file position is at the store")
    else:
        cnt = len(st.variables)
        last = V
        for v in st.variables:
            vc.check(v.serialize() == rom[last:last + 3] + b"\0" + rom[last + 4:last + v.get_buffer_data_size()], "variable bytes")
            last += v.get_buffer_size()
        vc.check(st.rom_file.tell() == base, "the file position is at the store")
    vc.check(OR(last + H0 > end, NOT(u(rom, last, 2) == 0x55AA)), "every variable up to the terminator or the end of the store is listed")
    if not vc.symbolic and cnt or vc.symbolic and cnt > 0:
        vc.reach("some")
    if vc.symbolic and cnt == 0 or not vc.symbolic and not cnt:
        vc.reach("none")


def _z(x):
    import z3
    from pyvc.sym import zint
    x = zint(x)
    return x if z3.is_expr(x) else z3.IntVal(x)


def flush(vc):
    """Any list of variables: refused when they do not fit, otherwise they and a terminator are written one after the other and nothing else changes."""
    M = vc.module(A)
    F = vc.module(VF)
    pre = vc.bytes("before", max_len=1 << 40, gen=lambda r: r.randbytes(r.choice([0, 5])))
    hl = vc.int("header_length", 72, 65535, gen=lambda r: 72)
    size = vc.int("store_size", 28, 0xFFFFFFFF, gen=lambda r: r.choice([28, 60, 88, 100, 150, 300, 400]))
    if vc.symbolic:
        area = vc.bytes("area", length=hl + size)
    else:
        vc.assume(size < 1 << 20)
        area = vc.bytes("area", gen=lambda r: r.randbytes(hl + size))
        vc.assume(len(area) == hl + size)
    post = vc.bytes("after", max_len=1 << 40, gen=lambda r: r.randbytes(r.choice([0, 40])))
    auth = bool(vc.bool("auth"))
    H0 = 60 if auth else 32
    c = vc.chunks("var", min_item=H0, max_n=1 << 40, gen=lambda r: r.randbytes(r.choice([H0, H0 + 4, H0 + 8])))
    n = c.n
    rom = cat(pre, area, post)
    base = blen(pre)
    V = base + hl + 28

    class Var:
        """Contract of a variable (C08): its padded serialization and the size of it."""

        def __init__(self, k, b):
            self.b = b

        def get_buffer_size(self):
            return blen(self.b)

        def serialize(self, with_padding=False):
            vc.check(with_padding is True, "variables are written with padding")
            return self.b

    st = M.VariableStore.__new__(M.VariableStore)
    st.rom_file = None
    st.rom_file_map = m = Map(rom)
    st.rom_file_path, st.store_base, st.store_size = "rom", base, hl + size
    st.fv_header = vc.module(FV).EfiFirmwareVolumeHeader()
    st.fv_header.HeaderLength = hl
    st.var_store_header = F.VariableStoreHeader()
    st.var_store_header.Size = size
    st.var_store_header.Type = "AuthVar" if auth else "Var"
    st.variables = []
    if vc.bool("filled_by_add"):
        k = vc.choice("added", [0, 1, 2])
        vc.assume(n == k)
        for i in range(k):
            st.add_variable(Var(i, c.item(i)))
    else:
        st.variables = c.list(Var)
    off = c.off(n)
    if vc.symbolic:
        vc.prefix_sum(c.off, c.fact)

        def content(i):
            return cat(rom[:V], c.prefix(i), rom[V + c.off(i):])

        vc.contract(A + ":VariableStore.flush_to_file#0", Indexed(
            "write variables", lambda vc, i, L: {"var_offset": V + c.off(i)}, n, facts=lambda vc, i: c.fact(i),
            heap=lambda vc, i, L: [(m, "content", content(i))]))
    fits = off + H0 + 28 <= size
    ok, r = outcome(st.flush_to_file)
    if not ok:
        vc.reach("refused")
        vc.check(NOT(fits), "variables that fit are written")
        vc.check(m.content == rom, "a refused flush changes nothing")
        return
    vc.reach("written")
    vc.check(fits, "variables that do not fit are refused")
    vc.check(m.content == cat(rom[:V], c.all(), b"\xff" * H0, rom[V + off + H0:]), "variables and terminator are written, nothing else")
    vc.check(blen(m.content) == blen(rom), "the size of the ROM")


def end_to_end(vc):
    """On real files: load, change, flush, load again."""
    import random
    M = vc.module(A)
    F = vc.module(VF)
    seed = vc.int("seed", 0, 1 << 60)
    r = random.Random(seed)
    while True:
        rom, base, size = g_rom(r)
        if rom[base + 16:base + 32] == NVFV and rom[base + 40:base + 44] == b"_FVH" and u(rom, base + 32, 8) == size and base + size <= len(rom):
            S = base + u(rom, base + 48, 2)
            if rom[S:S + 16] in (VARG, AUTHG) and rom[S + 20:S + 22] == b"\x5a\xfe":
                break
    d = tempfile.mkdtemp(prefix="c09_")
    try:
        p = os.path.join(d, "rom")
        with open(p, "wb") as f:
            f.write(rom)
        st = M.VariableStore(p, base, size)
        vs = list(st.variables)
        for _ in range(r.choice([0, 1, 2])):
            st.variables.pop(r.randrange(len(st.variables))) if st.variables else None
        for _ in range(r.choice([0, 1, 2])):
            v = st.get_new_var_class()
            v.set_name(r.choice(["New", "\u00e4", "X" * 9]))
            v.set_data(r.randbytes(r.choice([0, 1, 5, 40])))
            if r.random() < 0.3 and hasattr(v, "TimeStamp"):
                v.TimeStamp = r.randbytes(16)
            st.add_variable(v)
        for v in st.variables:
            if r.random() < 0.3:
                v.set_data(r.randbytes(r.choice([0, 3, 30])))
        want = [(v.Name, v.Data, v.VendorGuid, v.Attributes, v.State) for v in st.variables]
        need = sum(v.get_buffer_size() for v in st.variables) + 28 + st.get_new_var_class().StructSize
        S = base + st.fv_header.HeaderLength
        ok, e = outcome(st.flush_to_file)
        vc.check(ok == (need <= st.var_store_header.Size), "written exactly when it fits")
        cap = st.var_store_header.Size
        del st
        with open(p, "rb") as f:
            after = f.read()
        if not ok:
            vc.check(after == rom, "a refused flush changes nothing")
            return
        vc.check(after[:S + 28] == rom[:S + 28] and after[S + cap:] == rom[S + cap:] and len(after) == len(rom), "nothing outside the variable area changes")
        st = M.VariableStore(p, base, size)
        got = [(v.Name, v.Data, v.VendorGuid, v.Attributes, v.State) for v in st.variables]
        vc.check(got == want, "the same variables are loaded again")
        del st
    finally:
        import shutil
        shutil.rmtree(d)


HARNESSES = [H("load", load, load.__doc__, must_reach=["plain", "auth", "reject", "some", "none"]),
             H("flush", flush, flush.__doc__, must_reach=["refused", "written"]),
             H("end_to_end", end_to_end, end_to_end.__doc__, symbolic=False, runs=300,
               why_bounded="real files and mmap: a random search that ties the two verified halves together")]
