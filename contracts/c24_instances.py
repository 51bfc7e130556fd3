import os
import shutil
import tempfile

from contracts.base import H
from contracts.c20_sections import layout
from contracts.c22_fdf import word
from contracts.routes import Rec, Router
from pyvc.core import Unsupported, simp
from pyvc.lists import Indexed, SymList, same
from pyvc.util import AND, NOT, OR, scat

ID = "C24"
LEVEL = "proof"
TRUSTED = ["SQLAlchemy and SQLite: a query gives the rows that were added", "pathlib and Edk2Path by their contracts (C21)"]
ASSUMPTIONS = ["the DSC and INF parsers by their own contracts (C20, C23)", "a component is listed once per architecture; repositories are not nested; termination is not proved"]
EXPLANATION = ("The search for an instance and the recursion over libraries are proved with loop invariants over ghost sets, for any number of libraries and any dependencies, cycles included: the "
               "recursive call is used by its contract. Random workspaces, read into a database, cross-check the whole.")
MOD = "edk2toollib.database.tables.instanced_inf_table"
M = MOD + ":InstancedInfTable."


class Quiet:
    vc_ghost = True

    def debug(self, *a):
        pass

    error = warning = info = log = debug


def is_(a, b):
    """The same text, by its structure."""
    try:
        return a is b or (a == b) is True
    except Unsupported:
        return False


class Scoped:
    """The library instances by scope and class."""
    vc_ghost = True

    def __init__(self, keys, lists):
        self.keys, self.lists = keys, lists

    def find(self, k):
        for i, x in enumerate(self.keys):
            if is_(k, x):
                return self.lists[i]
        raise Unsupported("lookup of another scope")

    def __contains__(self, k):
        return self.find(k) is not None

    def __getitem__(self, k):
        r = self.find(k)
        if r is None:
            raise KeyError(k)
        return r

    def get(self, k, d=None):
        r = self.find(k)
        return d if r is None else r


def scopes_of(vc, lib):
    """A scope, and the keys of the class in the order in which they are searched."""
    arch, module = word(vc, "arch", "."), word(vc, "module", ".")
    return scat(arch, ".", module), module, [scat(arch, ".", module, ".", lib), scat("common.", module, ".", lib), scat(arch, ".", lib), scat("common.", lib)]


def table_of(vc):
    T = vc.module(MOD)
    t = T.InstancedInfTable()
    t.dsc, t.pathobj = "a.dsc", Roots()
    return T, t


def lookup(vc):
    """The instance of a library class: an override, else the first scope with an instance that supports the module."""
    if not vc.symbolic:
        return space(vc)
    T, t = table_of(vc)
    lib = word(vc, "class")
    scope, module, keys = scopes_of(vc, lib)
    there = [vc.bool("there%d" % i) for i in range(4)]
    fits = [vc.bool("fits%d" % i) for i in range(4)]
    lists = [Rec("list", i) if there[i] else None for i in range(4)]
    found = [Rec("instance", i) for i in range(4)]
    over = vc.bool("override")
    mine = Rec("override")

    def reduce(self, m, xs):
        vc.check(m == module, "the module type")
        for i in range(4):
            if xs is lists[i]:
                return found[i] if fits[i] else None
        raise Unsupported("reducing another list")

    vc.patch(T.InstancedInfTable, "_reduce_lib_instances", reduce)
    r = t._lib_to_instance(lib, scope, Scoped(keys, lists), Scoped([lib], [mine if over else None]))
    vc.reach("done")
    want = Rec("relative", Rec("absolute", mine)) if over else next((found[i] for i in range(4) if there[i] and fits[i]), None)
    vc.check(r is None if want is None else r == want, "the instance of the class")


def nulls(vc):
    """The instances of class NULL: those of all scopes."""
    if not vc.symbolic:
        return space(vc)
    T, t = table_of(vc)
    scope, module, keys = scopes_of(vc, "null")
    there = [vc.bool("there%d" % i) for i in range(4)]
    # (extending by a list does not depend on what it holds: a single item stands for all)
    lists = [[Rec("all of", i)] if there[i] else None for i in range(4)]
    r = t._get_null_lib_instances(scope, Scoped(keys, lists))
    vc.reach("done")
    vc.check(r == [x for xs in lists if xs for x in xs], "the instances of all scopes")
    vc.check(all(xs is None or len(xs) == 1 for xs in lists), "the lists of the scopes stay as they are")


class Phases(SymList):
    """The phases a library supports: whether one of them is the module type, without regard to capitalisation."""

    def __init__(self, vc, module, yes, low=False):
        SymList.__init__(self, 0, lambda k: None)
        self.vc, self.module, self.yes, self.low = vc, module, yes, low

    def map(self, f):
        x = word(self.vc, "phase")
        y = f(x)
        if not is_(y, x.lower()):
            raise Unsupported("mapping of phases")
        return Phases(self.vc, self.module, self.yes, True)

    def __contains__(self, m):
        if not self.low or not is_(m, self.module.lower()):
            raise Unsupported("a search of phases")
        return self.vc.branch(self.yes)

    def __iter__(self):
        raise Unsupported("iteration over phases")


def reduce(vc):
    """The first instance that supports the module."""
    if not vc.symbolic:
        return space(vc)
    import z3
    from pyvc.sym import mkbool, mkint, zint
    T, t = table_of(vc)
    module = word(vc, "module")
    n = vc.int("instances", 0)
    fits = z3.Function("fits", z3.IntSort(), z3.BoolSort())
    now = {}

    def elem(vc, i):
        now["i"], now["x"] = i, Rec("instance", i)
        return now["x"]

    def none(vc, i):
        j = z3.Int("j")
        return [mkbool(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zint(i)), z3.Not(fits(j)))))]

    def inf(self, x):
        vc.check(x is now["x"], "the INF file of the instance")
        return Rec2(SupportedPhases=Phases(vc, module, fits(zint(now["i"]))))

    vc.contract(M + "_reduce_lib_instances#0", Indexed("instances", lambda vc, i, L: {}, n.z, elem=elem, inv=none))
    vc.patch(T.InstancedInfTable, "inf", inf)
    r = t._reduce_lib_instances(module, SymList(n.z, lambda k: None))
    j = z3.Int("j")
    if r is None:
        vc.reach("none")
        vc.check(mkbool(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n.z), z3.Not(fits(j))))), "none only if no instance supports the module")
    else:
        vc.reach("one")
        i = zint(now["i"])
        vc.check(r == Rec("relative", Rec("absolute", now["x"])), "the instance by the path closest to it")
        vc.check(mkbool(z3.And(fits(i), i >= 0, i < n.z, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i), z3.Not(fits(j)))))), "the first instance that supports the module")


class Rec2:
    """A parsed file, by what is asked of it."""
    vc_ghost = True

    def __init__(self, **k):
        self.__dict__.update(k)


class Node:
    """An INF file."""
    vc_ghost = True

    def __init__(self, z):
        self.z = z

    def __eq__(self, o):
        from pyvc.sym import mkbool
        return isinstance(o, Node) and mkbool(simp(self.z == o.z))

    __hash__ = None


class Zset:
    """A set of files as part of a state; q: what is known, besides the path condition (with quantifiers, so only used for what is to be shown)."""
    vc_any = True
    vc_ghost = True

    def __init__(self, z, q):
        self.z, self.q = z, q

    def __eq__(self, o):
        return isinstance(o, Zset) and known(self.q, eqset(self.z, o.z))

    __hash__ = None


def known(q, c):
    import z3
    from pyvc.sym import mkbool
    return mkbool(z3.Implies(z3.And(*q), c))


class Visited:
    """The set of the files visited so far."""
    vc_ghost = True

    def __init__(self, vc, z, q):
        self.vc, self.s = vc, Zset(z, q)

    def __contains__(self, x):
        import z3
        if not isinstance(x, Node):
            raise Unsupported("a search for something else than a file")
        return self.vc.branch(simp(z3.Select(self.s.z, x.z)))

    def append(self, x):
        import z3
        self.s = Zset(z3.Store(self.s.z, x.z, True), self.s.q)


class Entries:
    """A list of entries, none twice: the set of their files, and the last one if it was appended just now."""
    vc_ghost = True
    vc_any = True

    def __init__(self, vc, z, q, last=None):
        self.vc, self.z, self.q, self.last = vc, z, q, last

    def __iadd__(self, o):
        import z3
        if not isinstance(o, Entries) or self.last is not None or o.last is not None:
            raise Unsupported("adding to the entries")
        x = z3.Int("x")
        self.vc.check(known(self.q, z3.ForAll([x], z3.Not(z3.And(z3.Select(self.z, x), z3.Select(o.z, x))))), "no entry twice")
        return Entries(self.vc, union(self.z, o.z), self.q)

    def append(self, e):
        if self.last is not None:
            raise Unsupported("two entries of a file")
        self.last = e

    def __eq__(self, o):
        import z3
        if isinstance(o, list) and not o:
            return self.last is None and known(self.q, z3.ForAll([z3.Int("x")], z3.Not(z3.Select(self.z, z3.Int("x")))))
        return isinstance(o, Entries) and self.last is None and o.last is None and known(self.q, eqset(self.z, o.z))

    __hash__ = None


def union(a, b):
    import z3
    x = z3.Int("x")
    return z3.Lambda([x], z3.Or(z3.Select(a, x), z3.Select(b, x)))


def eqset(a, b):
    import z3
    x = z3.Int("x")
    return z3.ForAll([x], z3.Select(a, x) == z3.Select(b, x))


class Path:
    """pathlib.Path of a file, as a term."""
    vc_ghost = True

    def __init__(self, x):
        self.x = x

    def as_posix(self):
        return Rec("posix", self.x)

    @property
    def parent(self):
        return Path(Rec("parent", self.x))

    @property
    def name(self):
        return Rec("name", self.x)

    def resolve(self):
        return Path(Rec("resolved", self.x))

    def __truediv__(self, o):
        return Path(Rec("joined", self.x, o))

    def __str__(self):
        return Rec("text", self.x)


class Roots:
    """Edk2Path, as terms."""
    vc_ghost = True

    def GetAbsolutePathOnThisSystemFromEdk2RelativePath(self, x, *a):
        return Rec("absolute", x)

    def GetEdk2RelativePathFromAbsolutePath(self, x, *a):
        return Rec("relative", x)

    def GetContainingPackage(self, x, *a):
        return Rec("package", x)


class Walk(Indexed):
    """A loop over a list, with ghost updates for the element at hand and an invariant with quantifiers."""

    def entry(self, vc, loc, loop):
        g = Indexed.entry(self, vc, loc, loop)
        self.show(0, "on entry")
        return g

    def havoc(self, vc, loc, g, loop):
        upd = Indexed.havoc(self, vc, loc, g, loop)
        self.q.extend(self.holds(g["i"]))
        return upd

    def back(self, vc, loc, g, loop):
        Indexed.back(self, vc, loc, g, loop)
        self.show(g["i"] + 1, "preserved")

    def show(self, i, what):
        from pyvc.core import cur
        for k, c in enumerate(self.holds(i)):
            cur().check(known(self.q, c), "%s: invariant %s, condition %d" % (self.name, what, k))

    def next(self, vc, g, loop):
        from pyvc.sym import mkint
        x = Indexed.next(self, vc, g, loop)
        self.at(mkint(g["i"]), x)
        return x


def recursion(vc):
    """The entries of an INF file and of all libraries it needs that were not visited before, each once."""
    if not vc.symbolic:
        return space(vc)
    import z3
    from pyvc.sym import mkbool, mkint, zint
    I, B = z3.IntSort(), z3.BoolSort()
    q = []
    T, t = table_of(vc)
    vc.patch(T, "Path", Path)
    vc.patch(T, "logging", Quiet())
    top = vc.bool("component")
    n, a, b, m = vc.int("libraries", 0).z, vc.int("overrides", 0).z, vc.int("nulls", 0).z, vc.int("sources", 0).z
    N = simp(n + a + b) if top else n
    E, R = z3.Function("uses", I, I, B), z3.Function("needs", I, I, B)
    node, none = z3.Function("file", I, I), z3.Function("unknown", I, B)
    which = z3.Function("which", I, I)
    V, S, New = [z3.Function(x, I, z3.ArraySort(I, B)) for x in ("visited", "listed", "new")]
    x, y, w, k = z3.Ints("x y w k")
    me = Node(z3.Int("me"))
    comp = me if top else Node(z3.Int("comp"))
    V0 = z3.K(I, False) if top else z3.Const("V0", z3.ArraySort(I, B))
    q.append(z3.ForAll([x], R(x, x)))
    q.append(z3.ForAll([x, y], z3.Implies(E(x, y), R(x, y))))
    q.append(z3.ForAll([x, y, w], z3.Implies(z3.And(R(x, y), R(y, w)), R(x, w))))
    # the libraries of this file are those of its list
    q.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < N, z3.Not(none(k))), E(me.z, node(k)))))
    q.append(z3.ForAll([y], z3.Implies(E(me.z, y), z3.And(which(y) >= 0, which(y) < N, z3.Not(none(which(y))), node(which(y)) == y))))
    # the file was not visited; the component was, unless it is this one
    if not top:
        vc.add(z3.And(z3.Not(V0[me.z]), V0[comp.z], me.z != comp.z))
    at = z3.Select

    def spec(before, f, after, new):
        return [z3.ForAll([x], at(after, x) == z3.Or(at(before, x), at(new, x))), z3.ForAll([x], z3.Not(z3.And(at(new, x), at(before, x)))), at(new, f),
                z3.ForAll([x, y], z3.Implies(z3.And(at(new, x), E(x, y)), at(after, y))), z3.ForAll([y], z3.Implies(at(new, y), R(f, y)))]

    q.append(z3.ForAll([x], at(V(0), x) == z3.Or(at(V0, x), x == me.z)))
    q.append(z3.ForAll([x], z3.Not(at(S(0), x))))
    visited = Visited(vc, V0, q)
    now = {}
    arch = word(vc, "arch", ".")
    scope = scat(arch, ".", word(vc, "module", "."))
    libs = Rec("library dictionary")
    over = Scoped(["NULL"], [SymList(a, lambda j: None)])
    sources = Router(vc, "sources", m, [], ["used"])

    def cls_of(j):
        if now.get("class") is not None and vc.entails(zint(j) == zint(now["i"])):
            return now["class"]
        return "NULL" if vc.branch(simp(zint(j) >= n)) else Rec("class", mkint(zint(j)))

    def inst_of(j):
        return None if vc.branch(simp(none(zint(j)))) else Node(simp(node(zint(j))))

    def lists(base):
        return lambda vc, i, L: {"library_instance_list": SymList(simp(zint(base) + zint(i)), inst_of), "library_class_list": SymList(simp(zint(base) + zint(i)), cls_of)}

    def library(vc, i):
        now.update({"i": i, "class": word(vc, "class", " ")})
        return now["class"]

    def null(base):
        def elem(vc, i):
            j = mkint(simp(zint(base) + zint(i)))
            now.update({"i": j, "class": None, "raw": Rec("raw")})
            vc.add(z3.Not(none(zint(j))))
            return now["raw"]
        return elem

    def instance(self, c, s, ld, od):
        vc.check(is_(c, now["class"].lower()) and s is scope and ld is libs and od is over, "the class, the scope and the dictionaries")
        return inst_of(now["i"])

    class Closest(Roots):
        def GetEdk2RelativePathFromAbsolutePath(self, x, *a):
            if now.get("raw") is not None and x == Rec("absolute", now["raw"]):
                return inst_of(now["i"])
            return Rec("relative", x)

    t.pathobj = Closest()

    def nullist(self, s, ld):
        vc.check(s is scope and ld is libs, "the instances of class NULL of the scope")
        return SymList(b, lambda j: None)

    def step(i, pair):
        z = zint(i)
        now.update({"i": i, "class": None, "pair": pair, "call": False})
        if vc.branch(simp(none(z))) or vc.branch(simp(at(V(z), node(z)))):
            q.append(z3.And(V(z + 1) == V(z), S(z + 1) == S(z)))
            return
        for f in spec(V(z), node(z), V(z + 1), New(z)):
            q.append(f)
        q.append(z3.ForAll([x], at(S(z + 1), x) == z3.Or(at(S(z), x), at(New(z), x))))
        now["call"] = True

    def recurse(self, inf, cls, component, ld, od, s, seen):
        z = zint(now["i"])
        vc.check(now["call"], "a file is entered once")
        now["call"] = False
        vc.check(AND(inf == Node(node(z)), cls is now["pair"][0], component == comp, ld is libs, od is over, s is scope, seen is visited), "the arguments of the recursive call")
        vc.check(known(q, z3.And(z3.Not(at(seen.s.z, node(z))), at(seen.s.z, comp.z), node(z) != comp.z)), "a file that was not visited, of a component that was")
        vc.check(known(q, eqset(seen.s.z, V(z))), "the files visited")
        seen.s = Zset(V(z + 1), q)
        return Entries(vc, New(z), q)

    def inv(i):
        z = zint(i)
        return [
            z3.ForAll([x], at(V(z), x) == z3.Or(at(V0, x), x == me.z, at(S(z), x))), z3.ForAll([x], z3.Implies(at(S(z), x), z3.Not(z3.Or(at(V0, x), x == me.z)))),
            z3.ForAll([x, y], z3.Implies(z3.And(at(S(z), x), E(x, y)), at(V(z), y))), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < z, z3.Not(none(k))), at(V(z), node(k)))),
            z3.ForAll([y], z3.Implies(at(S(z), y), R(me.z, y)))]

    def source(vc, i):
        s = word(vc, "source")
        sources.step(i, [("used", Rec("posix", Rec("relative", Rec("text", Rec("resolved", Rec("joined", Rec("parent", Rec("absolute", me)), s))))))])
        return s

    F = M + "_parse_inf_recursively#"
    walk = Walk("libraries", lambda vc, i, L: {"to_return": Entries(vc, S(zint(i)), q)}, N, heap=lambda vc, i, L: [(visited, "s", Zset(V(zint(i)), q))])
    walk.at, walk.q, walk.holds = step, q, inv
    vc.contract(F + "0", Indexed("classes", lists(0), n, elem=library))
    vc.contract(F + "1", Indexed("overrides", lists(n), a, elem=null(n)))
    vc.contract(F + "2", Indexed("null libraries", lists(simp(n + a)), b, elem=null(simp(n + a))))
    vc.contract(F + "3", walk)
    vc.contract(F + "4", Indexed("sources", lambda vc, i, L: {"source_list": sources.list("used", i)}, m, elem=source))
    pcds, name, kind = Rec("PCDs"), Rec("name"), Rec("type")
    guid = vc.bool("guid")
    d = {"BASE_NAME": name, "MODULE_TYPE": kind}
    if guid:
        d["FILE_GUID"] = Rec("GUID")

    def of(n, what):
        def get(archs):
            vc.check(len(archs) == 1 and is_(archs[0], arch.upper()), "the %s of the architecture" % what)
            return SymList(n, lambda j: None)
        return get

    def inf(self, f):
        vc.check(f is me, "the INF file")
        return Rec2(get_libraries=of(n, "libraries"), get_sources=of(m, "sources"), Dict=d, PcdsUsed=pcds)

    for f, g in (("inf", inf), ("_lib_to_instance", instance), ("_get_null_lib_instances", nullist), ("_parse_inf_recursively", recurse)):
        if f != "_parse_inf_recursively":
            vc.patch(T.InstancedInfTable, f, g)
    body = T.InstancedInfTable._parse_inf_recursively
    vc.patch(T.InstancedInfTable, "_parse_inf_recursively", recurse)
    used = word(vc, "used as")
    r = body(t, me, used, comp, libs, over, scope, visited)
    vc.reach("done")
    new = z3.Lambda([x], z3.Or(at(S(zint(N)), x), x == me.z))
    for c, what in zip(spec(V0, me.z, visited.s.z, new), ("the files visited", "no file that was visited before", "the file itself", "all libraries the files need", "only what the file needs")):
        vc.check(known(q, c), what)
    vc.check(isinstance(r, Entries) and isinstance(r.last, dict), "the entry of the file")
    vc.check(known(q, eqset(r.z, S(zint(N)))), "the entries of the libraries")
    e = r.last
    want = {"DSC": Rec("name", "a.dsc"), "PATH": Rec("posix", me), "FULL_PATH": Rec("absolute", me), "GUID": d.get("FILE_GUID", ""), "NAME": name, "COMPONENT": Rec("posix", comp),
            "MODULE_TYPE": kind, "PACKAGE": Rec("package", Rec("absolute", me)), "PCDS_USED": pcds}
    for q, v in want.items():
        vc.check(e[q] is v or e[q] == v, "%s of the entry" % q)
    vc.check(AND(is_(e["LIBRARY_CLASS"], used), is_(e["ARCH"], arch.upper())), "class and architecture of the entry")
    vc.check(same(e["SOURCES_USED"], sources.list("used", m)), "the sources of the entry")
    now["class"] = None
    pairs = e["LIBRARIES_USED"]
    vc.check(isinstance(pairs, SymList) and pairs.vc_len() == mkint(N), "all libraries of the entry")
    if vc.branch(simp(zint(N) > 0)):
        j = vc.fresh("j")
        vc.add(z3.And(j >= 0, j < zint(N)))
        p = pairs.at(j)
        want = cls_of(j), inst_of(j)
        vc.check(AND(p[0] == want[0], p[1] is None if want[1] is None else p[1] == Rec("posix", want[1])), "a library of the entry")


def inf(vc):
    """The INF file as parsed, once."""
    if not vc.symbolic:
        return space(vc)
    T, t = table_of(vc)
    x = word(vc, "path")
    parsed = []

    class Parser:
        vc_ghost = True

        def SetEdk2Path(self, p):
            vc.check(p is t.pathobj, "the paths of the parser")
            return self

        def ParseFile(self, f):
            parsed.append((self, f))

    vc.patch(T, "InfP", Parser)
    a = t.inf(x)
    b = t.inf(x)
    vc.reach("done")
    vc.check(a is b and parsed == [(a, x)], "each file is parsed once")
    t._parsed_infs["other.inf"] = a
    vc.check(t.inf("other.inf") is a, "a file that was parsed")


def components(vc):
    """The entries of all components of the architectures that are built, except for libraries."""
    if not vc.symbolic:
        return space(vc)
    from pyvc.sym import zint
    import z3
    T, t = table_of(vc)
    n = vc.int("components", 0).z
    R = Router(vc, "components", n, [], ["entries"])
    now = {}
    ld = Rec("library dictionary")

    class Archs:
        vc_ghost = True

        def __contains__(self, a):
            vc.check(is_(a, now["arch"].upper()), "the architecture of the component")
            return now["built"]

    class Parser:
        vc_ghost = True

        def __init__(self):
            self.Dict = {"BASE_NAME": "x"}

        def SetEdk2Path(self, p):
            vc.check(p is t.pathobj, "the paths of the parser")
            return self

        def ParseFile(self, f):
            vc.check(f == now["closest"], "the INF file of the component")
            self.Dict["MODULE_TYPE"] = now["module"]
            if now["library"]:
                self.Dict["LIBRARY_CLASS"] = "L"

    def recurse(self, inf, cls, component, d, over, scope, visited):
        vc.check(AND(inf == now["closest"], cls is None, component == now["closest"], d is ld, over is now["over"], visited == []), "the entries of the component")
        vc.check(is_(scope, scat(now["arch"].lower(), ".", now["module"].lower())), "the scope of its libraries")
        return [now["entries"]]

    def comp(vc, i):
        path = word(vc, "path")
        arch, more = word(vc, "arch", "."), vc.choice("more", ["", ".PEIM"])
        now.update({"arch": arch, "module": word(vc, "module"), "built": vc.bool("built"), "library": vc.bool("library"), "over": Rec("overrides"), "entries": Rec("entries"),
                    "closest": Rec("relative", Rec("absolute", path))})
        R.step(i, [("entries", now["entries"])] if now["built"] and not now["library"] else [])
        return path, scat(arch, more), now["over"]

    vc.patch(T, "InfP", Parser)
    vc.patch(T, "logging", Quiet())
    vc.patch(T.InstancedInfTable, "_parse_inf_recursively", recurse)
    t.arch = Archs()
    vc.contract(M + "_build_inf_table#0", Indexed("components", lambda vc, i, L: {"inf_entries": R.list("entries", i)}, n, elem=comp))
    r = t._build_inf_table(Rec2(Components=SymList(n, lambda j: None), ScopedLibraryDict=ld))
    vc.reach("done")
    vc.check(same(r, R.list("entries", n)), "the entries of all components")


# ---------------------------------------------------------------- whole workspaces

ARCHS = ["IA32", "X64", "AARCH64"]
TYPES = ["PEIM", "DXE_DRIVER", "UEFI_DRIVER", "SEC"]
NAMES = ["BaseLib", "DebugLib", "baseLIB", "HobLib", "NULL"]
DIRS = ["Pkg", "Pkg/Lib", "Common/OtherPkg", "Common/OtherPkg/L", "Plat"]


def g_module(r, k, lib):
    m = {"dir": r.choice(DIRS), "name": ("L%d" if lib else "C%d") % k, "guid": r.random() < 0.9, "type": r.choice(TYPES), "libs": {}, "sources": {}}
    if lib:
        m["class"] = r.choice(NAMES[:4])
        m["phases"] = r.choice([None, None, "BASE", ["PEIM"], ["dxe_driver", "UEFI_DRIVER"], ["SEC", "PEIM"], ["DXE_DRIVER"]])
    for s in ["common", "X64", "IA32"]:
        if s == "common" or r.random() < 0.3:
            m["libs"][s] = r.sample(NAMES[:4], r.randint(0, 2))
            m["sources"][s] = [r.choice(["a.c", "b.h", "../up.c", "sub/x.asm", "./a.c", m["name"] + ".c"]) for _ in range(r.randint(0, 2))]
    return m


def g_space(r):
    libs = [g_module(r, k, True) for k in range(r.randint(1, 5))]
    comps = [g_module(r, k, False) for k in range(r.randint(1, 3))]
    use = lambda: [r.choice(NAMES), r.randrange(len(libs)), r.choice(["closest", "closest", "workspace", "absolute"])]  # noqa: E731
    sections = []
    if r.random() < 0.5:
        # (a class in all scopes of a component)
        kind, a, names = comps[0]["type"], r.choice(ARCHS), sorted(set(sum(comps[0]["libs"].values(), ["NULL"])))
        for s in r.sample(["", a, "common." + kind, a + "." + kind], r.randint(2, 4)):
            sections.append([[s], [[r.choice(names)] + use()[1:] for _ in range(r.randint(1, 4))]])
    for _ in range(r.randint(0 if sections else 1, 4)):
        scopes = [r.choice(["", "", "common", "X64", "IA32", "x64." + r.choice(TYPES), "common." + r.choice(TYPES).lower(), "IA32.PEIM"]) for _ in range(r.choice([1, 1, 2]))]
        sections.append([scopes, [use() for _ in range(r.randint(0, 4))]])
    listed = []
    left = [(k, a) for k in range(len(comps)) for a in ARCHS]
    for _ in range(r.randint(1, 4)):
        scope = r.choice(["", "common", "X64", "IA32", "x64", "X64.PEIM"])
        entries = []
        for k in range(len(comps)):
            mine = [(k, a) for a in ARCHS if scope in ("", "common") or scope.upper().startswith(a)]
            # (a component once for each architecture)
            if r.random() < 0.6 and all(x in left for x in mine):
                left = [x for x in left if x not in mine]
                entries.append([k, r.choice(["closest", "workspace", "absolute"]), [use() for _ in range(r.randint(1, 3))] if r.random() < 0.5 else None])
        if r.random() < 0.2:
            entries.append([-1 - r.randrange(len(libs)), "closest", [use() for _ in range(r.randint(1, 3))] if r.random() < 0.3 else None])
        listed.append([scope, entries])
    return {"libs": libs, "comps": comps, "sections": sections, "listed": listed, "archs": r.choice([["IA32", "X64"], ["X64"], ["AARCH64", "X64"]]),
            "target": r.choice(["X64", "IA32 X64", "IA32", "X64 AARCH64"]), "repos": r.choice([[], ["Pkg"], ["Common", "Com"], ["Pkg/Li", "Pkg"]]),
            # (the packages in the database, with the repositories they are in)
            "packages": {p: r.choice([None, "elsewhere"]) for p in ("Pkg", "OtherPkg") if r.random() < 0.5}}


def where(m):
    """The path of a module relative to the workspace, and to the closest package path."""
    p = m["dir"] + "/" + m["name"] + ".inf"
    return p, p[7:] if p.startswith("Common/") else p


def spelled(m, how, top):
    a, b = where(m)
    return {"closest": b, "workspace": a, "absolute": top + "/" + a}[how]


def write_space(g, r, top):
    def put(path, lines):
        os.makedirs(os.path.dirname(os.path.join(top, path)), exist_ok=True)
        with open(os.path.join(top, path), "w") as f:
            f.write("".join(layout(r, x) + "\n" for x in lines))

    for m in g["libs"] + g["comps"]:
        out = ["[Defines]", "BASE_NAME = " + m["name"], "MODULE_TYPE = " + m["type"]]
        if m["guid"]:
            out.append("FILE_GUID = 11111111-2222-3333-4444-555555555555")
        if "class" in m:
            ph = m["phases"]
            out.append("LIBRARY_CLASS = " + m["class"] + ("" if ph is None else r.choice(["|", " | "]) + (ph if isinstance(ph, str) else " ".join(ph))))
        for s, xs in m["libs"].items():
            out += ["[LibraryClasses" + ("" if s == "common" else "." + s) + "]"] + xs
        for s, xs in m["sources"].items():
            out += ["[Sources" + ("" if s == "common" else "." + s) + "]"] + xs
        put(where(m)[0], out)
    for p in ("Pkg/Pkg.dec", "Common/OtherPkg/OtherPkg.dec"):
        put(p, [])
    out = ["[Defines]", "SUPPORTED_ARCHITECTURES = " + "|".join(g["archs"])]
    for scopes, uses in g["sections"]:
        out.append("[" + ", ".join("LibraryClasses" + ("." + s if s else "") for s in scopes) + "]")
        out += [c + r.choice(["|", " | "]) + spelled(g["libs"][k], how, top) for c, k, how in uses]
    for scope, entries in g["listed"]:
        out.append("[Components" + ("." + scope if scope else "") + "]")
        for k, how, block in entries:
            m = g["comps"][k] if k >= 0 else g["libs"][-1 - k]
            out.append(spelled(m, how, top) + (" {" if block else ""))
            if block:
                out += ["<LibraryClasses>"] + [c + "|" + spelled(g["libs"][j], h, top) for c, j, h in block] + ["}"]
    put("Plat/a.dsc", out)


def expected(g, top):
    """(component, architecture, path) -> (class None or not, sources, links, ...) for every instance."""
    libs, comps = g["libs"], g["comps"]
    scoped = {}
    for scopes, uses in g["sections"]:
        for s in scopes:
            for c, k, how in uses:
                key = (s.lower() or "common", c.lower())
                xs = scoped.setdefault(key, [])
                # (a path spelled in two ways counts as two)
                v = [k, how if how != "absolute" or not where(libs[k])[0].startswith("Common/") else "closest"]
                if v[1] != "workspace" or not where(libs[k])[0].startswith("Common/"):
                    v[1] = "closest"
                if v in xs:
                    xs.remove(v)
                xs.insert(0, v)
    rows = {}
    for scope, entries in g["listed"]:
        for k, how, block in entries:
            if k < 0:
                continue
            sc = scope.lower().split(".")[0]
            for arch in g["archs"] if sc in ("", "common") else [sc.upper()]:
                if arch not in g["target"].split(" "):
                    continue
                top_m = comps[k]
                mod, a = top_m["type"].lower(), arch.lower()
                over, nulls = {}, []
                for c, j, h in block or []:
                    if c == "NULL":
                        nulls.append(j)
                    else:
                        over[c.lower()] = j
                for s in (a + "." + mod, "common." + mod, a, "common"):
                    nulls += [j for j, _ in scoped.get((s, "null"), [])]

                def resolve(c):
                    if c.lower() in over:
                        return over[c.lower()]
                    for s in (a + "." + mod, "common." + mod, a, "common"):
                        for j, _ in scoped.get((s, c.lower()), []):
                            ph = libs[j]["phases"]
                            if ph in (None, "BASE") or mod in [x.lower() for x in ph]:
                                return j
                    return None

                todo, seen = [top_m], {}
                while todo:
                    m = todo.pop()
                    if where(m) in seen:
                        continue
                    uses = [resolve(c) for s in ("common", arch) for c in m["libs"].get(s, [])] + (nulls if m is top_m else [])
                    uses = {j for j in uses if j is not None}
                    src = {os.path.normpath(os.path.join(where(m)[1] and os.path.dirname(where(m)[0]), x)) for s in ("common", arch) for x in m["sources"].get(s, [])}
                    src = {x[7:] if x.startswith("Common/") else x for x in src}
                    seen[where(m)] = (m, src, {where(libs[j])[1] for j in uses if libs[j]["guid"]})
                    todo += [libs[j] for j in uses]
                for w, (m, src, links) in seen.items():
                    if m["guid"]:
                        pk = "Pkg" if w[0].startswith("Pkg/") else "OtherPkg" if w[0].startswith("Common/OtherPkg") else None
                        repo = next((x for x in g["repos"] if w[0].startswith(x + "/")), None)
                        pk = pk if pk in g["packages"] else None
                        rows[(where(top_m)[1], arch, w[1])] = (m is top_m, m["name"], src, links, g["packages"][pk] if pk else repo, pk)
    return rows


def space_run(DB, T, E, g, seed, top, db=None, table=None):
    import random
    write_space(g, random.Random(seed), top)
    path = E.Edk2Path(top, ["Common"])
    if db is None:
        db = DB.Edk2DB(":memory:", pathobj=path)
    with db.session() as s:
        for x in s.query(DB.Repository).all():
            x.path = "gone" if x.path is not None else None
        s.add_all([DB.Repository(name="%s%d" % (x, seed), path=x) for x in g["repos"]] + ([] if s.query(DB.Repository).filter_by(path=None).count() else [DB.Repository(name="BASE", path=None)]))
        for x in s.query(DB.Package).all():
            x.name += " gone"
        here = {x.path: x for x in s.query(DB.Repository).all() if x.path != "gone"}
        for name, repo in g["packages"].items():
            if repo not in here:
                here[repo] = DB.Repository(name="%s%d" % (repo, seed), path=repo)
            s.add(DB.Package(name=name, path=name, repository=here[repo]))
    table = table or T.InstancedInfTable()
    with db.session() as s:
        table.parse(s, path, "id%d" % seed, {"ACTIVE_PLATFORM": "Plat/a.dsc", "TARGET_ARCH": g["target"], "TARGET": "DEBUG"})
    got, out = {}, []
    with db.session() as s:
        for row in s.query(DB.InstancedInf).filter_by(env="id%d" % seed).all():
            key = (row.component, row.arch, row.path)
            out.append(("one row per instance", key in got, False))
            got[key] = (row.cls is None, row.name, {x.path for x in row.sources}, {x.path for x in row.libraries}, row.repository.path,
                        row.package.name if row.package else None)
            out.append(("the libraries are those of the component", {(x.arch, x.component, x.env) for x in row.libraries} <= {(row.arch, row.component, row.env)}, True))
            out.append(("each library linked once", len(row.libraries), len(got[key][3])))
    out.append(("the instances", got, expected(g, top)))
    return out, db, table


def space(vc):
    """A whole workspace, read into a database; then again after it changed."""
    DB, T, E = [vc.module("edk2toollib." + x) for x in ("database", "database.tables", "uefi.edk2.path_utilities")]
    spaces, seed = vc.data("workspace", lambda r: ([g_space(r) for _ in range(r.choice([1, 1, 2]))], r.getrandbits(30)))
    top = os.path.realpath(tempfile.mkdtemp(prefix="pyvc24"))
    db = table = None
    try:
        for k, g in enumerate(spaces):
            for f in os.listdir(top):
                shutil.rmtree(os.path.join(top, f))
            rs, db, table = space_run(DB, T, E, g, seed + k, top, db, table)
            for what, got, want in rs:
                vc.check(got == want, what)
    finally:
        if db is not None:
            db.engine.dispose()
        shutil.rmtree(top)


HARNESSES = [
    H("lookup", lookup, "the instance of a library class", must_reach=["done"], runs=1),
    H("nulls", nulls, "the instances of class NULL", must_reach=["done"], runs=1),
    H("reduce", reduce, "the first instance that supports a module", must_reach=["none", "one"], runs=1),
    H("recursion", recursion, "the libraries of a file", must_reach=["done"], runs=1),
    H("inf", inf, "the parsed file", must_reach=["done"], runs=1),
    H("components", components, "the components of a platform", must_reach=["done"], runs=1),
    H("space", space, "instances of a workspace", symbolic=False, why_bounded="whole workspaces read through SQLAlchemy: random search", runs=300),
]
