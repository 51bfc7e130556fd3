import os
import shutil
import tempfile
import warnings

from contracts.base import H
from pyvc.lists import Indexed, SymList
from pyvc.util import AND, IMPLIES, NOT, OR

ID = "C21"
LEVEL = "proof"
TRUSTED = ["pathlib: is_relative_to is containment of the components, parent removes the last one, and sorting in descending order puts a path before those that contain it",
           "the file system: exists, is_dir, is_file and iterdir tell what is there (contents are arbitrary)"]
ASSUMPTIONS = ["the tree does not change during a call; paths are written without '..', and nothing lies beneath a plain file"]
EXPLANATION = ("The searches are proved with loop invariants for any number of package paths, any depth and any contents of the directories; paths and the file system are abstract "
               "objects with the contracts of pathlib. Random trees in a scratch directory cross-check against an independent reading of the tree.")
M = "edk2toollib.uefi.edk2.path_utilities"


class Quiet:
    def debug(self, *a):
        pass

    error = warning = info = log = debug


def edk2path(P, ws, pps):
    e = P.Edk2Path.__new__(P.Edk2Path)
    e.logger = Quiet()
    e._workspace_path, e._package_path_list = ws, pps
    return e


class Root:
    """The k-th package path (None: the workspace), abstractly."""

    def __init__(self, k):
        self.k = k


def least(vc, name, n, cond):
    """Ghost: the least k in 0..n-1 with cond(k), else n; and its facts at an index."""
    import z3
    from pyvc.sym import zint
    f = vc.fresh(name)
    vc.add(z3.And(f >= 0, f <= n))
    vc.add(z3.Implies(f < n, cond(f)))

    def fact(k):
        k = zint(k)
        vc.add(z3.Implies(z3.And(k >= 0, k < f), z3.Not(cond(k))))

    return f, fact


def relative(vc):
    """Absolute to Edk2 relative: the deepest package path that contains the path, else the workspace."""
    P = vc.module(M)
    if not vc.symbolic:
        return tree(vc, "relative")
    import z3
    from pyvc.core import Unsupported
    from pyvc.sym import mkbool, mkint, zint
    n = vc.int("package paths", 0).z
    inside = z3.Function("inside", z3.IntSort(), z3.BoolSort())                     # the path is in the k-th package path, in sorted order
    below = z3.Function("below", z3.IntSort(), z3.IntSort(), z3.BoolSort())         # the j-th is properly in the k-th
    in_ws = vc.bool("in the workspace")
    first, fact = least(vc, "first", n, inside)

    class Abs:
        def is_relative_to(self, r):
            return in_ws if r.k is None else mkbool(inside(r.k))

        def relative_to(self, r):
            vc.check(self.is_relative_to(r), "relative_to is only asked of a path inside")
            return Rel(r)

    class Rel:
        def __init__(self, r):
            self.r = r

        def as_posix(self):
            return ("posix", self.r)

    def fake_path(*parts):
        vc.check(parts == ("/a/b", "c/d"), "the parts of the path, with forward slashes")
        return Abs()

    def fake_sorted(xs, key=None, reverse=False):
        if key is not None or xs is not pps:
            raise Unsupported("sorting by a key")
        if not reverse:
            return SymList(n, lambda k: Root(zint(n) - 1 - zint(k)))
        return SymList(n, lambda k: Root(zint(k)))

    vc.patch(P, "Path", fake_path)
    vc.patch(P, "sorted", fake_sorted)
    pps = SymList(n, lambda k: Root(zint(k)))
    e = edk2path(P, Root(None), pps)
    vc.contract(M + ":Edk2Path.GetEdk2RelativePathFromAbsolutePath#0",
                Indexed("package paths", lambda vc, i, L: {"relpath": None, "found": False}, n, facts=lambda vc, i: fact(i), inv=lambda vc, i: [i <= mkint(first)]))
    r = e.GetEdk2RelativePathFromAbsolutePath("/a\\b", "c\\d")
    vc.reach("done")
    if vc.branch(first < n):
        vc.reach("package path")
        j = vc.int("any", 0).z
        vc.add(j < n)
        fact(j)
        # contract of sorted: what is properly inside another comes before it
        vc.add(z3.Implies(below(j, first), j < first))
        vc.check(r is not None and r[1].k is not None and mkbool(inside(r[1].k)), "relative to a package path that contains it")
        vc.check(mkbool(zint(r[1].k) == first), "the first in descending order")
        vc.check(NOT(AND(mkbool(inside(j)), mkbool(below(j, zint(r[1].k))))), "no deeper package path contains it")
    elif in_ws:
        vc.reach("workspace")
        vc.check(r is not None and r[1].k is None, "relative to the workspace")
    else:
        vc.reach("outside")
        vc.check(r is None, "no relative path")


def absolute(vc):
    """Edk2 relative to absolute: in the workspace if it exists there, else in the first package path where it does."""
    P = vc.module(M)
    if not vc.symbolic:
        return tree(vc, "absolute")
    import z3
    from pyvc.sym import mkbool, mkint, zint
    n = vc.int("package paths", 0).z
    there = z3.Function("exists", z3.IntSort(), z3.BoolSort())
    in_ws = vc.bool("exists in the workspace")
    first, fact = least(vc, "first", n, there)

    class Joined:
        def __init__(self, r):
            self.r = r

        def exists(self):
            return in_ws if self.r.k is None else mkbool(there(self.r.k))

        def vc_str(self):
            return ("str", self.r)

    class Base(Root):
        def __truediv__(self, rel):
            vc.check(rel is REL, "joined with the relative path")
            return Joined(self)

    REL = object()

    def fake_path(*parts):
        vc.check(parts == ("a/b", "c"), "the parts of the path, with forward slashes")
        return REL

    vc.patch(P, "Path", fake_path)
    vc.patch(P, "str", lambda x: x.vc_str())
    e = edk2path(P, Base(None), SymList(n, lambda k: Base(zint(k))))
    vc.contract(M + ":Edk2Path.GetAbsolutePathOnThisSystemFromEdk2RelativePath#0",
                Indexed("package paths", lambda vc, i, L: {}, n, facts=lambda vc, i: fact(i), inv=lambda vc, i: [i <= mkint(first)]))
    r = e.GetAbsolutePathOnThisSystemFromEdk2RelativePath("a\\b", "c", log_errors=vc.choice("log", [True, False]))
    vc.reach("done")
    if in_ws:
        vc.check(r is not None and r[1].k is None, "in the workspace")
    elif vc.branch(first < n):
        vc.check(r is not None and r[1].k is not None and mkbool(zint(r[1].k) == first), "in the first package path that has it")
    else:
        vc.reach("nowhere")
        vc.check(r is None, "no absolute path")


class Entry:
    def __init__(self, suffix, is_file, name):
        self.suffix, self._file, self.entry = suffix, is_file, name

    def is_file(self):
        return self._file

    def vc_str(self):
        return self.entry


class Chain:
    vc_ghost = True             # stand-in without state of the program: not part of any frame
    """A path's ancestors: Dir(0) is the first directory to search, Dir(k+1) contains Dir(k), Dir(root) is the root that ends the search."""

    def __init__(self, vc, suffixes):
        import z3
        self.vc, self.z3 = vc, z3
        self.root = vc.int("depth", 0).z
        self.has = z3.Function("has", z3.IntSort(), z3.BoolSort())
        self.there = z3.Function("exists", z3.IntSort(), z3.BoolSort())
        self.first, self.fact = least(vc, "first", self.root, lambda k: z3.And(self.there(k), self.has(k)))
        self.suffix = vc.choice("suffix", suffixes)
        self.noise = vc.choice("noise", ["", "c", "directory", "none"])

    def dir(self, k):
        return Dir(self, k)

    def entries(self, k):
        out = {"": [], "none": [Entry("", True, "README")], "c": [Entry(".c", True, "a.c"), Entry(".decx", True, "b.decx"), Entry(".in", True, "c.in")],
               "directory": [Entry(".c", True, "a.c"), Entry(self.suffix, False, "sub" + self.suffix)] if "i" in self.suffix.lower() else [Entry("", False, "sub")]}[self.noise]
        if self.vc.branch(self.has(k)):
            out = out + [Entry(self.suffix, True, ("file", k))]
        return out


class Dir:
    vc_ghost = True

    def __init__(self, chain, k):
        from pyvc.core import simp
        self.chain, self.k = chain, simp(k) if not isinstance(k, int) else k

    def _there(self):
        from pyvc.sym import mkbool
        return mkbool(self.chain.there(self.k))

    exists = is_dir = _there

    def iterdir(self):
        self.chain.vc.check(self._there(), "only existing directories are read")
        return self.chain.entries(self.k)

    @property
    def parent(self):
        return Dir(self.chain, self.k + 1)

    @property
    def name(self):
        return ("name", self.k)

    def __eq__(self, o):
        from pyvc.sym import mkbool, zint
        if isinstance(o, Dir) and o.chain is self.chain:
            return mkbool(zint(self.k) == zint(o.k))
        return False

    def __ne__(self, o):
        return NOT(self == o)

    __hash__ = None


def package(vc):
    """The containing package: the nearest directory with a .dec file below the root that contains the path."""
    P = vc.module(M)
    if not vc.symbolic:
        return tree(vc, "package")
    from pyvc.sym import mkbool, mkint, zint
    c = Chain(vc, [".dec", ".DEC", ".Dec"])
    in_ws = vc.bool("in the workspace")
    n = vc.int("package paths", 0).z
    import z3
    inside = z3.Function("inside", z3.IntSort(), z3.BoolSort())
    first, fact = least(vc, "first package path", n, inside)
    file = vc.bool("is a file or absent")

    class Inside(Dir):
        """The path itself; a directory is its own start."""

        def __init__(self):
            Dir.__init__(self, c, z3.IntVal(0))

        def is_dir(self):
            return NOT(file)

        def is_relative_to(self, r):
            return in_ws if r is ws else mkbool(inside(r.pk))

        @property
        def parent(self):
            return Dir(c, z3.IntVal(0)) if vc.branch(file.z) else Dir(c, z3.IntVal(1))

    class Top(Dir):
        def __init__(self, pk):
            Dir.__init__(self, c, c.root)
            self.pk = pk

    ws = Top(None)
    vc.patch(P, "Path", lambda p: Inside() if p == "/a/b" else vc.check(False, "the path, with forward slashes"))
    e = edk2path(P, ws, SymList(n, lambda k: Top(zint(k))))
    key = M + ":Edk2Path.GetContainingPackage#"
    vc.contract(key + "0", Indexed("package paths", lambda vc, i, L: {"path_root": None}, n, facts=lambda vc, i: fact(i), inv=lambda vc, i: [i <= mkint(first)]))
    vc.contract(key + "1", Indexed("directories", lambda vc, i, L: {"dirpath": c.dir(zint(i))}, c.root, facts=lambda vc, i: c.fact(i), inv=lambda vc, i: [i <= mkint(c.first)]))
    r = e.GetContainingPackage("/a\\b")
    vc.reach("done")
    if vc.branch(z3.And(z3.Not(in_ws.z), first == n)):
        vc.reach("outside")
        vc.check(r is None, "outside of every root")
    elif vc.branch(c.first < c.root):
        vc.reach("found")
        vc.check(r is not None and mkbool(zint(r[1]) == c.first), "the nearest directory with a .dec file")
    else:
        vc.check(r is None, "no package")


def modules(vc):
    """The containing modules: the .inf files of the nearest directory that has any, below the outermost root that contains the path."""
    P = vc.module(M)
    if not vc.symbolic:
        return tree(vc, "modules")
    import z3
    from pyvc.sym import mkbool, mkint, zint
    c = Chain(vc, [".inf", ".INF"])
    count = vc.choice("package paths", range(0, 3))
    vc.bound("up to two package paths besides the workspace")
    # roots are ancestors (at a depth) or elsewhere; the outermost ancestor ends the search
    depth = [vc.int("root%d" % k, 0).z for k in range(count + 1)]
    elsewhere = [vc.bool("elsewhere%d" % k).z for k in range(count + 1)]
    inside2 = z3.Function("is in", z3.IntSort(), z3.IntSort(), z3.BoolSort())
    is_root = vc.bool("the path is the root")
    is_inf = vc.bool("is an inf file")

    class R(Dir):
        def __init__(self, j):
            Dir.__init__(self, c, depth[j])
            self.j = j

        @property
        def parts(self):
            return SymList(1000 - depth[self.j], lambda k: None) if not vc.branch(elsewhere[self.j]) else SymList(vc.int("parts%d" % self.j, 0), lambda k: None)

        def is_relative_to(self, o):
            if o.j == self.j:
                return True
            return mkbool(z3.If(z3.Or(elsewhere[self.j], elsewhere[o.j]), inside2(self.j, o.j), depth[self.j] <= depth[o.j]))

        def __eq__(self, o):
            if isinstance(o, R):
                if o.j == self.j:
                    return True
                return mkbool(z3.And(elsewhere[self.j] == elsewhere[o.j], z3.If(elsewhere[self.j], z3.And(inside2(self.j, o.j), inside2(o.j, self.j)), depth[self.j] == depth[o.j])))
            if isinstance(o, Path_):
                return AND(NOT(mkbool(elsewhere[self.j])), AND(is_root, mkbool(depth[self.j] == c.root)))
            return AND(NOT(mkbool(elsewhere[self.j])), mkbool(depth[self.j] == zint(o.k)))

        __hash__ = None

    class Path_:
        suffix = ".INF" if vc.branch(is_inf.z) else ".c"

        def is_absolute(self):
            return absolute

        def is_relative_to(self, r):
            return NOT(mkbool(elsewhere[r.j]))

        @property
        def parent(self):
            return c.dir(z3.IntVal(0)) if not is_root else c.dir(c.root + 1)

        def vc_str(self):
            return "itself"

        def __eq__(self, o):
            return o == self if isinstance(o, R) else False

        __hash__ = None

    absolute = vc.bool("absolute")
    # containment facts between roots: what contains an ancestor of the path is one; transitivity; equal depths are equal paths
    J = range(count + 1)
    for a in J:
        for b in J:
            if a != b:
                vc.add(z3.Implies(z3.And(z3.Not(elsewhere[a]), elsewhere[b]), z3.Not(inside2(a, b))))
                for d in J:
                    if d not in (a, b):
                        vc.add(z3.Implies(z3.And(elsewhere[a], inside2(a, b), z3.If(z3.Or(elsewhere[b], elsewhere[d]), inside2(b, d), depth[b] <= depth[d])), inside2(a, d)))
    roots = [R(j) for j in J]
    any_in = z3.Or(*[z3.Not(x) for x in elsewhere])
    # c.root is the outermost root that contains the path
    for j in J:
        vc.add(z3.Implies(z3.Not(elsewhere[j]), depth[j] <= c.root))
    vc.add(z3.Implies(any_in, z3.Or(*[z3.And(z3.Not(elsewhere[j]), depth[j] == c.root) for j in J])))
    if vc.branch(is_root.z):
        for j in J:
            vc.add(z3.Implies(z3.Not(elsewhere[j]), depth[j] == c.root))
    vc.patch(P, "Path", lambda p: Path_() if p == "/a/b" else vc.check(False, "the path, with forward slashes"))
    vc.patch(P, "str", lambda x: x.vc_str())
    e = edk2path(P, roots[-1], roots[:-1])
    key = M + ":Edk2Path.GetContainingModules#"
    work = Indexed("directories", lambda vc, i, L: {"current_dir": c.dir(zint(i)), "modules": []}, c.root, facts=lambda vc, i: c.fact(i), inv=lambda vc, i: [i <= mkint(c.first)])
    for k in range(1, 4):
        vc.contract(key + str(k), work)
    from pyvc.util import outcome
    ok, r = outcome(e.GetContainingModules, "/a\\b")
    vc.check(OR(ok, NOT(absolute)) if isinstance(ok, bool) else ok, "an absolute path is answered")
    if not ok:
        vc.reach("relative")
        return
    vc.check(absolute, "a relative path is refused")
    vc.reach("done")
    if vc.branch(z3.Not(any_in)):
        vc.reach("outside")
        vc.check(r == [], "outside of every root")
    elif is_inf:
        vc.reach("inf")
        vc.check(r == ["itself"], "a module is its own module")
    elif is_root:
        vc.reach("root")
        vc.check(r == [], "a root is in no module")
    elif vc.branch(c.first < c.root):
        vc.reach("found")
        vc.check(len(r) == 1 and mkbool(zint(r[0][1]) == c.first), "the .inf files of the nearest directory that has any")
    else:
        vc.check(r == [], "no module")


# ---------------------------------------------------------------- random trees

NAMES = ["a", "ab", "b", "c", "Ab", "pkg", "m.inf", "p.dec"]


def g_tree(r):
    dirs = [()]
    for _ in range(r.randint(1, 9)):
        p = r.choice(dirs) + (r.choice(NAMES),)
        if p not in dirs:
            dirs.append(p)
    files = []
    for _ in range(r.randint(1, 9)):
        f = r.choice(dirs) + (r.choice(["x.dec", "y.DEC", "x.inf", "Y.INF", "z.c", "w.txt", "v.decx", "u.inff"]),)
        if f not in files:
            files.append(f)
    some = [d for d in dirs if d]
    for _ in range(r.choice([0, 1, 3])):
        # the same thing in several places
        f = r.choice(dirs) + ((files or some) and r.choice(files or some)[-1],)
        if f not in files and f not in dirs:
            files.append(f)
    ws = r.choice(some + dirs)
    pps = [r.choice(some) for _ in range(r.choice([0, 1, 1, 2, 3]))]
    if len(pps) > 1:
        # the same file in several package paths
        rel = (r.choice(NAMES[:6]), "z.c")[r.randint(0, 1):]
        for p in pps:
            if r.random() < 0.7 and p + rel not in files:
                files.append(p + rel)
    q = r.choice(dirs)
    if r.random() < 0.3:
        q = r.choice(files)
    elif r.random() < 0.6:
        q = q + (r.choice(["x.inf", "Y.INF", "z.c", "new.c", "gone"]),)
        if r.random() < 0.2 and q not in files:
            q = q + (r.choice(["gone.c", "deep", "n.inf"]),)
    elif files and r.random() < 0.5:
        q = r.choice(files)
    return [[list(d) for d in dirs], [list(f) for f in files], list(ws), [list(p) for p in pps], list(q), r.random() < 0.3]


def within(p, root):
    return p[:len(root)] == root


def tree(vc, what):
    P = vc.module(M)
    dirs, files, ws, pps, q, back = vc.data("tree", g_tree)
    top = tempfile.mkdtemp(prefix="pyvc21")
    try:
        for d in dirs:
            os.makedirs(os.path.join(top, *d), exist_ok=True)
        for f in files:
            os.makedirs(os.path.join(top, *f[:-1]), exist_ok=True)
            open(os.path.join(top, *f), "w").close()
        full = lambda p: os.path.join(top, *p)  # noqa: E731
        spell = (lambda s: s.replace("/", "\\")) if back else (lambda s: s)
        e = P.Edk2Path(spell(full(ws)), [spell(full(p)) for p in pps])
        vc.check(e.WorkspacePath == full(ws) and e.PackagePathList == [full(p) for p in pps], "the roots")
        is_dir = os.path.isdir(full(q))
        if what == "relative":
            got = e.GetEdk2RelativePathFromAbsolutePath(spell(full(q)))
            best = max((p for p in pps if within(q, p)), key=len, default=ws if within(q, ws) else None)
            vc.check(got == (None if best is None else "/".join(q[len(best):]) or "."), "the relative path")
        elif what == "absolute":
            rels = [q[k:] for k in range(len(q))] + [f[len(b):] for b in [ws] + pps for f in files if within(f, b)]
            for rel in rels:
                got = e.GetAbsolutePathOnThisSystemFromEdk2RelativePath(spell("/".join(rel)), log_errors=False)
                want = [full(b + rel) for b in [ws] + pps if os.path.exists(full(b + rel))]
                vc.check(got == (want[0] if want else None), "the absolute path")
        elif what == "package":
            root = ws if within(q, ws) else next((p for p in pps if within(q, p)), None)
            want = None
            if root is not None:
                p = q if is_dir else q[:-1]
                while len(p) > len(root):
                    if os.path.isdir(full(p)) and any(x.lower().endswith(".dec") for x in os.listdir(full(p))):
                        want = p[-1]
                        break
                    p = p[:-1]
            vc.assume(root is None or q != root or is_dir)
            vc.check(e.GetContainingPackage(spell(full(q))) == want, "the containing package")
        else:
            roots = [p for p in pps + [ws] if within(q, p)]
            want = []
            if roots:
                root = min(roots, key=len)
                if q and q[-1].lower().endswith(".inf"):
                    want = [full(q)]
                else:
                    p = q[:-1]
                    while len(p) > len(root) and not want:
                        if os.path.isdir(full(p)):
                            want = [full(p + [x]) for x in os.listdir(full(p)) if x.lower().endswith(".inf") and os.path.isfile(full(p + [x]))]
                        p = p[:-1]
            got = e.GetContainingModules(spell(full(q)))
            vc.check(sorted(got) == sorted(want), "the containing modules")
    finally:
        shutil.rmtree(top)


def roots(vc):
    """The constructor: absolute, workspace relative and cwd relative roots; absent ones are refused or dropped."""
    P = vc.module(M)
    d = vc.data("roots", lambda r: [[r.choice(["abs", "ws", "cwd", "both", "absent"]) for _ in range(r.randint(0, 5))], r.random() < 0.5, r.random() < 0.5])
    top = tempfile.mkdtemp(prefix="pyvc21")
    old = os.getcwd()
    try:
        os.chdir(top)
        here = os.getcwd()
        for x in ("ws", "ws/inws", "ws/both", "both", "incwd", "far"):
            os.mkdir(os.path.join(here, x))
        open(os.path.join(here, "ws/incwd"), "w").close()
        give = {"abs": here + "/far", "ws": "inws", "cwd": "incwd", "both": "both", "absent": "absent"}
        get = {"abs": here + "/far", "ws": here + "/ws/inws", "cwd": here + "/incwd", "both": here + "/ws/both"}
        ok, e = True, None
        try:
            e = P.Edk2Path("ws" if d[1] else here + "/ws", [give[x] for x in d[0]], error_on_invalid_pp=d[2])
        except NotADirectoryError:
            ok = False
        vc.check(ok == (not (d[2] and "absent" in d[0])), "refused exactly for an absent package path")
        if ok:
            vc.check(e.PackagePathList == [get[x] for x in d[0] if x != "absent"] and e.WorkspacePath == here + "/ws", "the roots, in order")
        try:
            P.Edk2Path(here + "/none", [])
            vc.check(False, "an absent workspace is refused")
        except NotADirectoryError:
            pass
    finally:
        os.chdir(old)
        shutil.rmtree(top)


class Where:
    """os.path.join of a folder and the parts asked for, abstractly; with abspath or without."""
    vc_ghost = True

    def __init__(self, folder, parts, full=False):
        self.folder, self.parts, self.full = folder, parts, full

    def __getattr__(self, name):
        from pyvc.core import Unsupported
        raise Unsupported("%s of a path" % name)

    def key(self):
        return (self.folder,) + tuple(p.name for p in self.parts)


class Part:
    """An argument, a folder or the path of the file being parsed."""
    vc_ghost = True

    def __init__(self, name):
        self.name = name

    __getattr__ = Where.__getattr__


def find(vc):
    """FindPath: the absolute path, else the root path, else the folder of the file being parsed, else the package paths."""
    P = vc.module("edk2toollib.uefi.edk2.parsers.base_parser")
    p = P.BaseParser()
    if not vc.symbolic:
        return find_tree(vc, p)
    from pyvc.core import Unsupported
    n = vc.choice("parts", [1, 2])
    parts = [Part("p%d" % k) for k in range(n)]
    absolute = vc.bool("absolute")          # the first argument is an absolute path, the second is none
    root, target, near = Part("root"), Part("target"), Part("dir")
    there = {k: vc.bool("there " + k) for k in ("as such", "root", "dir")}
    has_target, has_util = vc.bool("target known"), vc.bool("package paths known")
    found = vc.choice("found by the package paths", [True, False])
    found = Part("found") if found else None

    class FakePath:
        def join(self, *xs):
            folder, out = None, []
            for x in xs:
                if isinstance(x, Where) and not x.full and x.folder in (None, "root", "dir"):
                    f, ys = x.folder, list(x.parts)
                elif isinstance(x, Part) and x in (root, near):
                    f, ys = x.name, []
                elif isinstance(x, Part) and x in parts:
                    f, ys = None, [x]
                else:
                    raise Unsupported("joining %r" % (x,))
                if f is not None:
                    folder, out = f, ys
                elif ys and ys[0] is parts[0]:
                    if bool(absolute):
                        folder, out = None, ys
                    else:
                        out = out + ys
                else:
                    out = out + ys
            return Where(folder, out)

        def isabs(self, x):
            if not isinstance(x, Where) or x.parts[:1] != parts[:1]:
                raise Unsupported("isabs of another path")
            return True if x.full or x.folder else absolute

        def exists(self, x):
            if not isinstance(x, Where) or x.parts != parts:
                raise Unsupported("existence of another path")
            if x.folder is None and not absolute:
                raise Unsupported("existence of a path relative to the current directory")
            return there[x.folder or "as such"]

        def abspath(self, x):
            if not isinstance(x, Where):
                raise Unsupported("abspath of another path")
            return Where(x.folder, x.parts, True)

        def dirname(self, x):
            if x is not target:
                raise Unsupported("dirname of another path")
            return near

        __getattr__ = Where.__getattr__

    class FakeOs:
        path = FakePath()
        __getattr__ = Where.__getattr__

    class Util:
        vc_ghost = True

        def GetAbsolutePathOnThisSystemFromEdk2RelativePath(self, *xs, log_errors=True):
            x = FakePath().join(*xs)
            vc.check(x.folder is None and x.parts == parts, "the package paths are asked for the path as given")
            return None if absolute else found       # joined to any root, an absolute path is itself

        __getattr__ = Where.__getattr__

    vc.patch(P, "os", FakeOs())
    p.Logger = Quiet()
    p.RootPath = root
    p.TargetFilePath = target if bool(has_target) else None
    p._Edk2PathUtil = Util() if bool(has_util) else None
    got = p.FindPath(*parts)
    vc.reach("done")

    def is_it(folder):
        vc.check(isinstance(got, Where) and got.folder == folder and got.parts == parts and (folder is None or got.full), "the path found")

    if bool(absolute):
        vc.reach("absolute")
        if bool(there["as such"]):
            is_it(None)
            return
    else:
        vc.reach("relative")
        if bool(there["root"]):
            is_it("root")
            return
        if p.TargetFilePath is not None and bool(there["dir"]):
            is_it("dir")
            return
    vc.check(got is (found if p._Edk2PathUtil is not None and not absolute else None), "what the package paths give, or None")
    vc.check(p.RootPath is root and p.FindPath(None) is None, "nothing to find")


def find_tree(vc, p):
    d = vc.data("find", lambda r: [[w for w in ("root", "dir", "ws", "pp", "cwd") if r.random() < 0.4], r.choice([1, 2, 3]), r.choice([True, False]),
                                   r.choice(["set", "set", "separate", "none", "nothing"]), r.choice([True, True, True, False]), r.random() < 0.2])
    at, n, target, util, exists, absolute = d
    top = tempfile.mkdtemp(prefix="pyvc21")
    old = os.getcwd()
    try:
        os.makedirs(top + "/cwd")
        os.chdir(top + "/cwd")
        top = os.path.dirname(os.getcwd())
        base = {"root": top + "/root", "dir": top + "/dir", "ws": top + "/ws", "pp": top + "/ws/pp", "cwd": top + "/cwd"}
        for k in ("root", "dir", "pp"):
            os.makedirs(base[k])
        rel = ["A", "b.inf"] if n == 1 else ["A/b.inf"] if n == 2 else ["A", "c", "b.inf"]
        for w in at:
            f = os.path.join(base[w], *rel)
            os.makedirs(os.path.dirname(f))
            open(f, "w").close()
        from edk2toollib.uefi.edk2.path_utilities import Edk2Path
        order = {"none": ["root"], "nothing": ["cwd"]}.get(util, ["ws"])
        if util == "set":
            p.SetEdk2Path(Edk2Path(base["ws"], ["pp"]))
        elif util == "separate":
            warnings.simplefilter("ignore")
            p.SetBaseAbsPath(base["ws"])
            p.SetPackagePaths([base["pp"]])
        else:
            if util == "none":
                p.RootPath = base["root"]
        if target:
            p.TargetFilePath = base["dir"] + "/x.dsc"
            order.append("dir")
        if util in ("set", "separate"):
            order += ["pp"]
        if absolute:
            f = os.path.join(base["pp"], *rel)
            vc.check(p.FindPath(f) == (f if "pp" in at else None), "an absolute path is itself or not there")
            return
        want = next((os.path.join(base[w], *rel) for w in order if w in at), None)
        got = p.FindPath(*rel)
        vc.check((got and os.path.normpath(got)) == want and (got is None or os.path.isabs(got)), "the first place where it is")
        vc.check(p.FindPath(None) is None, "nothing to find")
    finally:
        os.chdir(old)
        shutil.rmtree(top)


HARNESSES = [
    H("find", find, "the file search of the build file parsers", must_reach=["done", "absolute", "relative"], runs=300),
    H("relative", relative, "absolute to Edk2 relative paths", must_reach=["done", "package path", "workspace", "outside"], runs=500),
    H("absolute", absolute, "Edk2 relative to absolute paths", must_reach=["done", "nowhere"], runs=400),
    H("package", package, "the containing package", must_reach=["done", "outside", "found"], runs=500),
    H("modules", modules, "the containing modules", must_reach=["done", "relative", "outside", "inf", "root", "found"], runs=800),
    H("roots", roots, "the constructor", symbolic=False, runs=150, why_bounded="only touches the file system"),
]
