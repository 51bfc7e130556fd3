import datetime
import logging
import os
import shutil
import subprocess
import tempfile
import warnings

from contracts.base import H
from contracts.c20_sections import layout
from contracts.c22_fdf import word
from contracts.c24_instances import Path, Quiet, Rec2, Roots
from contracts.routes import Rec, Router
from pyvc.core import Unsupported
from pyvc.lists import Indexed, SymList, same
from pyvc.util import AND, NOT, OR, outcome, scat

ID = "C26"
LEVEL = "proof"
TRUSTED = ["SQLAlchemy and SQLite: a query gives the rows that were added", "joblib.Parallel gives the results in the order of its jobs", "pathlib, Edk2Path (C21), the INF and FDF parsers (C20, C22)",
           "GitPython: remotes, submodules and the commit of HEAD", "pygount counts code, comment and blank lines"]
ASSUMPTIONS = ["a component named by an FDF file exists and is built for one architecture", "termination is not proved"]
EXPLANATION = ("The loops over the files, sources, libraries, submodules and volumes of each table are proved with invariants for any number of them and any rows already there. Random workspaces with git repositories, "
               "changed between two parses into a real database, cross-check the whole.")
TABLES = "edk2toollib.database.tables."


class Row:
    """A row: an object with the columns it is made of; equal if they have the same columns."""
    vc_ghost = True

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __eq__(self, o):
        if not isinstance(o, Row):
            return False
        a, b = self.__dict__, o.__dict__
        return AND(*([type(self) is type(o), a.keys() == b.keys()] + [a[k] is b[k] or same(a[k], b[k]) for k in a if k in b]))

    __hash__ = None


class Known:
    """The rows by their keys; at each turn, whether the key at hand is among them."""
    vc_ghost = True

    def __init__(self, vc):
        self.vc, self.key = vc, None

    def turn(self, key, there, old, new):
        """The key, whether it has a row, this row, and the row to be added if it has none."""
        self.key, self.there, self.row, self.new = key, there, old, new

    def _at(self, k):
        if self.key is None:
            raise Unsupported("a row of another turn")
        self.vc.check(k == self.key, "the key of the row at hand")

    def __contains__(self, k):
        self._at(k)
        return self.there

    def __getitem__(self, k):
        if k not in self:
            raise KeyError(k)
        return self.row

    def get(self, k, d=None):
        return self.row if k in self else d

    def __setitem__(self, k, v):
        self._at(k)
        self.vc.check(not self.there, "no row twice")
        self.vc.check(v == self.new, "the columns of a new row")
        self.there, self.row = True, v

    def setdefault(self, k, v):
        if k not in self:
            self[k] = v
        return self.row


class Rows:
    """What a query gives: the rows of a table."""
    vc_ghost = True

    def __init__(self, vc, sample, key, index):
        self.vc, self.sample, self.key, self.index = vc, sample, key, index

    def filter_by(self, **kw):
        self.vc.check(kw == self.index.filter, "the rows asked for")
        return self

    def all(self):
        return self

    def vc_dictcomp(self, kf, vf):
        self.vc.check(kf(self.sample) == self.key and vf(self.sample) is self.sample, "the rows by their keys")
        return self.index


class Session:
    vc_ghost = True

    def __init__(self, vc, tables):
        self.vc, self.tables, self.added, self.commits = vc, tables, [], 0

    def query(self, table):
        return self.tables[table]

    def add(self, x):
        self.vc.check(not self.commits, "rows are added before the commit")
        self.added.append(x)

    add_all = add

    def commit(self):
        self.commits += 1


class File:
    """A file of the workspace."""
    vc_ghost = True

    def __init__(self, vc, name, build=None):
        self.vc, self.name = vc, name
        self.build = vc.bool("%s in Build" % name) if build is None else build
        self.is_it = vc.bool("%s is a file" % name)

    def is_file(self):
        return self.is_it

    def is_relative_to(self, p):
        self.vc.check(p == Rec("ws", "Build"), "below Build")
        return self.build

    def as_posix(self):
        return Rec("posix", self.name)

    def __str__(self):
        raise Unsupported("the file as text")

    def __eq__(self, o):
        return self is o

    __hash__ = None


class Space:
    """The workspace, as a Path: files by pattern."""
    vc_ghost = True

    def __init__(self, files):
        self.files = files

    def rglob(self, p):
        return self.files.get("**/" + p, [])

    def glob(self, p):
        return self.files.get(p, [])

    def __truediv__(self, o):
        return Rec("ws", o)


def jobs(vc, T, results, check):
    """joblib: the results of the jobs, of which there are any number."""
    class Job:
        vc_ghost = True

        def __init__(self, f, a):
            self.f, self.a = f, a

    def parallel(n_jobs=None):
        def run(todo):
            check(list(todo))
            return results
        return run

    vc.patch(T, "delayed", lambda f: lambda *a: Job(f, a))
    vc.patch(T, "Parallel", parallel)


# ---------------------------------------------------------------- source files

COLUMNS = ("license", "total_lines", "code_lines", "comment_lines", "blank_lines")


def source_rows(vc):
    """A row for each source file, new or there already."""
    if not vc.symbolic:
        return database(vc)
    T = vc.module(TABLES + "source_table")
    exts = ["*.c", "*.h"]
    files = {"**/" + e: [File(vc, "a" + e)] for e in exts}
    t = T.SourceTable(n_jobs=vc.choice("jobs", [1, 4]), source_extensions=exts)
    n = vc.int("files", 0).z
    R = Router(vc, "sources", n, [], ["rows"])
    sample = Row(path=Rec("path"))
    index = Known(vc)

    def check(jobs):
        want = [f for e in exts for f in files["**/" + e] if f.is_it and not f.build]
        vc.check(len(jobs) == len(want) and all(j.f == t._parse_file and len(j.a) == 1 and j.a[0] is f for j, f in zip(jobs, want)), "the source files outside of Build are parsed")

    def source(vc, i):
        path = Rec("path", i)
        new = {x: Rec(x, i) for x in COLUMNS}
        # (the row of the path has, at the end of its turn, the columns of the file)
        index.turn(path, vc.bool("there"), Row(path=path, **{x: Rec("old", x, i) for x in COLUMNS}), Row(path=path, **new))
        R.step(i, [("rows", Row(path=path, **new))])
        return Row(path=path, **new)

    session = Session(vc, {T.Source: Rows(vc, sample, sample.path, index)})
    jobs(vc, T, SymList(n, lambda k: None), check)
    vc.patch(T, "Path", lambda p: Space(files) if p == "/ws" else 1 / 0)
    vc.patch(T, "logging", Quiet())
    vc.contract(TABLES + "source_table:SourceTable.parse#1", Indexed("sources", lambda vc, i, L: {"to_add": R.list("rows", i)}, n, elem=source))
    t.parse(session, Rec2(WorkspacePath="/ws"), "id", {})
    vc.reach("done")
    vc.check(len(session.added) == 1 and same(session.added[0], R.list("rows", n)), "the rows of all files")


def source_file(vc):
    """One source file: its path, its last license, its lines."""
    if not vc.symbolic:
        return database(vc)
    import z3
    T = vc.module(TABLES + "source_table")
    stats = vc.bool("statistics")
    t = T.SourceTable(source_stats=stats)
    n = vc.int("lines", 0)
    last = z3.Function("last", z3.IntSort(), z3.IntSort())
    vc.add(last(0) == -1)
    now = {}
    name = Rec2(as_posix=lambda: Rec("posix"))

    def license(k):
        from pyvc.sym import mkint
        return "" if vc.branch(last(k.z if hasattr(k, "z") else k) == -1) else Rec("license", mkint(last(k.z if hasattr(k, "z") else k)))

    class Match:
        vc_ghost = True

        def __init__(self, i):
            self.i = i

        def group(self, k):
            vc.check(k == 1, "the license of the line")
            return Rec("license", self.i)

    class Regex:
        vc_ghost = True

        def search(self, pattern, line, *a):
            import re
            p = re.compile(pattern, *a)
            for text, want in (("// SPDX-License-Identifier: BSD-2-Clause-Patent\n", "BSD-2-Clause-Patent"), ("SPDX-License-Identifier:MIT", "MIT"), ("x SPDX-License-Identifier:\t a b \n", "a b "),
                               ("#  spdx-license-identifier: x", None), ("SPDX-License-Identifier", None), ("SPDX: x", None), ("SPDX-License-Identifier:\n", "")):
                m = p.search(text)
                vc.check((m.group(1) if m else None) == want, "the pattern of a license")
            vc.check(isinstance(line, Rec) and line.vals[0] == "line", "a line of the file")
            return Match(line.vals[1]) if now["match"] else None

    class Handle:
        vc_ghost = True

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def readlines(self):
            return SymList(n.z, lambda k: Rec("line", k))

        def __iter__(self):
            return iter(self.readlines())

    def fake_open(f, mode="r", **k):
        vc.check(f is name and mode == "r", "the file is read")
        ok, s = outcome(bytes(range(256)).decode, k.get("encoding") or "utf-8", k.get("errors") or "strict")
        vc.check(ok and s[:128] == bytes(range(128)).decode("ascii"), "whatever its bytes are")
        return Handle()

    class Analysis:
        vc_ghost = True

        @staticmethod
        def from_file(f, group, **k):
            vc.check(stats and f is name, "the statistics of the file, on request")
            return Rec2(code_count=Rec("code"), documentation_count=Rec("comment"), empty_count=Rec("blank"))

    def line(vc, i):
        from pyvc.sym import zint
        now["match"] = vc.bool("match")
        z = zint(i)
        vc.add(last(z + 1) == (z if now["match"] else last(z)))
        vc.add(z3.And(last(z) >= -1, last(z) < z))
        return Rec("line", i)

    vc.patch(T, "re", Regex())
    vc.patch(T, "open", fake_open)
    vc.patch(T, "SourceAnalysis", Analysis)
    vc.patch(T, "Source", Row)
    t.pathobj = Rec2(GetEdk2RelativePathFromAbsolutePath=lambda p: Rec("relative", p))
    vc.contract(TABLES + "source_table:SourceTable._parse_file#0", Indexed("lines", lambda vc, i, L: {"license": license(i)}, n.z, elem=line))
    r = t._parse_file(name)
    vc.reach("done")
    lic = license(n.z)
    vc.check(r.path == Rec("relative", Rec("posix")), "the path of the file by its package path")
    # (an identifier that is empty counts as unknown)
    vc.check(r.license == (lic if isinstance(lic, Rec) else "Unknown"), "the license of the file")
    vc.check(r.total_lines == n, "the number of lines")
    vc.check(AND(r.code_lines == Rec("code"), r.comment_lines == Rec("comment"), r.blank_lines == Rec("blank")) if stats else AND(r.code_lines == n, r.comment_lines == 0, r.blank_lines == 0), "the statistics of the file")


# ---------------------------------------------------------------- INF files

def inf_rows(vc):
    """A row for each INF file with a GUID that has none, with its sources and libraries."""
    if not vc.symbolic:
        return database(vc)
    T = vc.module(TABLES + "inf_table")
    files = {"**/*.inf": [File(vc, "a"), File(vc, "b")]}
    t = T.InfTable(n_jobs=2)
    n = vc.int("files", 0).z
    R = Router(vc, "rows", n, [], ["rows"])
    links = {x: Router(vc, x + " of a file", None, [], ["linked"]) for x in ("sources", "libraries")}
    count = {x: vc.int("number of " + x, 0).z for x in links}
    now = {"entry": Row(sources=[], libraries=[])}
    pathobj = Rec2(WorkspacePath="/ws")
    infs, known = Known(vc), {x: Known(vc) for x in links}

    def check(jobs):
        want = [f for f in files["**/*.inf"] if not f.build]
        vc.check(len(jobs) == len(want) and all(j.f == t._parse_file and len(j.a) == 2 and j.a[0] is f and j.a[1] is pathobj for j, f in zip(jobs, want)), "the INF files outside of Build are parsed")

    def entry(vc, i):
        kind = vc.choice("entry", ["new", "known", "no guid"])
        e = Row(path=Rec("path", i), guid="" if kind == "no guid" else "guid", sources=[], libraries=[])
        want = Row(path=e.path, guid="guid", sources=links["sources"].list("linked", count["sources"]), libraries=links["libraries"].list("linked", count["libraries"]))
        now.update({"i": i, "entry": e})
        infs.turn(e.path, vc.bool("windows") if kind == "no guid" else kind == "known", Rec("old row"), want)
        R.step(i, [("rows", want)] if kind == "new" else [])
        return e, SymList(count["sources"], lambda k: None), SymList(count["libraries"], lambda k: None)

    def link(what, key):
        def elem(vc, j):
            k = Rec(what, now["i"], j)
            there = vc.bool("there")
            known[what].turn(k, there, Row(old=k), Row(**{key: k}))
            links[what].step(j, [("linked", Row(old=k) if there else Row(**{key: k}))])
            return k
        return Indexed(what, lambda vc, j, L: {}, count[what], elem=elem, heap=lambda vc, j, L: [(now["entry"], what, links[what].list("linked", j))])

    tables = [T.Inf, T.Source, T.Library]
    rows = [Row(path=Rec("path")), Row(path=Rec("path")), Row(name=Rec("name"))]
    session = Session(vc, {c: Rows(vc, r, getattr(r, "name" if c is T.Library else "path"), k) for c, r, k in zip(tables, rows, [infs, known["sources"], known["libraries"]])})
    jobs(vc, T, SymList(n, lambda k: None), check)
    # (what a new row is made of)
    old = {c: session.tables[c] for c in tables}
    for name, c in zip(("Source", "Library"), tables[1:]):
        vc.patch(T, name, type(name, (), {"__new__": staticmethod(lambda cls, **kw: Row(**kw))}))
        session.tables[getattr(T, name)] = old[c]
    vc.patch(T, "Path", lambda p: Space(files) if p == "/ws" else 1 / 0)
    vc.patch(T, "logging", Quiet())
    L = TABLES + "inf_table:InfTable.parse#"
    vc.contract(L + "0", Indexed("files", lambda vc, i, L: {"to_add": R.list("rows", i)}, n, elem=entry))
    vc.contract(L + "1", link("sources", "path"))
    vc.contract(L + "2", link("libraries", "name"))
    t.parse(session, pathobj, "id", {})
    vc.reach("done")
    vc.check(len(session.added) == 1 and same(session.added[0], R.list("rows", n)), "the rows of all files")


class Term(Path):
    def as_posix(self):
        return self.x if isinstance(self.x, Rec) and self.x.vals[0] == "posix" else Rec("posix", self.x)

    @property
    def parent(self):
        return Term(Rec("parent", self.x))

    def resolve(self):
        return Term(Rec("resolved", self.x))

    def __truediv__(self, o):
        return Term(Rec("joined", self.x, o))


def inf_file(vc):
    """One INF file: its columns, its sources by their package paths, its libraries."""
    if not vc.symbolic:
        return database(vc)
    T = vc.module(TABLES + "inf_table")
    t = T.InfTable()
    n = vc.int("sources", 0).z
    name, libs, cls = Rec("file"), Rec("libraries"), word(vc, "class")
    has = {x: vc.bool(x) for x in ("FILE_GUID", "MODULE_TYPE", "class")}
    paths = Roots()

    class Parser:
        vc_ghost = True

        def __init__(self):
            self.Dict, self.Path, self.Sources, self.LibrariesUsed, self.LibraryClass = {}, Rec("nothing"), [], [], ""

        def SetEdk2Path(self, p):
            vc.check(p is paths, "the paths of the parser")
            return self

        def ParseFile(self, f):
            vc.check(f is name, "the file is parsed")
            self.Dict = {k: Rec(k) for k in ("FILE_GUID", "MODULE_TYPE") if has[k]}
            self.Path, self.Sources, self.LibrariesUsed, self.LibraryClass = Term(Rec("path")), SymList(n, lambda k: Rec("source", k)), libs, cls if has["class"] else ""

    def item(k):
        return Rec("posix", Rec("relative", Rec("text", Rec("resolved", Rec("joined", Rec("parent", name), Rec("source", k))))))

    vc.patch(T, "InfP", Parser)
    vc.patch(T, "Path", Term)
    vc.patch(T, "Inf", Row)
    vc.contract(TABLES + "inf_table:InfTable._parse_file#0", Indexed("sources", lambda vc, i, L: {"source_list": SymList(i, item)}, n))
    row, sources, libraries = t._parse_file(name, paths)
    vc.reach("done")
    path = Rec("text", Rec("path"))
    vc.check(row == Row(path=Rec("posix", Rec("relative", path)), guid=Rec("FILE_GUID") if has["FILE_GUID"] else "", library_class=cls if has["class"] else None, package_name=Rec("package", path),
                        module_type=Rec("MODULE_TYPE") if has["MODULE_TYPE"] else None), "the columns of the file")
    vc.check(same(sources, SymList(n, item)), "the sources of the file")
    vc.check(libraries is libs, "the libraries of the file")


# ---------------------------------------------------------------- packages

def fake_git(vc, T, repo):
    class NoRepo(Exception):
        pass

    class Git:
        vc_ghost = True
        InvalidGitRepositoryError = NoRepo

        @staticmethod
        def Repo(path, **k):
            vc.check(path == "/ws", "the repository of the workspace")
            if repo is None:
                raise NoRepo()
            return repo

    vc.patch(T, "git", Git)


def packages(vc):
    """A row for each DEC file, with the repository it is in."""
    if not vc.symbolic:
        return database(vc)
    import z3
    from pyvc.sym import mkbool, zint
    T = vc.module(TABLES + "package_table")
    n, m = vc.int("files", 0).z, vc.int("submodules", 0).z
    first = z3.Function("first", z3.IntSort(), z3.IntSort())
    R = Router(vc, "packages", n, [], ["rows"])
    now = {}
    pkgs, repos = Known(vc), Known(vc)

    class Dec:
        vc_ghost = True

        def __init__(self, i):
            self.i = i
            self.parent = Rec2(name=Rec("name", i), relative_to=lambda p: Rec2(as_posix=lambda: Rec("path", i)) if p == "/ws" else 1 / 0)

        def is_relative_to(self, p):
            vc.check(isinstance(p, Rec) and p.vals[0] == "dir", "the directory of a submodule")
            return vc.branch(self.inside(p.vals[1]))

        def inside(self, k):
            # (first: the submodule that contains the file, or m)
            f = first(zint(self.i))
            return z3.And(zint(k) >= f, z3.Or(zint(k) == f, other(zint(self.i), zint(k))))

        def __str__(self):
            raise Unsupported("the file as text")

    other = z3.Function("other", z3.IntSort(), z3.IntSort(), z3.BoolSort())

    def file(vc, i):
        f = first(zint(i))
        vc.add(z3.And(f >= 0, f <= m))
        d = Dec(i)
        now["file"] = d
        inside = vc.branch(f < m)
        from pyvc.sym import mkint
        key = (Rec("submodule", mkint(f)), Rec("dir in workspace", mkint(f))) if inside else ("LOCAL", None)
        there = vc.bool("repository there")
        new = Row(name=key[0], path=key[1])
        repos.turn(key, there, Row(old=i), new)
        key = (Rec("name", i), Rec("path", i))
        known = vc.bool("package there")
        row = Row(name=key[0], path=key[1], repository=Row(old=i) if there else new)
        pkgs.turn(key, known, Rec("old row"), row)
        R.step(i, [] if known else [("rows", row)])
        return d

    def submodule(vc, k):
        return Rec2(name=Rec("submodule", k), path=Rec("dir in workspace", k), abspath=Rec("dir", k))

    class Remotes:
        vc_ghost = True

        def __contains__(self, k):
            return k == "origin"

    r = Remotes()
    r.origin = Rec2(url="https://host/a/local.git")
    fake_git(vc, T, Rec2(remotes=r, submodules=SymList(m, lambda k: None)))
    rows = [Row(name=Rec("name"), path=Rec("path")) for _ in range(2)]
    session = Session(vc, {c: Rows(vc, x, (x.name, x.path), k) for c, x, k in zip([T.Package, T.Repository], rows, [pkgs, repos])})
    for name in ("Package", "Repository"):
        c = getattr(T, name)
        vc.patch(T, name, type(name, (), {"__new__": staticmethod(lambda cls, **kw: Row(**kw))}))
        session.tables[getattr(T, name)] = session.tables[c]
    vc.patch(T, "Path", lambda p: Space({"**/*.dec": SymList(n, lambda k: None)}) if p == "/ws" else 1 / 0)
    L = TABLES + "package_table:PackageTable.parse#"
    vc.contract(L + "0", Indexed("packages", lambda vc, i, L: {"packages_to_add": R.list("rows", i)}, n, elem=file))
    vc.contract(L + "1", Indexed("submodules", lambda vc, k, L: {"containing_repo": "LOCAL", "repo_path": None}, m, elem=submodule,
                                 inv=lambda vc, k: [mkbool(zint(k) <= first(zint(now["file"].i)))]))
    T.PackageTable().parse(session, Rec2(WorkspacePath="/ws"), "id", {})
    vc.reach("done")
    vc.check(len(session.added) == 1 and same(session.added[0], R.list("rows", n)), "the rows of all packages")


def repo_name(vc):
    """The name of a repository: the last part of the address of origin, else of the first remote, else BASE."""
    if not vc.symbolic:
        return database(vc)
    T = vc.module(TABLES + "package_table")
    kind = vc.choice("remotes", ["origin", "other", "none"])
    name, ext = word(vc, "name", "/"), vc.choice("ending", ["", ".git"])
    rest = vc.choice("host", ["https://host/", "git@host:", ""])
    name = scat(name, "x")
    url = scat(rest, word(vc, "dir", "/"), "/", name, ext)

    class Remotes:
        vc_ghost = True

        def __contains__(self, k):
            return kind == "origin" and k == "origin"

        def __len__(self):
            return {"origin": 2, "other": 1, "none": 0}[kind]

        def __getitem__(self, k):
            if kind == "none":
                raise IndexError(k)
            return Rec2(url="/wrong" if kind == "origin" or k != 0 else url)

    r = Remotes()
    r.origin = Rec2(url=url if kind == "origin" else "/none")
    got = T.PackageTable.get_repo_name(Rec2(remotes=r))
    vc.reach("done")
    vc.check(got == ("BASE" if kind == "none" else name.upper()), "the name of the repository")


# ---------------------------------------------------------------- environment and volumes

def environment(vc):
    """The row of a parse: its variables, and the commit of the workspace."""
    if not vc.symbolic:
        return database(vc)
    T = vc.module(TABLES + "environment_table")
    kind = vc.choice("repository", ["commit", "empty", "none"])

    class Head:
        vc_ghost = True

        @property
        def commit(self):
            if kind == "empty":
                raise ValueError("Reference at 'refs/heads/master' does not exist")
            return Rec2(hexsha=Rec("hash"))

    fake_git(vc, T, None if kind == "none" else Rec2(head=Head()))
    env = {k: word(vc, "value of " + k) for k in ["A", "B b", "c"][:vc.choice("variables", [0, 1, 3])]}
    vc.patch(T, "Environment", Row)
    vc.patch(T, "Value", Row)
    session = Session(vc, {})
    before = datetime.datetime.now()
    T.EnvironmentTable().parse(session, Rec2(WorkspacePath="/ws"), "the id", env)
    vc.reach("done")
    vc.check(len(session.added) == 1, "one row for each parse")
    row = session.added[0]
    vc.check(row.id == "the id" and before <= row.date <= datetime.datetime.now(), "the parse and its time")
    vc.check(row.version == (Rec("hash") if kind == "commit" else "UNKNOWN"), "the commit of the workspace")
    vc.check(len(row.values) == len(env) and all(x.key == k and x.value is v for x, (k, v) in zip(row.values, env.items())), "the variables of the parse")


def volumes(vc):
    """A row for each firmware volume, with the components that it names."""
    if not vc.symbolic:
        return database(vc)
    import z3
    from pyvc.sym import mkint, zint
    T = vc.module(TABLES + "instanced_fv_table")
    n, m = vc.int("volumes", 0).z, vc.int("files of a volume", 0).z
    cnt, idx = z3.Function("found", z3.IntSort(), z3.IntSort()), z3.Function("index", z3.IntSort(), z3.IntSort())
    vc.add(cnt(0) == 0)
    now, paths = {}, Roots()
    env = {"ACTIVE_PLATFORM": "a.dsc", "FLASH_DEFINITION": "a.fdf", "TARGET_ARCH": "X64 IA32", "TARGET": "DEBUG"}
    skip = vc.choice("without", ["", "", "ACTIVE_PLATFORM", "FLASH_DEFINITION"])
    env.pop(skip, None)

    def item(k):
        return Rec("posix", Rec("relative", Rec("absolute", Rec("named", k))))

    def nth(k):
        return item(mkint(idx(zint(k))))

    def found(j):
        return SymList(cnt(zint(j)), nth)

    class Options:
        vc_ghost = True

        def findall(self, x):
            return [(Rec("option"), x.vals[1])] if x.vals[0] == "line" else []

    class Components:
        vc_ghost = True
        filter = {"env": "the id", "cls": None}

        def __contains__(self, k):
            vc.check(k == item(now["j"]), "the file at hand")
            return now["known"]

        def get(self, k, d=None):
            return Rec("row", k)

        __getitem__ = get

    class Volumes:
        vc_ghost = True

        def __getitem__(self, fv):
            vc.check(isinstance(fv, Rec) and fv == Rec("fv", now["i"]), "the volume at hand")
            return {"Infs": SymList(m, lambda k: None)}

    class Parser:
        vc_ghost = True

        def __init__(self):
            self.calls = []
            self.FVs = None

        def SetEdk2Path(self, p):
            self.calls.append(p is paths)
            return self

        def SetInputVars(self, e):
            self.calls.append(e is env)
            return self

        def ParseFile(self, f):
            vc.check(f == "a.fdf" and self.calls == [True, True], "the FDF file is parsed with the paths and variables given")
            self.FVs = Volumes()

    class Added(Session):
        count = 0

        def add(self, x):
            got = dict(x.__dict__)
            infs = got.pop("infs")
            vc.check(Row(**got) == Row(env="the id", name=Rec("fv", now["i"]), fdf="a.fdf"), "the columns of the volume")
            if not isinstance(infs, SymList):
                raise Unsupported("another list of components")
            vc.check(infs.vc_len() == mkint(cnt(m)) and not infs.tail, "the number of components of the volume")
            k = vc.fresh("k")
            if vc.branch(z3.And(k >= 0, k < cnt(m))):
                vc.check(infs.at(mkint(k)) == Rec("row", nth(k)), "the components of the volume")
            self.count = self.count + 1

    def volume(vc, i):
        now["i"] = i
        return Rec("fv", i)

    def inf(vc, j):
        return Rec("line", Rec("named", j)) if vc.bool("options") else Rec("named", j)

    def listed(vc, j):
        now.update({"j": j, "known": vc.bool("known")})
        z = zint(j)
        vc.add(cnt(z) >= 0)
        vc.add(z3.And(cnt(z + 1) == cnt(z) + 1, idx(cnt(z)) == z) if now["known"] else cnt(z + 1) == cnt(z))
        return item(j)

    sample = Row(path=Rec("path"))
    session = Added(vc, {T.InstancedInf: Rows(vc, sample, sample.path, Components())})
    vc.patch(T, "FdfP", Parser)
    vc.patch(T, "Path", lambda p: "/ws" if p == "/ws" else Term(p))
    vc.patch(T, "Fv", Row)
    vc.patch(T, "logging", Quiet())
    vc.patch(T.InstancedFvTable, "INFOPTS", Options())
    paths.WorkspacePath = "/ws"
    L = TABLES + "instanced_fv_table:InstancedFvTable.parse#"
    vc.contract(L + "0", Indexed("volumes", lambda vc, i, L: {}, n, elem=volume, heap=lambda vc, i, L: [(session, "count", i)]))
    vc.contract(L + "1", Indexed("files", lambda vc, j, L: {"inf_list": SymList(zint(j), item)}, m, elem=inf))
    vc.contract(L + "2", Indexed("components", lambda vc, j, L: {"filtered": found(j)}, m, elem=listed))
    T.InstancedFvTable().parse(session, paths, "the id", env)
    if skip:
        vc.reach("nothing")
        vc.check(session.count == 0, "nothing without a platform and an FDF file")
        return
    vc.reach("done")
    vc.check(session.count == mkint(n), "one row for each volume")


# ---------------------------------------------------------------- tables of a database

def parsing(vc):
    """Each table is parsed in its own transaction: committed, or rolled back and the failure raised."""
    if not vc.symbolic:
        return database(vc)
    from pyvc.sym import zint
    E = vc.module("edk2toollib.database.edk2_db")
    n, bad = vc.int("tables", 0).z, vc.int("failing table").z
    fails = vc.choice("fails", ["", "parse", "commit"])
    if fails:
        vc.add(bad >= 0)
        vc.add(bad < n)
    state = Row(count=0, open=None)
    paths, env, ids, engine = Rec("paths"), Rec("env"), [], Rec("engine")

    class Failed(Exception):
        pass

    class S:
        vc_ghost = True

        def __init__(self, e, *a):
            vc.check(e is engine and state.open is None, "one session at a time")
            self.did = []
            state.open = self

        def commit(self):
            self.did.append("commit")
            if fails == "commit" and vc.branch(zint(state.count) == bad):
                raise Failed()

        def rollback(self):
            self.did.append("rollback")

        def close(self):
            vc.check(state.open is self, "a session is closed once")
            state.open = None
            if self.did == ["parse", "commit"]:
                state.count = state.count + 1
            state.last = self.did

    class Table:
        vc_ghost = True

        def __init__(self, i):
            self.i = i

        def parse(self, session, p, id, e):
            vc.check(session is state.open and p is paths and e is env, "the session, paths and variables of a table")
            vc.check(self.i == state.count, "the tables in their order")
            if not ids:
                ids.append(id)
            vc.check(id == ids[0] and isinstance(id, str) and id, "one identifier for all tables")
            session.did.append("parse")
            if fails == "parse" and vc.branch(zint(self.i) == bad):
                raise Failed()

    class Base:
        metadata = Rec2(create_all=lambda e: None)

    vc.patch(E, "create_engine", lambda url, **k: engine if url == "sqlite:///x.db" else 1 / 0)
    vc.patch(E, "Session", S)
    vc.patch(E, "logging", Quiet())
    vc.patch(E.Edk2DB, "Base", Base)
    db = E.Edk2DB("x.db", paths)
    if getattr(db, "_parsers", None) != []:
        raise Unsupported("where the tables are")
    a, b, c = Table(0), Table(1), Table(2)
    db.register(a)
    db.register(b, c)
    vc.check(db._parsers == [a, b, c], "tables are registered in order")
    db.clear_parsers()
    vc.check(db._parsers == [], "no tables are left")
    db._parsers = SymList(n, Table)
    from pyvc.sym import mkbool
    vc.contract("edk2toollib.database.edk2_db:Edk2DB.parse#0", Indexed("tables", lambda vc, i, L: {}, n, elem=lambda vc, i: Table(i), heap=lambda vc, i, L: [(state, "count", i)],
                                                                      inv=lambda vc, i: [mkbool(zint(i) <= bad)] if fails else []))
    try:
        db.parse(env)
        err = False
    except Failed:
        err = True
    vc.check(err == bool(fails), "the failure of a table is raised, nothing else")
    vc.check(state.open is None, "all sessions are closed")
    if fails:
        vc.reach("failed")
        vc.check(state.last in (["parse", "rollback"], ["parse", "commit", "rollback"]) and state.last[1] == ("commit" if fails == "commit" else "rollback"), "a table that fails is rolled back")
    else:
        vc.reach("done")
        from pyvc.sym import mkint
        vc.check(state.count == mkint(n), "all tables are committed")


# ---------------------------------------------------------------- whole workspaces

DIRS = ["Pkg", "Pkg/Lib", "Common/OtherPkg", "Common/OtherPkg/L", "Sub/SubPkg", "SubX/APkg", "Build/BPkg", "Buildings", "Pkg/Build", "None"]
DECS = ["Pkg/Pkg.dec", "Common/OtherPkg/OtherPkg.dec", "Sub/SubPkg/SubPkg.dec", "Sub/SubPkg/More.dec", "SubX/APkg/APkg.dec", "Pkg/Lib/Lib.dec", "Build/BPkg/BPkg.dec", "Common/Pkg/Pkg.dec"]
LINES = ["int a;\n", "\n", "// SPDX-License-Identifier: MIT\n", "# SPDX-License-Identifier:BSD-2-Clause-Patent\n", "; SPDX-License-Identifier:   A OR B\n", "/* SPDX-License-Identifier */\n", "/* x */\n",
         "// SPDX-License-Identifier:\n", "\u00e4\n", "  if (a) {\n", "last"]
ENDS = [".c", ".h", ".cpp", ".asm", ".s", ".nasm", ".masm", ".rs", ".txt", ".C1"]


def g_files(r):
    src = {}
    for _ in range(r.randint(0, 6)):
        src[r.choice(DIRS) + "/" + r.choice("abc") + r.choice(ENDS[:3] * 3 + ENDS)] = "".join(r.choice(LINES[:-1]) for _ in range(r.randint(0, 6))) + ("last" if r.random() < 0.3 else "")
    infs = {}
    for _ in range(r.randint(0, 4)):
        m = {"guid": "%08x" % r.getrandbits(32) if r.random() < 0.85 else None, "type": r.choice(["PEIM", "DXE_DRIVER", None]), "class": r.choice([None, None, "BaseLib", "HobLib|PEIM SEC"]), "sources": [], "libs": []}
        for s in ["", ".X64", ".IA32"]:
            m["sources"].append([s, [r.choice(["a.c", "b.h", "../up.c", "sub/x.asm", "./a.c", "c.cpp"]) for _ in range(r.randint(0, 2))]])
            m["libs"].append([s, [r.choice(["BaseLib", "DebugLib", "HobLib"]) for _ in range(r.randint(0, 2))]])
        infs[r.choice(DIRS) + "/" + r.choice("MN") + ".inf"] = m
    return {"src": src, "infs": infs, "decs": r.sample(DECS, r.randint(0, 4)), "fvs": [r.randint(1, 4) for _ in range(r.choice([0, 1, 2]))], "listed": r.getrandbits(20),
            "env": {k: r.choice(["", "x", "b c"]) for k in r.sample(["A", "b", "C d"], r.randint(0, 3))}, "stats": r.random() < 0.1}


def g_db(r):
    return {"git": r.choice(["none", "empty", "commit", "commit", "commit"]), "remotes": r.choice([[], [["origin", 0]], [["up", 1]], [["aa", 2], ["origin", 0]], [["origin", 3]]]),
            "subs": r.sample(["Sub", "SubX", "Common", "Pkg/Lib"], r.randint(0, 3)), "order": r.random() < 0.5, "fails": r.random() < 0.15, "files": [g_files(r) for _ in range(r.choice([1, 2, 2]))]}


URLS = ["https://host/x/mu_plus.git", "git@host:x/edk2", "/local/a.github", "https://host/y/a.git.b.git"]


def write_files(g, r, top):
    def put(path, text, **k):
        path = os.path.join(top, path)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        # (source files are in any encoding)
        with open(path, "w", encoding="latin-1" if len(text) % 2 else "utf-8", **k) as f:
            f.write(text)

    for p, t in g["src"].items():
        put(p, t, newline="\r\n" if r.random() < 0.2 else "\n")
    for p, m in g["infs"].items():
        out = ["[Defines]", "BASE_NAME = x"] + ["%s = %s" % (k, m[v]) for k, v in (("FILE_GUID", "guid"), ("MODULE_TYPE", "type"), ("LIBRARY_CLASS", "class")) if m[v] is not None]
        for title, what in (("Sources", "sources"), ("LibraryClasses", "libs")):
            for s, xs in m[what]:
                out += ["[" + title + s + "]"] + xs
        put(p, "".join(layout(r, x) + "\n" for x in out))
    for p in g["decs"]:
        put(p, "")
    # (a directory is no source file)
    os.makedirs(os.path.join(top, "Pkg/dir.c"), exist_ok=True)


def git(top, *a, **k):
    env = {"PATH": os.environ.get("PATH", "/bin:/usr/bin"), "HOME": top + ".home", "GIT_CONFIG_NOSYSTEM": "1", "GIT_AUTHOR_NAME": "a", "GIT_AUTHOR_EMAIL": "a@b", "GIT_COMMITTER_NAME": "a", "GIT_COMMITTER_EMAIL": "a@b"}
    return subprocess.run(["git", "-C", top, *a], check=True, capture_output=True, text=True, env=env, **k).stdout.strip()


def make_git(g, top):
    """The repository of the workspace; the name that its packages have, and its commit."""
    if g["git"] == "none":
        return None, "UNKNOWN"
    git(top, "init", "-q")
    for name, k in g["remotes"]:
        git(top, "remote", "add", name, URLS[k])
    first = next((k for n, k in g["remotes"] if n == "origin"), g["remotes"][0][1] if g["remotes"] else None)
    name = "BASE" if first is None else ["MU_PLUS", "EDK2", "A.GITHUB", "A.GIT.B"][first]
    if g["git"] == "empty":
        return name, "UNKNOWN"
    if g["subs"]:
        with open(os.path.join(top, ".gitmodules"), "w") as f:
            f.write("".join('[submodule "n-%s"]\n\tpath = %s\n\turl = https://host/%d\n' % (s, s, k) for k, s in enumerate(g["subs"])))
        git(top, "add", ".gitmodules")
        git(top, "update-index", "--index-info", input="".join("160000 %s\t%s\n" % ("1" * 40, s) for s in g["subs"]))
    git(top, "commit", "-q", "--allow-empty", "-m", "x")
    return name, git(top, "rev-parse", "HEAD")


def db_run(vc, g, seed, top):
    import random
    DB, T, E = [vc.module("edk2toollib." + x) for x in ("database", "database.tables", "uefi.edk2.path_utilities")]
    r = random.Random(seed)
    os.makedirs(os.path.join(top, "Common"))
    path = E.Edk2Path(top, ["Common"])
    db = DB.Edk2DB(":memory:", pathobj=path)
    src, decs, infs, all_rows = {}, {}, {}, {}
    repo, version = make_git(g, top)
    out = []

    def rel(p):
        p = os.path.normpath(p)
        return p[7:] if p.startswith("Common/") else p

    class Instances:
        """The instances of the components of a platform."""

        def parse(self, session, pathobj, id, env):
            self.id = id
            for k, p in enumerate(self.paths):
                session.add(DB.InstancedInf(env=id, path=p, arch="X64", name="x", dsc="a.dsc", component=p, cls=None if k % 3 else "L"))
                if k % 3 and k % 2:
                    session.add(DB.InstancedInf(env=id, path=p, arch="X64", name="x", dsc="a.dsc", component="other", cls="L"))

    class Fails:
        def parse(self, session, pathobj, id, env):
            session.add(DB.Library(name="uncommitted"))
            session.flush()
            raise ZeroDivisionError("this table fails")

    try:
        for step, f in enumerate(g["files"]):
            write_files(f, r, top)
            src.update(f["src"])
            decs.update(dict.fromkeys(f["decs"]))
            infs.update(f["infs"])
            known = [p for p in sorted(infs) if f["listed"] >> (hash_of(p) % 20) & 1]
            inst = Instances()
            inst.paths = [rel(p) for p in known]
            fv = {}
            for k, n in enumerate(f["fvs"]):
                if infs:
                    fv["FV%d" % k] = [r.choice(sorted(infs)) for _ in range(n)]
            with open(os.path.join(top, "a.fdf"), "w") as h:
                for name, xs in fv.items():
                    h.write("[FV.%s]\n" % name + "".join("INF " + r.choice(["", "", "RuleOverride = X ", "RuleOverride=X ", "USE = IA32 ", 'VERSION = "1.0" UI = "a b" ']) + spell(r, x) + "\n" for x in xs))
            tables = [T.InfTable(n_jobs=1), T.SourceTable(n_jobs=1, source_stats=f["stats"])]
            db.clear_parsers()
            db.register(T.EnvironmentTable(), T.PackageTable())
            db.register(*(tables if g["order"] else tables[::-1]), inst, T.InstancedFvTable())
            env = dict(f["env"], ACTIVE_PLATFORM="a.dsc", FLASH_DEFINITION="a.fdf", TARGET_ARCH="X64", TARGET="DEBUG")
            with warnings.catch_warnings():
                warnings.simplefilter("error")
                db.parse(env)
            # what is there now
            for p, t in src.items():
                if not p.startswith("Build/") and p[p.rindex("."):] in ENDS[:8]:
                    lines = t.splitlines()
                    lic = [x.split(":", 1)[1].lstrip() for x in lines if "SPDX-License-Identifier:" in x]
                    stat = (len(lines), 0, 0)
                    if f["stats"]:
                        import pygount
                        a = pygount.SourceAnalysis.from_file(os.path.join(top, p), "_", fallback_encoding="utf-8")
                        stat = (a.code_count, a.documentation_count, a.empty_count)
                    all_rows[rel(p)] = ((lic[-1] if lic else "") or "Unknown", len(lines)) + stat
            for p, m in infs.items():
                if m["guid"] is not None and not p.startswith("Build/") and ("inf", rel(p)) not in all_rows:
                    used = {rel(os.path.dirname(p) + "/" + x) for _, xs in m["sources"] for x in xs}
                    all_rows["inf", rel(p)] = (m["guid"], (m["class"] or "").split("|")[0] or None, path.GetContainingPackage(os.path.join(top, p)), m["type"], used, {x for _, xs in m["libs"] for x in xs})
                    for x in used:
                        all_rows.setdefault(x, (None,) * 5)
            with db.session() as s:
                got = {x.path: (x.license, x.total_lines, x.code_lines, x.comment_lines, x.blank_lines) for x in s.query(DB.Source).all()}
                out.append(("the source files", got, {k: v for k, v in all_rows.items() if isinstance(k, str)}))
                got = {x.path: (x.guid, x.library_class, x.package_name, x.module_type, {y.path for y in x.sources}, {y.name for y in x.libraries}) for x in s.query(DB.Inf).all()}
                out.append(("the INF files", got, {k[1]: v for k, v in all_rows.items() if isinstance(k, tuple)}))
                got = sorted((x.name, x.path, x.repository.name, x.repository.path) for x in s.query(DB.Package).all())
                want = set()
                for d in decs if repo else []:
                    d = os.path.dirname(d)
                    sub = [x for x in g["subs"] if g["git"] == "commit" and d.startswith(x + "/") or d == x and g["git"] == "commit"]
                    want.add((os.path.basename(d), d) + (("n-" + sub[0], sub[0]) if sub else (repo, None)))
                out.append(("the packages", got, sorted(want)))
                rows = s.query(DB.Environment).filter_by(id=inst.id).all()
                out.append(("the environment", [(x.version, {v.key: v.value for v in x.values}) for x in rows], [(version, env)]))
                out.append(("one environment for each parse", s.query(DB.Environment).count(), step + 1))
                ids = {x.id: x.path for x in s.query(DB.InstancedInf).filter_by(env=inst.id, cls=None).all()}
                got = {x.name: (x.fdf, sorted(ids.get(y.id, "other") for y in x.infs)) for x in s.query(DB.Fv).filter_by(env=inst.id).all()}
                built = {p for k, p in enumerate(inst.paths) if k % 3}
                out.append(("the volumes", got, {k: ("a.fdf", sorted({rel(x) for x in xs} & built)) for k, xs in fv.items()}))
        if g["fails"]:
            db.clear_parsers()
            db.register(T.EnvironmentTable(), Fails(), T.EnvironmentTable())
            with db.session() as s:
                n = s.query(DB.Environment).count()
            try:
                db.parse({})
                out.append(("the failure of a table is raised", False, True))
            except ZeroDivisionError:
                pass
            with db.session() as s:
                out.append(("a table that fails leaves no rows", s.query(DB.Library).filter_by(name="uncommitted").count(), 0))
                out.append(("tables before it keep theirs", s.query(DB.Environment).count(), n + 1))
    finally:
        db.engine.dispose()
    return out


def hash_of(p):
    return sum(map(ord, p))


def spell(r, p):
    return p[7:] if p.startswith("Common/") and r.random() < 0.5 else p


def database(vc):
    """A whole workspace with its repositories, read into a database; then again after it changed."""
    g, seed = vc.data("workspace", lambda r: (g_db(r), r.getrandbits(30)))
    top = os.path.realpath(tempfile.mkdtemp(prefix="pyvc26"))
    level = logging.getLogger().manager.disable
    logging.disable(logging.CRITICAL)
    try:
        for what, got, want in db_run(vc, g, seed, os.path.join(top, "ws")):
            vc.check(got == want, what)
    finally:
        logging.disable(level)
        shutil.rmtree(top)


def probe_update():
    from edk2toollib.database import Edk2DB, Inf
    from edk2toollib.database.tables import InfTable
    from edk2toollib.uefi.edk2.path_utilities import Edk2Path
    top = os.path.realpath(tempfile.mkdtemp(prefix="pyvc26"))
    db = Edk2DB(":memory:", pathobj=Edk2Path(top, []))
    try:
        db.register(InfTable(n_jobs=1))
        for guid in ("old", "new"):
            with open(os.path.join(top, "a.inf"), "w") as f:
                f.write("[Defines]\nBASE_NAME = a\nMODULE_TYPE = BASE\nFILE_GUID = %s\n" % guid)
            db.parse({})
        with db.session() as s:
            return s.query(Inf).one().guid != "new"
    finally:
        db.engine.dispose()
        shutil.rmtree(top)


HARNESSES = [
    H("source_rows", source_rows, "the rows of source files", must_reach=["done"], runs=1),
    H("source_file", source_file, "one source file", must_reach=["done"], runs=1),
    H("inf_rows", inf_rows, "the rows of INF files", must_reach=["done"], runs=1),
    H("inf_file", inf_file, "one INF file", must_reach=["done"], runs=1),
    H("packages", packages, "the rows of packages", must_reach=["done"], runs=1),
    H("repo_name", repo_name, "the name of a repository", must_reach=["done"], runs=1),
    H("environment", environment, "the row of a parse", must_reach=["done"], runs=1),
    H("volumes", volumes, "the rows of firmware volumes", must_reach=["done", "nothing"], runs=1),
    H("parsing", parsing, "the transactions of tables", must_reach=["done", "failed"], runs=1),
    H("database", database, "the tables of a workspace", symbolic=False, why_bounded="whole workspaces read through git and SQLAlchemy: random search", runs=200, run_seconds=60),
]
