import inspect
import io
import logging
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import threading

from contracts.base import H
from contracts.c22_fdf import word
from contracts.routes import BLANK, Rec
from pyvc.core import Unsupported
from pyvc.lists import Indexed
from pyvc.util import AND, NOT, OR, scat

ID = "C25"
LEVEL = "proof"
TRUSTED = ["subprocess.Popen starts the command line in a shell and gives its exit code once it has ended", "threading.Thread.join returns when run() has ended",
           "a command whose output is closed, or is no pipe, does not block on it; readline gives every line, and an empty one at the end"]
ASSUMPTIONS = ["the command ends if its output is read or closed, and so do all that inherited its output", "POSIX shell and paths"]
EXPLANATION = ("The loop that reads the output is proved with an invariant that counts the lines in each sink, for any number of lines, a failure at any point included: the pipe is at its end or closed "
               "on every exit. RunCmd is proved to wait for a command only while that contract holds for its pipe. Real commands, with large, binary and broken output, cross-check.")
MOD = "edk2toollib.utility_functions"


class Broken(Exception):
    pass


class Stopped(BaseException):
    pass


class Log:
    """Logging, by what is logged."""
    vc_ghost = True
    INFO = logging.INFO

    def __init__(self):
        self.count = 0

    def log(self, level, text, *a):
        pass

    def debug(self, *a):
        pass

    error = warning = info = debug


# ---------------------------------------------------------------- reading the output

def reading(vc):
    """The output of a command gets into all sinks; whatever fails, the pipe is closed."""
    if not vc.symbolic:
        return commands(vc)
    import z3
    from pyvc.sym import mkbool, mkint, zint
    U = vc.module(MOD)
    n, bad = vc.int("lines", 0).z, vc.int("failing line", 0).z
    fails = vc.choice("fails", ["", "open", "read", "decode", "file", "sink"])
    to_file, to_sink = vc.bool("outfile"), vc.bool("outstream")
    enc = vc.choice("encoding", [None, "utf-8", "cp437"])
    policy = vc.choice("errors", ["strict", "replace"])
    level = vc.choice("level", [logging.INFO, logging.DEBUG])
    if fails in ("read", "decode"):
        vc.add(bad <= n if fails == "read" else bad < n)
    if fails in ("file", "sink"):
        vc.add(bad < n)
        vc.assume(to_file if fails == "file" else to_sink)
    if fails == "open":
        vc.assume(to_file)

    def fail(what, k):
        if fails == what and vc.branch(zint(k) == bad):
            raise Broken(what)

    class Text:
        """Line k, decoded."""
        vc_ghost = True

        def __init__(self, k):
            self.k = k

        def __bool__(self):
            return vc.branch(zint(self.k) < n)

        def __len__(self):
            raise Unsupported("the length of a line")

        def __eq__(self, o):
            if isinstance(o, str) and o == "":
                return not bool(self)
            raise Unsupported("what a line is")

        __hash__ = None

        def rstrip(self, *a):
            return Rec("stripped", self.k)

        strip = rstrip

    class Line:
        """Line k, as bytes."""
        vc_ghost = True

        def __init__(self, k):
            self.k = k

        def __bool__(self):
            return vc.branch(zint(self.k) < n)

        def __eq__(self, o):
            if isinstance(o, bytes) and o == b"":
                return not bool(self)
            raise Unsupported("what a line is")

        __hash__ = None

        def decode(self, encoding="utf-8", errors="strict"):
            vc.check(encoding == (enc or "utf-8") and errors == policy, "decoded as the console is, by the given policy")
            fail("decode", self.k)
            return Text(self.k)

    class Stream:
        vc_ghost = True

        def __init__(self):
            self.line, self.shut = 0, False

        def readline(self):
            vc.check(not self.shut, "reading the open pipe")
            k = self.line
            fail("read", k)
            self.line = k + 1
            return Line(k)

        def close(self):
            self.shut = True

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

    class Sink:
        vc_ghost = True

        def __init__(self, what):
            self.what, self.line, self.shut = what, 0, False

        def write(self, t):
            vc.check(isinstance(t, Text) and AND(t.k == self.line, not self.shut), "the lines in order")
            fail(self.what, t.k)
            self.line = self.line + 1

        def flush(self):
            pass

        def close(self):
            self.shut = True

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

    class Logged(Log):
        def log(self, at, t, *a):
            vc.check(isinstance(t, Rec) and AND(t.vals[0] == "stripped", t.vals[1] == self.count, at == level), "the lines in order, in the log")
            self.count = self.count + 1

    stream, sink, log = Stream(), Sink("sink"), Logged()
    file, opened = Sink("file"), []

    def fake_open(path, mode="r", *a, **k):
        vc.check(path == "out.txt" and mode in ("w", "wt") and not opened, "the file of the output")
        if fails == "open":
            raise Broken("open")
        opened.append(file)
        return file

    vc.patch(U, "open", fake_open)
    vc.patch(U, "logging", log)
    vc.patch(U, "sys", Rec())
    U.sys.stdout = Rec()
    U.sys.stdout.encoding = enc
    heap = [(stream, 0), (log, 0)] + ([(file, 0)] if to_file else []) + ([(sink, 0)] if to_sink else [])
    vc.contract(MOD + ":reader#0", Indexed(
        "lines", lambda vc, i, L: {}, n, heap=lambda vc, i, L: [(o, "count" if o is log else "line", i) for o, _ in heap],
        elem=lambda vc, i: stream.readline(), inv=lambda vc, i: [mkbool(zint(i) <= bad)] if fails in ("read", "decode", "file", "sink") else []))
    try:
        U.reader("out.txt" if to_file else None, sink if to_sink else None, stream, level, policy)
        err = None
    except Broken as e:
        err = str(e)
    vc.check(err == (fails or None), "a failure is raised, nothing else")
    vc.check(stream.shut, "the pipe is closed")
    vc.check(all(f.shut for f in opened), "the file is closed")
    vc.check(len(opened) == (1 if to_file and fails != "open" else 0), "the file is written if there is one")
    if not fails:
        vc.reach("read")
        vc.check(AND(log.count == mkint(n), OR(not to_file, file.line == mkint(n)), OR(not to_sink, sink.line == mkint(n))), "every line is in every sink")
    else:
        vc.reach("failed")


def thread(vc):
    """An exception of a thread is raised when it is joined, else its result returned."""
    if not vc.symbolic:
        return commands(vc)
    U = vc.module(MOD)
    fails = vc.choice("raises", [None, Broken, OSError, KeyboardInterrupt, SystemExit])
    state, result = [], Rec("result")
    x, y = Rec("x"), Rec("y")

    def target(a, b=None):
        vc.check(a is x and b is y, "the arguments")
        state.append("ran")
        if fails is not None:
            raise fails("failed")
        return result

    class Stop(BaseException):
        pass

    def join(self, timeout=None):
        # (the end of the thread)
        if not state:
            t.run()

    vc.patch(threading.Thread, "join", join)
    t = U.PropagatingThread(target=target, args=(x,), kwargs={"b": y})
    try:
        got = t.join()
        err = None
    except BaseException as e:  # noqa: BLE001
        if type(e) is not fails:
            raise
        got, err = None, type(e)
    vc.reach("done")
    vc.check(state == ["ran"], "the target runs once")
    vc.check(err is fails and (fails is not None or got is result), "its exception is raised, or its result returned")


# ---------------------------------------------------------------- running a command

def run_cmd(vc):
    """A command line; its end; the end of its output; its exit code."""
    if not vc.symbolic:
        return commands(vc)
    U = vc.module(MOD)
    head = word(vc, "program", " \"'")
    blank = vc.bool("blank")
    name = scat(head, " ", word(vc, "rest", "\"'")) if blank else head
    mark = vc.choice("quoted", ["", '"', "'"])
    args = None if vc.bool("no parameters") else word(vc, "parameters")
    capture, strict = vc.bool("capture"), vc.bool("raise")
    code = vc.int("exit code", -255, 1 << 32)
    broken = capture and vc.bool("reader fails")
    given = {"workingdir": Rec("dir"), "outfile": Rec("file"), "outstream": Rec("sink"), "environ": {} if vc.bool("empty environment") else Rec("environment"), "logging_level": 7,
             "encodingErrors": "replace", "close_fds": vc.bool("close")}
    pipe, states = Rec("pipe"), []

    class Thread:
        vc_ghost = True

        def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
            vc.check(target is U.reader, "the thread reads the output")
            try:
                d = inspect.signature(target).bind(*args, **(kwargs or {})).arguments
            except TypeError:
                raise Unsupported("arguments of the reader")
            want = {"filepath": given["outfile"], "outstream": given["outstream"], "stream": pipe, "logging_level": 7, "encodingErrors": "replace"}
            vc.check(AND(set(d) == set(want), *[d.get(k) is v or d.get(k) == v for k, v in want.items()]), "the reader gets the pipe and all sinks")

        def start(self):
            vc.check("started" not in states, "started once")
            states.append("started")

        def join(self, timeout=None):
            vc.check("started" in states and timeout is None, "joining a thread that was started")
            states.append("joined")
            if broken:
                raise Broken("reader")

    class Process:
        vc_ghost = True

        def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None, close_fds=True, shell=False, cwd=None, env=None, **k):
            q = scat('"', name, '"')
            tail = [""] if args_ is None else [scat(" ", args_)]
            vc.check(OR(args == scat(q, *tail), AND(not blank, args == scat(name, *tail))), "the command line")
            vc.check(shell is True and cwd is given["workingdir"] and env is given["environ"] and close_fds == given["close_fds"] and not k, "where and how it runs")
            vc.check(stderr == subprocess.STDOUT, "errors go where the output goes")
            vc.check((stdout == subprocess.PIPE) if capture else stdout in (None, subprocess.DEVNULL), "a pipe if the output is captured, else none")
            self.stdout = pipe if stdout == subprocess.PIPE else None
            self.returncode = None

        def wait(self, timeout=None):
            vc.check(timeout is None and (self.stdout is None or "started" in states), "no waiting for a command whose pipe nobody reads")
            self.returncode = code
            return code

        def poll(self):
            raise Unsupported("poll")

        communicate = poll

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.wait()

    args_ = args
    fake = Rec()
    fake.PIPE, fake.STDOUT, fake.DEVNULL, fake.Popen = subprocess.PIPE, subprocess.STDOUT, subprocess.DEVNULL, Process
    vc.patch(U, "subprocess", fake)
    vc.patch(U, "PropagatingThread", Thread)
    vc.patch(U, "logging", Log())
    pad = vc.choice("blanks", ["", " ", "\t "])
    try:
        got = U.RunCmd(scat(mark, name, mark), None if args is None else scat(pad, args, pad), capture=capture, raise_exception_on_nonzero=strict, **given)
        err = None
    except Broken as e:
        got, err = None, str(e)
    except Exception as e:  # noqa: BLE001
        if type(e) is not Exception:
            raise
        got, err = None, "nonzero"
    vc.reach("done")
    vc.check("joined" in states or not capture, "all output was read")
    if broken:
        vc.check(err == "reader", "the reader's failure is raised")
    elif err is None:
        vc.check(AND(got == code, OR(not strict, code == 0)), "the exit code")
    else:
        vc.check(AND(err == "nonzero", strict, NOT(code == 0)), "an exception for a failing command, if asked for")


def script(vc):
    """A Python script is found by its path, in the current directory, or else on PATH."""
    if not vc.symbolic:
        return commands(vc)
    import z3
    from pyvc.lists import SymList
    from pyvc.sym import mkint
    U = vc.module(MOD)
    blank = vc.bool("blank")
    mark = vc.choice("quoted", ["", '"'])
    name = scat(word(vc, "script", " \"'/"), *([" ", word(vc, "rest", "\"'/")] if blank else []))
    where = vc.choice("where", ["absolute", "here", "path"])
    here = scat("/here/", word(vc, "directory", " \"'"), *([" dir"] if vc.bool("blank in the directory") else []))
    n = vc.int("directories", 0).z
    now = {}
    path = scat("/top/", name) if where == "absolute" else name
    vc.contract(MOD + ":RunPythonScript#0", Indexed("directories", lambda vc, i, L: {"pythonfile": now.setdefault("start", L["pythonfile"])}, n, elem=lambda vc, i: now["dir"]))
    found = {}

    class PathStub:
        vc_ghost = True
        sep = "/"

        def isabs(self, p):
            return bool(p.startswith("/"))

        def join(self, a, b):
            return scat(a, "/", b)

        def normpath(self, d):
            return d

        def isfile(self, p):
            if bool(p == scat(here, "/", name)):
                return where == "here"
            if bool(p == scat(now["dir"], "/", name)):
                return now.setdefault("there", vc.bool("there"))
            raise Unsupported("whether another file exists")

        exists = isfile

    class Dirs:
        vc_ghost = True

        def split(self, sep):
            vc.check(sep == ":", "the directories of PATH")
            return SymList(mkint(n), lambda k: now["dir"])

    class Os:
        vc_ghost = True
        path, pathsep, sep = PathStub(), ":", "/"

        def getcwd(self):
            return here

        def getenv(self, k, d=None):
            vc.check(k == "PATH", "PATH")
            return Dirs()

    now["dir"] = scat("/path/", word(vc, "entry", " \"'"), *([" bin"] if vc.bool("blank in the entry") else []))
    calls = []
    params = word(vc, "parameters")
    given = {"capture": Rec("capture"), "workingdir": Rec("dir"), "outfile": Rec("file"), "outstream": Rec("sink"), "environ": Rec("environment"), "logging_level": 7,
             "raise_exception_on_nonzero": Rec("raise")}

    def run(cmd, parameters, **k):
        calls.append((cmd, parameters, k))
        return code

    code = Rec("code")
    vc.patch(U, "os", Os())
    vc.patch(U, "RunCmd", run)
    vc.patch(U, "logging", Log())
    got = U.RunPythonScript(scat(mark, path, mark), params, **given)
    vc.reach("done")
    vc.check(got is code and len(calls) == 1, "the exit code of the run")
    cmd, line, k = calls[0]
    vc.check(cmd == sys.executable and set(k) <= set(given) | {"close_fds", "encodingErrors"} and all(k.get(x) is v or k.get(x) == v for x, v in given.items()), "how the interpreter runs")
    p = path if where == "absolute" else scat(here, "/", name) if where == "here" else scat(now["dir"], "/", name) if now.get("there") else name
    plain = AND(NOT(blank), line == scat(p, " ", params)) if not (p is not path and " " in (here if where == "here" else now["dir"])) else False
    vc.check(OR(plain, line == scat('"', p, '" ', params)), "the script and its parameters")


# ---------------------------------------------------------------- real commands

PIECES = [b"line\n", b"\n", b"  x \n", b"\r\n", b"%s %d\n", "\u00e4\u20ac\n".encode(), b"\xff\n", b"a\xc3", b"\x00\n", b"\t", b"y" * 5000 + b"\n", b"z" * 200000, b"end"]


def g_command(r):
    out = []
    for _ in range(r.choice([0, 1, 3, 6])):
        k = r.choices(range(len(PIECES)), [1 if i in (6, 7, 11) else 3 for i in range(len(PIECES))])[0]
        out.append([k, 1 if k == 11 else r.choice([1, 1, 2, 70 if k == 10 else 300])])
    return {"out": out, "code": r.choice([0, 0, 1, 3, 255, -9]), "capture": r.random() < 0.8, "policy": r.choice(["strict", "replace", "ignore", "strict"]),
            "file": r.choice([None, "out", "out", "no/out"]), "sink": r.choice([None, "all", "all", "broken", "stopped"]), "raise": r.random() < 0.4, "quoted": r.choice(["", '"', "'"]),
            "dir": r.choice(["bin", "my bin"]), "own": r.choice([None, None, "own", "empty"]), "last": r.random() < 0.3}


class Sink(io.StringIO):
    def __init__(self, left, error):
        super().__init__()
        self.left, self.error = left, error

    def write(self, t):
        if self.left is not None:
            self.left -= 1
            if self.left < 0:
                raise self.error("sink")
        return super().write(t)


class Records(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.seen = []

    def emit(self, r):
        self.seen.append((r.levelno, r.getMessage()))


class Guarded:
    """Runs commands in sessions of their own, which end when the time is up."""

    def __enter__(self):
        self.real, self.late, self.procs = subprocess.Popen, False, []
        me = self

        class Popen(self.real):
            def __init__(self, *a, **k):
                k["start_new_session"] = True
                super().__init__(*a, **k)
                me.procs.append(self)

        subprocess.Popen = Popen
        self.timer = threading.Timer(20, self.stop)
        self.timer.start()
        return self

    def stop(self):
        self.late = True
        for p in self.procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass

    def __exit__(self, *a):
        self.timer.cancel()
        subprocess.Popen = self.real


def run_real(vc, U, g, top):
    """One command."""
    data = b"".join(PIECES[k] * n for k, n in g["out"])
    os.makedirs(os.path.join(top, g["dir"]))
    with open(os.path.join(top, "data"), "wb") as f:
        f.write(data)
    tool = os.path.join(top, g["dir"], "tool")
    with open(tool, "w") as f:
        f.write('#!/bin/sh\n[ "$#" = 2 ] && [ "$1" = a ] && [ "$2" = "b  c" ] || exit 99\n[ "${MARK-}" = "%s" ] && [ -%s "${SEEN-}" ] || exit 98\ncat data %s\nexit %d\n' % ("own" if g["own"] == "own" else "", "n" if g["own"] is None else "z", "1>&2" if g["last"] else "", max(g["code"], 0)))
    os.chmod(tool, 0o755)
    lines, err = [], None
    for x in io.BytesIO(data):
        try:
            lines.append(x.decode(sys.stdout.encoding or "utf-8", g["policy"]))
        except UnicodeDecodeError:
            err = UnicodeDecodeError
            break
    left = len(lines) // 2 if g["sink"] in ("broken", "stopped") else None
    if left is not None and left < len([x for x in lines if x]):
        err = Broken if g["sink"] == "broken" else Stopped
    if g["file"] == "no/out":
        err = OSError
    sink = None if g["sink"] is None else Sink(left, Broken if g["sink"] == "broken" else Stopped)
    out = None if g["file"] is None else os.path.join(top, g["file"])
    log, root = Records(), logging.getLogger()
    old = (root.level, root.manager.disable, root.handlers[:])
    root.handlers[:] = [log]
    root.setLevel(1)
    logging.disable(0)
    env = {None: None, "own": {"MARK": "own", "PATH": os.environ.get("PATH", "/bin:/usr/bin")}, "empty": {}}[g["own"]]
    os.environ["SEEN"] = "seen"
    got = exc = None
    with Guarded() as guard:
        try:
            got = U.RunCmd(g["quoted"] + tool + g["quoted"], " a 'b  c' " if g["code"] >= 0 else "a 'b  c'; kill %d $$ " % g["code"], capture=g["capture"], workingdir=top, outfile=out, outstream=sink, environ=env, logging_level=17,
                           raise_exception_on_nonzero=g["raise"], encodingErrors=g["policy"])
        except BaseException as e:  # noqa: BLE001
            if not isinstance(e, (Exception, Stopped)):
                raise
            exc = e
        finally:
            del os.environ["SEEN"]
            root.handlers[:] = old[2]
            root.setLevel(old[0])
            logging.disable(old[1])
    vc.check(not guard.late, "the command ends")
    vc.check(all(p.returncode is not None for p in guard.procs), "the command has ended when RunCmd has")
    if g["capture"] and err is not None:
        vc.check(isinstance(exc, err), "a failure while the output is read is raised")
        return
    vc.check((exc is not None) == (g["raise"] and g["code"] != 0) and (exc is not None or got == g["code"]), "the exit code")
    text = "".join(lines) if g["capture"] else ""
    if sink is not None:
        vc.check(sink.getvalue() == text, "the whole output is in the stream")
    if out is not None and g["capture"]:
        with open(out, newline="") as f:
            vc.check(f.read() == text, "the whole output is in the file")
    if g["capture"]:
        want = [(17, x.rstrip()) for x in lines if x]
        vc.check(any(log.seen[k:k + len(want)] == want for k in range(len(log.seen) - len(want) + 1)), "the whole output is in the log")


def g_script(r):
    return {"dirs": [r.choice(["here", "p q/here", "x y"])] + ["%s%d" % (r.choice(["bin", "my bin", "a/b c"]), k) for k in range(r.choice([0, 1, 3, 3]))], "name": r.choice(["s.py", "my s.py"]),
            "where": sorted(r.sample(range(r.choice([0, 1, 1]), 4), r.randint(0, 3))), "absolute": r.random() < 0.25, "quoted": r.choice(["", '"']), "params": r.choice(["", "x", " x  'y  z' "]), "away": r.random() < 0.5}


def script_real(vc, U, g, top):
    """One script: the first of its name in the current directory and those of PATH."""
    import ast
    dirs = [os.path.join(top, d) for d in g["dirs"]]
    have = [d for k, d in enumerate(dirs) if k in g["where"]]
    for d in dirs:
        os.makedirs(d)
        if d in have:
            with open(os.path.join(d, g["name"]), "w") as f:
                f.write("import sys, os\nprint([os.path.realpath(sys.argv[0]), os.getcwd()] + sys.argv[1:])\nsys.exit(7)\n")
    away = os.path.join(top, "away dir")
    os.makedirs(away)
    sink, cwd, path = io.StringIO(), os.getcwd(), os.environ.get("PATH")
    with Guarded() as guard:
        try:
            os.chdir(dirs[0])
            os.environ["PATH"] = os.pathsep.join(dirs[1:] + (path or "/bin:/usr/bin").split(os.pathsep))
            what = os.path.join(have[-1], g["name"]) if g["absolute"] and have else g["name"]
            got = U.RunPythonScript(g["quoted"] + what + g["quoted"], g["params"], outstream=sink, workingdir=away if g["away"] else None)
        finally:
            os.chdir(cwd)
            if path is None:
                del os.environ["PATH"]
            else:
                os.environ["PATH"] = path
    vc.check(not guard.late, "the script ends")
    if not have:
        vc.check(got not in (0, 7), "a script that is not there fails")
        return
    want = have[-1] if g["absolute"] else have[0]
    vc.check(got == 7, "the exit code of the script")
    said = ast.literal_eval(sink.getvalue())
    vc.check(said == [os.path.join(want, g["name"]), away if g["away"] else dirs[0]] + {"": [], "x": ["x"]}.get(g["params"], ["x", "y  z"]), "the script, its directory and its parameters")


def commands(vc):
    """A real command, or a real script."""
    U = vc.module(MOD)
    kind, g = vc.data("command", lambda r: ["command", g_command(r)] if r.random() < 0.6 else ["script", g_script(r)])
    top = os.path.realpath(tempfile.mkdtemp(prefix="pyvc25"))
    level = logging.getLogger().manager.disable
    logging.disable(logging.CRITICAL)
    try:
        (run_real if kind == "command" else script_real)(vc, U, g, top)
    finally:
        logging.disable(level)
        shutil.rmtree(top, ignore_errors=True)


HARNESSES = [
    H("reading", reading, "the loop that reads a command's output", must_reach=["read", "failed"], runs=1),
    H("thread", thread, "the thread that reads", must_reach=["done"], runs=1),
    H("run_cmd", run_cmd, "running a command", must_reach=["done"], runs=1),
    H("script", script, "finding a Python script", must_reach=["done"], runs=1),
    H("commands", commands, "real commands", symbolic=False, why_bounded="real processes: random search", runs=150, run_seconds=60, hang=60),
]
