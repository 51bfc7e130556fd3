"""Path explorer, obligations and solver interface.

A *harness* is a Python function ``h(vc)``: it states preconditions with ``vc.assume`` / the ranges of
its symbolic inputs, runs the real functions and states postconditions with ``vc.check``.  The same
harness runs in three modes:

* symbolic (class ``VC``): inputs are z3 terms, every path of the real code is executed, every
  ``check`` on every path is a proof obligation decided by the solver for all inputs of that path;
* replay (class ``CVC`` with a model): inputs are the solver's counter-model, the code is the
  unmodified module imported from /repo;
* bounded search (class ``CVC`` with a random source): the labelled bounded stand-in / cross check.
"""
import subprocess
import tempfile
import time
import os

import z3


class EngineExc(BaseException):
    """Base of everything the engine itself raises (never caught by code under verification)."""


class PathEnd(EngineExc):
    """This path is finished (assumption false, loop cut reached, ...)."""


class Unsupported(EngineExc):
    """A construct outside the modelled subset was reached."""


class PathLimit(EngineExc):
    """Too many paths or too much unrolling."""


CURRENT = None  # the active symbolic VC


def cur():
    if CURRENT is None:
        raise RuntimeError("symbolic value used outside a symbolic run")
    return CURRENT


def is_z(x):
    return isinstance(x, z3.ExprRef)


def simp(x):
    """Simplify to a Python int/bool when constant."""
    if not is_z(x):
        return x
    s = z3.simplify(x)
    if z3.is_int_value(s):
        return s.as_long()
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return s


class Obl:
    __slots__ = ("name", "discharged", "refuted", "unknown", "paths", "trivial")

    def __init__(self, name):
        self.name = name
        self.discharged = 0
        self.refuted = 0
        self.unknown = 0
        self.trivial = 0
        self.paths = 0


class VC:
    """Symbolic mode."""

    symbolic = True

    def __init__(self, loader, timeout_ms=8000, max_paths=4000, max_unroll=64, deadline=None):
        self.loader = loader
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.max_unroll = max_unroll
        self.deadline = deadline
        self.obls = {}
        self.counterexamples = []   # (obligation, inputs dict)
        self.solver_time = 0.0
        self.queries = 0
        self.backends = {}
        self.cvc5_used = 0
        self.assumptions = set()
        self.notes = set()
        self.bounds = set()
        self.paths = 0
        self.pruned = 0
        self.covered = set()
        self.functions = set()
        self.loops_cut = set()
        self.reached = set()

    # ---------------------------------------------------------------- exploration
    def run(self, fn):
        """Explore all paths of harness fn.  Returns None, or a reason string when incomplete."""
        global CURRENT
        trace = []
        incomplete = None
        while True:
            self._begin(trace)
            CURRENT = self
            try:
                fn(self)
            except PathEnd:
                pass
            except Unsupported as e:
                incomplete = "unsupported: %s" % (e,)
            except PathLimit as e:
                incomplete = "limit: %s" % (e,)
            finally:
                CURRENT = None
            self.paths += 1
            if incomplete:
                return incomplete
            while trace and not trace[-1][1]:
                trace.pop()
            if not trace:
                return None
            trace[-1] = (not trace[-1][0], False)
            if self.paths >= self.max_paths:
                return "limit: more than %d paths" % self.max_paths
            if self.deadline and time.time() > self.deadline:
                return "limit: time"

    def _begin(self, trace):
        self.trace = trace
        self.pos = 0
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout_ms)
        self.pc = []
        self.fresh_n = 0
        self.inputs = []            # (name, kind, payload)
        self.defs = {}
        self.hash_table = []
        self.decode_table = []
        self.sum_ghosts = []
        self.join_ghosts = []
        self.text_ghosts = []
        self.pads = 0
        self.loader.begin_path(self)
        self._entcache = {}
        self._bytefacts = set()
        self._keep = []
        self.loop_stack = []
        self.depth = 0

    def _check(self, *extra):
        t = time.time()
        self.queries += 1
        r = self.solver.check(*extra)
        self.solver_time += time.time() - t
        return r

    def add(self, cond):
        if cond is True:
            return
        if cond is False:
            cond = z3.BoolVal(False)
        self.pc.append(cond)
        self.solver.add(cond)

    def fact(self, cond):
        """A fact true of the modelled domain (e.g. bytes are 0..255)."""
        self.add(cond)

    def fresh(self, base, sort=None):
        self.fresh_n += 1
        n = "%s!%d" % (base, self.fresh_n)
        if sort is None:
            return z3.Int(n)
        return z3.Const(n, sort)

    def fresh_fun(self, base):
        self.fresh_n += 1
        return z3.Function("%s!%d" % (base, self.fresh_n), z3.IntSort(), z3.IntSort())

    def branch(self, cond):
        cond = simp(cond)
        if cond is True or cond is False:
            return cond
        if self.pos < len(self.trace):
            d = self.trace[self.pos][0]
            self.pos += 1
            self.add(cond if d else z3.Not(cond))
            return d
        if self.deadline and time.time() > self.deadline:
            raise PathLimit("time")
        t = self._check(cond) != z3.unsat
        if not t:
            f = True
        else:
            f = self._check(z3.Not(cond)) != z3.unsat
        if t and f:
            self.trace.append((True, True))
            d = True
        elif t:
            self.trace.append((True, False))
            d = True
        else:
            self.trace.append((False, False))
            d = False
        self.pos += 1
        if len(self.trace) > 3000:
            raise PathLimit("path longer than 3000 decisions")
        self.add(cond if d else z3.Not(cond))
        return d

    def entails(self, cond):
        cond = simp(cond)
        if cond is True or cond is False:
            return cond
        key = (cond.get_id(), len(self.pc))
        if key in self._entcache:
            return self._entcache[key]
        r = self._check(z3.Not(cond)) == z3.unsat
        self._entcache[key] = r
        self._keep.append(cond)
        return r

    def feasible(self):
        return self._check() != z3.unsat

    def concretize(self, z):
        """The unique value of z under the path condition, or None."""
        z = simp(z)
        if not is_z(z):
            return z
        if self._check() != z3.sat:
            return None
        v = self.solver.model().eval(z, model_completion=True)
        if self.entails(z == v):
            return simp(v)
        return None

    # ---------------------------------------------------------------- obligations
    def obl(self, name):
        if name not in self.obls:
            self.obls[name] = Obl(name)
        return self.obls[name]

    def assume(self, cond):
        from . import sym
        cond = sym.truth(cond)
        cond = simp(cond)
        if cond is True:
            return
        if cond is False:
            raise PathEnd()
        self.add(cond)
        if self._check() == z3.unsat:
            raise PathEnd()

    def check(self, cond, name):
        from . import sym
        o = self.obl(name)
        cond = simp(sym.truth(cond))
        o.paths += 1
        if cond is True:
            o.discharged += 1
            o.trivial += 1
            return
        neg = z3.BoolVal(True) if cond is False else z3.Not(cond)
        r = self._check(neg)
        be = "z3"
        if r == z3.unknown:
            r2 = self._cvc5(neg)
            be = "cvc5"
            if r2 == "unsat":
                r = z3.unsat
        if r == z3.unsat:
            o.discharged += 1
            self.backends[be] = self.backends.get(be, 0) + 1
            if is_z(cond):
                self.add(cond)
            elif cond is False:
                raise PathEnd()
            return
        if r == z3.unknown:
            o.unknown += 1
            self.notes.add("%s: solver unknown (%s)" % (name, self.solver.reason_unknown()))
            self.add(cond)
            return
        o.refuted += 1
        if len([c for c in self.counterexamples if c[0] == name]) < 6:
            for m in self._models(neg):
                self.counterexamples.append((name, m))
        raise PathEnd()

    def reach(self, name):
        """Vacuity guard: the named point must be reached on some feasible path."""
        if name not in self.reached and self._check() != z3.unsat:
            self.reached.add(name)

    def _models(self, neg):
        """Up to three counter-models, small ones preferred."""
        out = []
        self.solver.push()
        self.solver.add(neg)
        lens = [p[1] for n, k, p in self.inputs if k in ("bytes", "str", "seq") and is_z(p[1])]
        lens += [p.n for n, k, p in self.inputs if k == "text" and is_z(p.n)]
        lens += [p.n for n, k, p in self.inputs if k == "chars"]
        lens += [p[2] for n, k, p in self.inputs if k == "chunks"] + [p[1](p[2]) for n, k, p in self.inputs if k == "chunks"]
        for cap in (24, 200, 5000, None):
            self.solver.push()
            if cap is not None:
                for ln in lens:
                    self.solver.add(ln <= cap)
            if self._check() == z3.sat:
                m = self.solver.model()
                out.append(self._extract(m))
                self.solver.pop()
                break
            self.solver.pop()
        self.solver.pop()
        return out

    def _extract(self, m):
        d = {}
        for name, kind, p in self.inputs:
            if kind == "int":
                d[name] = simp(m.eval(p, model_completion=True))
            elif kind == "bool":
                d[name] = bool(simp(m.eval(p, model_completion=True)))
            elif kind == "text":
                from . import text
                d[name] = text.sample(self, m, p, d)
            elif kind == "chars":
                n = min(int(simp(m.eval(p.n, model_completion=True))), 200)
                cs = [int(simp(m.eval(p.code(z3.IntVal(k)), model_completion=True))) for k in range(n)]
                d[name] = "".join(p.specials[c] if 0 <= c < len(p.specials) else " "[:k % 3 == 1] or "x" for k, c in enumerate(cs))
            elif kind == "chunks":
                f, off, nz = p
                n = min(int(simp(m.eval(nz, model_completion=True))), 64)
                items, pos = [], 0
                for k in range(n):
                    a = int(simp(m.eval(off(z3.IntVal(k)), model_completion=True)))
                    b = int(simp(m.eval(off(z3.IntVal(k + 1)), model_completion=True)))
                    items.append(bytes(int(simp(m.eval(f(z3.IntVal(j)), model_completion=True))) % 256 for j in range(a, min(max(a, b), a + 4096))))
                d[name] = items
            elif kind in ("bytes", "str"):
                f, ln = p
                n = ln if isinstance(ln, int) else simp(m.eval(ln, model_completion=True))
                n = min(int(n), 1 << 20)
                vals = []
                base = None
                for i in range(n):
                    if i > 6000:
                        vals.append(0)
                        continue
                    v = simp(m.eval(f(z3.IntVal(i)), model_completion=True))
                    vals.append(int(v))
                if kind == "bytes":
                    d[name] = bytes(v % 256 for v in vals)
                else:
                    d[name] = "".join(chr(v % 0x110000) for v in vals)
        return d

    def _cvc5(self, neg):
        self.solver.push()
        self.solver.add(neg)
        txt = self.solver.to_smt2()
        self.solver.pop()
        self.cvc5_used += 1
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write("(set-logic ALL)\n" + txt)
        t = time.time()
        try:
            r = subprocess.run(["cvc5", "--tlimit=%d" % self.timeout_ms, f.name], capture_output=True, text=True,
                               timeout=self.timeout_ms / 1000 + 5)
            return r.stdout.strip().split("\n")[0]
        except Exception:
            return "unknown"
        finally:
            self.solver_time += time.time() - t
            os.unlink(f.name)

    # ---------------------------------------------------------------- inputs
    def int(self, name, lo=None, hi=None, gen=None):
        from . import sym
        z = z3.Int(name)
        self.inputs.append((name, "int", z))
        if lo is not None:
            self.add(z >= lo)
        if hi is not None:
            self.add(z <= hi)
        return sym.SymInt(z)

    def bool(self, name):
        from . import sym
        z = z3.Bool(name)
        self.inputs.append((name, "bool", z))
        return sym.SymBool(z)

    def choice(self, name, options):
        options = list(options)
        z = z3.Int(name)
        self.inputs.append((name, "int", z))
        self.add(z3.And(z >= 0, z < len(options)))
        for i in range(len(options) - 1):
            if self.branch(z == i):
                return options[i]
        return options[-1]

    def bytes(self, name, length=None, min_len=0, max_len=None, gen=None):
        from . import sym
        f = z3.Function(name, z3.IntSort(), z3.IntSort())
        if length is None:
            ln = z3.Int(name + ".len")
            self.add(ln >= min_len)
            if max_len is not None:
                self.add(ln <= max_len)
        elif isinstance(length, sym.SymInt):
            ln = length.z
        else:
            ln = length
        self.inputs.append((name, "bytes", (f, ln)))
        return sym.mkbytes([("a", f, 0, ln)])

    def text(self, name, chars, lo=0, hi=None, gen=None, neg=False):
        """An unknown text over the characters `chars` (or all others)."""
        from . import text
        a = text.Atom(name, text.CS(chars, neg), lo, hi)
        self.inputs.append((name, "text", a))
        return text.SymStr([a.part()])

    def chars(self, name, specials, gen=None):
        """A text of any length whose characters matter one by one: the special ones, and all others alike."""
        from .chars import CharText, Chars
        c = Chars(self, name, specials)
        self.inputs.append((name, "chars", c))
        return CharText(c, 0, c.n)

    def chunks(self, name, min_item=0, max_total=None, max_n=None, gen=None):
        from .lists import Chunks
        c = Chunks(self, name, min_item, max_total, max_n)
        self.join_ghosts.append(c)
        return c

    def contract(self, key, c):
        """Register a loop contract for this path."""
        self.loader.contracts[key] = c
        self.loader.contracted.add(key)

    def patch(self, obj, name, new):
        """Use a contract in place of a callee (symbolic mode only)."""
        self.loader.patch(obj, name, new)

    def uuid(self, name):
        from . import sym
        return sym.SymUUID(sym.segs(self.bytes(name, 16)))

    def module(self, name):
        return self.loader.module(name)

    def prefix_sum(self, P, facts=lambda i: None):
        """P(k) is a prefix sum that sum() over a symbolic list may be shown equal to."""
        self.sum_ghosts.append((P, facts))

    def note(self, text):
        self.notes.add(text)

    def bound(self, text):
        self.bounds.add(text)

    def covers(self, *names):
        self.covered.update(names)
