"""Mechanical extraction: reads the current sources of /repo, rewrites them (see the list below) and
executes them as private modules whose builtins and library imports are the models of models.py.

What the rewriting does (nothing else is changed, nothing is dropped):
 * attribute calls ``o.m(...)``      -> __vc__.callm(o, 'm', ...)           (same call on non-native receivers)
 * ``a % b``, ``a is b``, ``a in b``, ``o[k]``, ``o[k] = v`` and f-strings -> the hook of the same meaning
 * ``[f(x) for x in it]`` and ``(f(x) for x in it)`` (no condition) -> the hook that maps f over it
 * every loop gets a head hook, where a loop contract may cut it
 * a bare ``except:`` / ``except BaseException`` first re-raises the engine's own exceptions
 * function entry is recorded (for the evidence)
 * parameter and variable annotations are dropped
"""
import ast
import builtins
import importlib
import inspect
import os
import sys
import types

from . import models, text
from .core import PathEnd, PathLimit, Unsupported, cur
from .chars import Chars
from .lists import SymList

ROOT = "edk2toollib"
_MISSING = object()


class Rewrite(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.classes = []
        self.counters = []
        self.locals = []
        self.tmp = 0

    # helpers
    def hook(self, name, args, node):
        f = ast.Attribute(value=ast.Name(id="__vc__", ctx=ast.Load()), attr=name, ctx=ast.Load())
        return ast.copy_location(ast.Call(func=f, args=args, keywords=[]), node)

    def qual(self):
        return ".".join(self.stack)

    # scopes
    def _func(self, node):
        self.stack.append(node.name)
        self.counters.append(0)
        args = node.args.args + node.args.posonlyargs + node.args.kwonlyargs
        self.locals.append({a.arg for a in args} | set(self._names(node.body)))
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        for a in node.args.args + node.args.posonlyargs + node.args.kwonlyargs:
            a.annotation = None
        for a in (node.args.vararg, node.args.kwarg):
            if a is not None:
                a.annotation = None
        node.returns = None
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None for d in node.args.kw_defaults]
        body = []
        for s in node.body:
            r = self.visit(s)
            body += r if isinstance(r, list) else [r]
        ent = ast.Expr(self.hook("enter", [ast.Constant(self.mod + ":" + self.qual())], node))
        doc = []
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            doc, body = body[:1], body[1:]
        node.body = doc + [ent] + body
        self.stack.pop()
        self.counters.pop()
        self.locals.pop()
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.classes.append(node.name)
        self.generic_visit(node)
        self.classes.pop()
        self.stack.pop()
        return node

    def _mangled(self, n):
        """The name of an attribute as the compiler has it within this class."""
        c = self.classes[-1].lstrip("_") if self.classes else ""
        return "_" + c + n if c and n.startswith("__") and not n.endswith("__") else n

    def visit_Lambda(self, node):
        node.body = self.visit(node.body)
        return node

    def visit_AnnAssign(self, node):
        # keep class-level annotations (dataclasses), drop nothing but visit only target and value
        if node.value is not None:
            node.value = self.visit(node.value)
            if self.stack and not self._in_class():
                n = ast.Assign(targets=[node.target], value=node.value)
                return self.visit_Assign(ast.copy_location(n, node), visited=True)
        return node

    def _in_class(self):
        return len(self.counters) == 0

    # expressions
    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Attribute):
            o = self.visit(f.value)
            args = [self.visit(a) for a in node.args]
            kws = [ast.keyword(arg=k.arg, value=self.visit(k.value)) for k in node.keywords]
            h = self.hook("callm", [o, ast.Constant(self._mangled(f.attr))] + args, node)
            h.keywords = kws
            return h
        return self.generic_visit(node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self.hook("mod", [node.left, node.right], node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            m = {ast.Is: "is_", ast.IsNot: "is_not", ast.In: "contains", ast.NotIn: "not_contains"}.get(type(node.ops[0]))
            if m:
                return self.hook(m, [node.left, node.comparators[0]], node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            k = self._slice(node.slice)
            return self.hook("getitem", [node.value, k], node)
        return node

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            return ast.copy_location(ast.Call(func=ast.Name(id="slice", ctx=ast.Load()),
                                              args=[x if x is not None else ast.Constant(None) for x in (s.lower, s.upper, s.step)],
                                              keywords=[]), s)
        return s

    def _comp(self, node, hook):
        self.generic_visit(node)
        g = node.generators[0]
        if (len(node.generators) == 1 and not g.ifs and not g.is_async and isinstance(g.target, ast.Name) and self.counters
                and not any(isinstance(n, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for n in ast.walk(node))):
            f = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=g.target.id)], kwonlyargs=[], kw_defaults=[], defaults=[]), body=node.elt)
            return self.hook(hook, [f, g.iter], node)
        return node

    def visit_ListComp(self, node):
        return self._comp(node, "listcomp")

    def visit_GeneratorExp(self, node):
        return self._comp(node, "genexp")

    def visit_DictComp(self, node):
        self.generic_visit(node)
        g = node.generators[0]
        if (len(node.generators) == 1 and not g.ifs and not g.is_async and isinstance(g.target, ast.Name) and self.counters
                and not any(isinstance(n, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for n in ast.walk(node))):
            fs = [ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=g.target.id)], kwonlyargs=[], kw_defaults=[], defaults=[]), body=b) for b in (node.key, node.value)]
            return self.hook("dictcomp", fs + [g.iter], node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                conv = {-1: "", 115: "s", 114: "r", 97: "a"}[v.conversion]
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(conv), spec], ctx=ast.Load()))
        return self.hook("fstr", parts, node)

    # statements
    def visit_Assign(self, node, visited=False):
        if not visited:
            self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            return ast.copy_location(ast.Expr(self.hook("setitem", [t.value, self._slice(t.slice), node.value], node)), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        t = node.target
        if isinstance(t, ast.Subscript):
            self.tmp += 1
            a, b = "__ao%d" % self.tmp, "__ak%d" % self.tmp
            load = lambda n: ast.Name(id=n, ctx=ast.Load())  # noqa: E731
            s1 = ast.Assign(targets=[ast.Name(id=a, ctx=ast.Store())], value=t.value)
            s2 = ast.Assign(targets=[ast.Name(id=b, ctx=ast.Store())], value=self._slice(t.slice))
            val = ast.BinOp(left=self.hook("getitem", [load(a), load(b)], node), op=node.op, right=node.value)
            s3 = ast.Expr(self.hook("setitem", [load(a), load(b), val], node))
            return [ast.copy_location(s, node) for s in (s1, s2, s3)]
        if isinstance(node.op, ast.Mod) and isinstance(t, ast.Name):
            v = self.hook("mod", [ast.Name(id=t.id, ctx=ast.Load()), node.value], node)
            return ast.copy_location(ast.Assign(targets=[ast.Name(id=t.id, ctx=ast.Store())], value=v), node)
        if isinstance(node.op, ast.Add) and isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
            load = ast.Attribute(value=ast.Name(id=t.value.id, ctx=ast.Load()), attr=t.attr, ctx=ast.Load())
            v = self.hook("iadd", [load, node.value], node)
            return ast.copy_location(ast.Assign(targets=[t], value=v), node)
        return node

    def visit_Try(self, node):
        self.generic_visit(node)
        for h in node.handlers:
            if h.type is None or (isinstance(h.type, ast.Name) and h.type.id == "BaseException"):
                g = ast.ExceptHandler(type=ast.Attribute(value=ast.Name(id="__vc__", ctx=ast.Load()), attr="EngineExc", ctx=ast.Load()),
                                      name=None, body=[ast.Raise()])
                node.handlers.insert(0, g)
                break
        return node

    # loops
    def _names(self, body):
        out = []

        class V(ast.NodeVisitor):
            def visit_Name(s, n):
                if isinstance(n.ctx, ast.Store) and n.id not in out:
                    out.append(n.id)

            def visit_FunctionDef(s, n):
                if n.name not in out:
                    out.append(n.name)

            def visit_Lambda(s, n):
                pass

            def visit_ListComp(s, n):
                pass

            visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp

        for b in body:
            V().visit(b)
        return [n for n in out if not n.startswith("__")]

    def _key(self):
        k = 0
        if self.counters:
            k = self.counters[-1]
            self.counters[-1] += 1
        return "%s:%s#%d" % (self.mod, self.qual(), k)

    def _loc(self):
        return ast.Call(func=ast.Name(id="locals", ctx=ast.Load()), args=[], keywords=[])

    def _loaded(self, body, names):
        """Locals whose object the loop body may mutate in place (receivers of method calls, containers of items set)."""
        out = []
        loc = self.locals[-1] if self.locals else set()
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    n = n.func.value
                elif not (isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load)):
                    continue
                while isinstance(n, ast.Subscript):
                    n = n.value
                if isinstance(n, ast.Name) and n.id in loc and n.id not in names and n.id not in out:
                    out.append(n.id)
        return out

    def _loop(self, node, names, key, is_for, loaded=()):
        self.tmp += 1
        lp = "__lp%d" % self.tmp
        it = "__it%d" % self.tmp
        L = lambda n=lp: ast.Name(id=n, ctx=ast.Load())  # noqa: E731

        def meth(n, args, base=lp):
            return ast.Call(func=ast.Attribute(value=L(base), attr=n, ctx=ast.Load()), args=args, keywords=[])

        out = [ast.Assign(targets=[ast.Name(id=lp, ctx=ast.Store())], value=self.hook("loop", [ast.Constant(key)], node))]
        if is_for:
            out.append(ast.Assign(targets=[ast.Name(id=it, ctx=ast.Store())], value=meth("iter", [node.iter])))
        cut = [ast.Expr(meth("enter", [self._loc(), ast.Constant(tuple(names)), ast.Constant(tuple(loaded))]))]
        for n in list(names) + list(loaded):
            cut.append(ast.Assign(targets=[ast.Name(id=n, ctx=ast.Store())], value=meth("get", [ast.Constant(n)])))
        out.append(ast.If(test=ast.Attribute(value=L(), attr="cut", ctx=ast.Load()), body=cut, orelse=[]))
        if is_for:
            test = ast.BoolOp(op=ast.And(), values=[meth("head", [self._loc()]), meth("more", [], it)])
            body = [ast.Assign(targets=[node.target], value=meth("next", [], it))] + node.body
        else:
            test = ast.BoolOp(op=ast.And(), values=[meth("head", [self._loc()]), node.test])
            body = node.body
        out.append(ast.While(test=test, body=body, orelse=node.orelse))
        for s in out:
            ast.copy_location(s, node)
        return out

    def visit_While(self, node):
        key = self._key()
        names = self._names(node.body)
        w = [n.target.id for n in ast.walk(node.test) if isinstance(n, ast.NamedExpr)]
        names = names + [x for x in w if x not in names]
        loaded = self._loaded(node.body, names)
        self.generic_visit(node)
        return self._loop(node, names, key, False, loaded)

    def visit_For(self, node):
        key = self._key()
        names = self._names([ast.Assign(targets=[node.target], value=ast.Constant(0))] + node.body)
        loaded = self._loaded(node.body, names)
        self.generic_visit(node)
        return self._loop(node, names, key, True, loaded)


class Poison:
    """Value of a local changed by a cut loop that the contract does not speak about."""

    def _no(self, *a, **k):
        raise Unsupported("use of a loop-modified local outside the loop contract")

    def __getattribute__(self, n):
        if n in ("__class__", "_no", "__dict__"):
            return object.__getattribute__(self, n)
        raise Unsupported("use of a loop-modified local outside the loop contract (.%s)" % n)

    __bool__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __add__ = __radd__ = __sub__ = __rsub__ = __getitem__ = _no
    __iter__ = __len__ = __index__ = __call__ = __or__ = __and__ = __xor__ = __mul__ = __rmul__ = __iadd__ = __str__ = __format__ = _no
    __hash__ = None


POISON = Poison()


class Locals(dict):
    """The locals as a contract sees them: one the function does not have (any more) is outside the contract's reach."""

    def __missing__(self, k):
        raise Unsupported("a loop contract names %s, which the function does not have" % (k,))


class PlainIter:
    def __init__(self, it):
        self.it = iter(it)

    def more(self):
        try:
            self.v = next(self.it)
            return True
        except StopIteration:
            return False

    def next(self):
        return self.v


class Loop:
    cut = False

    def __init__(self, key):
        self.key = key
        self.n = 0
        self.sym = 0
        self.last = None

    def iter(self, it):
        return PlainIter(it)

    def head(self, loc):
        vc = cur()
        self.n += 1
        if self.last is not None and vc.pos > self.last:
            self.sym += 1
            if self.sym > vc.max_unroll:
                raise PathLimit("unrolling limit at loop %s" % self.key)
        self.last = vc.pos
        if self.n > 20000:
            raise PathLimit("iteration limit at loop %s" % self.key)
        return True


class CutLoop:
    """Loop rule: invariant on entry, havoc, one arbitrary iteration, invariant (and variant) at the back edge."""

    cut = True

    def __init__(self, key, contract):
        self.key = key
        self.c = contract
        self.heads = 0
        self.vals = {}
        self.it = None
        self.src = None

    def iter(self, it):
        self.src = it
        self.it = CutIter(self)
        return self.it

    def enter(self, loc, names, loaded):
        vc = cur()
        loc = Locals((k, v) for k, v in loc.items() if not k.startswith("__"))
        vc.loops_cut.add(self.key)
        self.g = self.c.entry(vc, loc, self)
        upd = self.c.havoc(vc, loc, self.g, self) or {}
        self.vals = {}
        for n in names:
            self.vals[n] = upd.pop(n) if n in upd else POISON
        for n in loaded:
            self.vals[n] = upd.pop(n) if n in upd else loc.get(n, POISON)
        if upd:
            raise Unsupported("loop contract of %s names locals the loop does not assign: %s" % (self.key, sorted(upd)))
        vc.reach("loop " + self.key)

    def get(self, n):
        return self.vals[n]

    def head(self, loc):
        vc = cur()
        self.heads += 1
        if self.heads == 1:
            self.snap = _snapshot(loc, self.c.modifies(vc, loc, self.g))
            return True
        loc = Locals((k, v) for k, v in loc.items() if not k.startswith("__"))
        _frame(self.snap, self.key)
        self.c.back(vc, loc, self.g, self)
        raise PathEnd()


class CutIter:
    def __init__(self, loop):
        self.loop = loop

    def more(self):
        return self.loop.c.more(cur(), self.loop.g, self.loop)

    def next(self):
        return self.loop.c.next(cur(), self.loop.g, self.loop)


def _snapshot(loc, modifies):
    """Shallow copies of every object reachable from the locals, except those the contract may modify."""
    from . import sym
    mod = {id(o) for o in modifies if not isinstance(o, tuple)}
    attrs = {(id(o[0]), o[1]) for o in modifies if isinstance(o, tuple)}
    seen = {}
    free_attrs = {}
    todo = [v for k, v in loc.items()]
    n = 0
    while todo:
        o = todo.pop()
        if id(o) in seen or isinstance(o, text.SymStr):
            continue
        if isinstance(o, (list, dict, set)):
            seen[id(o)] = (o, list(o.items()) if isinstance(o, dict) else list(o), id(o) in mod)
            todo += list(o.values()) if isinstance(o, dict) else list(o)
        elif isinstance(o, (sym.SymByteArray, sym.SymSeq, SymList)):
            seen[id(o)] = (o, dict(o.__dict__, **({"tail": list(o.tail)} if isinstance(o, (sym.SymSeq, SymList)) else {})), id(o) in mod)
        elif isinstance(o, tuple):
            seen[id(o)] = (o, None, True)
            todo += list(o)
        elif hasattr(o, "__dict__") and not getattr(type(o), "vc_ghost", False) and not isinstance(o, (type, types.ModuleType, types.FunctionType, Loop, CutLoop, CutIter, Poison, Chars)):
            d = dict(o.__dict__)
            seen[id(o)] = (o, {k: v for k, v in d.items() if (id(o), k) not in attrs}, id(o) in mod)
            skip = [k for k in d if (id(o), k) in attrs]
            if skip:
                free_attrs[id(o)] = skip
            todo += list(d.values())
    return seen, free_attrs


def _frame(snap, key):
    snap, free_attrs = snap
    for o, s, free in snap.values():
        if free or s is None:
            continue
        now = list(o.items()) if isinstance(o, dict) else list(o) if isinstance(o, (list, set)) else o.__dict__
        if id(o) in free_attrs:
            now = {k: v for k, v in now.items() if k not in free_attrs[id(o)]}
        if isinstance(s, dict):
            ok = len(s) == len(now) and all(k in now and (now[k] is s[k] or (k == "tail" and len(now[k]) == len(s[k]))) for k in s)
        else:
            ok = len(s) == len(now) and all((a is b) or (isinstance(a, tuple) and a[0] is b[0] and a[1] is b[1]) for a, b in zip(s, now))
        if not ok:
            raise Unsupported("frame of loop %s: an object outside the contract's modifies clause changed" % key)


class Loader:
    def __init__(self, repo="/repo"):
        self.repo = repo
        self.mods = {}
        self.contracts = {}
        self.contracted = set()
        self.functions = set()
        self.patches = []
        self.builtins = models.make_builtins(self.importer)
        self.libs = {"struct": models.STRUCT, "io": models.io_module(), "uuid": models.uuid_module(),
                     "hashlib": models.hashlib_module(), "logging": models.logging_module(), "datetime": models.datetime_module()}
        models.Hooks.enter = staticmethod(self._enter)

    def _enter(self, name):
        self.functions.add(name)

    def begin_path(self, vc):
        for obj, name, old in reversed(self.patches):
            if old is _MISSING:
                delattr(obj, name)
            else:
                setattr(obj, name, old)
        self.patches = []
        self.contracts = {}

    def patch(self, obj, name, new):
        """Replace a callee by its contract for the rest of this path."""
        if not hasattr(obj, name) and not hasattr(builtins, name):
            raise Unsupported("the callee %s, which a contract speaks of, is gone" % name)
        old = getattr(obj, name, None)
        if isinstance(new, types.FunctionType) and isinstance(old, types.FunctionType) and not isinstance(obj.__dict__.get(name), (staticmethod, classmethod)):
            new = self._bound(name, new, old)
        self.patches.append((obj, name, obj.__dict__.get(name, _MISSING)))
        setattr(obj, name, new)

    def _bound(self, name, new, old):
        """A call that the callee takes but its contract does not is out of reach, and no error of the caller's."""
        have, real = inspect.signature(new), inspect.signature(old)

        def contract(*a, **k):
            try:
                have.bind(*a, **k)
            except TypeError:
                try:
                    real.bind(*a, **k)
                except TypeError:
                    pass
                else:
                    raise Unsupported("the contract of %s does not take these arguments" % name)
            return new(*a, **k)
        return contract

    def loop(self, key):
        c = self.contracts.get(key)
        return CutLoop(key, c) if c is not None else Loop(key)

    def path_of(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py")
        return p + ".py"

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        parent = None
        if "." in name:
            parent = self.module(name.rsplit(".", 1)[0])
            if name in self.mods:
                return self.mods[name]
        path = self.path_of(name)
        if not os.path.exists(path):
            raise ImportError("no module " + name)
        with open(path, encoding="utf-8") as f:
            src = f.read()
        tree = ast.parse(src, path)
        tree = Rewrite(name).visit(tree)
        ast.fix_missing_locations(tree)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if path.endswith("__init__.py") else name.rsplit(".", 1)[0]
        if path.endswith("__init__.py"):
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        try:
            # dataclasses look the defining module up in sys.modules
            exec(compile(tree, path, "exec"), m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        if parent is not None:
            setattr(parent, name.rsplit(".", 1)[1], m)
        return m

    def importer(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            for _ in range(level - 1):
                pkg = pkg.rsplit(".", 1)[0]
            name = pkg + "." + name if name else pkg
        if name == ROOT or name.startswith(ROOT + "."):
            m = self.module(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f):
                        sub = name + "." + f
                        if os.path.exists(self.path_of(sub)):
                            self.module(sub)
                return m
            return self.mods[ROOT]
        if name in self.libs:
            return self.libs[name]
        return builtins.__import__(name, None, None, fromlist, 0)


class RealLoader:
    """Unmodified modules, imported from /repo."""

    def __init__(self, repo="/repo"):
        sys.dont_write_bytecode = True
        if repo not in sys.path:
            sys.path.insert(0, repo)

    def module(self, name):
        return importlib.import_module(name)
