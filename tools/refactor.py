"""Edits that change no behaviour, made to a whole copy of the repository: refactor.py KIND SRC DST; the checks have to stay quiet on the result.

KIND: locals (rename local variables), invert (swap if and else), wrap (a function's body moved to a helper), while (for loops by hand), result (name what is
returned), flip (turn comparisons around), aug (x += 1 as x = x + 1), noop (statements that do nothing), guard (else after a return dropped), all
"""
import ast
import os
import shutil
import sys

BAD = {"locals", "vars", "eval", "exec", "super", "globals", "inspect"}


def names_in(f):
    return {n.id for n in ast.walk(f) if isinstance(n, ast.Name)}


def params(f):
    a = f.args
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else [])}


class Locals(ast.NodeTransformer):
    """Top-level functions and methods: their own assigned names, in nested scopes too, unless those bind them as well."""

    def visit_FunctionDef(self, f):
        inner = [n for n in ast.walk(f) if n is not f and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef))]
        declared = {x for n in ast.walk(f) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
        taken = params(f) | declared | {n.name for n in ast.walk(f) if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
        for n in inner:
            if isinstance(n, ast.Lambda):
                taken |= params(n)
            elif isinstance(n, ast.FunctionDef):
                taken |= params(n) | {m.id for m in ast.walk(n) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store)}
        for n in ast.walk(f):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                taken |= {(a.asname or a.name).split(".")[0] for a in n.names}
        mine = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        mine |= {n.name for n in ast.walk(f) if isinstance(n, ast.ExceptHandler) and n.name}
        mine -= taken
        if names_in(f) & (BAD - {"super"}):
            return f
        for n in (x for s in f.body for x in ast.walk(s)):
            if isinstance(n, ast.Name) and n.id in mine:
                n.id += "_r"
            elif isinstance(n, ast.ExceptHandler) and n.name in mine:
                n.name += "_r"
        return f


class Invert(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return n


class While(ast.NodeTransformer):
    k = 0

    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        While.k += 1
        it = "it_%d" % While.k
        new = ast.parse("%s = iter(0)\nwhile True:\n    try:\n        x = next(%s)\n    except StopIteration:\n        break" % (it, it)).body
        new[0].value.args = [n.iter]
        new[1].body[0].body[0].targets = [n.target]
        new[1].body += n.body
        return new


class Result(ast.NodeTransformer):
    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        return [ast.Assign([ast.Name("result_r", ast.Store())], n.value), ast.Return(ast.Name("result_r", ast.Load()))]

    def visit_Lambda(self, n):
        return n


FLIP = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}


class Flip(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in FLIP and not any(isinstance(x, ast.Call) for y in (n.left, n.comparators[0]) for x in ast.walk(y)):
            return ast.Compare(n.comparators[0], [FLIP[type(n.ops[0])]()], [n.left])
        return n


class Aug(ast.NodeTransformer):
    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name) and isinstance(n.op, (ast.Add, ast.Sub)) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, (int, str)):
            return ast.Assign([n.target], ast.BinOp(ast.Name(n.target.id, ast.Load()), n.op, n.value))
        return n


class Noop(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        doc = 1 if ast.get_docstring(n) is not None else 0
        n.body[doc:doc] = ast.parse("unused_r = 0\nif unused_r:\n    unused_r = 1\n").body
        return n


class Guard(ast.NodeTransformer):
    def block(self, body):
        out = []
        for s in body:
            out.append(s)
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)):
                out += s.orelse
                s.orelse = []
        return out

    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                b = self.block(b)
                setattr(n, f, b)
        return n


class Wrap(ast.NodeTransformer):
    """def f(self, x): ... becomes def f(self, x): return self._f_r(x)."""
    cls = None

    def visit_ClassDef(self, n):
        old, self.cls = self.cls, n
        out = []
        for s in n.body:
            r = self.visit(s)
            out += r if isinstance(r, list) else [r]
        n.body = out
        self.cls = old
        return n

    def visit_FunctionDef(self, n):
        a = n.args
        gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n))
        if self.cls is None or n.decorator_list or n.name.startswith("__") or gen or a.vararg or a.kwarg or a.kwonlyargs or a.posonlyargs or names_in(n) & BAD or not a.args:
            return n
        new = "_%s_r" % n.name.lstrip("_")
        call = ast.Call(ast.Attribute(ast.Name(a.args[0].arg, ast.Load()), new, ast.Load()), [ast.Name(x.arg, ast.Load()) for x in a.args[1:]], [])
        doc = [n.body[0]] if ast.get_docstring(n) is not None else []
        outer = ast.FunctionDef(name=n.name, args=a, body=doc + [ast.Return(call)], decorator_list=[], returns=n.returns, type_params=[])
        inner = ast.FunctionDef(name=new, args=ast.parse("def f(%s): pass" % ", ".join(x.arg for x in a.args)).body[0].args, body=n.body, decorator_list=[], type_params=[])
        return [outer, inner]


KINDS = {"locals": Locals, "invert": Invert, "while": While, "result": Result, "flip": Flip, "aug": Aug, "noop": Noop, "guard": Guard, "wrap": Wrap}


def main(kind, src, dst):
    shutil.copytree(src, dst, symlinks=True)
    for base, dirs, files in os.walk(os.path.join(dst, "edk2toollib")):
        for f in files:
            if f.endswith(".py"):
                p = os.path.join(base, f)
                with open(p, newline="") as h:
                    t = ast.parse(h.read())
                for k in (KINDS if kind == "all" else [kind]):
                    t = ast.fix_missing_locations(KINDS[k]().visit(t))
                with open(p, "w") as h:
                    h.write(ast.unparse(t) + "\n")


if __name__ == "__main__":
    main(*sys.argv[1:])
