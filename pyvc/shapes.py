"""The shape of each function's loops: how many there are, of which kind, and what they run over.

A loop contract is written for a shape: one that runs over `range(len(x))` speaks of numbers, one over `x` of its elements. Where a function under a
loop contract has loops of another shape than when the contracts were written (shapes.json), an obligation that fails without a failing input says
nothing about the code: the contract was written for other loops. The harness is then decided by its bounded stand-in, as for any code out of reach.
"""
import ast
import json
import os

FILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "shapes.json")


def kind(n):
    if isinstance(n, ast.While):
        return "while"
    it = n.iter
    how = "over"
    if isinstance(it, ast.Call):
        f = it.func
        if isinstance(f, ast.Name) and f.id in ("range", "enumerate", "zip", "reversed", "sorted", "map", "filter", "iter"):
            how = f.id + str(len(it.args))
        elif isinstance(f, ast.Attribute):
            how = "." + f.attr
    return "for %d %s" % (len(n.target.elts) if isinstance(n.target, (ast.Tuple, ast.List)) else 0, how)


def shapes(name, src):
    """"module:function" -> the loops of each function that has some."""
    out = {}
    stack = []

    def visit(n, loops):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                stack.append(c.name)
                mine = []
                visit(c, mine)
                if mine:
                    out["%s:%s" % (name, ".".join(stack))] = ", ".join(mine)
                stack.pop()
            elif isinstance(c, ast.ClassDef):
                stack.append(c.name)
                visit(c, [])
                stack.pop()
            else:
                if isinstance(c, (ast.For, ast.While)):
                    loops.append(kind(c))
                visit(c, loops)
    visit(ast.parse(src), [])
    return out


def of_repo(repo):
    out = {}
    for d, dirs, files in os.walk(os.path.join(repo, "edk2toollib")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".py"):
                p = os.path.join(d, f)
                name = os.path.relpath(p, repo)[:-3].replace(os.sep, ".")
                with open(p, encoding="utf-8") as h:
                    out.update(shapes(name[:-9] if name.endswith(".__init__") else name, h.read()))
    return out


def changed(repo, functions):
    """Those of the functions whose loops are not what they were."""
    with open(FILE) as f:
        was = json.load(f)
    out = []
    now = {}
    for m in sorted({x.split(":")[0] for x in functions}):
        p = os.path.join(repo, *m.split(".")) + ".py"
        if os.path.exists(p):
            with open(p, encoding="utf-8") as f:
                now.update(shapes(m, f.read()))
    for x in sorted(functions):
        if was.get(x) != now.get(x):
            out.append(x)
    return out


if __name__ == "__main__":
    with open(FILE, "w") as f:
        json.dump(of_repo("/repo"), f, indent=0, sort_keys=True)
        f.write("\n")
