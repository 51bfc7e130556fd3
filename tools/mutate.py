#!/usr/bin/env python3
"""Mutation campaign: small edits of one file, kept when the repository's tests still pass, shown to the checks that depend on the file.

usage: mutate.py LIST FILE...            prints the mutants of the files (number, line, edit)
       mutate.py RUN OUT.jsonl WORKERS PER_FILE SEED FILE...
A mutant that passes the tests and that no check reports is written with rc 0: it is read by hand (equivalent, outside every property, or a gap).
"""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("MUT_REPO", "/repo")
SWAP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
        ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.LShift: ast.RShift, ast.RShift: ast.LShift,
       ast.Mult: ast.Add, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv}


def docs(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            out.add(n.body[0].value)
    return out


def quiet(n):
    """Logging, printing, docs: no property speaks about them."""
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
        t = ast.unparse(n.value.func)
        return "log" in t.lower() or t == "print"
    return False


def mutants(src):
    tree = ast.parse(src)
    skip = docs(tree)
    parents = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            parents[c] = n
    out = []

    def put(node, text):
        out.append((node.lineno, node.col_offset, node.end_lineno, node.end_col_offset, text))

    def hidden(n):
        while n in parents:
            if n in skip or quiet(n) or isinstance(n, (ast.Raise, ast.JoinedStr, ast.arguments, ast.Import, ast.ImportFrom)):
                return True
            if isinstance(n, ast.FunctionDef) and n.name in ("__repr__", "print", "PrettyPrint"):
                return True
            n = parents[n]
        return False
    for n in ast.walk(tree):
        if not hasattr(n, "lineno") or n in skip:
            continue
        if isinstance(n, ast.Raise):
            put(n, "pass")
            continue
        if hidden(n):
            continue
        if isinstance(n, ast.Compare):
            for i, op in enumerate(n.ops):
                for o in SWAP.get(type(op), []):
                    m = copy.deepcopy(n)
                    m.ops[i] = o()
                    put(n, "(" + ast.unparse(m) + ")")
        if isinstance(n, ast.BoolOp):
            m = copy.deepcopy(n)
            m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            put(n, "(" + ast.unparse(m) + ")")
            for i in range(len(n.values)):
                m = copy.deepcopy(n)
                del m.values[i]
                put(n, "(" + ast.unparse(m if len(m.values) > 1 else m.values[0]) + ")")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, "(" + ast.unparse(n.operand) + ")")
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            m = copy.deepcopy(n)
            m.op = BIN[type(n.op)]()
            put(n, "(" + ast.unparse(m) + ")")
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                put(n, str(not n.value))
            elif isinstance(n.value, int):
                put(n, str(n.value + 1))
                if n.value:
                    put(n, str(n.value - 1))
            elif isinstance(n.value, str) and n.value and not isinstance(parents.get(n), ast.Expr):
                put(n, repr(n.value + "x"))
                if len(n.value) > 1:
                    put(n, repr(n.value[:-1]))
            elif isinstance(n.value, bytes) and n.value:
                put(n, repr(n.value[:-1]))
        if isinstance(n, (ast.Assign, ast.AugAssign)) and isinstance(parents.get(n), (ast.FunctionDef, ast.If, ast.For, ast.While, ast.With, ast.Try)):
            put(n, "pass")
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            put(n, "pass")
        if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            m = copy.deepcopy(n)
            m.op = BIN[type(n.op)]()
            put(n, ast.unparse(m))
            put(n, ast.unparse(ast.Assign([n.target], n.value, lineno=0)))
        if isinstance(n, ast.If) or isinstance(n, ast.While):
            put(n.test, "False")
            if isinstance(n, ast.If):
                put(n.test, "True")
        if isinstance(n, ast.Break):
            put(n, "continue")
        if isinstance(n, ast.Continue):
            put(n, "break")
            put(n, "pass")
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            put(n, "return None")
        if isinstance(n, ast.Call):
            for i in range(len(n.keywords)):
                m = copy.deepcopy(n)
                del m.keywords[i]
                put(n, ast.unparse(m))
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("strip", "lower", "upper", "lstrip", "rstrip", "copy", "replace", "resolve"):
                put(n, ast.unparse(n.func.value))
            if isinstance(n.func, ast.Name) and n.func.id in ("sorted", "list", "int", "set", "bytes", "str") and len(n.args) == 1:
                put(n, ast.unparse(n.args[0]))
        if isinstance(n, ast.Slice):
            if n.lower is not None:
                m = copy.deepcopy(n)
                m.lower = None
                put(n, ast.unparse(m))
            if n.upper is not None:
                m = copy.deepcopy(n)
                m.upper = None
                put(n, ast.unparse(m))
    return sorted(set(out))


def apply(src, m):
    lines = src.encode().splitlines(keepends=True)
    a, b, c, d, text = m
    first, last = lines[a - 1], lines[c - 1]
    pad = text
    new = first[:b] + pad.encode() + last[d:]
    return b"".join(lines[:a - 1] + [new] + lines[c:]).decode()


def checks_of(f):
    out = []
    for line in open("/verif/properties.jsonl"):
        p = json.loads(line)
        if any(x.split(":")[0] == f for x in p["anchors"]["files"]):
            out.append(p["id"])
    return out


def one(args):
    slot, f, m, tests_only = args
    w = SLOTS.pop()
    try:
        p = os.path.join(w, f)
        src = open(os.path.join(REPO, f)).read()
        new = apply(src, m)
        try:
            compile(new, f, "exec")
        except SyntaxError:
            return None
        open(p, "w").write(new)
        for root, dirs, _ in os.walk(os.path.join(w, "edk2toollib")):
            for x in list(dirs):
                if x == "__pycache__":
                    shutil.rmtree(os.path.join(root, x))
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=w, PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
        r = {"file": f, "line": m[0], "was": "\n".join(src.splitlines()[m[0] - 1:m[2]])[:300], "text": m[4][:300], "m": m}
        try:
            t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "pytest_timeout", "-p", "no:cacheprovider", "--timeout=60",
                                "--ignore=tests.unit/database/test_package_table.py", "-x", "-q"], cwd=w, env=env, capture_output=True,
                               timeout=200, stdin=subprocess.DEVNULL)
        except subprocess.TimeoutExpired:
            return dict(r, tests="timeout")
        if t.returncode != 0:
            return dict(r, tests="fail")
        r["tests"] = "pass"
        r["checks"] = {}
        for c in checks_of(f):
            try:
                k = subprocess.run(["python3", "/verif/check.py", c], cwd="/verif", env=dict(os.environ, PYVC_REPO=w), capture_output=True, text=True,
                                   timeout=900, stdin=subprocess.DEVNULL)
                rc, o = k.returncode, k.stdout
            except subprocess.TimeoutExpired:
                rc, o = 99, ""
            r["checks"][c] = [rc, [x[:200] for x in o.splitlines() if "obligation:" in x or "VIOLATION" in x or "stand-in:" in x][:4]]
            if rc == 1:
                break
        return r
    finally:
        shutil.copy(os.path.join(REPO, f), os.path.join(w, f))
        SLOTS.append(w)


SLOTS = []


def main():
    if sys.argv[1] == "LIST":
        for f in sys.argv[2:]:
            ms = mutants(open(os.path.join(REPO, f)).read())
            print(f, len(ms))
        return
    out, workers, per, seed, files = sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]), sys.argv[6:]
    rnd = random.Random(seed)
    jobs = []
    for f in files:
        ms = mutants(open(os.path.join(REPO, f)).read())
        rnd.shuffle(ms)
        jobs += [(0, f, m, False) for m in ms[:per]]
    rnd.shuffle(jobs)
    tag = os.path.basename(out)
    for i in range(workers):
        w = "/tmp/mut_%s_%d" % (tag, i)
        shutil.rmtree(w, ignore_errors=True)
        subprocess.run(["cp", "-a", REPO, w], check=True)
        SLOTS.append(w)
    with ThreadPoolExecutor(workers) as ex, open(out, "a") as fo:
        for r in ex.map(one, jobs):
            if r:
                fo.write(json.dumps(r) + "\n")
                fo.flush()
    for w in list(SLOTS):
        shutil.rmtree(w, ignore_errors=True)


main()
