"""mkseed.mk(id, prop, [(file, old, new)...], demo_python, needs, breaks): write /verif/seeded/<id>."""
import difflib, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mk(i, prop, edits, demo, needs, breaks):
    d = V + "/seeded/" + i
    os.makedirs(d, exist_ok=True)
    out = ""
    byfile = {}
    for f, old, new in edits:
        byfile.setdefault(f, []).append((old, new))
    for f, es in byfile.items():
        src = open("/repo/" + f, newline="").read()
        t = src
        for old, new in es:
            assert t.count(old) == 1, (i, f, t.count(old), old)
            t = t.replace(old, new)
        out += "".join(difflib.unified_diff(src.splitlines(True), t.splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w", newline="").write(out)
    open(d + "/demo.py", "w").write(demo)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
