"""seedtest.py [ID ...]: validate planted changes in a scratch copy of /repo and say which checks catch them.

For every /verif/seeded/<ID>: the patch applies, the stable tests pass, demo.sh exits 0 on the unchanged tree and non-zero with the patch;
then the property's check runs on the changed copy.
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
base = json.load(open("/opt/vp/BASELINE.json"))
stable = base.get("stable") or base.get("passed") or base.get("tests") or base


def sh(cmd, cwd, env=None, t=300):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=t, env=env)


def stable_tests(r, w):
    env = dict(os.environ, PYTHONPATH=r, PYTHONPYCACHEPREFIX=w + "/pyc", TMPDIR=w, PYTHONHASHSEED="0", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
    sh("/opt/venv/bin/python -m pytest -q -p pytest_timeout -p no:cacheprovider --timeout=300 --continue-on-collection-errors "
       "--ignore=tests.unit/database/test_package_table.py -o junit_family=xunit2 --junitxml=%s/report.xml" % w, r, env)
    sh("/usr/bin/python3 /opt/vp/results.py %s/out.json junit:%s/report.xml" % (w, w), w)
    o = json.load(open(w + "/out.json"))
    ok = set(o.get("passed", []))
    bad = [t for t in stable if t not in ok]
    return "ok" if not bad else "FAIL %d (%s)" % (len(bad), bad[:2])


def one(i):
    d = V + "/seeded/" + i
    meta = json.load(open(d + "/meta.json"))
    w = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    try:
        r = w + "/repo"
        shutil.copytree("/repo", r, symlinks=True)
        sh("git checkout -q -- . && git clean -fdq", r)
        dd = w + "/demo"
        shutil.copytree(d, dd)
        env = dict(os.environ, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE="1")
        a = sh("bash %s/demo.sh" % dd, r, env)
        if a.returncode:
            return i, "BAD demo fails on the unchanged tree: " + (a.stdout + a.stderr)[-400:]
        p = sh("git apply %s/patch.diff" % d, r)
        if p.returncode:
            return i, "BAD patch: " + p.stderr
        tests = stable_tests(r, w)
        b = sh("bash %s/demo.sh" % dd, r, env)
        if b.returncode == 0:
            return i, "BAD demo passes with the patch"
        env2 = dict(os.environ, PYVC_REPO=r)
        c = sh("python3 check.py %s --tier quick" % meta["property"], V, env2, 900)
        vio = [x for x in c.stdout.splitlines() if x.startswith("VIOLATION")]
        kind = "CAUGHT" if c.returncode == 1 and any("no-failing" not in x for x in vio) else "CAUGHT(no input)" if c.returncode == 1 else "MISSED rc=%d" % c.returncode
        ob = [x.strip() for x in c.stdout.splitlines() if x.startswith("  harness")]
        return i, "%s %s | tests: %s | %s" % (meta["property"], kind, tests, "; ".join(ob)[:300])
    finally:
        shutil.rmtree(w, ignore_errors=True)


with ThreadPoolExecutor(4) as ex:
    for i, r in ex.map(one, ids):
        print(i, r, flush=True)
