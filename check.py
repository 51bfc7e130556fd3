#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]   decide one property on /repo's current tree
   check.py --replay FILE                        re-run a recorded violation on the real code

Exit 0: held on everything decided; 1: VIOLATION line printed; 2: the check itself failed.
"""
import base64
import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/veriftools/pyvenv/bin/python"
if os.path.realpath(sys.prefix) != os.path.realpath("/opt/veriftools/pyvenv"):
    os.execv(PY, [PY, "-I", os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.append("/opt/venv/lib/python3.12/site-packages")
REPO = os.environ.get("PYVC_REPO", "/repo")
sys.setrecursionlimit(5000)

from pyvc import concrete  # noqa: E402
from pyvc import shapes  # noqa: E402
from pyvc.core import VC, EngineExc  # noqa: E402
from pyvc.loader import Loader, RealLoader  # noqa: E402


# ------------------------------------------------------------------ JSON of inputs
def enc(x):
    if isinstance(x, (bytes, bytearray)):
        return {"b64": base64.b64encode(bytes(x)).decode(), "hex": bytes(x[:64]).hex()}
    if isinstance(x, tuple):
        return {"tuple": [enc(v) for v in x]}
    if isinstance(x, list):
        return [enc(v) for v in x]
    if isinstance(x, dict):
        return {"dict": [[enc(k), enc(v)] for k, v in x.items()]}
    if isinstance(x, int) and not isinstance(x, bool) and abs(x) > 1 << 53:
        return {"int": str(x)}
    if x is None or isinstance(x, (str, int, float, bool)):
        return x
    return {"repr": repr(x)}


def dec(x):
    if isinstance(x, list):
        return [dec(v) for v in x]
    if isinstance(x, dict):
        if "b64" in x:
            return base64.b64decode(x["b64"])
        if "tuple" in x:
            return tuple(dec(v) for v in x["tuple"])
        if "dict" in x:
            return {dec(k): dec(v) for k, v in x["dict"]}
        if "int" in x:
            return int(x["int"])
    return x


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


def run_real(fn, inputs=None, rng=None, seconds=10):
    """Harness on the real modules; an exception out of /repo code or a hang is a violation too."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    vc = None
    try:
        vc = concrete.CVC(RealLoader(REPO), inputs, rng)
        try:
            fn(vc)
            return "ok", None, vc
        except concrete.Reject:
            return "reject", None, vc
        except concrete.Violated as v:
            return "violated", v.name, vc
        except Hang:
            return "violated", "terminates (no result after %s s)" % seconds, vc
        except SystemExit as e:
            return "violated", "no unexpected exception: SystemExit %s" % e, vc
        except EngineExc:
            return "reject", None, vc       # nothing is known of such a result
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            if any(f.filename.startswith(REPO + "/") for f in tb) or isinstance(e, (RecursionError, MemoryError)):
                return "violated", "no unexpected exception: %s: %s" % (type(e).__name__, str(e)[:200]), vc
            # the harness stumbled over what the code gave it (a missing attribute, None, ...)
            return "violated", "the result has the expected shape: %s: %s" % (type(e).__name__, str(e)[:200]), vc
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


# ------------------------------------------------------------------ one harness, in a worker
def do_harness(job):
    mod, hname, tier, seed, phase = job
    sys.stdout = open(os.devnull, "w")      # what the code under test prints
    t0 = time.time()
    try:
        import logging
        logging.disable(logging.CRITICAL)
        pm = importlib.import_module("contracts." + mod)
        h = next(x for x in pm.HARNESSES if x.name == hname)
        if phase == "sym":
            return symbolic(pm, h, tier, seed, t0)
        return bounded(pm, h, tier, seed, t0, phase)
    except BaseException:
        return {"harness": hname, "phase": phase, "crash": traceback.format_exc(), "wall": time.time() - t0}


def worker(conn, job):
    conn.send(do_harness(job))
    conn.close()


def run_jobs(jobs, workers=8):
    """The results of the jobs, each from a process of its own; one that ends without a result is a crash."""
    ctx = mp.get_context("fork")
    todo, active = list(jobs)[::-1], {}
    while todo or active:
        while todo and len(active) < workers:
            job = todo.pop()
            mine, its = ctx.Pipe(duplex=False)
            p = ctx.Process(target=worker, args=(its, job), daemon=True)
            p.start()
            its.close()
            active[mine] = (p, job)
        for conn in mp.connection.wait(list(active)):
            p, job = active.pop(conn)
            try:
                r = conn.recv()
            except Exception:
                r = {"harness": job[1], "phase": job[4], "crash": "the process ended without a result", "wall": 0.0}
            conn.close()
            p.join()
            yield r


def symbolic(pm, h, tier, seed, t0):
    loader = Loader(REPO)
    budget = h.budget * (3 if tier == "thorough" else 1)
    vc = VC(loader, timeout_ms=h.timeout_ms * (2 if tier == "thorough" else 1), max_paths=h.max_paths, max_unroll=h.unroll, deadline=time.time() + budget)
    fn = guarded(h.fn)
    out = {"harness": h.name, "phase": "sym"}
    try:
        incomplete = vc.run(fn)
    except Exception:
        incomplete = "engine: " + traceback.format_exc()[-1500:]
    out["incomplete"] = incomplete
    out["obl"] = {n: [o.paths, o.discharged, o.refuted, o.unknown, o.trivial] for n, o in vc.obls.items()}
    out["paths"] = vc.paths
    out["queries"] = vc.queries
    out["solver_s"] = round(vc.solver_time, 3)
    out["backends"] = vc.backends
    out["functions"] = sorted(loader.functions)
    out["reshaped"] = shapes.changed(REPO, {k.split("#")[0] for k in loader.contracted})
    out["loops_cut"] = sorted(vc.loops_cut)
    out["reached"] = sorted(vc.reached)
    out["notes"] = sorted(vc.notes)
    out["bounds"] = sorted(vc.bounds)
    out["cex"] = []
    tried = 0
    for name, inp in vc.counterexamples:
        r, d, c = run_real(h.fn, inp)
        tried += 1
        out["cex"].append({"obligation": name, "inputs": enc(inp), "replay": r, "detail": d, "used": enc(c.inputs)})
        if r == "violated":
            break
    out["wall"] = time.time() - t0
    return out


def guarded(fn):
    def g(vc):
        try:
            fn(vc)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            if any(f.filename.startswith(REPO + "/") for f in tb):
                vc.check(False, "no unexpected exception (%s)" % type(e).__name__)
            raise
    return g


def bounded(pm, h, tier, seed, t0, phase):
    part = int(phase.split(":")[1])
    rng = random.Random("%s/%s/%d/%d" % (pm.ID, h.name, seed, part))
    n = h.runs * (8 if tier == "thorough" else 1)
    limit = h.run_seconds * (6 if tier == "thorough" else 1)
    out = {"harness": h.name, "phase": "bounded", "runs": 0, "rejected": 0, "errors": 0, "checks": 0, "violation": None, "samples": [],
           "distinct": 0}
    seen = set()
    end = time.time() + limit
    for i in range(n):
        if time.time() > end:
            break
        sub = random.Random(rng.getrandbits(64))
        r, d, c = run_real(h.fn, None, sub, seconds=h.hang)
        if r == "reject":
            out["rejected"] += 1
            continue
        out["runs"] += 1
        out["checks"] += c.checks
        k = hashlib.sha1(repr(sorted(c.inputs.items(), key=lambda kv: kv[0])).encode()).digest()
        seen.add(k)
        if len(out["samples"]) < 2 and c.checks:
            s = json.dumps(enc(c.inputs))
            if len(s) < 1500:
                out["samples"].append({"harness": h.name, "inputs": enc(c.inputs)})
        if r == "error":
            out["errors"] += 1
            out.setdefault("error", d)
            if out["errors"] > 3:
                break
        if r == "violated":
            if "terminates" in d:
                r, d, c = run_real(h.fn, c.inputs, None, seconds=60)
                if r != "violated":
                    continue
            out["violation"] = {"obligation": d, "inputs": enc(c.inputs)}
            break
    out["distinct"] = len(seen)
    out["wall"] = time.time() - t0
    return out


# ------------------------------------------------------------------ property
def find_module(pid):
    for f in sorted(os.listdir(os.path.join(HERE, "contracts"))):
        if f.lower().startswith(pid.lower() + "_") and f.endswith(".py"):
            return f[:-3]
    raise SystemExit("no contracts for " + pid)


def write_replay(pid, data):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    k = hashlib.sha1(json.dumps(data, sort_keys=True).encode()).hexdigest()[:10]
    p = os.path.join(d, "%s-%s.json" % (pid, k))
    with open(p, "w") as f:
        json.dump(data, f, indent=1)
    return p


def main():
    args = sys.argv[1:]
    if args and args[0] == "--selftest":
        return selftest()
    if args and args[0] == "--replay":
        return replay(args[1])
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = args[args.index("--only") + 1] if "--only" in args else None
    verbose = "-v" in args
    t0 = time.time()
    mod = find_module(pid)
    pm = importlib.import_module("contracts." + mod)
    jobs = []
    for h in pm.HARNESSES:
        if only and h.name != only:
            continue
        if h.symbolic:
            jobs.append((mod, h.name, tier, seed, "sym"))
        if h.runs:
            for part in range(h.parts):
                jobs.append((mod, h.name, tier, seed, "bounded:%d" % part))
    results = []
    for r in run_jobs(jobs):
        results.append(r)
        if verbose:
            print(r["harness"], r["phase"], "%.1fs" % r["wall"], r.get("incomplete") or "", r.get("crash") or "", r.get("error") or "",
                  {k: v for k, v in r.items() if k in ("runs", "rejected", "paths", "violation")})
            if r.get("obl"):
                for n, o in r["obl"].items():
                    print("    ", n, o)
            for c in r.get("cex", [])[:3]:
                print("     CEX", json.dumps(c)[:1500])
    return report(pid, pm, tier, seed, results, t0, only)


def report(pid, pm, tier, seed, results, t0, only):
    violations = []
    crashes = [r for r in results if r.get("crash")]
    sym = [r for r in results if r["phase"] == "sym" and not r.get("crash")]
    bnd = [r for r in results if r["phase"] == "bounded" and not r.get("crash")]
    hs = {h.name: h for h in pm.HARNESSES}
    obligations = discharged = 0
    proved, standins, vac, bounded_sym = [], [], [], []
    for r in sym:
        h = hs[r["harness"]]
        ob = {n: o for n, o in r["obl"].items()}
        n_o = sum(o[0] for o in ob.values())
        n_d = sum(o[1] for o in ob.values())
        refuted = [n for n, o in ob.items() if o[2]]
        unknown = [n for n, o in ob.items() if o[3]]
        if refuted:
            good = [c for c in r["cex"] if c["replay"] == "violated"]
            if good:
                c = good[0]
                violations.append({"harness": r["harness"], "obligation": c["detail"], "failed_obligation": c["obligation"],
                                   "inputs": c["used"], "found": True})
            else:
                b = [x for x in bnd if x["harness"] == r["harness"] and x["violation"]]
                if not b and r["reshaped"]:
                    standins.append({"harness": r["harness"], "reason": "the loops of %s are not those the contracts were written for, and %s was not shown" % (", ".join(r["reshaped"]), refuted[0]),
                                     "partial_obligations": n_o, "partial_discharged": n_d})
                    continue
                if not b:
                    violations.append({"harness": r["harness"], "obligation": refuted[0], "found": False,
                                       "verifier_output": {"obligations": r["obl"], "counter_models": r["cex"][:4], "notes": r["notes"]}})
            obligations += n_o
            discharged += n_d
        elif r["incomplete"] or unknown:
            standins.append({"harness": r["harness"], "reason": r["incomplete"] or "solver unknown on " + ", ".join(unknown),
                             "partial_obligations": n_o, "partial_discharged": n_d})
        else:
            missing = [p for p in h.must_reach if p not in r["reached"]]
            if r["bounds"]:
                bounded_sym.append({"harness": r["harness"], "claim": h.claim, "bound": "; ".join(r["bounds"]), "obligations_not_counted": n_o,
                                    "decided": n_d, "paths": r["paths"]})
            elif n_o == 0 or missing:
                vac.append({"harness": r["harness"], "obligations": n_o, "unreached": missing})
            else:
                obligations += n_o
                discharged += n_d
                proved.append({"harness": r["harness"], "claim": h.claim, "obligations": n_o, "paths": r["paths"], "bounds": r["bounds"],
                               "by_name": {n: o[0] for n, o in ob.items()}, "loops_cut_by_invariant": r["loops_cut"]})
    for r in bnd:
        if r["violation"]:
            v = r["violation"]
            violations.append({"harness": r["harness"], "obligation": v["obligation"], "inputs": v["inputs"], "found": True})
    # known findings
    kf = json.load(open(os.path.join(HERE, "known_findings.json")))
    lines = []
    if not only:
        for f in kf["findings"]:
            if f["property"] == pid:
                probe = getattr(pm, f["probe"])
                RealLoader(REPO)
                try:
                    bad = probe()
                except Exception as e:
                    bad = "probe raised %r" % (e,)
                if bad:
                    lines.append("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    out_lines = []
    seenv = set()
    violations.sort(key=lambda v: not v["found"])
    for v in violations:
        key = (v["harness"], v["found"])
        if key in seenv:
            continue
        seenv.add(key)
        data = dict(v, property=pid, module=pm.__name__, command="python3 /verif/check.py --replay <this file>")
        p = write_replay(pid, data)
        out_lines.append("VIOLATION property=%s replay=%s%s" % (pid, p, "" if v["found"] else " no-failing-input-found"))
        print("  harness %s, obligation: %s" % (v["harness"], v["obligation"]))
    functions = sorted({f for r in sym for f in r["functions"]})
    backends = {}
    for r in sym:
        for k, n in r["backends"].items():
            backends[k] = backends.get(k, 0) + n
    level = pm.LEVEL
    cov = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": "python3 /verif/check.py %s --tier %s" % (pid, tier),
        "trusted_base": pm.TRUSTED + TRUSTED,
        "explanation": pm.EXPLANATION,
        "evaluations": sum(r["runs"] for r in bnd),
        "distinct_nontrivial": sum(r["distinct"] for r in bnd),
        "rule": "bounded stand-in / cross-check: the same harness text run on the unmodified modules with seeded random, boundary-biased inputs; "
                "non-trivial = met the harness' precondition; distinct by input content",
        "samples": [s for r in bnd for s in r["samples"]][:6],
        "proved_harnesses": proved,
        "bounded_symbolic": bounded_sym,
        "bounded_stand_ins": standins + [{"harness": h.name, "reason": h.why_bounded, "bound": "random inputs only"} for h in pm.HARNESSES
                                         if not h.symbolic],
        "functions_executed_symbolically": functions,
        "solver": {"backends": backends, "queries": sum(r["queries"] for r in sym), "seconds": round(sum(r["solver_s"] for r in sym), 2)},
        "bounded_checks_evaluated": sum(r["checks"] for r in bnd),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": pm.ASSUMPTIONS + ASSUMPTIONS,
          "wall_s": round(time.time() - t0, 2), "violations": len(out_lines)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not only:
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for ln in lines + out_lines:
        print(ln)
    print("%s %s: %d/%d obligations discharged, %d harnesses proved, %d bounded symbolic, %d stand-ins, %d bounded runs, %.1f s" % (
        pid, tier, discharged, obligations, len(proved), len(bounded_sym), len(cov["bounded_stand_ins"]), cov["evaluations"], time.time() - t0))
    for s in standins:
        print("  bounded stand-in: %s: %s" % (s["harness"], s["reason"][:300]))
    if out_lines:
        return 1
    bad = bool(standins) and "--strict" in sys.argv
    for c in crashes:
        print("CRASH", c["harness"], c["phase"], c["crash"])
        bad = True
    for r in bnd:
        if r["errors"]:
            print("HARNESS ERROR", r["harness"], r.get("error"))
            bad = True
        elif r["runs"] == 0:
            print("NO ACCEPTED RUN", r["harness"], "rejected", r["rejected"])
            bad = True
    for v in vac:
        print("VACUOUS (not counted as proved, only its bounded runs speak):", v)
        bad = bad or "--strict" in sys.argv
    if not only and obligations == 0 and level == "proof":
        # the whole proof fell outside the engine's reach on this tree: only the bounded stand-ins spoke
        print("note: no obligation could be generated on this tree; every harness ran as a bounded stand-in")
    return 2 if bad else 0


TRUSTED = ["pyvc engine (/verif/pyvc): path exploration, library models of struct/io.BytesIO/uuid/hashlib/bytes/int (models.py, sym.py)",
           "z3 5.3.2 (z3-solver), cvc5 1.1.2 for z3 unknowns", "CPython 3.12 executes the instrumented source"]
ASSUMPTIONS = ["hash functions are uninterpreted functions of (algorithm, content)", "logging and print have no observable effect",
               "integers are Python's unbounded integers (no machine arithmetic is assumed)"]


def selftest():
    """Setup: the engine loads, and its models agree with CPython on a few thousand concrete samples."""
    from pyvc import selftest as st
    return st.main()


def replay(path):
    data = json.load(open(path))
    import logging
    logging.disable(logging.CRITICAL)
    pm = importlib.import_module(data["module"])
    h = next(x for x in pm.HARNESSES if x.name == data["harness"])
    if not data.get("found"):
        print("failed obligation:", data["obligation"])
        print(json.dumps(data.get("verifier_output"), indent=1))
        return 1
    r, d, c = run_real(h.fn, dec(data["inputs"]), seconds=60)
    print("replay on %s: %s %s" % (REPO, r, d or ""))
    for k, v in c.inputs.items():
        print("  %s = %r" % (k, v))
    return 1 if r == "violated" else 0


if __name__ == "__main__":
    sys.exit(main())
