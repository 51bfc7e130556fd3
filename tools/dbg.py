"""Debug aid: dbg.py MODULE HARNESS  - run one symbolic harness in-process and show where it leaves the subset."""
import sys, traceback, os, importlib
sys.path[0:0] = [os.path.dirname(os.path.dirname(os.path.abspath(__file__)))]
sys.path.append("/opt/venv/lib/python3.12/site-packages")
import logging
logging.disable(logging.CRITICAL)
from pyvc.core import VC
import pyvc.core as core
from pyvc.loader import Loader
mod, h = sys.argv[1:3]
pm = importlib.import_module("contracts." + mod)
hh = next(x for x in pm.HARNESSES if x.name == h)
orig = core.Unsupported.__init__
def init(self, *a):
    traceback.print_stack(limit=16)
    orig(self, *a)
core.Unsupported.__init__ = init
def models(self, neg):
    if self._check(neg).r == 1:
        print("REFUTED", self.solver.model())
        traceback.print_stack(limit=6)
    return []
if "-m" in sys.argv:
    VC._models = models
vc = VC(Loader(os.environ.get("PYVC_REPO", "/repo")), max_unroll=hh.unroll, timeout_ms=hh.timeout_ms, max_paths=hh.max_paths)
print(vc.run(hh.fn), vc.paths)
for n, o in vc.obls.items():
    print(n, o.paths, o.discharged, o.refuted, o.unknown)
