"""Runs the cases of one kind of one check in this process (development aid). usage: kind.py C08 tols [quick|thorough] [max cases]"""
import importlib, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.environ.get("TORCHDYN_REPO", "/repo"))
import torch, warnings
warnings.simplefilter("ignore")
torch.set_num_threads(1)
from mc import core
mod = importlib.import_module("mc.checks." + sys.argv[1].lower())
tier = sys.argv[3] if len(sys.argv) > 3 else "quick"
cs = [c for c in mod.cases(tier) if (c.get("kind") == sys.argv[2] or isinstance(c.get("net"), tuple) and sys.argv[2] == "other") or sys.argv[2] == "-"][:int(sys.argv[4]) if len(sys.argv) > 4 else None]
out, t = core.Out(), time.time()
for c in cs:
    core.run_one(mod, c, out, getattr(mod, "CASE_LIMIT", 60))
print(len(cs), "cases", round(time.time() - t, 1), "s", len(out.states), "states", out.traces, "traces", len(out.fails), "fails")
for f in out.fails[:8]:
    print(f)
