"""Debug: run case i of a group in this process with timing. one.py C01 e 0 3"""
import os, sys, time
sys.path.insert(0, "/verif")
prop, group, slot, i = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
from dst import worker
from dst.core import Rng
mod = worker.load(prop)
t = time.time(); ctx = mod.prepare(group); print("prepare", time.time() - t)
case = mod.gen(Rng(int(os.environ.get("VERIF_SEED", 1)), prop, group, slot, i), ctx, i)
print(case)
if hasattr(mod, "warm"):
    t = time.time(); mod.warm(case, ctx); print("warm", time.time() - t)
for _ in range(2):
    t = time.time(); o = worker.run_forked(mod, case, ctx); print("run", time.time() - t)
print(o.violation, o.harness, dict(o.stats))
