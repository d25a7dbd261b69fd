"""Compare the digests of the same cases in separate processes with different hash seeds.

    determinism.py [N] [PROP...]      N cases of each group (default 6), all properties by default
"""

import json
import os
import subprocess
import sys

sys.path.insert(0, "/verif")
from dst import boot, driver, worker  # noqa: E402
from dst.core import Rng  # noqa: E402

if sys.argv[1] == "--one":
    prop, group, n = sys.argv[2], sys.argv[3], int(sys.argv[4])
    mod = worker.load(prop)
    ctx = mod.prepare(group)
    for i in range(n):
        case = mod.gen(Rng(1, prop, group, 0, i), ctx, i)
        if hasattr(mod, "warm"):
            mod.warm(case, ctx)
        o = worker.run_forked(mod, case, ctx)
        print("DIGEST " + json.dumps([group, i, o.digest, o.violation, str(o.harness)[:80]]), flush=True)
    sys.exit()
n = int(sys.argv[1]) if len(sys.argv) > 1 else 6
bad = 0
for prop in sys.argv[2:] or [f"C{k:02}" for k in range(1, 16)]:
    mod = worker.load(prop)
    for group in sorted(set(mod.groups("quick"))):
        runs = []
        for seed in ("0", "1", "4242"):
            env = dict(driver.env_for(mod, group), PYTHONHASHSEED=seed)
            if hasattr(mod, "setup"):
                env.update({k: v for k, v in os.environ.items() if k.startswith("VERIF_")})
            runs.append(subprocess.Popen([boot.python(), __file__, "--one", prop, group, str(n)], cwd="/verif", env=env,
                                         stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True))
        seen = [[x for x in p.communicate()[0].splitlines() if x.startswith("DIGEST")] for p in runs]
        same = seen[0] == seen[1] == seen[2] and len(seen[0]) == n
        bad += not same
        print(prop, group, len(seen[0]), "cases", "same" if same else f"DIFFERENT {[[a, b, c] for a, b, c in zip(*seen) if not a == b == c][:1]}",
              flush=True)
sys.exit(bool(bad))
