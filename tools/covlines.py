"""Debug: which lines of the library no check reaches. covlines.py CASES_PER_GROUP OUT.json [PROP...] (non-JIT groups only)"""
import json, os, pickle, sys, tempfile
sys.path.insert(0, "/verif")
from dst import worker
from dst.core import Rng

n, out, props = int(sys.argv[1]), sys.argv[2], sys.argv[3:]
TOOL = 4
SRC = "/repo/src/harmonica/"
mon = sys.monitoring
found = json.load(open(out)) if os.path.exists(out) else {}
for prop in props or [f"C{k:02d}" for k in range(1, 16)]:
    mod = worker.load(prop)
    run = mod.run
    tmp = tempfile.mkdtemp()

    def wrapped(case, ctx, o, run=run, tmp=tmp):
        hits = set()

        def line(code, no):
            if code.co_filename.startswith(SRC):
                hits.add((code.co_filename[len(SRC):], no))
            return mon.DISABLE

        mon.use_tool_id(TOOL, "covlines")
        mon.register_callback(TOOL, mon.events.LINE, line)
        mon.set_events(TOOL, mon.events.LINE)
        try:
            return run(case, ctx, o)
        finally:
            mon.set_events(TOOL, 0)
            with open(f"{tmp}/{os.getpid()}", "wb") as f:
                pickle.dump(hits, f)

    mod.run = wrapped
    total = set()
    for slot, group in enumerate(mod.groups("quick")):
        if getattr(mod, "jit", lambda g: False)(group):
            continue
        pid = os.fork()
        if pid == 0:
            try:
                ctx = mod.prepare(group)
                for i in range(n):
                    case = mod.gen(Rng(int(os.environ.get("VERIF_SEED", 1)), prop, group, slot, i), ctx, i)
                    if hasattr(mod, "warm"):
                        mod.warm(case, ctx)
                    worker.run_forked(mod, case, ctx)
            except BaseException as e:
                print(prop, group, repr(e)[:200])
            finally:
                os._exit(0)
        os.waitpid(pid, 0)
    for f in os.listdir(tmp):
        total |= pickle.load(open(f"{tmp}/{f}", "rb"))
        os.unlink(f"{tmp}/{f}")
    os.rmdir(tmp)
    found[prop] = sorted(total)
    print(prop, len(total), flush=True)
    json.dump(found, open(out, "w"))
