"""C05: showing a progress bar never changes the outcome."""

import threading

from .. import boot, interrupt, models, simpar, simprogress
from ..core import Violation, close_arrays, sha
from . import c04

RULE = (
    "A case is a forward-model call with a progress bar, serial or parallel, a plan of the parallel loop (with "
    "display updates between slices of work), and possibly a fault: failing observation points, failing scratch "
    "allocation, an interrupt at a statement of the library, or no thread available for the display. Non-trivial "
    "when the bar was shown while work was in progress or a fault fired."
)
MEASURE = "hash of the call, of the sequence of (row, worker, preemption step) decisions, display updates and fault site"
REAL = ["harmonica forward models and layers with progressbar=True", "numba_progress bars, counters and update function", "tqdm",
        "Numba-compiled kernels"]
STUB = ["the thread and event the bar is built from (run by the simulator)", "Numba's thread pool", "the bar's output stream"]
ASSUMPTIONS = ["results with and without the bar agree within 1e-8 of the component's scale (2e-4 in float32)",
               "an interrupt between the creation of the bar and the start of the with block is not considered"]
BUDGET = dict(quick=26, thorough=600)
GROUPS = dict(
    a=[("prg", f) for f in models.PG[::3]],
    b=[("prm", f) for f in models.B],
    c=[("dip", f) for f in models.B],
    d=[("tg", "g_z")],
    e=[("tgv", "potential")],
    f=[("pl", "g_z"), ("pl", "potential")],
    g=[("tl", "g_z")],
    h=[("tg", "potential")],
)
FAULTS = [None, None, "bad", "alloc", "interrupt", "interrupt", "start"]


def groups(tier):
    return list(GROUPS)


setup, env = c04.setup, c04.env


def prepare(group):
    simpar.install()
    boot.import_harmonica()
    simprogress.World().install()
    return dict(group=group, warmed=set())


def gen(rng, ctx, i):
    fams = GROUPS[ctx["group"]]
    fam, field = fams[i % len(fams)]
    spec = models.gen_spec(rng, fam, field, kinds=["array", "array", "2d", "list", "scalar"], max_pts=300)
    if ctx["group"] != "c":
        spec.pop("dtype", None)
    if fam in ("tg", "tgv"):
        spec.update(dens="lin", radial=rng.chance(0.5), near=False)
    if rng.chance(0.08):
        spec.update(npts=0, kind="array")
        spec.pop("layout", None)
    calls = []
    for _ in range(rng.randint(1, 3)):
        calls.append(dict(parallel=rng.chance(0.75), plan=simpar.random_plan(rng, preempt=0.8), shown=rng.pick([0.0, 0.1, 0.5, 1.0]),
                          fault=rng.pick(FAULTS), at=rng.random(), exc=rng.pick(["interrupt", "memory", "exit"]),
                          alloc=rng.logint(1, 40) - 1, seed=rng.getrandbits(32)))
    bad = [[rng.randrange(spec["npts"] or 1), rng.randrange(64), rng.randrange(3)] for _ in range(rng.randint(1, 2))]
    return dict(fam=fam, field=field, spec=spec, calls=calls, bad=bad)


def warm(case, ctx):
    for progress in (False, True):
        c04.warm(dict(case, progress=progress), ctx)
    return None


def outcome(f):
    import numpy as np

    try:
        r = f()
    except BaseException as e:
        return "error", type(e).__name__
    return "ok", [np.array(x, dtype=float) for x in models.components(r)]


def run(case, ctx, out):
    import numpy as np

    spec = case["spec"]
    tol = 2e-4 if spec.get("dtype") else 1e-8
    clean = models.build(spec)
    bad = c04.with_bad_points(case, models.build(spec))
    trace = []
    boot.perturb(0)
    before = threading.active_count()
    nontrivial = False
    for k, c in enumerate(case["calls"]):
        data = bad if c["fault"] == "bad" else clean
        info = f"{spec} call {k} { {x: y for x, y in c.items() if x != 'plan'} }"
        par = c["parallel"]
        simpar.set_plan(None)
        off_world = simprogress.World(c["seed"]).install()
        with simpar.planned(c["plan"], None):
            want = outcome(lambda: models.call(spec, data, par, False))
        if off_world.bars:
            raise Violation("bar-without-asking", info)
        world = simprogress.World(c["seed"], c["shown"]).install()
        at = None
        if c["fault"] == "interrupt":
            tracer = interrupt.Tracer()
            with simpar.planned(c["plan"], None), tracer:
                outcome(lambda: models.call(spec, data, par, True))
            at = int(c["at"] * len(tracer.sites)) if tracer.sites else None
            world = simprogress.World(c["seed"], c["shown"]).install()
        if c["fault"] == "start":
            world.fail_start = True
        if c["fault"] == "alloc":
            simpar.alloc_faults(c["alloc"])
        tracer = interrupt.Tracer(at, c["exc"], allow=world.settled)
        with simpar.planned(c["plan"], out.stats, tick=world.tick):
            if at is not None:
                with tracer:
                    got = outcome(lambda: models.call(spec, data, par, True))
            else:
                got = outcome(lambda: models.call(spec, data, par, True))
        fired = None
        if c["fault"] == "alloc":
            fired = simpar.alloc_counts()[1]
            simpar.alloc_faults()
        elif c["fault"] == "interrupt":
            fired = interrupt.short(tracer.fired)
        elif c["fault"] == "start":
            fired = True
        elif c["fault"] == "bad":
            fired = want[0] == "error"
        if fired:
            out.fired(c["fault"])
        nontrivial |= bool(fired) or world.updates > 2
        out.stats.add("display_updates", world.updates)
        out.stats.add("calls_" + got[0])
        trace.append((got[0], world.updates, fired))
        # ----------------------------------------------------------- verdict
        disturbed = fired and c["fault"] != "bad"
        if not disturbed:
            if got[0] != want[0]:
                raise Violation("outcome-differs-with-bar", f"{info}: {want if want[0] == 'error' else 'ok'} without, {got if got[0] == 'error' else 'ok'} with")
        if c["fault"] == "start" and got[0] == "ok":
            raise Violation("bar-not-started", info)
        if got[0] == "ok" and want[0] == "ok":
            for g, w in zip(got[1], want[1]):
                b = close_arrays(g, w, tol)
                if b:
                    raise Violation("result-differs-with-bar", f"{info}: {b}")
        if world.problems:
            raise Violation("updater", f"{info}: {world.problems}")
        if world.alive():
            raise Violation("updater-left-running", f"{info}: after {got[0]}, fault {fired}")
        if threading.active_count() != before:
            raise Violation("thread-left-running", f"{info}: {threading.enumerate()}")
        n = spec["npts"]
        if got[0] == "ok" and not world.bars:
            raise Violation("no-bar", info)
        if c["fault"] != "start":
            for bar in world.bars:
                if not bar._tqdm.disable:
                    raise Violation("bar-left-open", f"{info}: after {got[0]}, fault {fired}")
        for bar in world.bars:
            if bar._tqdm.total != n:
                raise Violation("total", f"{info}: total {bar._tqdm.total} for {n} points")
            if int(bar.hook[0]) > n or bar.verif_shown and max(bar.verif_shown) > n:
                raise Violation("count-exceeds-total", f"{info}: {int(bar.hook[0])} of {n}")
            if got[0] == "ok" and (int(bar.hook[0]) != n or bar._tqdm.n != n):
                raise Violation("count", f"{info}: counter {int(bar.hook[0])}, displayed {bar._tqdm.n}, {n} points")
        if world.lowered:
            raise Violation("count-went-back", info)
    st = out.stats
    st["fault_preemption"] = st.get("par_switches", 0)
    st.add("family_" + case["fam"])
    if nontrivial:
        st.setdefault("_schedules", []).append(sha(trace))
    else:
        st.pop("_schedules", None)
    out.digest = sha(trace)


def shrink(case):
    for k in range(len(case["calls"])):
        if len(case["calls"]) > 1:
            yield dict(case, calls=case["calls"][:k] + case["calls"][k + 1:])
    for s in models.shrink_spec(case["spec"]):
        yield dict(case, spec=s, bad=[[i % (s["npts"] or 1), j, m] for i, j, m in case["bad"]])
    for k, c in enumerate(case["calls"]):
        variants = []
        if c["fault"]:
            variants.append(dict(c, fault=None))
        if c["parallel"]:
            variants.append(dict(c, parallel=False))
        if c["shown"]:
            variants.append(dict(c, shown=0.0))
        variants += [dict(c, plan=p) for p in simpar.shrink_plan(c["plan"])]
        for v in variants:
            yield dict(case, calls=case["calls"][:k] + [v] + case["calls"][k + 1:])
