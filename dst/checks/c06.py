"""C06: concurrent callers get the results they would get alone."""

import os
import shutil
import warnings

from .. import boot, catalog, interrupt, simnet, simthreads
from ..core import Rng, Violation, equal_values, sha
from ..zygote import Zygote
from . import c07

RULE = (
    "A case is 2-4 threads of one program, each making 1-3 calls of the public interface on shared arguments (arrays, "
    "frames, grids, option dictionaries, layers, bodies, a fitted estimator, a geomagnetic model used for the first "
    "time). The threads are real; one runs at a time and a seeded scheduler decides at every line or bytecode "
    "instruction of library code which one goes on. Some threads are hit by an exception. Every other call must give "
    "what it gives alone in a fresh copy of the process. Non-trivial when at least one switch happened inside a call."
)
MEASURE = "hash of the sequence of thread switches (threads and statements)"
REAL = ["all of harmonica, kernels run as Python code", "verde, xarray, xrft, scikit-learn, pooch, requests", "the threads"]
STUB = ["the choice of the running thread", "locks created by library code", "Numba compilation is off",
        "HTTP transport (simulated archive)"]
ASSUMPTIONS = ["switches happen at lines or bytecode instructions of harmonica and verde code, in third-party code only when it calls back",
               "results equal within 1e-9 of their scale",
               "compiled kernels running at the same time in real parallel regions are covered one call at a time (C01-C03)"]
BUDGET = dict(quick=30, thorough=700)
EXC = ["memory", "interrupt", "value", "exit"]


def groups(tier):
    return ["calls", "estimator", "model", "grids", "layers", "calls", "estimator", "reads"]


def jit(group):
    return False


def env(group):
    return dict(MPLBACKEND="agg")


def prepare(group):
    simthreads.install_locks()
    ctx = c07.prepare(group)
    return ctx


POOL = dict(
    calls=["ellipsoid_g", "ellipsoid_m"] + catalog.GROUPS["forward"] + ["ellipsoid_surface", "angles", "mesh", "bouguer", "moho"],
    grids=["deriv", "continuation", "gaussian", "rtp", "gradient", "bouguer", "moho", "angles"],
    layers=["layer_make", "layer_gravity", "layer_body"],
    reads=["icgem", "oasis", "igrf", "igrf_grid", "euler", "sources"],
    model=["igrf", "igrf_grid"],
)


def gen(rng, ctx, i):
    group = ctx["group"]
    n = rng.pick([2, 2, 2, 3, 4])
    mode = rng.pick([dict(kind="pct", depth=rng.pick([1, 2, 3, 5]), horizon=rng.pick([60, 400, 4000])),
                     dict(kind="random", p=rng.pick([0.002, 0.02, 0.1, 0.4])),
                     dict(kind="first", p=rng.pick([0.15, 0.5])), dict(kind="first", p=rng.pick([0.3, 0.7]))])
    case = dict(group=group, mode=mode, seed=rng.getrandbits(32), opcodes=rng.chance(0.25), verde=rng.chance(0.3))
    if group == "estimator":
        spec = catalog.gen(rng, ["sources"], 0)
        queries = ["predict", "predict", "grid", "grid", "profile", "memory", "score", "fit-other", "scatter"]
        case.update(spec=spec, threads=[[dict(q=rng.pick(queries), salt=rng.randrange(3)) for _ in range(rng.randint(1, 3))]
                                        for _ in range(n)])
    elif group == "model":
        spec = catalog.gen(rng, ["igrf"], 0)
        other = dict(spec, date=rng.pick(catalog.OPTS["igrf"]["date"]), nmax=rng.pick([2, 4]))
        calls = [dict(q=rng.pick(["predict", "predict", "grid", "coefficients"]), salt=rng.randrange(3),
                      model=rng.pick([0, 0, 0, 1])) for _ in range(n * 2)]
        case.update(spec=spec, other=other, cached=rng.chance(0.6), threads=[calls[k::n] for k in range(n)])
    else:
        names = POOL[group]
        pool = [names[i % len(names)]] + rng.some(names, 0, 1)  # every function takes its turn as the shared one
        specs = [catalog.gen(rng, pool[:1], 0.06)]
        while rng.chance(0.6) and len(specs) < 4:
            specs.append(c07.vary(rng, rng.pick(specs)) if rng.chance(0.6) else catalog.gen(rng, pool, 0.06))
        for s in specs:
            if s["name"] in ("tesseroid", "layer_gravity") and rng.chance(0.7):
                s["field"] = "potential"
        calls = [[rng.randrange(len(specs)) for _ in range(rng.randint(1, 2))] for _ in range(n)]
        if rng.chance(0.6):  # several threads are the first to use the same objects
            for c in calls[:rng.randint(2, n)]:
                c[0] = 0
        case.update(specs=specs, threads=calls)
    if rng.chance(0.25) and not case["opcodes"]:  # the two together crash CPython 3.12
        case["fault"] = [rng.randrange(n), rng.logint(1, 1500), rng.pick(EXC)]
    return case


def crash_is_harness(case):
    # instruction tracing of several threads is not solid in CPython 3.12
    return case["opcodes"]


# ---------------------------------------------------------------- workload
def shared(case, scratch):
    """The objects the threads share; a pure function of the case."""
    if case["group"] == "estimator":
        a = catalog.build(case["spec"], scratch)
        e = catalog.new_sources(case["spec"], a, False)
        e.fit(a["coordinates"], a["data"], a["weights"])
        return dict(args=a, estimator=e)
    if case["group"] == "model":
        return dict(models=[catalog.build(s, scratch)["model"] for s in (case["spec"], case["other"])])
    out = []
    for s in case["specs"]:
        out.append(catalog.build(s, scratch))
    return dict(args=out)


def perform(case, sh, what):
    import numpy as np

    if case["group"] == "estimator":
        e, q, salt = sh["estimator"], what["q"], what["salt"]
        a, sph = sh["args"], case["spec"]["kind"] == "sph"
        r = np.random.default_rng([case["seed"], salt])
        z = 6.42e6 if sph else 40.0
        if q == "predict":
            if salt == 0:
                return e.predict(a["targets"])
            k = 1 + 3 * salt
            return e.predict((r.uniform(-20, 20, k), r.uniform(-20, 20, k), np.full(k, z + salt)))
        xx, yy = np.meshgrid(np.linspace(-9, 12, 2 + salt), [-15.0, 4.0, 7.0])
        if q == "grid":
            kw = dict(projection=lambda e, n, **k: (e * (1 + salt), n + 3.0)) if case["spec"]["projection"] and not sph else {}
            return e.grid((xx, yy, np.full(xx.shape, z + salt)), **kw)
        if q == "profile":
            return e.profile((-10.0, -5.0 - salt), (12.0, 8.0), upward=z, size=3 + salt) if not sph else e.predict((xx, yy, np.full(xx.shape, z)))
        if q == "memory":
            return e.estimate_required_memory(a["coordinates"] if salt else tuple(np.asarray(c)[:3] for c in a["coordinates"]))
        if q == "score":
            return e.score(a["coordinates"], a["data"], a["weights"])
        if q == "scatter":
            return np.asarray(e.coefs_).copy(), [np.array(p) for p in e.points_], list(e.region_)
        other = catalog.new_sources(case["spec"], a, False)
        other.fit(a["coordinates"], np.asarray(a["data"], dtype=float) * (2.0 + salt), a["weights"])
        return other.predict(a["targets"])
    if case["group"] == "model":
        m, q, salt = sh["models"][what["model"]], what["q"], what["salt"]
        if q == "predict":
            k = 1 + 2 * salt
            r = np.random.default_rng([case["seed"], salt])
            return m.predict((r.uniform(-180, 180, k), r.uniform(-89, 89, k), r.uniform(0, 1e4, k)))
        if q == "grid":
            return m.grid((-20.0, 30.0 + salt, -40.0, 50.0), 100.0 * salt, shape=(2 + salt, 3))
        g, h = m.coefficients
        return np.array(g), np.array(h)
    return catalog.call(case["specs"][what], sh["args"][what])


def attempt(f):
    try:
        return "ok", c07.plain(f())
    except BaseException as e:
        return "error", type(e).__name__


def run(case, ctx, out):
    scratch = os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), f"c06-{os.getpid()}")
    os.makedirs(scratch)
    try:
        _run(case, ctx, out, scratch)
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


def _run(case, ctx, out, scratch):
    import numpy as np

    os.chdir(scratch)
    warnings.simplefilter("ignore")
    world = simnet.World(ctx["archive"], [])
    world.install()
    cache = catalog.cache_dir(scratch, world)
    if case.get("cached", True):
        (cache / simnet.FILE_NAME).write_bytes(ctx["archive"].bytes)

    def alone(what):
        # first and only call of a fresh process, with its own arguments and cache
        if not case.get("cached", True):
            os.environ["XDG_CACHE_HOME"] = os.path.join(scratch, f"alone-{os.getpid()}")
        np.random.seed(5)
        sh = shared(case, scratch)
        return attempt(lambda: perform(case, sh, what))

    fresh = Zygote(alone)
    want = {}
    for calls in case["threads"]:
        for w in calls:
            if repr(w) not in want:
                want[repr(w)] = fresh.ask(w)
    fresh.close()
    sh = shared(case, scratch)
    twin = shared(case, scratch)  # looking at an object may be its first use
    pictured = [catalog.public(a) for a in twin["args"]] if isinstance(twin.get("args"), list) else catalog.public(twin.get("args"))
    fault = case.get("fault")
    s = simthreads.Scheduler(
        Rng("threads", case["seed"]), case["mode"], roots=interrupt.all_roots() if case["verde"] else None,
        opcodes=case["opcodes"], faults={fault[0]: (fault[1], fault[2])} if fault else None)

    def body(calls):
        def f():
            return [(attempt(lambda: perform(case, sh, w))) for w in calls]

        return f

    got = s.run([body(c) for c in case["threads"]])
    if s.deadlock:
        raise Violation("deadlock", f"{case['threads']}: {s.trace[-8:]}")
    if s.fired:
        out.fired("exception_in_one_caller")
    out.stats.add("switches", s.switches)
    out.stats.add("decision_points", s.points)
    out.stats.add("mode_" + case["mode"]["kind"])
    label = case.get("spec", case.get("specs"))
    for k, calls in enumerate(case["threads"]):
        if got[k] is None:
            raise Violation("caller-died", f"thread {k} {calls} of {label}")
        for j, w in enumerate(calls):
            a, b = got[k][j], want[repr(w)]
            where = f"thread {k} call {j} {w if not isinstance(w, int) else case['specs'][w]} among {case['threads']} of {label}"
            out.stats.add("calls_" + a[0])
            if k in s.fired and a[0] == "error":
                continue
            if a[0] != b[0] or (a[0] == "error" and a[1] != b[1]):
                raise Violation("concurrency-changes-outcome", f"{where}: {b if b[0] == 'error' else 'ok'} alone, "
                                f"{a if a[0] == 'error' else 'ok'} here; switches {s.trace[:12]}")
            if a[0] == "ok":
                bad = equal_values(a[1], b[1], 1e-9, path="result")
                if bad:
                    raise Violation("concurrency-changes-result", f"{where}: {bad} (second: alone); switches {s.trace[:12]}")
    after = [catalog.public(a) for a in sh["args"]] if isinstance(sh.get("args"), list) else catalog.public(sh.get("args"))
    if after != pictured:
        raise Violation("shared-arguments-changed", f"{label}")
    # what is left behind serves later calls as well
    for calls in case["threads"]:
        w = calls[-1]
        a, b = attempt(lambda: perform(case, sh, w)), want[repr(w)]
        if a[0] != b[0] or (a[0] == "ok" and equal_values(a[1], b[1], 1e-9)):
            raise Violation("later-call-differs", f"{w} of {label}: {a if a[0] == 'error' else equal_values(a[1], b[1], 1e-9)}")
    out.digest = sha(s.trace, s.points)
    if s.switches > 1:
        out.sigs.append(s.trace)


def shrink(case):
    th = case["threads"]
    if "fault" in case:
        yield {k: v for k, v in case.items() if k != "fault"}
    for k in range(len(th)):
        if len(th) > 2 and not ("fault" in case and case["fault"][0] >= k):
            yield dict(case, threads=th[:k] + th[k + 1:])
    for k in range(len(th)):
        for j in range(len(th[k])):
            if len(th[k]) > 1:
                yield dict(case, threads=th[:k] + [th[k][:j] + th[k][j + 1:]] + th[k + 1:])
    if case["opcodes"]:
        yield dict(case, opcodes=False)
    if case["verde"]:
        yield dict(case, verde=False)
    if case["mode"]["kind"] == "pct" and case["mode"]["depth"] > 1:
        yield dict(case, mode=dict(case["mode"], depth=1))
