"""C04: a failure inside a parallel worker is never turned into silent numbers."""

import warnings

from .. import boot, eqs, models, simnet, simpar, simprogress
from ..core import Violation, close_arrays, sha

RULE = (
    "A case is a parallel calculation in which some observation points cannot be computed (they coincide with a "
    "source or overflow the adaptive discretization) or in which chosen scratch allocations of the workers fail, "
    "plus plans of the parallel loops, drawn from the seed. Non-trivial when an error was raised inside the loop, "
    "or when it ran more than one row with a point for which the outcome of the serial run had to be matched."
)
MEASURE = "hash of the call, of the failing points and of the complete sequence of (row, worker, preemption step, error) decisions"
REAL = ["harmonica forward models, layers, equivalent sources, IGRF14", "Numba-compiled kernels", "progress bars' counters"]
STUB = ["Numba's thread pool (errors on simulated pool threads are lost exactly as on real ones)",
        "malloc inside compiled code (a preloaded wrapper lets chosen calls fail)"]
ASSUMPTIONS = ["an exception raised on a pool thread is invisible to the caller unless the kernel reports it, as in Numba's threading layers",
               "completed calls agree with the serial run within 1e-8 of the component's scale (2e-4 in float32)"]
BUDGET = dict(quick=26, thorough=600)
GROUPS = dict(
    a=[("pg", f) for f in models.FAMILIES["pg"]],
    b=[("ps", f) for f in models.FAMILIES["ps"]] + [("dip", f) for f in models.B],
    c=[("tg", "g_z")],
    d=[("tgv", "potential")],
    e=[("eqs", "cart"), ("eqs", "gb")],
    f=[("eqs", "sph"), ("igrf", "predict"), ("igrf", "grid")],
    g=[("prg", f) for f in models.PG[::2]] + [("prm", f) for f in models.B] + [("pl", "g_z")],
    h=[("tl", "g_z")],
)


def groups(tier):
    return list(GROUPS)


def setup():
    boot.build_c("allocfault")
    boot.build_c("simpar")


def env(group):
    return dict(LD_PRELOAD=str(boot.build_c("allocfault")))


def prepare(group):
    simpar.install()
    boot.import_harmonica()
    simprogress.World().install()
    if any(fam == "igrf" for fam, _ in GROUPS[group]):
        simnet.serve()
    return dict(group=group, warmed=set())


def gen(rng, ctx, i):
    fams = GROUPS[ctx["group"]]
    fam, field = fams[i % len(fams)] if i < len(fams) else rng.pick(fams)
    plans = []
    for _ in range(rng.randint(2, 4)):
        plan = simpar.random_plan(rng, preempt=0.5)
        plan["alloc"] = None
        if rng.chance(0.35 if fam not in ("tg", "tgv", "tl", "igrf") else 0.5):
            plan["alloc"] = [rng.logint(1, 60) - 1, rng.pick([0, 0, 0, 1, 3])]
        plans.append(plan)
    case = dict(fam=fam, field=field, plans=plans, progress=False, seed=rng.getrandbits(32))
    if fam == "eqs":
        spec = eqs.gen_spec(rng, field)
        if spec["n"] < 3:
            spec.update(n=6, shape2d=False)
        spec["points"] = "custom"
        spec["damping"] = 1.0
        case.update(spec=spec, what=rng.pick(["fit", "predict", "jacobian"]), npts=rng.pick([1, 2, 3, 5, 8, 17, 40]))
        if rng.chance(0.15):  # past any plausible block size
            case["npts"] = rng.pick([300, 700, 1030, 4099, 10007])
            if case["what"] == "jacobian" or spec["kind"] != "gb":
                spec.update(n=rng.pick([150, 300, 700]), shape2d=False)
        n = spec["n"] if case["what"] != "predict" else case["npts"]
    elif fam == "igrf":
        case.update(npts=rng.pick([1, 2, 3, 8, 17]), nmax=rng.pick([13, 13, 5, 2]))
        n = 0
    else:
        case["spec"] = models.gen_spec(rng, fam, field, kinds=["array", "array", "2d", "list", "noncontig"], big=rng.chance(0.3),
                                       max_pts=200 if rng.chance(0.8) else None)
        if fam in ("tg", "tgv"):
            case["spec"].update(dens="lin", radial=rng.chance(0.75), near=False)
        case["progress"] = fam in ("dip", "prg", "prm") and rng.chance(0.25)
        if fam in models.SPHERICAL and fam != "ps":
            case["spec"].pop("dtype", None)
        n = case["spec"]["npts"]
    nbad = rng.pick([0, 1, 1, 1, 2, 3])
    case["bad"] = [[rng.randrange(n), rng.randrange(64), rng.randrange(4)] for _ in range(nbad)] if n else []
    if fam in ("tg", "tgv") and case["bad"] and rng.chance(0.2):  # points inside a tesseroid, mixed with others
        for b in case["bad"]:
            b[2] = rng.pick([4, 5, b[2]])
    elif fam in ("tg", "tgv") and case["bad"] and rng.chance(0.3):
        case["bad"][-1][2] = rng.pick([6, 6, 7, 8])
        case["spec"].update(radial=True)
        case["spec"].pop("bodies", None)
    return case


def warm_key_of(case):
    if case["fam"] == "eqs":
        return f"eqs|{case['field'] == 'sph'}"
    if case["fam"] == "igrf":
        return "igrf"
    return models.warm_key(case["spec"], case["progress"])


def warm(case, ctx):
    key = warm_key_of(case)
    if key in ctx["warmed"]:
        return None
    ctx["warmed"].add(key)
    warnings.simplefilter("ignore")
    try:
        if case["fam"] == "igrf":
            for op in ("predict", "grid"):
                igrf_call(dict(case, field=op, npts=2))
        elif case["fam"] == "eqs":
            c = dict(case, spec=dict(case["spec"], n=3, shape2d=False, weights=False), bad=[], npts=2, what="fit")
            if c["spec"]["kind"] == "gb":
                c["spec"]["window"] = "default"
            for par in (False, True):
                for what in ("fit", "predict", "jacobian"):
                    eqs_call(dict(c, what=what), par)
        else:
            ws = models.warm_spec(case["spec"])
            data = models.build(ws)
            for par in (False, True):
                models.call(ws, data, par, case["progress"])
    except Exception:
        pass
    return None


def with_bad_points(case, data):
    """Move the failing observation points onto (or next to) a source."""
    import numpy as np

    fam, spec = case["fam"], case["spec"]
    for i, j, mode in case["bad"] if spec["npts"] else []:
        i %= spec["npts"]
        if fam in ("pg", "ps", "dip"):
            j %= spec["nsrc"]
            for p, s in zip(data["points"], data["src"]):
                p[i] = s[j]
            if mode == 3:
                data["points"][2][i] += 1e-3 if fam != "ps" else 1.0
        elif fam in ("tg", "tgv"):
            j %= spec["nsrc"]
            t = data["body"][j]
            t[:4] = [-20.0, 20.0, -20.0, 20.0]
            data["points"][0][i] = [0.0, 3.25, -7.5, 0.0, 3.25, 352.5, 16.23, 9.36, -7.52][mode]
            data["points"][1][i] = [0.0, 1.5, 11.0, 0.0, 1.5, -11.0, 10.81, -2.19, 16.92][mode]
            if mode > 5:  # on the surface: no subdivision is ever fine enough
                data["points"][2][i] = t[5]
            elif mode > 3:
                data["points"][2][i] = (t[4] + t[5]) / 2
            else:
                data["points"][2][i] = data["body"][:, 5].max() + [0.5, 1.0, 0.75, 50.0][mode]
        elif fam in ("prg", "prm"):
            b = data["body"][j % spec["nsrc"]]
            data["points"][0][i] = b[0] if mode != 1 else (b[0] + b[1]) / 2
            data["points"][1][i] = b[2] if mode != 2 else (b[2] + b[3]) / 2
            data["points"][2][i] = b[5] if mode != 3 else (b[4] + b[5]) / 2
        elif fam == "pl":
            x, y, surf, ref, _ = data["layer"]
            data["points"][0][i] = x[j % x.size] - 15.0
            data["points"][1][i] = y[j % y.size] - 12.5
            data["points"][2][i] = ref if mode < 2 else np.nan_to_num(surf[j % y.size, j % x.size])
        elif fam == "tl":
            data["points"][2][i] = np.nanmax(data["layer"][2]) + [0.5, 2.0, 0.1, 30.0][mode]
    return data


def igrf_call(case):
    import harmonica as hm
    import numpy as np

    r = np.random.default_rng(case["seed"])
    m = hm.IGRF14("2020-06-01", max_degree=case["nmax"])
    n = case["npts"]
    if case["field"] == "predict":
        return m.predict((r.uniform(0, 360, n), r.uniform(-89, 89, n), r.uniform(0, 1e5, n)))
    g = m.grid((0, 50, -40, 60), 1000.0, shape=(n + 1, 3))
    return tuple(g[v].values for v in ("b_east", "b_north", "b_up"))


def eqs_call(case, parallel, only=None):
    import numpy as np

    spec = case["spec"]
    c, d, w = eqs.data_of(spec)
    est = eqs.make(spec, parallel)
    src = eqs.custom_points(spec)
    if case["what"] in ("fit", "jacobian"):
        c = tuple(x.copy() for x in c)
        flat = [x.reshape(-1) for x in c]
        for i, j, mode in case["bad"]:
            for a, s in zip(flat, src):
                a[i % spec["n"]] = s[j % s.size]
            if mode == 3:
                flat[2][i % spec["n"]] += 1e-2
        if case["what"] == "jacobian":
            return est.jacobian(tuple(flat), src)
        est.fit(c, d, w)
        return est.predict(eqs.targets(spec, 3))
    t = [x.copy() for x in eqs.targets(spec, case["npts"])]
    for i, j, mode in case["bad"]:
        for a, s in zip(t, src):
            a[i % case["npts"]] = s[j % s.size]
        if mode == 3:
            t[2][i % case["npts"]] += 1e-2
    # fitted with ordinary, serial calculations
    est.parallel = False
    est.fit(c, d, w)
    est.parallel = parallel
    if only is not None:
        t = [a[only] for a in t]
    return est.predict(tuple(t))


def outcome(f):
    """('ok', arrays) or ('error', type)."""
    import numpy as np

    try:
        r = f()
    except Exception as e:
        return "error", type(e).__name__
    return "ok", [np.array(x, dtype=float) for x in models.components(r)]


def run(case, ctx, out):
    import numpy as np

    warnings.simplefilter("ignore")
    boot.perturb(0)
    simpar.set_plan(None)
    bars = simprogress.World(case["seed"]).install()
    fam = case["fam"]
    tol = 1e-8
    info = {k: v for k, v in case.items() if k != "plans"}
    alone = None
    if fam == "igrf":
        def call(parallel):
            return igrf_call(case)

        def good(parallel):
            return igrf_call(case)
    elif fam == "eqs":
        tol = 1e-7

        def call(parallel):
            return eqs_call(case, parallel)

        def good(parallel):
            return eqs_call(dict(case, bad=[]), parallel)
        if case["what"] == "predict":
            def alone(take):
                return eqs_call(case, False, only=take)
    else:
        spec = case["spec"]
        tol = 2e-4 if spec.get("dtype") else 1e-8
        data = with_bad_points(case, models.build(spec))
        clean = models.build(spec)

        def call(parallel):
            return models.call(spec, data, parallel, case["progress"])

        def good(parallel):
            return models.call(spec, clean, parallel, case["progress"])

        def alone(take):
            return models.call(spec, data, False, take=take)
    want = outcome(lambda: call(False))
    good_want = outcome(lambda: good(False))
    if good_want[0] != "ok":
        raise Violation("serial-raises", f"{info}: {good_want}")
    if alone is not None and case["bad"]:
        n = case["npts"] if fam == "eqs" else case["spec"]["npts"]
        bad = sorted({b[0] % n for b in case["bad"]})
        singles = [outcome(lambda i=i: alone(np.array([i]))) for i in bad]
        rest = np.array([i for i in range(n) if i not in bad], dtype=int)
        failing = any(s[0] == "error" for s in singles) or (rest.size and outcome(lambda: alone(rest))[0] == "error")
        if failing != (want[0] == "error"):
            raise Violation("serial-failure-unreported", f"{info}: alone {singles}, together {want[0]}")
    if fam in ("tg", "tgv") and case["spec"]["radial"] and not case["spec"].get("bodies") and any(b[2] > 5 for b in case["bad"][-1:]):
        out.stats.add("impossible_points")
        if want[0] != "error":
            raise Violation("failure-unreported", f"{info}: a point on the surface of a tesseroid got a value")
    out.stats.add("serial_" + want[0])
    trace = [want[0]]
    for plan in case["plans"]:
        alloc = plan.get("alloc")
        if alloc:
            simpar.alloc_faults(alloc[0], alloc[1])
        with simpar.planned(plan, out.stats, tick=bars.tick if case["progress"] else None):
            got = outcome(lambda: call(True))
        seen, fired = simpar.alloc_counts() if alloc else (0, 0)
        simpar.alloc_faults()
        if fired:
            out.fired("allocation_failed", fired)
        out.stats.add("parallel_" + got[0])
        trace.append((got[0], fired))
        if got[0] == "ok":
            if want[0] == "error":
                raise Violation("failure-turned-into-numbers", f"{info}: serial raises {want[1]}, parallel returns")
            compare("incomplete-result" if fired else "parallel-differs", info, got[1], want[1], tol)
        elif want[0] == "ok" and not fired:
            raise Violation("parallel-raises", f"{info}: {got[1]}")
        # a failed call leaves nothing behind for the next one
        if got[0] == "error":
            with simpar.planned(plan, None):
                after = outcome(lambda: good(True))
            if after[0] != "ok":
                raise Violation("later-call-raises", f"{info}: {after[1]}")
            compare("later-call-differs", info, after[1], good_want[1], tol)
    if fam in ("tg", "tgv", "tl") and case["plans"][0].get("alloc"):
        simpar.alloc_faults(case["plans"][0]["alloc"][0] % 8, 0, 10**6)
        simpar.alloc_region(True)
        try:
            got = outcome(lambda: call(False))
        finally:
            simpar.alloc_region(False)
        seen, fired = simpar.alloc_counts()
        simpar.alloc_faults()
        if fired:
            out.fired("allocation_failed_serial", fired)
        if got[0] == "ok" and want[0] == "error":
            raise Violation("failure-turned-into-numbers", f"{info}: serial call with a failed allocation returns")
        if got[0] == "ok":
            compare("incomplete-result", info, got[1], want[1], tol)
        elif want[0] == "ok" and not fired:
            raise Violation("serial-raises", f"{info}: {got[1]}")
    st = out.stats
    st["fault_preemption"] = st.get("par_switches", 0)
    st["fault_worker_error_lost"] = st.get("par_errors_dropped", 0)
    st["fault_worker_error_on_caller"] = st.get("par_errors_on_caller", 0)
    st.add("family_" + fam)
    if not (st["fault_worker_error_lost"] or st["fault_worker_error_on_caller"]) and not (case["bad"] and st.get("max_par_rows", 0) > 1):
        st.pop("_schedules", None)
    out.digest = sha(trace, [x.tobytes() for x in want[1]] if want[0] == "ok" else want[1])


def compare(what, info, got, want, tol):
    if len(got) != len(want):
        raise Violation(what, f"{info}: {len(got)} components")
    for g, w in zip(got, want):
        bad = close_arrays(g, w, tol)
        if bad:
            raise Violation(what, f"{info}: {bad}")


def shrink(case):
    for k in range(len(case["plans"])):
        if len(case["plans"]) > 1:
            yield dict(case, plans=[case["plans"][k]])
    for k in range(len(case["bad"])):
        yield dict(case, bad=case["bad"][:k] + case["bad"][k + 1:])
    if case["progress"]:
        yield dict(case, progress=False)
    if case["fam"] == "eqs":
        for s in eqs.shrink_spec(case["spec"]):
            yield dict(case, spec=s)
    elif "spec" in case:
        for s in models.shrink_spec(case["spec"]):
            yield dict(case, spec=s, bad=[[i % s["npts"], j, m] for i, j, m in case["bad"]])
    for n in (1, 2):
        if n < case.get("npts", 0):
            yield dict(case, npts=n)
    for k, plan in enumerate(case["plans"]):
        if plan.get("alloc"):
            a, e = plan["alloc"]
            for alloc in [None] + ([[a, 0]] if e else []) + ([[0, e], [a // 2, e], [a - 1, e]] if a else []):
                yield dict(case, plans=case["plans"][:k] + [dict(plan, alloc=alloc)] + case["plans"][k + 1:])
        for p in simpar.shrink_plan(plan):
            yield dict(case, plans=case["plans"][:k] + [dict(p, alloc=plan.get("alloc"))] + case["plans"][k + 1:])
