"""C02: equivalent sources do not depend on how parallel work is scheduled."""

import warnings

from .. import boot, eqs, models, simpar
from ..core import Violation, close_arrays, equal_values, sha

RULE = (
    "A case is an equivalent-source workload (class, settings, data, prediction points, grid) plus plans of the "
    "parallel loops (threads, chunks, order, worker map, machine-instruction preemptions) and heap fill bytes, "
    "all drawn from the seed. Non-trivial when some compiled parallel loop ran more than one row or was preempted."
)
MEASURE = "hash of the workload and of the complete sequence of (row, worker, preemption step) decisions"
REAL = ["EquivalentSources, EquivalentSourcesGB, EquivalentSourcesSph", "Numba-compiled kernels", "verde, scikit-learn solvers"]
STUB = ["Numba's thread pool replaced by a deterministic coroutine scheduler", "contents of fresh heap memory"]
ASSUMPTIONS = ["workers share memory with sequential consistency",
               "agreement of Jacobians and predictions within 1e-8 of their scale (2e-4 in float32); of fitted models within "
               "1e-5 of the scale of the prediction, when damping keeps the system well conditioned"]
GROUPS = dict(a=("cart",), b=("sph",), c=("gb",), d=("cart32", "gb32"))
PERTURB = [0, 0x01, 0x80, 0xC0, 0x3F, 0xFE]


def groups(tier):
    return list(GROUPS)


def prepare(group):
    simpar.install()
    boot.import_harmonica()
    return dict(group=group, warmed=set())


def gen(rng, ctx, i):
    kind = rng.pick(GROUPS[ctx["group"]])
    spec = eqs.gen_spec(rng, kind.removesuffix("32"))
    if kind.endswith("32"):
        spec["dtype"] = "float32"
        spec["damping"] = 10.0
    if rng.chance(0.1):
        spec["n"], spec["shape2d"] = rng.pick([64, 100, 150]), False
    extreme = rng.random()
    npred = rng.pick([1, 2, 3, 5, 8, 13, 17, 40, 64, 101, 256, 257, 600, 1764])
    if extreme < 0.05:  # past any plausible block size
        spec["n"], npred = min(spec["n"], 12), rng.pick([1025, 4099, 8193, 10007, 16411, 40009])
    elif extreme < 0.10:  # far more sources than prediction points
        spec["n"], spec["shape2d"], npred = rng.pick([260, 420, 700, 1030]), False, rng.pick([1, 2, 3])
    if spec["damping"] is None and rng.chance(0.7):
        spec["damping"] = 1e-3
    case = dict(spec=spec, npred=npred, pshape=rng.pick(["1d", "1d", "2d", "fortran", "col", "scalar"]),
                plans=[], alone=rng.sample(range(64), 3), grid=rng.pick([[rng.randint(1, 6), rng.randint(2, 7)], [rng.randint(1, 25), rng.randint(2, 25)], [rng.randint(1, 70), rng.randint(2, 70)]]),
                projection=spec["kind"] != "sph" and rng.chance(0.3))
    if rng.chance(0.3):
        case["layout"] = rng.pick(["runs", "runs", "same", "grid", "sorted", "profile", "clusters"])
    for _ in range(2):
        plan = simpar.random_plan(rng, preempt=0.75)
        plan["perturb"] = rng.pick(PERTURB)
        case["plans"].append(plan)
    return case


def warm(case, ctx):
    key = (case["spec"]["kind"] == "sph", case["spec"].get("dtype", ""))
    if key not in ctx["warmed"]:
        ctx["warmed"].add(key)
        spec = dict(case["spec"], n=3, damping=1.0, points="custom", shape2d=False, weights=False)
        if spec["kind"] == "gb":
            spec["window"] = "default"
        try:
            warnings.simplefilter("ignore")
            for par in (False, True):
                est = eqs.make(spec, par)
                c, d, w = eqs.data_of(spec)
                est.fit(c, d, w)
                est.predict(eqs.targets(spec, 2))
        except Exception:
            pass
    return None


def shaped(coords, how):
    import numpy as np

    n = coords[0].size
    if how == "2d":
        k = models.rows_of(n) if n > 11 else 2 if n % 2 == 0 else 1
        return tuple(c.reshape(k, -1) for c in coords)
    if how == "fortran":
        return tuple(np.asfortranarray(c.reshape(models.rows_of(n), -1)) for c in coords)
    if how == "col":
        return tuple(c.reshape(-1, 1) for c in coords)
    if how == "scalar" and n == 1:
        return tuple(np.array(c[0]) for c in coords)
    return coords


def attempt(what, f):
    try:
        return f()
    except Exception as e:
        raise Violation(what, f"{type(e).__name__}: {e}")


def session(case, parallel):
    """Fit, Jacobian, predictions and a grid."""
    import numpy as np

    spec = case["spec"]
    c, d, w = eqs.data_of(spec)
    est = eqs.make(spec, parallel)
    est.fit(c, d, w)
    flat = tuple(x.ravel().astype(spec.get("dtype", float)) for x in c)
    t = models.arrange(list(eqs.targets(spec, case["npred"])), case.get("layout"), np.random.default_rng(spec["seed"]))
    t = shaped(tuple(t), case["pshape"])
    out = dict(points=est.points_, coefs=est.coefs_, jac=est.jacobian(flat, est.points_), pred=est.predict(t),
               at_data=est.predict(c))
    ny, nx = case["grid"]
    if spec["kind"] == "sph":
        x, y, z = np.linspace(-10, 10, nx), np.linspace(-20, 20, ny), 6.42e6
    else:
        x, y, z = np.linspace(-90, 90, nx), np.linspace(-70, 70, ny), 30.0
    xx, yy = np.meshgrid(x, y)
    zz = np.full(xx.shape, z) + np.arange(xx.size).reshape(xx.shape)
    kw = dict(projection=lambda e, n, **k: (e * 1.5, n + 3.0)) if case["projection"] else {}
    out["grid"] = est.grid((xx, yy, zz), **kw)
    px, py = kw["projection"](xx, yy) if kw else (xx, yy)
    out["nodes"] = est.predict((px, py, zz))
    if spec["kind"] != "sph":
        prof = est.profile((-50.0, -40.0), (60.0, 55.0), upward=35.0, size=max(1, case["npred"] // 2))
        out["profile"] = prof["scalars"].to_numpy()
        pe, pn = prof["easting"].to_numpy(), prof["northing"].to_numpy()
        out["profile_nodes"] = est.predict((pe, pn, np.full(pe.shape, 35.0)))
    return est, t, out


def check_session(case, est, t, out, tol):
    import numpy as np

    spec = case["spec"]

    def same(what, a, b, scale=None, rtol=tol):
        bad = close_arrays(np.asarray(a), np.asarray(b), rtol, scale=scale)
        if bad:
            raise Violation(what, f"{spec}: {bad}")

    c, _, _ = eqs.data_of(spec)
    ftol = max(tol, 1e-5) if spec["kind"] == "sph" else max(tol, 1e-7)
    same("jacobian-differs-from-formula", out["jac"], eqs.np_green(spec["kind"], c, est.points_), rtol=ftol)
    green = eqs.np_green(spec["kind"], t, est.points_)
    scale = float(np.max(np.sum(np.abs(green * est.coefs_.astype(float)), axis=1)))
    same("prediction-differs-from-formula", np.ravel(out["pred"]), green @ est.coefs_.astype(float), scale, ftol)
    if out["pred"].shape != np.shape(t[0]):
        raise Violation("prediction-shape", f"{out['pred'].shape} for {np.shape(t[0])}")
    gscale = scale
    same("grid-differs-from-prediction", out["grid"]["scalars"].values, out["nodes"], gscale)
    if "profile" in out:
        same("profile-differs-from-prediction", out["profile"], out["profile_nodes"], gscale)
    for i in case["alone"]:
        if i < case["npred"]:
            one = est.predict(tuple(np.ravel(x)[i:i + 1] for x in t))
            same("depends-on-other-points", one, np.ravel(out["pred"])[i:i + 1], scale)
    return scale


def run(case, ctx, out):
    import numpy as np

    warnings.simplefilter("ignore")
    spec = case["spec"]
    f32 = spec.get("dtype") == "float32"
    tol = 2e-4 if f32 else 1e-8
    boot.perturb(0)
    simpar.set_plan(None)
    est, t, ref = attempt("serial-raises", lambda: session(case, False))
    scale = check_session(case, est, t, ref, tol)
    digests = [sha([x.tobytes() for x in (ref["coefs"], ref["jac"], ref["pred"])])]
    for plan in case["plans"]:
        boot.perturb(plan["perturb"])
        with simpar.planned(plan, out.stats):
            par, t2, got = attempt("parallel-raises", lambda: session(case, True))
        with simpar.planned(plan, None):
            check_session(case, par, t2, got, tol)
        for k in ("points", "jac"):
            bad = equal_values(got[k], ref[k], tol)
            if bad:
                raise Violation(f"parallel-{k}-differs", f"{spec}: {bad}")
        if spec["damping"] is not None and spec["damping"] >= 1e-3:
            for k in ("at_data", "pred", "nodes", "profile"):
                if k in ref:
                    bad = close_arrays(got[k], ref[k], 2e-3 if f32 else 1e-5, scale=max(scale, float(np.max(np.abs(ref[k])))))
                    if bad:
                        raise Violation("parallel-fit-differs", f"{spec} {k}: {bad}")
        # the same fitted model predicted under the plan and serially
        par.parallel = False
        again = par.predict(t2)
        bad = close_arrays(got["pred"], again, tol, scale=scale)
        if bad:
            raise Violation("parallel-prediction-differs", f"{spec}: {bad}")
        out.stats.add("parallel_sessions")
        if plan["perturb"]:
            out.fired("stale_heap_fill")
        d = sha([x.tobytes() for x in (got["coefs"], got["jac"], got["pred"])])
        out.stats.add("bit_identical_parallel", int(d == digests[0]))
        digests.append(d)
    out.stats["fault_preemption"] = out.stats.get("par_switches", 0)
    out.stats.add("class_" + spec["kind"])
    if out.stats.get("max_par_rows", 0) < 2 and not out.stats.get("par_switches"):
        out.stats.pop("_schedules", None)
    out.digest = sha(digests)


def shrink(case):
    for k in range(len(case["plans"])):
        if len(case["plans"]) > 1:
            yield dict(case, plans=[case["plans"][k]])
    if case["plans"]:
        yield dict(case, plans=[])
    if case["alone"]:
        yield dict(case, alone=[])
    for n in (1, 2, case["npred"] // 2):
        if 0 < n < case["npred"]:
            yield dict(case, npred=n, pshape="1d")
    if case.get("layout"):
        yield {k: v for k, v in case.items() if k != "layout"}
    if case["grid"] != [1, 2]:
        yield dict(case, grid=[1, 2])
    if case["projection"]:
        yield dict(case, projection=False)
    for s in eqs.shrink_spec(case["spec"]):
        yield dict(case, spec=s)
    for k, plan in enumerate(case["plans"]):
        for p in simpar.shrink_plan(plan):
            yield dict(case, plans=case["plans"][:k] + [dict(p, perturb=plan["perturb"])] + case["plans"][k + 1:])
        if plan["perturb"]:
            yield dict(case, plans=case["plans"][:k] + [dict(plan, perturb=0)] + case["plans"][k + 1:])
