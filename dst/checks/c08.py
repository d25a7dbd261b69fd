"""C08: a fit is all-or-nothing, forgets earlier fits, and survives queries."""

import warnings

from .. import boot, eqs, interrupt
from ..core import Violation, equal_values, freeze, sha

RULE = (
    "A case is a history of operations on one estimator (fits on several data sets, changes of settings, rejected "
    "input, predictions, grids, profiles, scores, memory estimates), where any operation may be hit by an exception "
    "at one of the library's statements; everything is drawn from the seed. Non-trivial when a fault fired or an "
    "operation failed after an earlier success."
)
MEASURE = "hash of the sequence of operations, outcomes and fault sites"
REAL = ["the five estimator classes, their kernels run as Python code", "verde, scikit-learn and SciPy solvers"]
STUB = ["the moment and kind of failure (exception raised before a chosen library statement)", "Numba compilation is off"]
ASSUMPTIONS = ["a statement that only moves references can neither fail nor be interrupted",
               "an injected failure after the complete new state is in place counts as a completed fit",
               "equality of fitted attributes and predictions within 1e-9 of their scale"]
BUDGET = dict(quick=28, thorough=600)
GROUPS = dict(cart=["cart"], gb=["gb"], sph=["sph"], euler=["ed", "ei", "eil"])
BAD = ["data-short", "two-coords", "empty", "nan-data", "nan-coord", "inf-coord", "weights-short", "strings", "one-point",
       "constant", "duplicated", "no-data", "strict-warnings"]
EXC = ["memory", "interrupt", "linalg", "value", "exit"]


def groups(tier):
    return list(GROUPS) + ["cart", "gb", "sph", "euler"]


def jit(group):
    return False


def prepare(group):
    hm = boot.import_harmonica()
    return dict(group=group, hm=hm)


def gen_settings(rng, kind):
    if kind in ("ed", "ei"):
        s = dict(structural_index=rng.pick([1, 2, 3]))
        if kind == "ei":
            s.update(max_iterations=rng.pick([1, 3, 20]), tol=rng.pick([0.1, 1e-4]), euler_misfit_balance=rng.pick([0.1, 1.0]))
        return s
    if kind == "eil":
        return dict(structural_index=rng.pick([[1, 2, 3], [3, 1], [2]]), max_iterations=rng.pick([1, 20]), tol=0.1,
                    euler_misfit_balance=0.1)
    return {}


def change(rng, kind):
    if kind in ("ei", "eil"):
        return rng.pick([dict(structural_index=rng.pick([1, 2, 3])), dict(structural_index=rng.pick([[1, 2, 3], [2, 3]])),
                         dict(max_iterations=rng.pick([1, 2, 20])), dict(tol=rng.pick([0.5, 1e-5]))])
    if kind == "ed":
        return dict(structural_index=rng.pick([1, 2, 3]))
    options = [dict(damping=rng.pick([None, 1e-3, 1.0, 50.0])), dict(points=rng.pick([None, "custom", "bad"])),
               dict(parallel=rng.chance(0.5))]
    if kind == "sph":
        options.append(dict(relative_depth=rng.pick([400.0, 5e4])))
    else:
        options += [dict(depth=rng.pick(["default", 20.0, 70.0, "bad"])), dict(block_size=rng.pick([None, 40.0, -3.0]))]
    if kind == "gb":
        options += [dict(window_size=rng.pick(["default", 60.0, 90.0, 1e9])), dict(random_state=rng.randrange(1000))]
    return rng.pick(options)


def gen(rng, ctx, i):
    kind = rng.pick(GROUPS[ctx["group"]])
    spec = eqs.gen_spec(rng, kind, n=rng.pick([4, 5, 6, 9, 12, 16])) if kind in ("cart", "gb", "sph") else dict(
        kind=kind, n=rng.pick([8, 12, 20]), seed=rng.getrandbits(32), shape2d=rng.chance(0.3))
    if spec.get("damping") is None and rng.chance(0.7) and kind in ("cart", "gb", "sph"):
        spec["damping"] = 1e-3
    large = kind == "gb" and rng.chance(0.06)
    if large:  # enough data for the default windows to be smaller than the region
        spec.update(n=rng.pick([4400, 7000, 7500, 9000]), points="custom", shape2d=False, window="default", block=None, depth=15.0)
    ops = []
    for _ in range(rng.randint(2, 3) if large else rng.randint(3, 9)):
        what = rng.pick(["fit", "fit", "fit", "fit", "bad", "set", "predict", "grid", "memory", "score", "profile", "filter"])
        op = dict(op=what, salt=rng.randrange(4), weights=rng.chance(0.4))
        if large:
            op["op"] = what = rng.pick(["fit", "fit", "fit", "predict", "memory"])
        if what in ("predict", "grid") and rng.chance(0.3):
            op["dtype"] = rng.pick(["float32", "int64", "float16"])
        if what == "bad":
            op.update(op="fit", bad=rng.pick(BAD))
        if what == "set":
            op["set"] = change(rng, kind)
        if what in ("predict", "grid") and rng.chance(0.2):
            op["bad"] = rng.pick(["two-coords", "strings", "mismatch"])
        if what == "memory" and rng.chance(0.3):
            op["bad"] = rng.pick(["two-coords", "empty", "nan-coord", "strings", "one-point"])
        if rng.chance(0.4) and what != "set" and not large:
            op.update(exc=rng.pick(EXC), at=rng.getrandbits(32))
        ops.append(op)
    return dict(kind=kind, spec=spec, settings=gen_settings(rng, kind), ops=ops)


# --------------------------------------------------------------- workload
def new(ctx, case):
    hm, kind = ctx["hm"], case["kind"]
    if kind == "ed":
        return hm.EulerDeconvolution(**case["settings"])
    if kind in ("ei", "eil"):
        return hm.EulerInversion(**case["settings"])
    return eqs.make(case["spec"], parallel=False)


def apply(est, settings, case):
    for k, v in settings.items():
        if k == "points":
            if v == "bad":
                p = eqs.custom_points(case["spec"])
                v = (p[0], p[1][:-1] if p[1].size > 1 else p[1], p[2])[: 3 if p[1].size > 1 else 2]
            elif v == "custom":
                v = eqs.custom_points(case["spec"])
        setattr(est, k, v)


def dataset(case, op):
    """Arguments of fit for an operation."""
    import numpy as np

    spec = case["spec"]
    if case["kind"] in ("cart", "gb", "sph"):
        s = dict(spec, weights=op["weights"])
        c, d, w = eqs.data_of(s, op["salt"])
        c, d, w = [np.array(x) for x in c], np.array(d), None if w is None else np.array(w)
        many = False
    else:
        r = np.random.default_rng([spec["seed"], op["salt"]])
        n = spec["n"]
        c = [r.uniform(-50, 50, n), r.uniform(-50, 50, n), r.uniform(0, 5, n)]
        src = np.array([r.uniform(-20, 20), r.uniform(-20, 20), -r.uniform(10, 40)])
        dx = [c[k] - src[k] for k in range(3)]
        dist = np.sqrt(sum(x**2 for x in dx))
        f = 1e5 / dist**2 + 3.0
        d = [f] + [-2e5 * x / dist**4 for x in dx]
        d = [x * (1 + 1e-3 * r.normal(size=n)) for x in d]
        w = (1, 0.1, 0.1, 0.025) if not op["weights"] else (1, 0.3, 0.2, 0.1)
        if spec["shape2d"]:
            c = [x.reshape(2, -1) for x in c]
            d = [x.reshape(2, -1) for x in d]
        many = True
    bad = op.get("bad")

    def each(f):
        return [f(x) for x in d] if many else f(d)

    if bad == "data-short":
        d = each(lambda x: x.ravel()[:-1])
    elif bad == "two-coords":
        c = c[:2]
    elif bad == "empty":
        c, d = [x.ravel()[:0] for x in c], each(lambda x: x.ravel()[:0])
        w = w if many or w is None else w.ravel()[:0]
    elif bad == "nan-data":
        (d[0] if many else d).flat[0] = np.nan
    elif bad == "nan-coord":
        c[0].flat[1] = np.nan
    elif bad == "inf-coord":
        c[2].flat[0] = np.inf
    elif bad == "weights-short":
        w = (1.0, 0.1) if many else np.ones(spec["n"] - 1)
    elif bad == "strings":
        d = each(lambda x: np.full(x.shape, "a"))
        c = [np.full(x.shape, "b") for x in c] if op["op"] != "fit" else c
    elif bad == "one-point":
        c, d = [x.ravel()[:1] for x in c], each(lambda x: x.ravel()[:1])
        w = w if many or w is None else w.ravel()[:1]
    elif bad == "constant":
        c = [np.full(x.shape, 5.0) for x in c]
    elif bad == "duplicated":
        for x in c:
            x.flat[:2] = x.flat[2:4]
    elif bad == "no-data":
        d = [None] * 4 if many else None
    return tuple(c), tuple(d) if many else d, w


def targets(case):
    return eqs.targets(case["spec"], 7)


def grid_coords(case, salt=0):
    import numpy as np

    if case["kind"] == "sph":
        x, y, z = np.linspace(-10, 10, 3), np.linspace(-20, 20, 2), 6.42e6 + salt
    else:
        x, y, z = np.linspace(-90, 90, 3), np.linspace(-70, 70, 2), 30.0 + salt
    xx, yy = np.meshgrid(x, y)
    return xx, yy, np.full(xx.shape, z)


def perform(est, op, case):
    what = op["op"]
    euler = case["kind"] in ("ed", "ei", "eil")
    if what in ("fit", "filter"):
        c, d, w = dataset(case, op)
        if case["kind"] == "ed":
            est.fit(c, d)
        elif euler:
            est.fit(c, d, weights=w)
        elif what == "filter":
            return est.filter(c, d, w)
        else:
            est.fit(c, d, w)
        return None
    if euler:
        return None
    if what == "memory":
        c, _, _ = dataset(case, op)
        return est.estimate_required_memory(c)
    if what == "score":
        c, d, w = dataset(case, dict(op, bad=None))
        return est.score(c, d, w)
    if what == "profile":
        return est.profile((-50.0, -40.0), (60.0, 55.0), upward=35.0, size=4)
    import numpy as np

    c = eqs.targets(case["spec"], 5, op["salt"]) if what == "predict" else grid_coords(case, op["salt"])
    if "dtype" in op:
        c = tuple(x.astype("float32" if op["dtype"] == "float16" and case["kind"] == "sph" else op["dtype"]) for x in c)
    if op.get("bad") == "two-coords":
        c = c[:2]
    elif op.get("bad") == "strings":
        c = (np.full(c[0].shape, "x"), *c[1:])
    elif op.get("bad") == "mismatch":
        c = (c[0], c[1], np.zeros(3))
    return est.predict(c) if what == "predict" else est.grid(c)


def attempt(f, strict=False):
    with warnings.catch_warnings():
        warnings.simplefilter("error" if strict else "ignore")
        try:
            return "ok", f()
        except BaseException as e:
            return "error", type(e).__name__


def fitted_attributes(est):
    return {k: v for k, v in sorted(vars(est).items()) if k.endswith("_") and not k.startswith("_")}


def picture(est, case):
    """Everything a user can see of the fitted state."""
    state, params = {}, {}
    for k, v in sorted(vars(est).items()):
        if k.startswith("_"):
            continue
        (state if k.endswith("_") else params)[k] = v
    if case["kind"] in ("cart", "gb", "sph"):
        p = attempt(lambda: est.predict(targets(case)))
        g = attempt(lambda: est.grid(grid_coords(case)))
        answers = [p, g[1] if g[0] == "error" else ("ok", g[1]["scalars"].values)]
    else:
        answers = [("ok", None) if "location_" in state else ("error", "NotFittedError")]
    return dict(answers=answers, state=state), freeze(params)


def differ(a, b):
    if set(a["state"]) != set(b["state"]):
        return f"attributes {sorted(a['state'])} vs {sorted(b['state'])}"
    return equal_values(a["answers"], b["answers"], 1e-9, path="answers") or equal_values(a["state"], b["state"], 1e-9)


def run(case, ctx, out):
    est = new(ctx, case)
    settings = {}  # changes applied so far
    fitted = None  # picture of the last good fit, made by a fresh estimator
    trace = []
    nontrivial = False
    euler = case["kind"] in ("ed", "ei", "eil")
    for k, op in enumerate(case["ops"]):
        info = f"{case['spec']} step {k} {op}"
        if op["op"] == "set":
            apply(est, op["set"], case)
            settings.update(op["set"])
            if fitted is not None:
                # answers may depend on settings that act at prediction time
                now, _ = picture(est, case)
                bad = equal_values(now["state"], fitted["state"], 1e-9)
                if bad:
                    raise Violation("setting-changed-fitted-state", f"{info}: {bad}")
                if "error" in (now["answers"][0][0], now["answers"][1][0]) if not euler else False:
                    raise Violation("setting-broke-prediction", f"{info}: {now['answers']}")
            continue
        strict = op.get("bad") == "strict-warnings"
        is_fit = op["op"] in ("fit", "filter")
        # a fresh estimator doing the same
        fresh = new(ctx, case)
        apply(fresh, settings, case)
        if not is_fit and fitted is not None:
            for name, v in fitted["state"].items():
                setattr(fresh, name, v)
        sites = []
        if "exc" in op:
            tracer = interrupt.Tracer(roots=interrupt.all_roots())
            with tracer:
                want = attempt(lambda: perform(fresh, op, case), strict)
            sites = tracer.sites
        else:
            want = attempt(lambda: perform(fresh, op, case), strict)
        before, params = picture(est, case)
        at = interrupt.choose(boot_rng(op["at"]), sites) if sites else None
        tracer = interrupt.Tracer(at, op.get("exc"), roots=interrupt.all_roots())
        if at is not None:
            with tracer:
                got = attempt(lambda: perform(est, op, case), strict)
        else:
            got = attempt(lambda: perform(est, op, case), strict)
        after, params2 = picture(est, case)
        fired = tracer.fired
        if fired:
            out.fired(op["exc"])
            out.stats.add("sites_" + interrupt.short(fired).split(":")[0])
        trace.append((op["op"], got[0], interrupt.short(fired)))
        nontrivial |= bool(fired) or (got[0] == "error" and fitted is not None)
        out.stats.add(f"{op['op']}_{got[0]}")
        where = f"{info}, exception at {interrupt.short(fired)}" if fired else info
        if params2 != params:
            raise Violation("settings-changed", f"{where}: the call changed the estimator's settings")
        if not fired and got[0] != want[0]:
            raise Violation("history-changes-outcome", f"{where}: {want if want[0] == 'error' else 'ok'} on a new estimator, "
                            f"{got if got[0] == 'error' else 'ok'} here")
        if got[0] == "ok" and want[0] == "ok" and not fired:
            bad = equal_values(got[1], want[1], 1e-9, path="result")
            if bad:
                raise Violation("history-changes-result", f"{where}: {bad}")
        if is_fit and got[0] == "ok":
            if want[0] == "ok":
                ref, _ = picture(fresh, case)
                bad = differ(after, ref)
                if bad:
                    raise Violation("refit-differs-from-new-fit", f"{where}: {bad}")
                fitted = ref
            continue
        # failed fit or any query: nothing may have changed
        if is_fit and ((fired and want[0] == "ok") or op["op"] == "filter"):
            # failed after the whole new state was in place
            ref, _ = picture(fresh, case)
            if ref["answers"][0][0] == "ok" and not differ(after, ref):
                fitted = ref
                continue
        if fitted is None:
            if after["answers"][0] != ("error", "NotFittedError"):
                raise Violation("unfitted-answers", f"{where}: {after['answers'][0]} ({got})")
            continue
        bad = differ(after, before)
        if bad:
            raise Violation("failed-fit-changed-estimator" if is_fit else "query-changed-estimator",
                            f"{where} ({got[1] if got[0] == 'error' else 'ok'}): {bad}")
    out.digest = sha(trace)
    out.stats.add("kind_" + case["kind"])
    if nontrivial:
        out.sigs.append(trace)


def boot_rng(seed):
    from ..core import Rng

    return Rng("site", seed)


def shrink(case):
    ops = case["ops"]
    for k in range(len(ops)):
        if len(ops) > 1:
            yield dict(case, ops=ops[:k] + ops[k + 1:])
    for k, op in enumerate(ops):
        variants = []
        if "exc" in op:
            variants.append({x: y for x, y in op.items() if x not in ("exc", "at")})
        if op["salt"]:
            variants.append(dict(op, salt=0))
        if op["weights"]:
            variants.append(dict(op, weights=False))
        for v in variants:
            yield dict(case, ops=ops[:k] + [v] + ops[k + 1:])
    if case["kind"] in ("cart", "gb", "sph"):
        for s in eqs.shrink_spec(case["spec"]):
            yield dict(case, spec=s)
