"""C01: forward models do not depend on how parallel work is scheduled."""

from .. import boot, models, simpar
from ..core import Violation, close_arrays, freeze, sha

RULE = (
    "A case is a forward-model call (family, field, points, bodies, array kinds) plus several plans "
    "(thread count, chunk size, row order, row-to-worker map, machine-instruction preemptions) and heap fill "
    "bytes, all drawn from the seed. It is non-trivial when the compiled parallel loop ran more than one row "
    "or was preempted; distinct = hash of (case, every scheduling decision taken)."
)
MEASURE = "hash of the call and of the complete sequence of (row, worker, preemption step) decisions of its plans"
REAL = ["harmonica forward models and layers", "Numba-compiled machine code of the kernels (serial and parallel)",
        "Numba parfor scheduling tables", "choclo, numpy, xarray, scipy"]
STUB = ["Numba's thread pool (omp/tbb/workqueue) replaced by a deterministic coroutine scheduler",
        "heap contents of fresh memory (glibc perturb byte chosen per run)"]
ASSUMPTIONS = ["workers share memory with sequential consistency (rows are interleaved on one core)",
               "agreement means within 1e-8 of the largest magnitude of the component (2e-4 for float32 output)"]
GROUPS = dict(
    a=[("pg", f) for f in models.FAMILIES["pg"]],
    b=[("ps", f) for f in models.FAMILIES["ps"]] + [("dip", f) for f in models.B] + [("prm", f) for f in models.B],
    c=[("prg", f) for f in models.PG],
    d=[("tg", "potential")],
    e=[("tg", "g_z"), ("tgv", "potential")],
    f=[("tgv", "g_z"), ("tgv", "potential")],
    g=[("pl", f) for f in models.PG],
    h=[("tl", "g_z"), ("tl", "potential")],
)
BUDGET = dict(quick=55, thorough=900)
SLOW = "defh"  # a second compilation takes long; only when there is time for many runs
PERTURB = [0, 0x01, 0x80, 0xC0, 0x3F, 0xFE]


def groups(tier):
    return list(GROUPS)


def prepare(group):
    simpar.install()
    boot.import_harmonica()
    return dict(group=group, warmed=set())


def gen(rng, ctx, i):
    fams = GROUPS[ctx["group"]]
    slow = ctx["group"] in SLOW
    if slow:
        fam, field = rng.pick(fams[: 1 + i // 40])
    else:
        fam, field = fams[i % len(fams)] if i < 2 * len(fams) else rng.pick(fams)
    spec = models.gen_spec(rng, fam, field)
    if slow and i < 80:
        spec.pop("dtype", None)
        if fam == "tgv":
            spec["dens"] = "lin"
    if i < len(fams):
        spec.update(kind="array", npts=max(spec["npts"], 6))
        spec.pop("dtype", None)
    case = dict(spec=spec, plans=[], progress=fam in models.PROGRESS and rng.chance(0.1) and not (slow and i < 80))
    for _ in range(rng.randint(2, 3)):
        plan = simpar.random_plan(rng, preempt=0.75)
        plan["perturb"] = rng.pick(PERTURB)
        case["plans"].append(plan)
    case["alone"] = sorted({0, spec["npts"] - 1, *rng.sample(range(spec["npts"]), min(spec["npts"], 4))})
    case["mix"] = rng.getrandbits(32)
    return case


def warm(case, ctx):
    key = models.warm_key(case["spec"], case["progress"])
    if key not in ctx["warmed"]:
        ctx["warmed"].add(key)
        ws = models.warm_spec(case["spec"])
        try:
            data = models.build(ws)
            for par in (False, True):
                models.call(ws, data, par, case["progress"])
                if case["spec"]["kind"] == "scalar" or case["spec"]["kind"] in ("list", "noncontig"):
                    models.call(ws, data, par, case["progress"], take=[0])
        except Exception:
            pass
    return None


def compare(case, what, got, want):
    tol = 2e-4 if case["spec"].get("dtype") else 1e-8
    got, want = models.components(got), models.components(want)
    if len(got) != len(want):
        raise Violation(what, f"{len(got)} components instead of {len(want)}")
    scale = None
    for g, w in zip(got, want):
        bad = close_arrays(g, w, tol, scale=scale)
        if bad:
            raise Violation(what, f"{case['spec']}: {bad}")


def attempt(what, f):
    try:
        return f()
    except Exception as e:
        raise Violation(what, f"{type(e).__name__}: {e}")


def run(case, ctx, out):
    import numpy as np

    spec = case["spec"]
    data = models.build(spec)
    boot.perturb(0)
    simpar.set_plan(None)
    ref = attempt("serial-raises", lambda: models.call(spec, data, False))
    comps = models.components(ref)
    scale_pts = [np.ravel(c) for c in comps]
    if any(not np.isfinite(c).all() for c in comps):
        raise Violation("serial-not-finite", f"{spec}")
    # the same points one at a time, and mixed with others in another order
    kind = "int" if spec["kind"] == "int" else "array"
    tol = 2e-4 if spec.get("dtype") else 1e-8
    order = np.random.default_rng(case["mix"]).permutation(spec["npts"])
    boot.perturb(PERTURB[case["mix"] % len(PERTURB)])
    mixed = models.components(attempt("serial-raises", lambda: models.call(spec, data, False, take=order)))
    for c, m in zip(scale_pts, mixed):
        bad = close_arrays(m, c[order], tol)
        if bad:
            raise Violation("depends-on-order-of-points", f"{spec}: {bad}")
    for i in case["alone"]:
        if i >= spec["npts"]:
            continue
        alone = models.components(attempt("serial-raises", lambda: models.call(spec, data, False, take=[i])))
        for c, m in zip(scale_pts, alone):
            bad = close_arrays(np.ravel(m), c[i:i + 1], tol, scale=np.max(np.abs(c)))
            if bad:
                raise Violation("depends-on-other-points", f"{spec} point {i}: {bad}")
        out.stats.add("points_checked_alone")
    digests = [freeze(tuple(comps))]
    for plan in case["plans"]:
        boot.perturb(plan["perturb"])
        with simpar.planned(plan, out.stats):
            got = attempt("parallel-raises", lambda: models.call(spec, data, True, case["progress"]))
        st = out.stats
        st.add("parallel_calls")
        out.fired("preemption", 0)
        compare(case, "parallel-differs-from-serial", got, ref)
        d = freeze(tuple(models.components(got)))
        st.add("bit_identical_parallel", int(d == digests[0]))
        digests.append(d)
        if plan["perturb"]:
            out.fired("stale_heap_fill")
    out.stats["fault_preemption"] = out.stats.get("par_switches", 0)
    out.stats.add("family_" + spec["fam"])
    if out.stats.get("max_par_rows", 0) < 2 and not out.stats.get("par_switches"):
        out.stats.pop("_schedules", None)
    out.digest = sha(digests)


def shrink(case):
    for k in range(len(case["plans"])):
        if len(case["plans"]) > 1:
            yield dict(case, plans=[case["plans"][k]])
    if case["plans"]:
        yield dict(case, plans=[])
    if case["alone"]:
        yield dict(case, alone=[])
        for i in case["alone"]:
            yield dict(case, alone=[i])
    if case["progress"]:
        yield dict(case, progress=False)
    for s in models.shrink_spec(case["spec"]):
        yield dict(case, spec=s)
    for k, plan in enumerate(case["plans"]):
        for p in simpar.shrink_plan(plan):
            yield dict(case, plans=case["plans"][:k] + [dict(p, perturb=plan["perturb"])] + case["plans"][k + 1:])
        if plan["perturb"]:
            yield dict(case, plans=case["plans"][:k] + [dict(plan, perturb=0)] + case["plans"][k + 1:])
