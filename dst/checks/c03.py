"""C03: IGRF fields equal their harmonic synthesis under any schedule."""

import datetime

from .. import boot, simnet, simpar
from ..core import Violation, close_arrays, sha

RULE = (
    "A case is a session on one to three geomagnetic models (dates biased to epoch boundaries, degree ranges, "
    "ellipsoids) with predictions and grids under plans of the parallel loops and heap fill bytes, drawn from the "
    "seed. Non-trivial when a compiled parallel loop ran more than one row or was preempted."
)
MEASURE = "hash of the session and of the complete sequence of (row, worker, preemption step) decisions"
REAL = ["harmonica IGRF14, Legendre recursions", "Numba-compiled parallel kernels", "pooch, requests above the transport", "boule, bordado, verde"]
STUB = ["Numba's thread pool", "network (synthetic coefficient file, presented with the official digest)", "contents of fresh heap memory"]
ASSUMPTIONS = ["agreement within 1e-7 of the largest magnitude of the field in the call",
               "the eastward component exactly at the poles is not compared (documented as singular)"]
PERTURB = [0, 0x01, 0x80, 0xC0, 0x3F, 0xFE]
ARCHIVE_SEED = 20240


def groups(tier):
    return ["predict", "grid", "mixed"]


def prepare(group):
    simpar.install()
    boot.import_harmonica()
    import harmonica as hm

    world = simnet.serve(ARCHIVE_SEED)
    archive = world.archive
    try:
        model = hm.IGRF14("2020-06-15")
        model.predict(([1.0, 2.0], [3.0, 4.0], [5.0, 6.0]))
        model.grid((0, 1, 0, 1), 0, shape=(2, 2))
    except Exception:
        pass
    return dict(group=group, archive=archive, world=world)


def gen_date(rng):
    k = rng.random()
    year = rng.choice(simnet.EPOCHS)
    if k < 0.15:
        d = datetime.datetime(year, 1, 1)
    elif k < 0.35:  # just before or after an epoch
        d = datetime.datetime(year, 1, 1) + datetime.timedelta(seconds=rng.pick([-1, 1, -86400, 86400, -1e-6, 43200]))
    elif k < 0.5:
        d = datetime.datetime(year + rng.pick([1, 2, 3, 4, 4]), rng.pick([1, 12, 12, 2]), rng.pick([1, 28]))
    elif k < 0.65:  # after the last epoch
        d = datetime.datetime(2025, 1, 1) + datetime.timedelta(days=rng.uniform(0, 5 * 365.2))
    else:
        d = datetime.datetime(1900, 1, 1) + datetime.timedelta(days=rng.uniform(0, 129.99 * 365.24))
    if d.year < 1900 or d.year > 2029:
        d = datetime.datetime(2029, 12, 31, 23, 59, 59)
    if rng.chance(0.3):
        d = d.replace(hour=0, minute=0, second=0, microsecond=0)
    return d


def gen(rng, ctx, i):
    models = []
    for _ in range(rng.pick([1, 1, 2, 3])):
        nmax = rng.pick([13, 13, 13, 8, 5, 2, 1, 12, rng.randint(1, 13)])
        nmin = rng.pick([1, 1, 1, rng.randint(1, nmax), nmax])
        models.append([gen_date(rng).isoformat(), nmin, nmax, rng.pick(["WGS84", "WGS84", "GRS80", "flat", "round"]), rng.pick(["str", "datetime"])])
    ops = []
    for _ in range(rng.randint(1, 3)):
        kind = ctx["group"] if ctx["group"] != "mixed" else rng.pick(["predict", "grid", "coefficients", "bad_date"])
        plan = simpar.random_plan(rng, preempt=0.7)
        plan["perturb"] = rng.pick(PERTURB)
        op = dict(op=kind, model=rng.randrange(len(models)), plan=plan, seed=rng.getrandbits(32))
        if kind == "predict":
            op.update(n=rng.pick([1, 2, 3, 5, 8, 13, 16, 17, 33, 64, 100, 257]),
                      kind=rng.pick(["array", "array", "list", "2d", "scalar", "int", "col", "noncontig", "3d"]),
                      where=rng.pick(["globe", "globe", "poles", "equator", "local", "dateline"]))
        elif kind == "grid":
            w = rng.pick([-180, 0, -75.5, 100, 359])
            s = rng.pick([-90, -89, 0, 10.25, 85, -45])
            op.update(region=[w, w + rng.pick([1, 10, 90, 359, 360]), s, min(90, s + rng.pick([0.5, 5, 60, 180]))],
                      shape=[rng.pick([1, 2, 3, 4, 7, 9, 16, 31]), rng.pick([1, 2, 3, 5, 8, 10, 17])] if rng.chance(0.7) else None,
                      height=rng.pick([0, 1000.0, -500, 4e5]))
            if op["shape"] is None:
                op["height"] = rng.pick([0, 2500.0])
                op["spacing"] = rng.pick([None, [0.25, 0.5], 0.4]) if op["region"][1] - op["region"][0] <= 10 else None
                op["adjust"] = rng.pick(["spacing", "region"])
                low = max(-88, op["region"][2])
                op["region"][2:] = [low, max(low + 0.5, min(89, op["region"][3]))]
        elif kind == "bad_date":
            op["date"] = rng.pick(["1899-12-31T23:59:59", "2030-01-01", "1850-05-05", "2031-07-01", "1899-01-01"])
        if ops and kind != "bad_date" and rng.chance(0.3):  # the same model asked for something else
            date, nmin, nmax = models[op["model"]][:3]
            what = rng.pick(["hour", "hour", "date", "degrees"])
            if what == "hour":
                date = date[:10] + rng.pick(["T00:00:00", "T06:00:00", "T18:30:00", "T23:59:59"])
            elif what == "date":
                date = gen_date(rng).isoformat()
            else:
                nmax = rng.randint(1, 13)
                nmin = rng.randint(1, nmax)
            op["set"] = [date, nmin, nmax]
        ops.append(op)
    return dict(models=models, ops=ops)


def ellipsoid(name):
    import boule

    if name == "WGS84":
        return boule.WGS84
    if name == "GRS80":
        return boule.GRS80
    f = 0.02 if name == "flat" else 1e-6
    return boule.Ellipsoid(name=name, semimajor_axis=6.38e6, flattening=f, geocentric_grav_const=3.986e14, angular_velocity=7e-5)


def points(op):
    import numpy as np

    r = np.random.default_rng(op["seed"])
    n = op["n"]
    if op["kind"] == "scalar":
        n = 1
    if op["kind"] == "3d":
        n = max(4, n - n % 4)
    lon, lat, h = r.uniform(-180, 360, n), np.degrees(np.arcsin(r.uniform(-1, 1, n))), r.uniform(-1e3, 8e5, n)
    if op["where"] == "poles":
        lat = np.where(r.random(n) < 0.5, 1, -1) * (90 - 10.0 ** r.uniform(-6, 0.5, n))
        lat[:: 3] = np.sign(lat[:: 3]) * 90
    elif op["where"] == "equator":
        lat = np.where(r.random(n) < 0.5, 0.0, r.normal(size=n) * 1e-3)
    elif op["where"] == "local":
        lon, lat, h = -43.7 + r.normal(size=n), -23.5 + r.normal(size=n), r.uniform(0, 2000, n)
    elif op["where"] == "dateline":
        lon = r.choice([-180.0, 180.0, 0.0, 360.0, 90.0, -90.0], n)
    c = [lon, lat, h]
    if op["kind"] == "int":
        c = [np.round(x) for x in c]
    return c


def shaped(c, kind):
    import numpy as np

    if kind == "list":
        return tuple(x.tolist() for x in c)
    if kind == "2d":
        k = 2 if c[0].size % 2 == 0 else 1
        return tuple(x.reshape(k, -1) for x in c)
    if kind == "3d":
        return tuple(x.reshape(2, 2, -1) for x in c)
    if kind == "col":
        return tuple(x.reshape(-1, 1) for x in c)
    if kind == "scalar":
        return tuple(float(x[0]) for x in c)
    if kind == "int":
        return tuple(x.astype(int) for x in c)
    if kind == "noncontig":
        return tuple(np.repeat(x, 2)[::2] for x in c)
    return tuple(c)


def reference(ctx, model, lon, lat, h):
    date, nmin, nmax, ell, _ = model
    e = ellipsoid(ell)
    g, hh = ctx["archive"].at(datetime.datetime.fromisoformat(date))
    return simnet.synthesis(g, hh, nmin, nmax, lon, lat, h, e.semimajor_axis, e.flattening)


def compare(what, info, got, want, lat):
    import numpy as np

    want = [np.asarray(w) for w in want]
    polar = np.abs(np.abs(np.asarray(lat)) - 90) < 1e-8
    scale = max(float(np.max(np.hypot(want[1], want[2]))), 1e-9)
    finite_e = np.where(polar | ~np.isfinite(want[0]), 0, want[0])
    scale = max(scale, float(np.max(np.abs(finite_e))))
    for k, (g, w) in enumerate(zip(got, want)):
        g = np.asarray(g, dtype=float)
        if g.shape != w.shape:
            raise Violation(what + "-shape", f"{info}: {g.shape} instead of {w.shape}")
        if k == 0:
            if not np.isfinite(g).all():
                raise Violation(what, f"{info}: eastward component not finite")
            # rounding of sin(colatitude) is amplified towards the poles
            slack = 1e-15 / np.maximum(np.cos(np.radians(lat)) ** 2, 1e-18)
            near = np.abs(g - w) <= slack * scale
            g, w = np.where(polar | near, 0, g), np.where(polar | near, 0, w)
        bad = close_arrays(g, w, 1e-7, scale=scale)
        if bad:
            raise Violation(what, f"{info} component {'ENU'[k]}: {bad}")


def run(case, ctx, out):
    import harmonica as hm
    import numpy as np

    world = ctx["world"]
    world.offline = True
    objs = []
    for date, nmin, nmax, ell, how in case["models"]:
        d = date if how == "str" else datetime.datetime.fromisoformat(date)
        objs.append(hm.IGRF14(d, min_degree=nmin, max_degree=nmax, ellipsoid=ellipsoid(ell)))
    digests, models = [], [list(m) for m in case["models"]]
    for op in case["ops"]:
        model, obj = models[op["model"]], objs[op["model"]]
        if op.get("set"):
            model[:3] = op["set"]
            obj.date, obj.min_degree, obj.max_degree = datetime.datetime.fromisoformat(model[0]), model[1], model[2]
            out.stats.add("models_changed")
        info = f"model {model} {({k: v for k, v in op.items() if k != 'plan'})}"
        boot.perturb(op["plan"]["perturb"])
        if op["plan"]["perturb"]:
            out.fired("stale_heap_fill")
        out.stats.add("op_" + op["op"])
        try:
            with simpar.planned(op["plan"], out.stats):
                if op["op"] == "predict":
                    c = points(op)
                    got = obj.predict(shaped(c, op["kind"]))
                elif op["op"] == "grid":
                    kw = {}
                    if op["shape"]:
                        kw["shape"] = tuple(op["shape"])
                    elif op["spacing"] is not None:
                        kw.update(spacing=tuple(op["spacing"]) if isinstance(op["spacing"], list) else op["spacing"], adjust=op["adjust"])
                    height = op["height"]
                    got = obj.grid(tuple(op["region"]), height, **kw)
                elif op["op"] == "coefficients":
                    got = obj.coefficients
                else:
                    try:
                        hm.IGRF14(op["date"]).predict(([1.0], [2.0], [3.0]))
                    except ValueError:
                        got = None
                    else:
                        raise Violation("date-outside-the-model-accepted", op["date"])
        except Violation:
            raise
        except Exception as e:
            raise Violation(f"{op['op']}-raises", f"{info}: {type(e).__name__}: {e}")
        boot.perturb(0)
        if op["op"] == "predict":
            if len(got) != 3:
                raise Violation("predict-components", f"{info}: {len(got)}")
            digests.append(sha([np.asarray(x).tobytes() for x in got]))
            shape = np.shape(shaped(c, op["kind"])[0])
            if any(np.shape(x) != shape for x in got):
                raise Violation("predict-shape", f"{info}: {[np.shape(x) for x in got]} instead of {shape}")
            compare("predict-differs-from-synthesis", info, [np.ravel(x) for x in got], reference(ctx, model, *c), c[1])
        elif op["op"] == "grid":
            check_grid(ctx, model, obj, op, info, got, height)
            digests.append(sha([got[k].values.tobytes() for k in ("b_east", "b_north", "b_up")]))
        elif op["op"] == "coefficients":
            g, h = ctx["archive"].at(datetime.datetime.fromisoformat(model[0]))
            n = model[2] + 1
            for name, x, y in (("g", got[0], g[:n, :n]), ("h", got[1], h[:n, :n])):
                bad = close_arrays(np.asarray(x), y, 1e-10)
                if bad:
                    raise Violation("coefficients-differ", f"{info} {name}{bad}")
    out.stats["fault_preemption"] = out.stats.get("par_switches", 0)
    if out.stats.get("max_par_rows", 0) < 2 and not out.stats.get("par_switches"):
        out.stats.pop("_schedules", None)
    out.digest = sha(digests)


def check_grid(ctx, model, obj, op, info, grid, height):
    import numpy as np

    lon, lat = grid.longitude.values, grid.latitude.values
    w, e, s, n = op["region"]
    names = ("b_east", "b_north", "b_up")
    if any(grid[k].dims != ("latitude", "longitude") for k in names):
        raise Violation("grid-dims", f"{info}: {[grid[k].dims for k in names]}")
    if op["shape"]:
        for name, got, want in (("longitude", lon, np.linspace(w, e, op["shape"][1])), ("latitude", lat, np.linspace(s, n, op["shape"][0]))):
            bad = close_arrays(got, want, 1e-12)
            if bad:
                raise Violation("grid-coordinates", f"{info} {name}{bad}")
    else:
        import bordado as bd

        if op["spacing"] is None:
            x, y = bd.grid_coordinates(op["region"], spacing=180 / (2 * model[2] + 2))
        else:
            sp = tuple(op["spacing"]) if isinstance(op["spacing"], list) else op["spacing"]
            x, y = bd.grid_coordinates(op["region"], spacing=sp, adjust=op["adjust"])
        for name, got, want in (("longitude", lon, x[0]), ("latitude", lat, y[:, 0])):
            bad = close_arrays(got, want, 1e-12)
            if bad:
                raise Violation("grid-coordinates", f"{info} {name}{bad}")
    hh = np.broadcast_to(np.asarray(height, dtype=float), (lat.size, lon.size))
    bad = close_arrays(grid.height.values, hh, 1e-12)
    if bad:
        raise Violation("grid-height", f"{info}{bad}")
    lo, la = np.meshgrid(lon, lat)
    values = [grid[k].values for k in names]
    compare("grid-differs-from-synthesis", info, values, reference(ctx, model, lo, la, hh), la)
    pts = obj.predict((lo, la, hh))
    compare("grid-differs-from-predict", info, [np.ravel(v) for v in values], [np.ravel(p) for p in pts], la.ravel())


def shrink(case):
    for k in range(len(case["ops"])):
        if len(case["ops"]) > 1:
            yield dict(case, ops=case["ops"][:k] + case["ops"][k + 1:])
    for k in range(len(case["models"])):
        if len(case["models"]) > 1 and all(o["model"] != k for o in case["ops"]):
            yield dict(models=case["models"][:k] + case["models"][k + 1:],
                       ops=[dict(o, model=o["model"] - (o["model"] > k)) for o in case["ops"]])
    for k, m in enumerate(case["models"]):
        for new in ([m[0], 1, m[2], m[3], m[4]], [m[0], m[1], m[2], "WGS84", m[4]], ["2020-01-01T00:00:00", *m[1:]],
                    [m[0], 1, 1, m[3], m[4]]):
            if new != m:
                yield dict(case, models=case["models"][:k] + [new] + case["models"][k + 1:])
    for k, op in enumerate(case["ops"]):
        cands = [dict(op, plan=dict(p, perturb=op["plan"]["perturb"])) for p in simpar.shrink_plan(op["plan"])]
        if op["plan"]["perturb"]:
            cands.append(dict(op, plan=dict(op["plan"], perturb=0)))
        if op["op"] == "predict":
            cands += [dict(op, n=n) for n in (1, 2, op["n"] // 2) if 0 < n < op["n"]]
            if op["kind"] != "array":
                cands.append(dict(op, kind="array"))
        if op["op"] == "grid" and op["shape"]:
            cands += [dict(op, shape=s) for s in ([1, 2], [2, 1], [2, 2]) if s != op["shape"]]
        for c in cands:
            yield dict(case, ops=case["ops"][:k] + [c] + case["ops"][k + 1:])
