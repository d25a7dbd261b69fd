"""C13: layers stay consistent with their contents through any history."""

import warnings

from .. import boot, interrupt
from ..core import Rng, Violation, equal_values, freeze, sha

RULE = (
    "A case is a history of operations on one prism or tesseroid layer: surface and reference updates (valid, rejected, "
    "or hit by an exception at one of the library's statements), properties set, added, edited in place, transposed or "
    "removed, geometry edited or subset through xarray, copies, the caller reusing its arrays, and queries (boundaries, "
    "spacing, bodies, gravity, mesh), compared after every step with an independent model of the layer. Non-trivial when "
    "an update was rejected or interrupted, or followed another change."
)
MEASURE = "hash of the sequence of operations, outcomes and fault sites"
REAL = ["prism and tesseroid layer accessors and forward models, run as Python code", "xarray and verde"]
STUB = ["the moment and kind of failure (exception raised before a chosen library statement)", "Numba compilation is off"]
ASSUMPTIONS = ["reference gravity is the sum of the library's own single-body results", "equality within 1e-9 of the sum of magnitudes"]
BUDGET = dict(quick=25, thorough=600)
EXC = ["memory", "interrupt", "value", "exit"]
BAD = ["surface-shape", "surface-flat", "surface-scalar", "surface-transposed", "reference-shape", "reference-column",
       "reference-row", "reference-flat", "surface-text", "reference-text", "surface-none", "ragged"]


def groups(tier):
    return ["pl", "tl"]


def jit(group):
    return False


def prepare(group):
    hm = boot.import_harmonica()
    return dict(group=group, hm=hm)


def gen(rng, ctx, i):
    ny, nx = rng.randint(2, 4), rng.randint(2, 4)
    case = dict(
        kind=ctx["group"], ny=ny, nx=nx, seed=rng.getrandbits(32), mesh=rng.chance(0.3),
        how=rng.pick(["float", "float", "int", "float32", "readonly", "dataarray", "list"]),
        reference=rng.pick(["scalar", "scalar-int", "array", "array-int"]), nan=rng.chance(0.3),
        down=[rng.chance(0.12), rng.chance(0.12)], props=rng.chance(0.85),
    )
    ops = []
    for _ in range(rng.randint(3, 10)):
        what = rng.pick(["update", "update", "update", "bad", "prop", "prop", "prop", "reuse", "read", "edit", "xarray",
                         "copy", "gravity", "gravity", "badquery"])
        op = dict(op=what, salt=rng.randrange(10**6))
        if what in ("update", "bad"):
            op.update(how=rng.pick(["float", "float", "int", "float32", "readonly", "dataarray", "list"]),
                      reference=rng.pick(["scalar", "scalar-int", "array", "array-int"]), nan=rng.chance(0.2),
                      alias=rng.chance(0.15))
            if what == "bad":
                op["bad"] = rng.pick(BAD)
            elif rng.chance(0.35):  # close to the current geometry
                op["near"] = rng.pick([1e-6, 1e-3, 0.2, 4.0, 40.0])
        if what == "prop":
            op["how"] = rng.pick(["tuple", "tuple", "dataarray", "transposed", "inplace", "item", "int", "zeros", "nan", "new",
                                  "delete", "assign"])
        if what == "edit":
            op["how"] = rng.pick(["top-up", "top-item", "shift-east", "shift-north", "swap", "top-inplace", "bottom-inplace", "hole-top", "hole-bottom"])
        if what == "xarray":
            op["how"] = rng.pick(["isel-east", "isel-north", "transpose", "sort", "where", "pickle", "deep", "shallow"])
        if what in ("gravity", "badquery", "read"):
            op.update(field=rng.pick(["potential", "g_z"] + ([] if case["kind"] == "tl" else ["g_e", "g_n", "g_zz", "g_en"])),
                      threshold=rng.pick([None, None, 0, 10.0, 25.0, 1e4 if case["kind"] == "tl" else 40.0]),
                      name=rng.pick(["density", "density", "density", "other"]))
        if what == "badquery":
            op["bad"] = rng.pick(["field", "name", "coords"])
        if what in ("update", "bad", "gravity") and rng.chance(0.4):
            op.update(exc=rng.pick(EXC), at=rng.getrandbits(32))
        ops.append(op)
    return dict(case, ops=ops)


# ---------------------------------------------------------------- workload
def inputs(case, op, ny, nx):
    """Surface and reference as given, and as float64 arrays."""
    import numpy as np
    import xarray as xr

    r = np.random.default_rng([case["seed"], op.get("salt", 0)])
    if case["kind"] == "pl":
        s, ref = r.uniform(-45, 10, (ny, nx)), -20.7
        if r.random() < 0.2:
            s[0, 0] = ref
    else:
        s, ref = 6.05e6 + r.uniform(-2e4, 3e4, (ny, nx)), 6.05e6 + 0.7
    how = op["how"]
    if op["nan"] and how != "int":
        s[r.integers(ny), r.integers(nx)] = np.nan
    if how == "int":
        s = np.round(s).astype(int)
    elif how == "float32":
        s = s.astype("float32")
    elif how == "readonly":
        s.flags.writeable = False
    rf = op["reference"]
    if rf.startswith("array"):
        ref = np.full((ny, nx), ref) + r.uniform(-8, 8, (ny, nx))
        if case["kind"] == "pl" and r.random() < 0.3:
            ref[-1, -1] = np.asarray(s)[-1, -1]
        if rf == "array-int":
            ref = np.where(np.isnan(ref), 0, np.round(ref)).astype(int)
    elif rf == "scalar-int":
        ref = int(round(ref))
    s64, r64 = np.array(s, dtype=float), np.broadcast_to(np.array(ref, dtype=float), (ny, nx)).copy()
    given = s
    if how == "list":
        given = s.tolist()
    elif how == "dataarray":
        given = xr.DataArray(s, dims=("northing", "easting") if case["kind"] == "pl" else ("latitude", "longitude"))
    return given, ref, s64, r64


def nearby(case, op, m):
    """An update that hardly moves the layer."""
    import numpy as np

    r = np.random.default_rng([case["seed"], op["salt"], 5])
    s, ref = np.array(m.top, dtype=float), np.array(m.bottom, dtype=float)
    which = r.random(s.shape) < (1.0 if r.random() < 0.5 else 0.3)
    s = s + which * op["near"] * r.uniform(0.2, 1, s.shape)
    if r.random() < 0.3:
        ref = ref - op["near"]
    if r.random() < 0.3 and np.ptp(ref) == 0:
        ref = float(ref[0, 0])
    return s.copy(), ref, s, np.broadcast_to(ref, s.shape).copy()


def spoil(given, ref, bad, ny, nx):
    import numpy as np

    s = np.array(given, dtype=float)
    if bad == "surface-shape":
        return s[:, :-1], ref
    if bad == "surface-flat":
        return s.ravel(), ref
    if bad == "surface-scalar":
        return 3.0, ref
    if bad == "surface-transposed":
        return (s.T if ny != nx else s[None]), ref
    if bad == "surface-text":
        return np.full((ny, nx), "a"), ref
    if bad == "surface-none":
        return None, ref
    if bad == "ragged":
        return [[1.0], [1.0, 2.0]], ref
    if bad == "reference-text":
        return s, np.full((ny, nx), "b")
    shape = {"reference-shape": (ny + 1, nx), "reference-column": (ny, 1), "reference-row": (nx,), "reference-flat": (ny * nx,)}[bad]
    return s, np.full(shape, np.mean(np.array(ref, dtype=float)))


class Model:
    """The layer as it should be, from the history alone."""

    def __init__(self, case):
        import numpy as np

        if case["kind"] == "pl":
            x, y = np.arange(case["nx"]) * 30.0 - 40, np.arange(case["ny"]) * 25.0 - 30
        else:
            x, y = np.arange(case["nx"]) * 4.0 - 10, np.arange(case["ny"]) * 3.0 - 6
        self.kind = case["kind"]
        self.x, self.y = (x[::-1] if case["down"][0] else x), (y[::-1] if case["down"][1] else y)
        self.props = {}

    def move(self, s, r):
        import numpy as np

        with np.errstate(invalid="ignore"):
            below = s < r
        self.top, self.bottom = np.where(below, r, s), np.where(below, s, r)

    def copy(self):
        import copy

        return copy.deepcopy(self)

    def bodies(self):
        import numpy as np

        hx, hy = abs(self.x[1] - self.x[0]) / 2, abs(self.y[1] - self.y[0]) / 2
        out = np.empty((self.y.size, self.x.size, 6))
        for i, y in enumerate(self.y):
            for j, x in enumerate(self.x):
                out[i, j] = [x - hx, x + hx, y - hy, y + hy, self.bottom[i, j], self.top[i, j]]
        return out

    def gravity(self, hm, c, field, name, threshold):
        import numpy as np

        total, size = np.zeros(c[0].size), 0.0
        p = self.props[name]
        for b, d in zip(self.bodies().reshape(-1, 6), p.ravel()):
            if np.isnan(b).any() or np.isnan(d) or d == 0 or b[5] == b[4] or b[5] - b[4] < (threshold or 0):
                continue
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if self.kind == "pl":
                    g = hm.prism_gravity(c, b, d, field, parallel=False)
                else:
                    g = hm.tesseroid_gravity(c, b, d, field, parallel=False)
            total, size = total + g, size + np.max(np.abs(g))
        return total, size


def acc(layer, kind):
    return layer.prism_layer if kind == "pl" else layer.tesseroid_layer


def dims(kind):
    return ("northing", "easting") if kind == "pl" else ("latitude", "longitude")


def coordinates(case, salt):
    import numpy as np

    r = np.random.default_rng([case["seed"], salt, 1])
    if case["kind"] == "pl":
        return (r.uniform(-100, 100, 2), r.uniform(-100, 100, 2), r.uniform(12, 90, 2))
    return (r.uniform(-16, 8, 1), r.uniform(-12, 9, 1), r.uniform(6.13e6, 6.4e6, 1))


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return "ok", f()
        except BaseException as e:
            return "error", type(e).__name__ + ": " + str(e)[:150]


def verify(layer, model, case, where, ctx, gravity=None):
    import numpy as np

    kind, a = case["kind"], acc(layer, case["kind"])
    dy, dx = dims(kind)
    bad = equal_values([layer[dx].values, layer[dy].values], [model.x, model.y], 1e-12, path="coordinates")
    if bad:
        raise Violation("coordinates-changed", f"{where}: {bad}")
    for k in ("top", "bottom"):
        v = layer.coords[k].transpose(dy, dx).values.astype(float)
        m = getattr(model, k)
        if v.shape != m.shape or not np.array_equal(v, m, equal_nan=True):
            raise Violation("wrong-geometry", f"{where}: {k} is {v.tolist()}, should be {m.tolist()}")
    if set(map(str, layer.data_vars)) != set(model.props):
        raise Violation("properties-changed", f"{where}: {sorted(map(str, layer.data_vars))} vs {sorted(model.props)}")
    for k, v in model.props.items():
        bad = equal_values(layer[k].transpose(dy, dx).values.astype(float), v, 0.0, path=k)
        if bad:
            raise Violation("properties-changed", f"{where}: {bad}")
    b = model.bodies()
    want = (float(np.min(b[..., 0])), float(np.max(b[..., 1])), float(np.min(b[..., 2])), float(np.max(b[..., 3])))
    got = quiet(lambda: tuple(float(v) for v in a.boundaries))
    if got[0] == "error" or equal_values(got[1], want, 1e-12):
        raise Violation("wrong-boundaries", f"{where}: {got[1]} instead of {want}")
    hs = (abs(model.y[1] - model.y[0]), abs(model.x[1] - model.x[0]))
    got = quiet(lambda: [abs(float(v)) for v in a.spacing])
    if got[0] == "error" or equal_values(got[1], list(hs), 1e-12):
        raise Violation("wrong-spacing", f"{where}: {got[1]} instead of {hs}")
    if tuple(a.shape) != model.top.shape or a.size != model.top.size:
        raise Violation("wrong-shape", f"{where}: {a.shape}, {a.size}")
    for i in range(model.y.size):
        for j in range(model.x.size):
            got = quiet(lambda: [float(v) for v in (a.get_prism((i, j)) if kind == "pl" else a.get_tesseroid((i, j)))])
            if got[0] == "error" or equal_values(got[1], b[i, j].tolist(), 1e-12):
                raise Violation("wrong-body", f"{where}: body {i, j} is {got[1]} instead of {b[i, j].tolist()}")
            if (i + j) % 2:  # counted from the end, as in any array
                k = (i - model.y.size, j - model.x.size)
                got = quiet(lambda: [float(v) for v in (a.get_prism(k) if kind == "pl" else a.get_tesseroid(k))])
                if got[0] == "ok" and equal_values(got[1], b[i, j].tolist(), 1e-12):
                    raise Violation("wrong-body", f"{where}: body {k} is {got[1]} instead of {b[i, j].tolist()}")


def gravity_of(layer, model, case, op, ctx, where):
    import numpy as np

    c = coordinates(case, op["salt"])
    if op["name"] not in model.props:
        return
    got = quiet(lambda: np.asarray(acc(layer, case["kind"]).gravity(
        c, field=op["field"], density_name=op["name"], thickness_threshold=op["threshold"], parallel=op["salt"] % 2 == 0)))
    want, size = model.gravity(ctx["hm"], c, op["field"], op["name"], op["threshold"])
    if got[0] == "error":
        raise Violation("gravity-raised", f"{where}: {got[1]}")
    if got[1].shape != want.shape or not (np.abs(got[1] - want) <= 1e-9 * size + 1e-30).all():
        raise Violation("wrong-gravity", f"{where}: {got[1]} instead of {want}")


def build(case, ctx):
    import numpy as np

    m = Model(case)
    given, ref, s64, r64 = inputs(case, dict(case, salt=0), case["ny"], case["nx"])
    m.move(s64, r64)
    r = np.random.default_rng([case["seed"], 99])
    props = None
    if case["props"]:
        d = r.uniform(-400, 900, m.top.shape)
        d[r.random(d.shape) < 0.1] = 0
        if r.random() < 0.3:
            d[-1, 0] = np.nan
        m.props = dict(density=d.copy(), other=np.round(d / 3 if not np.isnan(d).any() else np.ones_like(d)))
        props = dict(density=d, other=m.props["other"].astype(int))
    c = np.meshgrid(m.x, m.y) if case["mesh"] else (m.x.copy(), m.y.copy())
    hm = ctx["hm"]
    layer = (hm.prism_layer if case["kind"] == "pl" else hm.tesseroid_layer)(tuple(c), given, ref, properties=props)
    return layer, m


def set_prop(layer, m, op, case):
    import numpy as np
    import xarray as xr

    r = np.random.default_rng([case["seed"], op["salt"], 2])
    d = r.uniform(-400, 900, m.top.shape)
    dd = dims(case["kind"])
    how, name = op["how"], "density"
    if how == "new":
        name = ["third", "other"][op["salt"] % 2]
    if how == "delete":
        if "other" in m.props:
            del layer["other"]
            del m.props["other"]
        return layer
    if how in ("inplace", "item") and name not in m.props:
        how = "tuple"
    if how == "zeros":
        d[r.random(d.shape) < 0.5] = 0
    if how == "nan":
        d[r.random(d.shape) < 0.3] = np.nan
    if how == "int":
        d = np.round(d)
        layer[name] = (dd, d.astype(int))
    elif how in ("tuple", "zeros", "nan", "new"):
        layer[name] = (dd, d.copy())
    elif how == "dataarray":
        order = r.permutation(m.x.size)  # aligned by xarray on assignment
        layer[name] = xr.DataArray(d[:, order], coords={dd[0]: m.y, dd[1]: m.x[order]}, dims=dd)
    elif how == "transposed":
        layer[name] = (dd[::-1], d.T.copy())
    elif how == "inplace":
        v = layer[name].transpose(*dd).values
        if not v.flags.writeable or v.dtype.kind != "f":
            return layer
        v[...] = d
    elif how == "item":
        if layer[name].dtype.kind != "f":
            return layer
        i, j = int(r.integers(m.y.size)), int(r.integers(m.x.size))
        layer[name][{dd[0]: i, dd[1]: j}] = 123.5
        d = m.props[name].copy()
        d[i, j] = 123.5
    elif how == "assign":
        layer = layer.assign({name: (dd, d.copy())})
    m.props[name] = d.copy()
    return layer


def edit(layer, m, op, case):
    import numpy as np

    dd, how = dims(case["kind"]), op["how"]
    if how == "top-up":
        layer.coords["top"] = layer.top + 2.0
        m.top = m.top + 2.0
    elif how == "top-item":
        t = np.array(layer.top.transpose(*dd).values, dtype=float)
        t[0, 0] = m.bottom[0, 0]
        layer.coords["top"] = (dd, t)
        m.top = m.top.copy()
        m.top[0, 0] = m.bottom[0, 0]
    elif how.startswith("hole"):  # bodies with one undefined boundary are left out
        name = how.split("-")[1]
        v = np.array(getattr(m, name), dtype=float)
        v.flat[op["salt"] % v.size] = np.nan
        layer.coords[name] = (dd, v.copy())
        setattr(m, name, v)
    elif how in ("top-inplace", "bottom-inplace"):
        name = how.split("-")[0]
        v = layer[name].transpose(*dd).values
        if v.flags.writeable and v.dtype.kind == "f" and np.shares_memory(v, layer[name].values):
            v += 2.5 if name == "top" else -3.5
            setattr(m, name, np.array(v, dtype=float))
    elif how == "shift-east":
        layer = layer.assign_coords({dd[1]: layer[dd[1]].values + 1.5})
        m.x = m.x + 1.5
    elif how == "shift-north":
        layer = layer.assign_coords({dd[0]: layer[dd[0]].values - 0.5})
        m.y = m.y - 0.5
    elif how == "swap":
        # the accessor is made before the change and used after it
        acc(layer, case["kind"]).spacing
        layer.coords[dd[1]] = m.x * 1.25
        m.x = m.x * 1.25
    return layer


def through_xarray(layer, m, op, case):
    import pickle

    import numpy as np

    dd, how = dims(case["kind"]), op["how"]
    if how == "isel-east" and m.x.size > 2:
        layer = layer.isel({dd[1]: slice(0, -1)})
        m.x, m.top, m.bottom = m.x[:-1], m.top[:, :-1], m.bottom[:, :-1]
        m.props = {k: v[:, :-1] for k, v in m.props.items()}
    elif how == "isel-north" and m.y.size > 3:
        layer = layer.isel({dd[0]: slice(None, None, 2)})
        m.y, m.top, m.bottom = m.y[::2], m.top[::2], m.bottom[::2]
        m.props = {k: v[::2] for k, v in m.props.items()}
    elif how == "transpose":
        layer = layer.transpose()
    elif how == "sort":
        layer = layer.sortby(dd[0])
        o = np.argsort(m.y)
        m.y, m.top, m.bottom = m.y[o], m.top[o], m.bottom[o]
        m.props = {k: v[o] for k, v in m.props.items()}
    elif how == "where" and "density" in m.props:
        cond = m.props["density"] > 100
        layer = layer.where(layer.density > 100)
        m.props = {k: np.where(cond, v, np.nan) for k, v in m.props.items()}
    elif how == "pickle":
        layer = pickle.loads(pickle.dumps(layer))
    elif how == "deep":
        layer = layer.copy(deep=True)
    elif how == "shallow":
        layer = layer.copy(deep=False)
    return layer


def run(case, ctx, out):
    import numpy as np

    kind = case["kind"]
    state = quiet(lambda: build(case, ctx))
    if state[0] == "error":
        raise Violation("build-raised", f"{case}: {state[1]}")
    layer, m = state[1]
    verify(layer, m, case, "after building", ctx)
    trace, nontrivial = [], False
    for k, op in enumerate(case["ops"]):
        where = f"{kind} step {k} {op} after {[o['op'] for o in case['ops'][:k]]}"
        what, outcome, fired = op["op"], "ok", None
        ny, nx = m.y.size, m.x.size
        if what in ("update", "bad"):
            given, ref, s64, r64 = nearby(case, op, m) if "near" in op else inputs(case, op, ny, nx)
            if what == "bad":
                given, ref = spoil(given, ref, op["bad"], ny, nx)
            target = layer
            old = m.copy()
            if op["alias"]:  # a shallow copy made before must not follow
                target = layer.copy(deep=False)
            held = freeze(given), freeze(ref)
            tracer = interrupt.Tracer()
            if "exc" in op:
                probe = layer.copy(deep=True)
                with tracer:
                    quiet(lambda: acc(probe, kind).update_top_bottom(given, ref))
                tracer = interrupt.Tracer(interrupt.choose(Rng("site", op["at"]), tracer.sites), op["exc"])
            before = freeze(target)
            if "exc" in op:
                with tracer:
                    got = quiet(lambda: acc(target, kind).update_top_bottom(given, ref))
                fired = tracer.fired
            else:
                got = quiet(lambda: acc(target, kind).update_top_bottom(given, ref))
            outcome = got[0]
            if fired:
                out.fired(op["exc"])
                out.stats.add("sites_" + interrupt.short(fired).split(":")[0])
                where += f", exception at {interrupt.short(fired)}"
                nontrivial = True
            if (freeze(given), freeze(ref)) != held:
                raise Violation("update-changed-its-arguments", where)
            if got[0] == "error":
                nontrivial = True
                if what == "update" and not fired:
                    raise Violation("valid-update-rejected", f"{where}: {got[1]}")
                if freeze(target) != before:
                    new = m.copy()
                    if what == "update":
                        new.move(s64, r64)
                    same = what == "update" and fired and not equal_values(
                        [target.top.transpose(*dims(kind)).values, target.bottom.transpose(*dims(kind)).values], [new.top, new.bottom], 0.0)
                    if not same:
                        raise Violation("failed-update-changed-layer", f"{where} ({got[1]}): {changes(before, freeze(target))}")
                    m = new
            elif what == "bad":
                # accepted: it must at least leave a proper layer
                t, b = target.top.values.astype(float), target.bottom.values.astype(float)
                if t.shape != b.shape or (t < b).any() or op["bad"].endswith(("shape", "flat", "scalar", "transposed")):
                    raise Violation("bad-update-accepted", f"{where}: top {t.tolist()}, bottom {b.tolist()}")
                m.top, m.bottom = target.top.transpose(*dims(kind)).values.astype(float), target.bottom.transpose(*dims(kind)).values.astype(float)
            else:
                m.move(s64, r64)
                for x in (given, ref):  # the caller reuses its arrays
                    y = getattr(x, "values", x)
                    if isinstance(y, np.ndarray) and y.flags.writeable:
                        y[...] = -7777
                    elif isinstance(y, list):
                        y[0][0] = -7777
            if target is not layer:
                verify(layer, old, case, where + " (layer the updated one was copied from)", ctx)
            layer = target
        elif what == "prop":
            layer = set_prop(layer, m, op, case)
        elif what == "edit":
            layer = edit(layer, m, op, case)
        elif what == "xarray":
            layer = through_xarray(layer, m, op, case)
        elif what == "copy":
            other = layer.copy(deep=op["salt"] % 2 == 0)
            quiet(lambda: acc(other, kind).update_top_bottom(np.full((ny, nx), 1.0), 2.0))
        elif what == "gravity":
            before = freeze(layer)
            if "exc" in op:
                c = coordinates(case, op["salt"])
                f = lambda: acc(layer, kind).gravity(c, op["field"], density_name=op["name"], parallel=False)
                t = interrupt.Tracer()
                with t:
                    quiet(f)
                t = interrupt.Tracer(interrupt.choose(Rng("site", op["at"]), t.sites), op["exc"])
                with t:
                    quiet(f)
                fired = t.fired
                if fired:
                    out.fired(op["exc"])
            gravity_of(layer, m, case, op, ctx, where)
            if freeze(layer) != before:
                raise Violation("query-changed-layer", f"{where}: {changes(before, freeze(layer))}")
        elif what == "badquery":
            before = freeze(layer)
            c = coordinates(case, op["salt"])
            kw = dict(field=op["field"], density_name=op["name"])
            if op["bad"] == "field":
                kw["field"] = "g_unknown"
            elif op["bad"] == "name":
                kw["density_name"] = "missing"
            else:
                c = (np.array(["a"]), c[1], c[2])
            quiet(lambda: acc(layer, kind).gravity(c, **kw))
            if freeze(layer) != before:
                raise Violation("query-changed-layer", f"{where}: {changes(before, freeze(layer))}")
        verify(layer, m, case, where, ctx)
        if what in ("update", "prop", "edit") and op["salt"] % 3 == 0:
            gravity_of(layer, m, case, dict(salt=k, name="density", field="g_z", threshold=None), ctx, where)
        out.stats.add(f"{what}_{outcome}")
        trace.append((what, op.get("how"), outcome, interrupt.short(fired)))
    gravity_of(layer, m, case, dict(salt=k, name="density", field="g_z", threshold=None), ctx, f"{kind} at the end of {case['ops']}")
    if kind == "pl" and case["seed"] % 4 == 0:
        mesh_of(layer, m, case, out)
    out.digest = sha(trace, freeze(layer))
    if nontrivial or len(set(t[0] for t in trace)) > 2:
        out.sigs.append((kind, case["down"], trace))


def mesh_of(layer, m, case, out):
    import numpy as np

    try:
        import pyvista  # noqa: F401
    except ImportError:
        return
    got = quiet(lambda: layer.prism_layer.to_pyvista())
    if got[0] == "error":
        return
    mesh = got[1]
    b = m.bodies().reshape(-1, 6)
    keep = ~(np.isnan(b).any(axis=1) | (b[:, 4] == b[:, 5]))
    out.stats.add("meshes")
    if mesh.n_cells != keep.sum():
        raise Violation("wrong-mesh", f"{mesh.n_cells} bodies in the mesh instead of {keep.sum()} ({case})")
    for name, v in m.props.items():
        bad = equal_values(np.asarray(mesh.cell_data[name], dtype=float), v.ravel()[keep], 1e-12, path=name)
        if bad:
            raise Violation("wrong-mesh", f"{bad} ({case})")


def changes(a, b):
    va, vb = dict(a[2]), dict(b[2])
    return "changed: " + ", ".join(sorted(k for k in set(va) | set(vb) if va.get(k) != vb.get(k))) + (
        "" if a[1] == b[1] else " attributes") + ("" if a[3] == b[3] else f" coordinates {a[3]} -> {b[3]}")


def shrink(case):
    ops = case["ops"]
    for k in range(len(ops)):
        if len(ops) > 1:
            yield dict(case, ops=ops[:k] + ops[k + 1:])
    for k, o in enumerate(ops):
        if "exc" in o:
            yield dict(case, ops=ops[:k] + [{a: b for a, b in o.items() if a not in ("exc", "at")}] + ops[k + 1:])
        for a, b in (("how", "float"), ("reference", "scalar"), ("nan", False), ("alias", False)):
            if o.get(a, b) != b and o["op"] in ("update", "bad"):
                yield dict(case, ops=ops[:k] + [dict(o, **{a: b})] + ops[k + 1:])
    for a, b in (("how", "float"), ("reference", "scalar"), ("nan", False), ("mesh", False), ("down", [False, False]), ("nx", 2), ("ny", 2)):
        if case[a] != b:
            yield dict(case, **{a: b})
