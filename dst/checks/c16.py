"""C16: work resumed from a saved copy continues as if it had never been interrupted."""

import copy
import io
import pickle
import warnings

from .. import boot, interrupt, simnet
from ..core import Rng, Violation, equal_values, sha
from ..fresh import Fresh
from ..zygote import Zygote
from . import c08, c14

RULE = (
    "A case is the life of one object (estimator, geomagnetic model, ellipsoid, prism or tesseroid layer) in a program "
    "that works on it, copies it, saves it to a simulated disk and crashes: operations (some rejected), copies of several "
    "kinds that go their own way, saves that succeed, fail with a full disk, are hit by an exception at a library "
    "statement or are torn by a crash, and restarts in pristine processes (sometimes another interpreter with other hash "
    "seeds) where only the saved bytes survive. Every outcome must equal that of an object that lived the same "
    "operations in one pristine process without any copy. Non-trivial when a copy or a restored object was used."
)
MEASURE = "hash of the sequence of operations, copies, saves, crashes and outcomes"
REAL = ["the estimators, IGRF14, Ellipsoid and layer accessors, their kernels run as Python code",
        "pickle, copy, sklearn.base.clone and xarray's NetCDF writer (in memory)"]
STUB = ["disk (bytes kept by the harness; full disk, torn writes)", "process crash and restart (pristine forks and a second interpreter)",
        "network of the first coefficient download", "Numba compilation is off"]
ASSUMPTIONS = ["equality within 1e-9 of the scale of each result", "copies of a layer are deep; shallow xarray copies share values by design"]
BUDGET = dict(quick=25, thorough=600)
KINDS = dict(models=["cart", "gb", "sph"], euler=["ed", "ei", "eil"], field=["igrf"], bodies=["ell"], layers=["pl", "tl"])
ESTIMATORS = ("cart", "gb", "sph", "ed", "ei", "eil")
EXC = ["memory", "interrupt", "value", "exit"]


def groups(tier):
    return ["models", "models", "euler", "field", "bodies", "layers", "models", "layers"]


def jit(group):
    return False


def prepare(group):
    ctx = prepare_fresh(group)
    ctx["fresh"] = Fresh("C16", group, 4242)
    return ctx


def prepare_fresh(group):
    hm = boot.import_harmonica()
    if group == "field":
        simnet.serve()
    return dict(group=group, hm=hm)


# ------------------------------------------------------------------- cases
def gen_op(rng, case, base):
    kind = case["kind"]
    if kind in ESTIMATORS:
        if case["inplace"] and rng.chance(0.2):
            return dict(op="inplace")
        op = dict(rng.pick(base["ops"]))
        if op["op"] == "set":
            op["via"] = rng.pick(["setattr", "set_params"])
        return op
    salt = rng.randrange(1000)
    if kind == "ell" and case["inplace"] and rng.chance(0.25):
        return dict(op="inplace", salt=salt)
    if kind == "igrf":
        what = rng.pick(["predict", "predict", "grid", "set", "set", "bad", "read"])
        op = dict(op=what, salt=salt)
        if what == "set":
            day = case["init"][0][:10]
            op["set"] = rng.pick([["date", rng.pick(DATES)], ["date", day + rng.pick(["", "T13:30", "T21:00"])], ["max_degree", rng.pick([13, 8, 3])], ["min_degree", rng.pick([1, 2])]])
        return op
    if kind == "ell":
        what = rng.pick(["set", "set", "set", "bad", "gravity", "magnetic", "surface"])
        op = dict(op=what, salt=salt)
        if what in ("set", "bad"):
            values = c14.VALID if what == "set" else c14.INVALID
            op["attr"] = rng.pick(sorted(values))
            op["value"] = rng.pick(values[op["attr"]])
        return op
    what = rng.pick(["update", "update", "prop", "gravity", "gravity", "boundaries", "body", "bad", "select"])
    return dict(op=what, salt=salt, nan=rng.chance(0.2), scalar=rng.chance(0.4))


DATES = ["1900-01-01", "1987-05-20", "2014-12-31", "2020-01-01", "2020-01-01T21:00", "2023-07-15T12:00", "2029-11-30", "2021-02-03T04:05:59.250000"]


def gen(rng, ctx, i):
    kind = rng.pick(KINDS[ctx["group"]])
    case = dict(kind=kind, seed=rng.getrandbits(32), inplace=rng.chance(0.5 if kind == "ell" else 0.3))  # edits in place: no shallow copies
    base = {}
    if kind in ESTIMATORS:
        while True:
            base = c08.gen(rng, dict(group={"ed": "euler", "ei": "euler", "eil": "euler"}.get(kind, kind)), i)
            if base["kind"] == kind and base["spec"]["n"] < 100:
                break
        case.update(spec=base["spec"], settings=base["settings"])
        for o in base["ops"]:
            o.pop("exc", None), o.pop("at", None)
        if not any(o["op"] == "fit" and "bad" not in o for o in base["ops"]):
            base["ops"].append(dict(op="fit", salt=0, weights=False))
    elif kind == "igrf":
        case["init"] = [rng.pick(DATES), rng.pick([13, 13, 5]), rng.pick([1, 1, 2])]
    elif kind == "ell":
        case["init"] = {k: rng.pick(c14.VALID[k]) for k in c14.ATTRS}
        if case["inplace"]:
            for k in ("susceptibility", "remanent_mag"):
                case["init"][k] = rng.pick([v for v in c14.VALID[k] if isinstance(v, list) and v[0] == "array"])
    steps, nobj, saved = [], 1, False
    for k in range(rng.randint(4, 12)):
        what = rng.pick(["op", "op", "op", "copy", "save", "save", "crash" if saved or rng.chance(0.1) else "op"])
        step = dict(do=what, obj=rng.randrange(nobj))
        if k == 0:
            step["do"] = what = "op"
            if kind in ESTIMATORS and rng.chance(0.6):
                step["op"] = rng.pick([o for o in base["ops"] if o["op"] == "fit" and "bad" not in o])
                steps.append(step)
                continue
        if what == "op":
            step["op"] = gen_op(rng, case, base)
        elif what == "copy":
            step["how"] = rng.pick(hows(kind) + (["copy"] if kind not in ("pl", "tl") and not case["inplace"] else []) + (["clone"] if kind in ("cart", "gb", "sph") else []))
            nobj += 1
            if case["inplace"] and kind in ESTIMATORS + ("ell",) and rng.chance(0.5):
                # what one of them does with its arrays is not the other's affair
                steps.append(step)
                step = dict(do="op", obj=rng.pick([step["obj"], nobj - 1]), op=dict(op="inplace", salt=0))
        elif what == "save":
            step["how"] = rng.pick(hows(kind))
            fault = rng.pick(["none", "none", "none", "full", "torn", "exception"])
            if fault == "torn" and step["how"] == "netcdf":
                fault = "none"  # what SciPy makes of a torn NetCDF file is not harmonica's affair
            saved = saved or fault == "none"
            if fault != "none":
                step.update(fault=fault, at=rng.getrandbits(32), exc=rng.pick(EXC))
        elif what == "crash":
            step.update(fresh=rng.chance(0.3), byte=rng.pick([0, 0, 255, 85]), salt=rng.randrange(1000))
        steps.append(step)
    case["steps"] = steps
    return case


def hows(kind):
    h = [f"pickle{p}" for p in ((2, 3, 4, 5, 5) if kind in ("pl", "tl") else (0, 1, 2, 3, 4, 5, 5))] + ["deepcopy", "deepcopy"]
    return h + (["netcdf", "netcdf", "dict"] if kind in ("pl", "tl") else [])


# ---------------------------------------------------------------- workload
def new(ctx, case):
    hm, kind = ctx["hm"], case["kind"]
    if kind in ESTIMATORS:
        return c08.new(ctx, case)
    if kind == "igrf":
        date, top, bottom = case["init"]
        return hm.IGRF14(date, min_degree=bottom, max_degree=top)
    if kind == "ell":
        return c14.make({k: c14.value(v) for k, v in case["init"].items()})
    import numpy as np

    r = np.random.default_rng(case["seed"])
    ny, nx = r.integers(2, 5, 2)
    x, y = axes(kind, nx, ny)
    surface, reference = surfaces(kind, r, ny, nx, case["seed"] % 7 == 0, case["seed"] % 3 == 0)
    make = hm.prism_layer if kind == "pl" else hm.tesseroid_layer
    props = dict(density=r.uniform(-500, 500, (ny, nx)).round(2)) if case["seed"] % 5 else None
    return make((x, y), surface, reference, properties=props)


def axes(kind, nx, ny):
    import numpy as np

    return (np.arange(nx) * 40.0, np.arange(ny) * 30.0 - 100) if kind == "pl" else (np.arange(nx) * 2.0 - 7, np.arange(ny) * 1.5 + 20)


def surfaces(kind, r, ny, nx, nan=False, scalar=True):
    import numpy as np

    base = 0.0 if kind == "pl" else 6.36e6
    surface = base + r.uniform(-50, 50, (ny, nx)) * (1 if kind == "pl" else 100)
    if nan:
        surface[0, -1] = np.nan
    return surface, base + 3.0 if scalar else base + r.uniform(-9, 9, (ny, nx))


def perform(ctx, case, obj, op):
    """The object after an operation, and what the caller saw."""
    import numpy as np

    kind = case["kind"]
    what = op["op"]
    if kind in ESTIMATORS:
        if what == "picture":
            return obj, copy.deepcopy(c08.attempt(lambda: c08.picture(obj, case)))
        if what == "set":
            if op.get("via") == "set_params" and "points" not in op["set"]:
                return obj, c08.attempt(lambda: obj.set_params(**op["set"]) and None)
            return obj, c08.attempt(lambda: c08.apply(obj, op["set"], case))
        if what == "inplace":
            for name in ("coefs_", "location_"):
                if hasattr(obj, name):
                    getattr(obj, name)[...] *= 1.25
            return obj, ("ok", None)
        return obj, copy.deepcopy(c08.attempt(lambda: c08.perform(obj, op, case), op.get("bad") == "strict-warnings"))
    r = np.random.default_rng([case["seed"], op["salt"]])
    if kind == "igrf":
        c = (r.uniform(-180, 360, 4), r.uniform(-89, 89, 4), r.uniform(-1e3, 5e5, 4))

        def do():
            if what == "set":
                name, v = op["set"]
                setattr(obj, name, dates(v) if name == "date" else v)
                return None
            if what == "grid":
                g = obj.grid((0, 40, -30, 30), 1e3 * op["salt"], shape=(3, 4))
                return {str(k): np.array(g[k]) for k in g.variables}
            if what == "bad":
                return obj.predict((c[0], c[1], np.full(4, np.nan) if op["salt"] % 2 else "x"))
            if what == "read":
                return [np.array(v) for v in (obj.coefficients if hasattr(obj, "coefficients") else ())]
            return [np.array(v) for v in obj.predict(c)], repr(obj.date), obj.min_degree, obj.max_degree
        return obj, c14.quiet(do)
    if kind == "ell":
        if what in ("set", "bad"):
            return obj, c14.quiet(lambda: setattr(obj, op["attr"], c14.value(op["value"])))
        if what == "inplace":
            for x in (obj.susceptibility, obj.remanent_mag):
                if isinstance(x, np.ndarray) and x.dtype.kind == "f":
                    x *= 1.5
            return obj, ("ok", None)
        which = ("gravity", "magnetic", "surface") if what == "picture" else (what,)
        seen = c14.fields([obj], op["salt"], which)
        if what == "picture":
            seen.append(copy.deepcopy({k: c14.plain(v) for k, v in c14.stored(obj).items()}))
        return obj, ("ok", seen)
    hm = ctx["hm"]
    acc = lambda: obj.prism_layer if kind == "pl" else obj.tesseroid_layer  # noqa: E731
    ny, nx = obj.sizes[obj.top.dims[0]], obj.sizes[obj.top.dims[1]]
    box = {}

    def do():
        if what in ("update", "bad"):
            surface, reference = surfaces(kind, r, ny, nx, op["nan"], op["scalar"])
            if what == "bad":
                surface = surface[:, :-1] if op["salt"] % 2 else surface[:-1]
            acc().update_top_bottom(surface, reference)
            return None
        if what == "prop":
            name = ["density", "density", "extra"][op["salt"] % 3]
            box["obj"] = obj.assign({name: (obj.top.dims, r.uniform(-900, 900, (ny, nx)).round(2))})
            return None
        if what == "select":
            dim = obj.top.dims[op["salt"] % 2]
            if obj.sizes[dim] > 2:
                box["obj"] = obj.isel({dim: slice(0, obj.sizes[dim] - 1)})
            return None
        if what == "boundaries":
            return [list(map(float, acc().boundaries)), list(map(float, acc().spacing)), list(map(int, acc().shape)), int(acc().size)]
        if what == "body":
            get = acc().get_prism if kind == "pl" else acc().get_tesseroid
            return np.array(get((op["salt"] % ny, op["salt"] % nx)), dtype=float)
        if kind == "pl":
            c = (r.uniform(-50, 200, 3), r.uniform(-150, 50, 3), r.uniform(60, 90, 3))
        else:
            c = (r.uniform(-10, 10, 3), r.uniform(15, 30, 3), r.uniform(6.4e6, 6.5e6, 3))
        if what == "gravity":
            return np.array(acc().gravity(c, field="g_z", parallel=False))
        return [{str(k): (tuple(map(str, v.dims)), np.array(v), {a: b for a, b in v.attrs.items()}) for k, v in obj.variables.items()},
                sorted(map(str, obj.coords)), {str(a): b for a, b in obj.attrs.items()},
                c14.quiet(lambda: np.array(acc().gravity(c, field="potential", parallel=False)))]
    assert hm
    seen = c14.quiet(do)
    return box.get("obj", obj), seen


def dates(v):
    import datetime

    return datetime.datetime.fromisoformat(v)


PICTURE = dict(op="picture", salt=7, weights=False)


def duplicate(obj, how, case):
    """A copy made in memory, or the bytes to be written."""
    if how == "copy":
        return copy.copy(obj)
    if how == "clone":
        from sklearn.base import clone

        return clone(obj)
    if how == "deepcopy":
        return copy.deepcopy(obj) if case["kind"] not in ("pl", "tl") or case["seed"] % 2 else obj.copy(deep=True)
    return restore(store(obj, how), how)


def store(obj, how):
    if how == "netcdf":
        return bytes(obj.to_netcdf(format="NETCDF3_64BIT", engine="scipy"))
    if how == "dict":
        return pickle.dumps(obj.to_dict())
    return pickle.dumps(obj, 5 if how == "deepcopy" else int(how[-1]))


def restore(blob, how):
    if how == "netcdf":
        import xarray as xr

        return xr.load_dataset(io.BytesIO(blob), engine="scipy")
    if how == "dict":
        import xarray as xr

        return xr.Dataset.from_dict(pickle.loads(blob))
    return pickle.loads(blob)


class Full(io.BytesIO):
    def __init__(self, limit):
        super().__init__()
        self.limit = limit

    def write(self, b):
        b = memoryview(b)
        if self.tell() + b.nbytes > self.limit:
            raise OSError(28, "simulated: no space left on device")
        return super().write(b)


# --------------------------------------------------------------- processes
def answer(ctx, case, kind, *args):
    """Runs in a pristine process."""
    warnings.simplefilter("ignore")
    try:
        return "answer", (live if kind == "live" else replay)(ctx, case, *args)
    except Violation as v:
        return "violation", (v.cls, str(v.detail))


def replay(ctx, case, ops):
    """Outcomes of one object that lives through the operations alone."""
    obj, seen = new(ctx, case), []
    for op in ops:
        obj, s = perform(ctx, case, obj, op)
        seen.append(s)
    return seen


def live(ctx, case, disk, histories, start, byte, salt):
    """One life of the program: from the saved bytes to the next crash.

    ``disk`` maps objects to saved (how, bytes, history); histories are lists of [operation, outcome].
    """
    import numpy as np

    boot.perturb(byte)
    if start:
        np.random.seed(salt)
    objects, stats, trace = {}, {}, []

    def add(key):
        stats[key] = stats.get(key, 0) + 1

    for name in histories:
        obj, hist = None, []
        for how, blob, saved in reversed(disk.get(name, [])):
            try:
                obj = restore(blob, how)
                hist = list(saved)
                add("restored")
                add("restored_" + how[:6])
                break
            except Exception as e:
                if not how.endswith("!"):
                    raise Violation("saved-copy-unreadable", f"{name} saved as {how}: {e!r}") from e
                add("torn_refused")
        histories[name] = hist
        objects[name] = obj if obj is not None else new(ctx, case)
    steps = case["steps"]
    k = start
    while k < len(steps):
        step = steps[k]
        k += 1
        names = sorted(objects, key=int)
        name = names[step["obj"] % len(names)]
        obj = objects[name]
        if step["do"] == "crash":
            trace.append(("crash", step["fresh"]))
            break
        if step["do"] == "op":
            objects[name], seen = perform(ctx, case, obj, step["op"])
            histories[name].append([step["op"], seen])
            trace.append((name, step["op"]["op"], seen[0]))
        elif step["do"] == "copy":
            fresh = str(max(map(int, objects)) + 1)
            try:
                objects[fresh] = duplicate(obj, step["how"], case)
            except Exception as e:
                raise Violation("cannot-copy", f"step {k} {step['how']} of {case}: {e!r}") from e
            hist = histories[name]
            if step["how"] == "clone":
                hist = [h for h in hist if h[0]["op"] == "set"]
            histories[fresh] = list(hist)
            for who in (fresh, name):  # both are what the original was
                objects[who], seen = perform(ctx, case, objects[who], PICTURE)
                histories[who].append([PICTURE, seen])
            trace.append((name, "copy", step["how"]))
            add("copied_" + step["how"][:6])
        else:
            torn = save(case, step, k, obj, name, histories[name], disk, add)
            trace.append((name, "save", step["how"], step.get("fault")))
            objects[name], seen = perform(ctx, case, obj, PICTURE)
            histories[name].append([PICTURE, seen])
            if torn:
                trace.append("torn")
                break
    else:
        for name in sorted(objects, key=int):
            objects[name], seen = perform(ctx, case, objects[name], PICTURE)
            histories[name].append([PICTURE, seen])
    return disk, histories, k, stats, trace


def save(case, step, k, obj, name, history, disk, add):
    """Writes a copy; True when the process crashes in the middle of it."""
    how, fault = step["how"], step.get("fault")
    where = f"step {k} {step} of {case}"
    try:
        blob = store(obj, how)
    except Exception as e:
        raise Violation("cannot-save", f"{where}: {e!r}") from e
    if fault == "full":
        add("fault_disk_full")
        try:
            f = Full(step["at"] % len(blob))
            if how.startswith("pickle"):
                pickle.dump(obj, f, int(how[-1]))
            else:
                f.write(blob)
        except OSError:
            return False
        raise Violation("full-disk-unnoticed", where)
    if fault == "exception":
        tracer = interrupt.Tracer()
        with tracer:
            store(obj, how)
        at = interrupt.choose(Rng("site", step["at"]), tracer.sites)
        if at is not None:
            tracer = interrupt.Tracer(at, step["exc"])
            with tracer:
                c14.quiet(lambda: store(obj, how))
            if tracer.fired:
                add("fault_" + step["exc"])
            return False
    if fault == "torn":
        add("fault_torn_write")
        cut = step["at"] % len(blob)
        disk.setdefault(name, []).append((how + "!", blob[:cut], list(history)))
        return True
    disk.setdefault(name, []).append((how, blob, list(history)))
    return False


def run(case, ctx, out):
    z = Zygote(lambda *args: answer(ctx, *args))
    disk, histories, k, trace, lives = {}, {"0": []}, 0, [], 0
    fresh, byte, salt = False, 0, 0
    try:
        while True:
            ask = ctx["fresh"].ask if fresh else z.ask
            got = ask(case, "live", disk, histories, k, byte, salt)
            if got[0] == "violation":
                raise Violation(*got[1])
            disk, histories, k, stats, part = got[1]
            for key, v in stats.items():
                out.stats.add(key, v)
            trace.append(part)
            lives += 1
            last = part[-1] if part else None
            if last == "torn":
                fresh, byte, salt = False, 255, 1
            elif last is not None and last[0] == "crash":
                step = case["steps"][k - 1]
                fresh, byte, salt = step["fresh"], step["byte"], step["salt"]
            else:
                break
            out.fired("crash")
            if fresh:
                out.stats.add("other_interpreter")
        for name in sorted(histories, key=int):
            hist = histories[name]
            want = z.ask(case, "replay", [h[0] for h in hist])
            if want[0] == "violation":
                raise Violation(*want[1])
            for j, ((op, seen), ref) in enumerate(zip(hist, want[1])):
                where = f"object {name}, operation {j} {op} of {[h[0]['op'] for h in hist]} in {case}"
                if seen[0] != ref[0] or (seen[0] == "error" and seen[1] != ref[1]):
                    raise Violation("outcome-differs", f"{where}: {brief(seen)} instead of {brief(ref)}")
                if seen[0] == "ok":
                    bad = equal_values(seen[1], ref[1], 1e-9)
                    if bad:
                        raise Violation("restored-object-differs", f"{where}: {bad}")
            out.stats.add("outcomes_compared", len(hist))
    finally:
        z.close()
    out.stats.add("kind_" + case["kind"])
    out.stats.add("lives", lives)
    out.digest = sha(trace, [[repr(h[1])[:500] for h in histories[n]] for n in sorted(histories)])
    if out.stats.get("restored", 0) or any(x.startswith("copied") for x in out.stats):
        out.sigs.append([case["kind"], case["seed"], trace])


def brief(seen):
    return seen if seen[0] == "error" else "a result"


def shrink(case):
    steps = case["steps"]
    for k in range(len(steps)):
        if len(steps) > 1:
            yield dict(case, steps=steps[:k] + steps[k + 1:])
    for k, s in enumerate(steps):
        if "fault" in s:
            yield dict(case, steps=steps[:k] + [{a: b for a, b in s.items() if a not in ("fault", "at", "exc")}] + steps[k + 1:])
        if s.get("fresh"):
            yield dict(case, steps=steps[:k] + [dict(s, fresh=False)] + steps[k + 1:])
        if s["obj"]:
            yield dict(case, steps=steps[:k] + [dict(s, obj=0)] + steps[k + 1:])
    if case["kind"] in ("cart", "gb", "sph"):
        from .. import eqs

        for spec in eqs.shrink_spec(case["spec"]):
            yield dict(case, spec=spec)
