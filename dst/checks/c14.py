"""C14: an ellipsoid's state is always valid and its field reflects its current state."""

import warnings

from .. import boot, interrupt
from ..core import Rng, Violation, equal_values, freeze, sha
from ..zygote import Zygote

RULE = (
    "A case is a history of operations on one or two ellipsoid bodies: assignments of every attribute (valid, invalid, "
    "or hit by an exception at one of the library's statements), in-place edits of array values, copies, and "
    "computations of gravity, magnetic field and surface, alone or together, some of them interrupted. After every step "
    "the stored values are compared with a model, rebuilt through the constructor, and the fields with those of a body "
    "freshly built with the stored values in a fresh copy of the process. Non-trivial when an assignment was rejected or "
    "interrupted, or a field was computed before a later change."
)
MEASURE = "hash of the sequence of operations, outcomes and fault sites"
REAL = ["Ellipsoid, ellipsoid_gravity, ellipsoid_magnetic"]
STUB = ["the moment and kind of failure (exception raised before a chosen library statement)"]
ASSUMPTIONS = ["fields equal within 1e-10 of their scale"]
BUDGET = dict(quick=22, thorough=600)
EXC = ["memory", "interrupt", "value", "exit"]
ATTRS = ["a", "b", "c", "yaw", "pitch", "roll", "center", "density", "susceptibility", "remanent_mag"]


def groups(tier):
    return ["one", "two"]


def jit(group):
    return False


def prepare(group):
    hm = boot.import_harmonica()
    return dict(group=group, hm=hm)


# Values are JSON; ("array", x) becomes an array, ("np", dtype, x) a NumPy scalar
VALID = dict(
    a=[3.0, 5.0, 8, 20.0, 20.0, 20.00001, 50.5, ["np", "float32", 12.5], ["np", "int64", 7], 1e-3],
    yaw=[0.0, 30.0, -75.5, 90, 180.0, 400.0, ["np", "float64", 12.0]],
    pitch=[0.0, 30.0, -75.5, 90, ["np", "float64", 12.0]],
    roll=[0.0, 45.0, -110.5, 90, ["np", "float64", 12.0]],
    center=[[0.0, 0.0, 0.0], [10.0, -5.0, -30.0], ["array", [1.0, 2.0, -50.0]], [3, 4, -20], ["list", [7.5, 1.0, -22.0]]],
    density=[None, 0.0, 500.0, -300, ["np", "float32", 200.0], ["np", "int64", 90]],
    susceptibility=[None, 0.0, 0.1, 2, ["np", "float64", 0.3], ["array", [[0.1, 0.0, 0.02], [0.0, 0.3, 0.0], [0.02, 0.0, 0.2]]],
                    ["array", [[1.0, 0.5, 0.0], [0.5, 2.0, 0.1], [0.0, 0.1, 3.0]]], ["array", [[1, 0, 0], [0, 2, 0], [0, 0, 3]]]],
    remanent_mag=[None, ["list", [1.0, -2.0, 0.5]], [3, 0, 1], ["array", [10.0, 5.0, -1.0]], ["array", [0.0, 0.0, 0.0]]],
)
VALID["b"] = VALID["c"] = VALID["a"]
INVALID = dict(
    a=[0, 0.0, -1.0, -20, "x", None, ["array", [1.0, -2.0]], ["np", "float64", -3.0], ["np", "int64", 0], ["list", [1.0]], -1e-300,
       -1e9, ["inf", -1]],
    density=["12", ["array", [1.0, 2.0]], ["list", [5.0]], ["complex", 1.0], ["array", 3.0]],
    susceptibility=["0.1", ["array", [1.0, 2.0, 3.0]], ["list", [[1, 0, 0], [0, 1, 0], [0, 0, 1]]], ["array", [[1.0, 2.0], [3.0, 4.0]]],
                    ["complex", 0.5], ["array", 0.5], ["array", [[[1.0]]]]],
    remanent_mag=["abc", 5.0, ["array", [1.0, 2.0]], ["list", [1.0, 2.0, 3.0, 4.0]], ["array", [[1.0, 2.0, 3.0]]], ["list", []],
                  ["array", 2.0], ["dict", 1]],
)
INVALID["b"] = INVALID["c"] = INVALID["a"]


def value(v):
    import numpy as np

    if isinstance(v, list) and v and isinstance(v[0], str):
        kind = v[0]
        if kind == "array":
            return np.array(v[1])
        if kind == "np":
            return np.dtype(v[1]).type(v[2])
        if kind == "list":
            return [list(x) if isinstance(x, list) else x for x in v[1]]
        if kind == "complex":
            return complex(v[1], 1.0)
        if kind == "inf":
            return v[1] * float("inf")
        if kind == "dict":
            return {0: 1.0, 1: 2.0, 2: 3.0}
    return tuple(v) if isinstance(v, list) else v


def gen(rng, ctx, i):
    def body():
        out = {k: rng.pick(VALID[k]) for k in ATTRS}
        shape = rng.pick(["any", "any", "sphere", "prolate", "oblate", "aligned"])
        if shape == "aligned" or rng.chance(0.2):
            out["yaw"] = out["pitch"] = out["roll"] = 0.0
        if shape == "aligned":
            out["a"], out["b"], out["c"] = 30.0, 20.0, rng.pick([10.0, 20.0])
        elif shape != "any":
            out["a"] = out["b"] = out["c"] = 20.0
            if shape != "sphere":
                out[rng.pick("abc")] = 33.0 if shape == "prolate" else 9.0
        for k in ("density", "susceptibility", "remanent_mag"):
            if out[k] is None and rng.chance(0.6):
                out[k] = rng.pick(VALID[k])
        return out

    n = 1 if ctx["group"] == "one" else 2
    ops = []
    for _ in range(rng.randint(3, 12)):
        what = rng.pick(["set", "set", "set", "set", "bad", "bad", "inplace", "gravity", "magnetic", "surface", "copy", "text"])
        op = dict(op=what, body=rng.randrange(n), salt=rng.randrange(1000))
        if what == "set":
            op["attr"] = rng.pick(ATTRS)
            op["value"] = rng.pick(VALID[op["attr"]])
        elif what == "bad":
            op["attr"] = rng.pick(sorted(INVALID))
            op["value"] = rng.pick(INVALID[op["attr"]])
        elif what == "inplace":
            op["attr"] = rng.pick(["susceptibility", "remanent_mag", "center"])
        elif what == "copy":
            op["how"] = rng.pick(["copy", "deepcopy", "pickle"])
        elif what in ("gravity", "magnetic"):
            op["all"] = rng.chance(0.4)
        if what in ("set", "bad", "gravity", "magnetic") and rng.chance(0.35):
            op.update(exc=rng.pick(EXC), at=rng.getrandbits(32))
        ops.append(op)
    return dict(bodies=[body() for _ in range(n)], ops=ops, salt=rng.randrange(10**6))


# ---------------------------------------------------------------- workload
def make(values):
    import harmonica as hm

    kw = {k: values[k] for k in ("density", "susceptibility", "remanent_mag")}
    return hm.Ellipsoid(values["a"], values["b"], values["c"], values["yaw"], values["pitch"], values["roll"], values["center"], **kw)


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return "ok", f()
        except BaseException as e:
            return "error", type(e).__name__


def observation(salt):
    import numpy as np

    r = np.random.default_rng(salt)
    x, y, z = r.uniform(-60, 60, 4), r.uniform(-60, 60, 4), r.uniform(-60, 60, 4)
    x[0], y[0], z[0] = 0.4, -0.3, -0.2  # inside some bodies
    return x, y, z


INDUCING = (2000.0, 18000.0, -30000.0)


def fields(bodies, salt, which=("gravity", "magnetic", "surface")):
    import harmonica as hm
    import numpy as np

    out = []
    c = observation(salt)
    for e in bodies:
        if "gravity" in which:
            out.append(quiet(lambda: [np.array(v) for v in hm.ellipsoid_gravity(c, e)]))
        if "magnetic" in which:
            out.append(quiet(lambda: [np.array(v) for v in hm.ellipsoid_magnetic(c, e, INDUCING)]))
        if "surface" in which:
            out.append(quiet(lambda: [np.array(v) for v in e.get_surface(lon_size=4, lat_size=3)]))
            out.append(quiet(lambda: (str(e), repr(e))))
            out.append(quiet(lambda: np.array(e.rotation_matrix)))
    return out


def answer(values, salt):
    """Field of a body built with these values by a fresh process."""
    made = quiet(lambda: make(values))
    if made[0] == "error":
        return ("rejected", made[1])
    return ("built", fields([made[1]], salt))


def stored(e):
    return {k: getattr(e, k) for k in ATTRS}


def same(a, b):
    return equal_values(plain(a), plain(b), 0.0) is None


def plain(v):
    import numpy as np

    return v if v is None or isinstance(v, (str, dict)) else np.asarray(v, dtype=complex if isinstance(v, complex) else None)


def compare(got, want):
    for k, (x, y) in enumerate(zip(got, want)):
        if x[0] != y[0] or (x[0] == "error" and x[1] != y[1]):
            return f"#{k}: {x[:2]} instead of {y[:2]}"
        if x[0] == "ok":
            bad = equal_values(x[1], y[1], 1e-10, 1e-25, path=f"#{k}")
            if bad:
                return bad
    return None


def run(case, ctx, out):
    import copy
    import pickle

    import numpy as np

    fresh = Zygote(answer)
    model = [{k: value(v) for k, v in b.items()} for b in case["bodies"]]
    bodies = [make({k: value(v) for k, v in b.items()}) for b in case["bodies"]]
    trace, nontrivial, computed = [], False, False
    held = []  # arrays the caller got from a body or gave to it
    for k, op in enumerate(case["ops"]):
        what, i = op["op"], op["body"] % len(bodies)
        e, m = bodies[i], model[i]
        where = f"step {k} {op} after {[(o['op'], o.get('attr')) for o in case['ops'][:k]]} from {case['bodies']}"
        outcome, fired = "ok", None
        tracer = interrupt.Tracer()
        if what in ("set", "bad"):
            v = value(op["value"])
            for x in (getattr(e, op["attr"]), v):
                if isinstance(x, np.ndarray):
                    held.append((x, x.copy()))
            if "exc" in op:
                probe = copy.deepcopy(e)
                with tracer:
                    quiet(lambda: setattr(probe, op["attr"], v))
                tracer = interrupt.Tracer(interrupt.choose(Rng("site", op["at"]), tracer.sites), op["exc"])
                with tracer:
                    got = quiet(lambda: setattr(e, op["attr"], v))
                fired = tracer.fired
            else:
                got = quiet(lambda: setattr(e, op["attr"], v))
            outcome = got[0]
            if fired:
                where += f", exception at {interrupt.short(fired)}"
            if what == "bad" and outcome == "ok":
                raise Violation("invalid-value-accepted", where)
            if what == "set" and outcome == "error" and not fired:
                raise Violation("valid-value-rejected", f"{where}: {got[1]}")
            new = dict(m, **{op["attr"]: v})
            if outcome == "ok" or (fired and what == "set" and same(getattr(e, op["attr"]), v) and not same(m[op["attr"]], v)):
                model[i] = m = new
            if outcome == "error":
                nontrivial = True
            if computed:
                nontrivial = True
        elif what == "inplace":
            x = getattr(e, op["attr"])
            if isinstance(x, np.ndarray):
                held = [h for h in held if not np.shares_memory(h[0], x)]
            if isinstance(x, np.ndarray) and x.dtype.kind == "f":
                m[op["attr"]] = np.array(x)
                if op["attr"] == "susceptibility":
                    x[0, 1] += 0.05
                    x[1, 0] += 0.05
                    x[2, 2] += 0.5
                else:
                    x[op["salt"] % 3] += 4.0
                m[op["attr"]] = np.array(x)
            elif isinstance(x, list):
                x[op["salt"] % 3] = -41.0
                m[op["attr"]] = list(x)
        elif what == "copy":
            new = dict(copy=copy.copy, deepcopy=copy.deepcopy, pickle=lambda o: pickle.loads(pickle.dumps(o)))[op["how"]](e)
            # the copy goes its own way
            new.a, new.yaw, new.density, new.susceptibility, new.center = 77.0, 13.0, 55.0, 0.9, (1.0, 1.0, 1.0)
            quiet(lambda: fields([new], 1))
        elif what in ("gravity", "magnetic"):
            import harmonica as hm

            c = observation(op["salt"])
            group = bodies if op["all"] else [e]
            call = (lambda: hm.ellipsoid_gravity(c, group)) if what == "gravity" else (lambda: hm.ellipsoid_magnetic(c, group, INDUCING))
            if "exc" in op:
                with tracer:
                    quiet(call)
                tracer = interrupt.Tracer(interrupt.choose(Rng("site", op["at"]), tracer.sites), op["exc"])
                with tracer:
                    got = quiet(call)
                fired = tracer.fired
            else:
                got = quiet(call)
            computed = True
            outcome = got[0]
            if fired:
                where += f", exception at {interrupt.short(fired)}"
            if not fired and len(group) > 1:
                parts = [fresh.ask(mm, op["salt"])[1][0 if what == "gravity" else 1] for mm in model]
                if all(p[0] == "ok" for p in parts):
                    if got[0] != "ok":
                        raise Violation("field-of-several-raised", f"{where}: {got[1]}")
                    for j in range(3):
                        total = sum(p[1][j] for p in parts)
                        size = sum(np.max(np.abs(p[1][j])) for p in parts)
                        if not np.allclose(got[1][j], total, rtol=0, atol=1e-10 * size + 1e-25, equal_nan=True):
                            raise Violation("field-differs-from-new-bodies", f"{where}: {got[1][j]} instead of {total}")
        elif what == "surface":
            quiet(lambda: e.get_surface(lon_size=5, lat_size=4))
        elif what == "text":
            quiet(lambda: (str(e), repr(e)))
        if fired:
            out.fired(op["exc"])
            nontrivial = True
            out.stats.add("sites_" + interrupt.short(fired).split(":")[0])
        trace.append((what, op.get("attr"), outcome, interrupt.short(fired)))
        out.stats.add(f"{what}_{outcome}")
        for x, was in held:
            if not np.array_equal(x, was, equal_nan=True):
                raise Violation("changed-an-array-of-the-caller", f"{where}: {was.tolist()} became {x.tolist()}")
        for j, (e, m) in enumerate(zip(bodies, model)):
            now = stored(e)
            for name in ATTRS:
                if not same(now[name], m[name]):
                    cls = "rejected-assignment-changed-body" if outcome == "error" else "wrong-stored-value"
                    raise Violation(cls, f"{where}: body {j} {name} is {now[name]!r}, should be {m[name]!r}")
            if j == i or op.get("all"):
                kind, want = fresh.ask(now, case["salt"])
                if kind == "rejected":
                    raise Violation("holds-invalid-value", f"{where}: {now} ({want})")
                got = fields([e], case["salt"])
                bad = compare(got, want)
                if bad:
                    raise Violation("field-differs-from-new-body", f"{where}: {bad}")
    fresh.close()
    out.digest = sha(trace, [freeze(stored(e)) for e in bodies])
    if nontrivial:
        out.sigs.append(trace)


def shrink(case):
    ops = case["ops"]
    for k in range(len(ops)):
        if len(ops) > 1:
            yield dict(case, ops=ops[:k] + ops[k + 1:])
    for k, o in enumerate(ops):
        if "exc" in o:
            yield dict(case, ops=ops[:k] + [{a: b for a, b in o.items() if a not in ("exc", "at")}] + ops[k + 1:])
    if len(case["bodies"]) > 1:
        for j in range(2):
            yield dict(case, bodies=[case["bodies"][j]], ops=[o for o in ops if o["body"] == j])
