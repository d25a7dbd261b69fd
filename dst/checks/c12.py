"""C12: gradient-boosted source fits are repeatable and account for every window."""

import copy
import pickle
import random
import warnings

from .. import boot, interrupt, simpar
from ..core import Rng, Violation, sha

RULE = (
    "A case is a gradient-boosting workload (data layout, sources, windows, weights, damping, precision) with a random "
    "state, fitted several times: undisturbed, while other code draws from or reseeds the global random streams between "
    "the library's statements, after interrupted or rejected fits, after memory estimates, through copies, and on data of "
    "other sizes in between. A sequential boosting model finds an order of windows that explains the reported misfits "
    "step by step. Non-trivial when more than one window was visited."
)
MEASURE = "hash of the workload and of the recovered sequence of windows"
REAL = ["EquivalentSourcesGB, bordado windows, scikit-learn shuffling and solvers"]
STUB = ["moments at which other code uses the global random streams, moment and kind of failures",
        "Numba compilation is off, or its thread pool is replaced by the deterministic scheduler (group big)"]
ASSUMPTIONS = ["misfits within 1e-6 (2e-3 in float32) of their scale, coefficients of damped fits compared as predictions; "
               "float32 fits are checked for repeatability, number of steps, first and last misfit, not step by step",
               "windows are closed squares around the centres of bordado.rolling_window with the estimator's window size and overlap over the "
               "region of data and sources; points within round-off of a window's border belong to it"]
BUDGET = dict(quick=28, thorough=600)
EXC = ["memory", "interrupt", "value", "linalg", "exit"]


def groups(tier):
    return ["windows", "windows", "windows", "sparse", "sparse", "weighted", "weighted", "big"]


def jit(group):
    return group == "big"


def prepare(group):
    if group == "big":
        simpar.install()
    hm = boot.import_harmonica()
    return dict(group=group, hm=hm)


def gen(rng, ctx, i):
    group = ctx["group"]
    big = group == "big"
    case = dict(
        n=rng.pick([4990, 5000, 5001, 5100, 6000, 9000]) if big else rng.pick([4, 6, 9, 12, 20, 30, 48, 60]),
        seed=rng.getrandbits(32), layout=rng.pick(["uniform", "uniform", "grid", "clusters", "line"]) if not big else rng.pick(["uniform", "clusters"]),
        aspect=rng.pick([1.0, 1.0, 2.5, 0.5]) if not big else 1.0, offset=rng.pick([0.0, 0.0, 5e5]),
        scale=rng.pick([1.0, 1.0, 1000.0]), points=big or group == "sparse" or rng.chance(0.25),
        spread=rng.pick([0.5, 1.0, 1.6]), npoints=rng.pick([10, 25]) if big else rng.pick([1, 3, 8, 15]),
        block=None if rng.chance(0.7) else rng.uniform(0.05, 0.3), depth=rng.pick(["default", 0.1, 0.5, 0.003]),
        window="default" if big or rng.chance(0.08) else rng.uniform(0.25, 1.0) if rng.chance(0.85) else rng.pick([1.0, 1.0, 0.5]), overlap=rng.pick([0.5, 0.5, 0.5, 0.0, 0.25, 0.7]),
        damping=rng.pick([None, 1e-3, 0.1, 10.0]), weights=rng.chance(0.9 if group == "weighted" else 0.25),
        shape=rng.pick(["1d", "1d", "2d", "col"]), dtype=rng.pick(["float64"] * 5 + ["float32"]),
        values=rng.pick(["plain"] * 5 + ["steep"] * 2 + ["zeros"]), parallel=rng.chance(0.5), state=rng.pick([0, 1, 42, rng.randrange(2**31)]),
        kind=rng.pick(["int", "int", "int", "npint", "instance", "none"]), steps=[],
    )
    if case["values"] == "steep" and group == "windows" and rng.chance(0.7):  # misfits that fall by orders of magnitude
        case.update(damping=None, depth=0.003, points=False, block=None, dtype="float64", window=rng.uniform(0.25, 0.5),
                    n=rng.pick([9, 20, 30]), layout=rng.pick(["grid", "uniform"]), weights=False)
    if case["overlap"] == 0.7 and not big and case["window"] != "default":
        case["window"] = max(case["window"], 0.5)  # fewer than a hundred windows
    if case["dtype"] == "float32":
        case["damping"], case["offset"] = 10.0, 0.0  # keeps single precision meaningful
    for _ in range(rng.randint(1, 2) if big else rng.randint(2, 5)):
        what = rng.pick(["plain", "interfere", "interfere", "interrupted", "rejected", "memory", "copy", "other", "clone"])
        step = dict(what=what, salt=rng.getrandbits(32))
        if what == "interrupted":
            step["exc"] = rng.pick(EXC)
        if what == "copy":
            step["how"] = rng.pick(["copy", "deepcopy", "pickle"])
        case["steps"].append(step)
    if big:
        case["plan"] = simpar.random_plan(rng, preempt=0.3)
    return case


# --------------------------------------------------------------- workload
def data_of(case, salt=0):
    import numpy as np

    r = np.random.default_rng([case["seed"], salt])
    n = case["n"] if not salt else max(4, case["n"] // 2 + salt % 5)
    layout = case["layout"]
    if layout == "grid":
        k = max(2, int(n**0.5))
        x, y = np.meshgrid(np.linspace(0, 1, k), np.linspace(0, 1, max(2, n // k)))
        x, y = x.ravel(), y.ravel()
    elif layout == "clusters":
        centers = r.uniform(0, 1, (3, 2))
        which = r.integers(0, 3, n)
        x, y = (np.clip(centers[which, j] + r.normal(size=n) * 0.08, 0, 1) for j in range(2))
        x[:2], y[:2] = (0, 1), (0, 1)
    elif layout == "line":
        t = np.linspace(0, 1, n)
        x, y = t, np.clip(t + r.normal(size=n) * 0.02, 0, 1)
        y[0], y[-1] = 0, 1
    else:
        x, y = r.uniform(0, 1, n), r.uniform(0, 1, n)
    size = 100.0 * case["scale"]
    east = case["offset"] + size * case["aspect"] * x
    north = case["offset"] + size * y
    up = r.uniform(0, 0.1, x.size) * size
    data = r.normal(size=x.size) * 10 + 5
    if case.get("values") == "steep":
        data = data * 10 ** (-7 * x)
    elif case.get("values") == "zeros":
        data = data * 0
    weights = r.uniform(0.2, 3, x.size) if case["weights"] else None
    c = [east, north, up]
    if case["shape"] == "2d" and x.size % 2 == 0:
        c, data = [v.reshape(2, -1) for v in c], data.reshape(2, -1)
    elif case["shape"] == "col":
        c, data = [v.reshape(-1, 1) for v in c], data.reshape(-1, 1)
    if weights is not None:
        weights = weights.reshape(data.shape)
    return tuple(c), data, weights


def make(case):
    import harmonica as hm
    import numpy as np

    size = 100.0 * case["scale"]
    points = None
    if case["points"]:
        r = np.random.default_rng([case["seed"], 77])
        s, m = case["spread"], case["npoints"]
        lo = 0.5 - s / 2
        points = (case["offset"] + size * case["aspect"] * r.uniform(lo, lo + s, m),
                  case["offset"] + size * r.uniform(lo, lo + s, m), -size * r.uniform(0.1, 0.5, m))
    state = dict(int=case["state"], npint=np.int64(case["state"]), none=None).get(case["kind"])
    if case["kind"] == "instance":
        state = np.random.RandomState(case["state"] % 2**32)
    window = case["window"]
    if window != "default":
        c = data_of(case)[0]
        if window == 1.0 and case["overlap"] == 0.0 and case["aspect"] == 2.5:
            window = 0.97  # two and a half windows: round-off decides between two and three
        window = float(window * min(np.ptp(c[0]), np.ptp(c[1])))
    depth = case["depth"] if case["depth"] == "default" else case["depth"] * size
    est = hm.EquivalentSourcesGB(
        damping=case["damping"], points=points, depth=depth, block_size=None if case["block"] is None else case["block"] * size,
        window_size=window, parallel=case["parallel"], random_state=state, dtype=case["dtype"])
    if case["overlap"] != 0.5:
        est.overlapping = case["overlap"]
    return est


# ------------------------------------------------------------------- model
def green(coords, points):
    import numpy as np

    return 1 / np.sqrt(sum((np.asarray(a, float)[:, None] - np.asarray(b, float)[None, :]) ** 2 for a, b in zip(coords, points)))


def windows_of(est, coords):
    """Every window with data and sources, as (sources, data) index arrays, and their places among all windows.

    Windows are closed: points on their borders belong to them whatever the round-off.
    """
    import bordado as bd
    import numpy as np

    points = est.points_
    if est.window_size_ is None:
        return [(np.arange(points[0].size), np.arange(coords[0].size))], [0], 1
    x, y = (np.concatenate([np.asarray(coords[k], float), np.asarray(points[k], float)]) for k in range(2))
    region = (x.min(), x.max(), y.min(), y.max())
    size = float(est.window_size_)
    slack = 3 * np.finfo(est.dtype).eps * np.max(np.abs(region))
    centers, _ = bd.rolling_window((x, y), region=region, window_size=min(size, np.ptp(x), np.ptp(y)), overlap=est.overlapping)
    windows, places = [], []
    for k, (cx, cy) in enumerate(zip(centers[0].ravel(), centers[1].ravel())):
        src, dat = (np.flatnonzero(np.maximum(abs(np.asarray(q[0], float) - cx), abs(np.asarray(q[1], float) - cy)) <= size / 2 + slack)
                    for q in (points, coords))
        if src.size and dat.size:
            windows.append((src, dat))
            places.append(k)
    return windows, places, centers[0].size


class Model:
    """Boosting of the windows in an order that explains the reported misfits."""

    def __init__(self, est, coords, data, weights):
        import numpy as np

        dtype = est.dtype
        self.est = est
        self.coords = tuple(np.ravel(c).astype(dtype) for c in coords[:3])
        self.data = np.ravel(data).astype(dtype)
        self.weights = None if weights is None else np.ravel(weights).astype(dtype)
        self.windows, self.places, self.total = windows_of(est, self.coords)
        self.green = green(self.coords, est.points_)
        self.tol = 1e-6 if str(dtype) == "float64" else 2e-3
        self.scale = float(np.sqrt(np.mean(self.data.astype(float) ** 2)))
        self.work = 0
        self.most = min(40 * len(self.windows) + 400, 800)

    def step(self, residue, w):
        import numpy as np
        import verde.base as vdb

        self.work += 1
        src, dat = self.windows[w]
        jac = self.green[np.ix_(dat, src)].astype(self.est.dtype)
        c = vdb.least_squares(jac, residue[dat].astype(self.est.dtype), None if self.weights is None else self.weights[dat], self.est.damping)
        return residue - self.green[:, src] @ c, c

    def explain(self, errors, hints, final):
        """Order of windows giving these misfits and the final prediction (when given), or None. ``hints`` are orders to try first."""
        import numpy as np

        n = len(self.windows)
        tol = self.tol if self.est.damping is None else 1e-8
        best = [0, "no step explained"]

        def rms(r):
            return float(np.sqrt(np.mean(r**2)))

        def search(residue, left, k, order):
            if not left:
                want = self.data - residue
                size = max(float(np.max(np.abs(want))), self.scale)
                if final is None or np.allclose(final, want, rtol=0, atol=1e-5 * size):
                    return order
                best[:] = [k, f"order {order} gives the misfits but predicts {want[:5]} instead of {final[:5]}"]
                return None
            tried = [h[k] for h in hints if len(h) == n and h[:k] == order and h[k] in left]
            tried = list(dict.fromkeys(tried + sorted(left)))
            got = []
            for w in tried:
                if self.work > self.most:
                    return None
                new, c = self.step(residue, w)
                err = abs(rms(new) - errors[k + 1])
                if err <= tol * max(self.scale, errors[k + 1], errors[k]):
                    found = search(new, left - {w}, k + 1, order + [w])
                    if found is not None:
                        return found
                else:
                    got.append((err, w))
            if k >= best[0]:
                best[:] = [k, f"step {k} reported {errors[k + 1]!r}; no remaining window gives that (nearest off by {min(got)[0] if got else 0:.3g})"]
            return None

        order = search(self.data.astype(float), frozenset(range(n)), 0, [])
        self.why = best[1]
        return order


def check_fit(est, coords, data, weights, hints, where):
    import numpy as np

    model = Model(est, coords, data, weights)
    errors = [float(e) for e in est.rmse_per_iteration_]
    n = len(model.windows)
    if len(errors) != n + 1:
        raise Violation("wrong-number-of-misfits", f"{where}: {len(errors)} misfits for {n} windows ({model.total} with empty ones)")
    tol = model.tol * max(model.scale, 1e-300)
    if not abs(errors[0] - model.scale) <= tol:
        raise Violation("wrong-initial-misfit", f"{where}: {errors[0]} instead of {model.scale}")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        final = est.predict(coords)
    misfit = float(np.sqrt(np.mean((np.ravel(final).astype(float) - model.data) ** 2)))
    big = float(np.max(np.abs(model.green * est.coefs_.astype(float)))) if n else 0.0
    slack = model.tol * max(model.scale, errors[-1]) + (1e-10 if est.dtype == "float64" else 1e-4) * big * est.coefs_.size
    if not abs(misfit - errors[-1]) <= slack:
        raise Violation("last-misfit-is-not-of-the-model", f"{where}: reported {errors[-1]}, model gives {misfit}")
    if str(est.dtype) == "float32":
        return None, model  # column scaling in single precision is too coarse to follow step by step
    damped = est.damping is not None and est.damping >= 1e-3
    order = model.explain(errors, hints, np.ravel(final).astype(float) if damped else None)
    if order is None:
        if model.work > model.most:
            return None, model  # many orders give nearly the same misfits
        raise Violation("no-order-of-windows-explains-the-fit", f"{where}: {n} windows, misfits {errors}; {model.why}")
    return order, model


# ------------------------------------------------------------------ faults
class Interfere(interrupt.Tracer):
    """Other code of the program using the global random streams between library lines."""

    def __init__(self, rng, when):
        super().__init__()
        self.rng, self.when, self.count, self.used = rng, when, 0, []

    def on_line(self, frame, event, arg):
        if event == "line":
            if self.count in self.when:
                self.used.append(disturb(self.rng))
            self.count += 1
        return self.on_line


def disturb(rng):
    import numpy as np

    what = rng.pick(["np-draw", "np-draw", "np-shuffle", "np-seed", "py-draw", "py-seed", "np-state"])
    if what == "np-draw":
        return what, float(np.random.random())
    if what == "np-shuffle":
        a = np.arange(7)
        np.random.shuffle(a)
        return what, a.tolist()
    if what == "np-seed":
        np.random.seed(rng.randrange(2**32))
    elif what == "py-draw":
        return what, random.random()
    elif what == "py-seed":
        random.seed(rng.randrange(2**32))
    else:
        np.random.set_state(np.random.RandomState(rng.randrange(2**32)).get_state())
    return what, None


def streams():
    import numpy as np

    s = np.random.get_state()
    return sha(s[0], s[1].tobytes(), s[2:], random.getstate())


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def state_of(est):
    import numpy as np

    return [np.array(est.coefs_), np.array(est.rmse_per_iteration_), [np.array(p) for p in est.points_]]


def check_same(first, now, model, damped, where, out):
    import numpy as np

    exact = all(np.array_equal(a, b) for a, b in zip([first[0], first[1], *first[2]], [now[0], now[1], *now[2]]) if a.shape == b.shape)
    out.stats.add("bit_identical_fits", int(exact))
    out.stats.add("compared_fits")
    if first[1].shape != now[1].shape or first[0].shape != now[0].shape:
        raise Violation("not-repeatable", f"{where}: misfits {now[1]} instead of {first[1]}")
    tol = model.tol * max(model.scale, float(np.max(first[1])))
    if not damped and model.tol > 1e-4:
        return
    if not np.allclose(first[1], now[1], rtol=0, atol=tol):
        raise Violation("not-repeatable", f"{where}: misfits {now[1]} instead of {first[1]}")
    if damped:
        a, b = model.green @ first[0], model.green @ now[0]
        if not np.allclose(a, b, rtol=0, atol=100 * model.tol * max(model.scale, float(np.max(np.abs(a))))):
            raise Violation("not-repeatable", f"{where}: predicts {b[:5]} instead of {a[:5]}")


def fit(est, c, d, w):
    got = quiet(lambda: est.fit(c, d, w))
    if got is not est:
        raise Violation("fit-does-not-return-itself", repr(got))


def run(case, ctx, out):
    import numpy as np
    from sklearn import clone, utils

    np.random.seed(case["seed"] % 2**32)
    random.seed(case["seed"])
    seeded = case["kind"] != "none"
    plan = case.get("plan")
    if plan:
        simpar.set_plan(None)
    c, d, w = data_of(case)
    where = str({k: v for k, v in case.items() if k not in ("steps", "plan")})
    trace = []

    def attempt(est):
        try:
            return None, fit(est, c, d, w)
        except Violation:
            raise
        except Exception as e:
            return f"{type(e).__name__}: {e}", None

    before = streams()
    est = make(case)
    error, _ = attempt(est)
    if seeded and streams() != before:
        raise Violation("global-random-stream-disturbed", f"{where}: first fit")
    if error:
        # rejected workloads (windows larger than the region, no neighbours): must be rejected every time
        est2 = make(case)
        if attempt(est2)[0] is None:
            raise Violation("not-repeatable", f"{where}: {error} the first time only")
        out.stats.add("rejected_workloads")
        out.digest = sha(error)
        return
    first = state_of(est)
    nw = Model(est, c, d, w)
    hints = []
    if seeded:
        flags = list(range(nw.total))
        shuffled = utils.shuffle(flags, random_state=case["state"] % 2**32)
        if nw.total > 1 and est.window_size_ is not None:
            index = {place: k for k, place in enumerate(nw.places)}
            hints.append([index[i] for i in shuffled if i in index])
    order, model = check_fit(est, c, d, w, hints, where)
    trace.append(order)
    out.stats.add("explained_fits", int(order is not None))
    damped = case["damping"] is not None
    if seeded and case["kind"] != "instance":
        check_influence(case, model, order, first, Rng("influence", case["seed"]), where, out)
    nwin = len(model.windows)
    out.stats.add("windows", nwin)
    out.stats["max_windows"] = max(out.stats.get("max_windows", 0), nwin)
    out.stats.add("empty_windows", model.total - nwin)
    for k, step in enumerate(case["steps"]):
        what, rng = step["what"], Rng("c12", step["salt"])
        at = f"{where}, step {k} {step} after {[s['what'] for s in case['steps'][:k]]}"
        if case["kind"] == "instance" or what == "plain":
            est = make(case)
        elif what == "clone":
            est = clone(est)
        elif what == "copy":
            est = dict(copy=copy.copy, deepcopy=copy.deepcopy, pickle=lambda e: pickle.loads(pickle.dumps(e)))[step["how"]](est)
            if case["overlap"] != 0.5:
                est.overlapping = case["overlap"]
        if what == "clone" and case["overlap"] != 0.5:
            est.overlapping = case["overlap"]
        before = streams()
        if what == "interrupted":
            probe = copy.deepcopy(est)
            tracer = interrupt.Tracer()
            with tracer:
                attempt(probe)
            before_fault = streams()
            tracer = interrupt.Tracer(interrupt.choose(rng, tracer.sites), step["exc"])
            try:
                with tracer:
                    quiet(lambda: est.fit(c, d, w))
            except BaseException:
                out.stats.add("interrupted_fits")
            if tracer.fired:
                out.fired(step["exc"])
            if seeded and streams() != before_fault:
                raise Violation("global-random-stream-disturbed", f"{at}: interrupted at {interrupt.short(tracer.fired)}")
            if case["kind"] == "instance":
                est = make(case)
        elif what == "rejected":
            try:
                quiet(lambda: est.fit(c, np.ravel(d)[:-1], w))
            except Exception:
                out.fired("rejected-data")
            if case["kind"] == "instance":
                est = make(case)
        elif what == "memory":
            try:
                quiet(lambda: est.estimate_required_memory(c))
            except ValueError:
                pass  # no window has both data and sources
            if case["kind"] == "instance":
                est = make(case)
        elif what == "other":
            other = data_of(case, 1 + step["salt"] % 7)
            try:
                quiet(lambda: est.fit(*other))
            except ValueError:
                pass
            if case["kind"] == "instance":
                est = make(case)
        if seeded and what != "interrupted" and streams() != before:
            raise Violation("global-random-stream-disturbed", f"{at}: before the fit")
        if what == "interfere":
            counter = Interfere(None, ())
            probe = copy.deepcopy(est)
            with counter:
                attempt(probe)
            when = set(rng.sample(range(counter.count), min(counter.count, rng.pick([1, 3, 10]))))
            np.random.seed(case["seed"] % 2**32)
            random.seed(case["seed"])
            tracer = Interfere(Rng("noise", step["salt"]), when)
            with tracer:
                error, _ = attempt(est)
            after = streams()
            for _ in tracer.used:
                out.fired("random-stream-use")
            if seeded:
                np.random.seed(case["seed"] % 2**32)
                random.seed(case["seed"])
                alone = Rng("noise", step["salt"])
                used = [disturb(alone) for _ in tracer.used]
                if used != tracer.used or streams() != after:
                    raise Violation("global-random-stream-disturbed", f"{at}: other code drew {tracer.used} instead of {used}")
        else:
            before = streams()
            if plan:
                with simpar.planned(plan, out.stats):
                    error, _ = attempt(est)
            else:
                error, _ = attempt(est)
            if seeded and streams() != before:
                raise Violation("global-random-stream-disturbed", at)
        if error:
            raise Violation("not-repeatable", f"{at}: {error}, fitted before")
        now = state_of(est)
        if seeded:
            check_same(first, now, model, damped, at, out)
            trace.append((what, order))
        else:
            o, _ = check_fit(est, c, d, w, [], at)
            trace.append((what, o))
        out.stats.add("step_" + what)
    out.stats.add("kind_" + case["kind"])
    out.digest = sha(trace, first[0].tobytes(), first[1].tobytes())
    if nwin > 1:
        out.sigs.append([case["seed"], case["n"], case["layout"], trace])


def check_influence(case, model, order, first, rng, where, out):
    """Data that share a window with sources change the fit, wherever they are."""
    import numpy as np

    if order is None:
        return

    def boosted(data):
        residue, coefs = data.astype(float), np.zeros(model.green.shape[1])
        for k in order:
            residue, c = model.step(residue, k)
            coefs[model.windows[k][0]] += c
        return coefs

    c, d, w = data_of(case)
    x, y = model.coords[:2]
    edges = [int(np.argmin(x)), int(np.argmax(x)), int(np.argmin(y)), int(np.argmax(y))]
    reference = boosted(model.data)
    for k in dict.fromkeys([rng.pick(edges), rng.randrange(model.data.size)]):
        changed = np.array(d, dtype=float)
        changed.flat[k] += 7.0 * max(model.scale, 1.0)
        expected = boosted(np.ravel(changed))
        if not np.max(np.abs(expected - reference)) > 1e-6 * max(np.max(np.abs(expected)), np.max(np.abs(reference))):
            continue  # later windows override it
        other = make(case)
        fit(other, c, changed, w)
        out.stats.add("influence_checked")
        if np.array_equal(other.coefs_, first[0]):
            raise Violation("data-point-ignored", f"{where}: the fit is the same whatever the value of point {k} at "
                            f"{[float(v[k]) for v in model.coords]}")


def shrink(case):
    steps = case["steps"]
    for k in range(len(steps)):
        yield dict(case, steps=steps[:k] + steps[k + 1:])
    for n in (4, 6, case["n"] // 2):
        if 3 < n < case["n"]:
            yield dict(case, n=n)
    for k, v in dict(weights=False, block=None, offset=0.0, scale=1.0, aspect=1.0, shape="1d", dtype="float64", damping=10.0, overlap=0.5,
                     layout="uniform", parallel=False, kind="int", state=0, points=False).items():
        if case[k] != v:
            yield dict(case, **{k: v})
    if case.get("plan"):
        for p in simpar.shrink_plan(case["plan"]):
            yield dict(case, plan=p)
