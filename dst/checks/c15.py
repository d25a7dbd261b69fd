"""C15: deferred work gives the results of direct calls."""

import os
import shutil
import uuid
import warnings

from .. import catalog, interrupt, simnet, simthreads
from ..core import Rng, Violation, equal_values, freeze, sha
from ..zygote import Zygote
from . import c07

RULE = (
    "A case is either a call of the public interface on lazily loaded (chunked) grids, layers or arrays, or several calls "
    "or the folds of a cross-validation submitted as delayed tasks. A simulated task scheduler decides chunk by chunk "
    "which ready task runs next, which run at the same time as interleaved threads, which are run twice, and which "
    "loads of stored chunks fail (with or without a retry by the scheduler). Results are compared with those of direct "
    "calls on loaded data in a fresh copy of the process. Non-trivial when the scheduler ran more than one task or a "
    "load failed."
)
MEASURE = "hash of the case, of the order in which tasks ran, their repetitions, failures and thread switches"
REAL = ["all of harmonica, kernels run as Python code", "dask graphs and arrays, xarray, xrft, verde, scikit-learn"]
STUB = ["the task scheduler of dask", "storage of chunked arrays", "the choice of the running thread", "Numba compilation is off"]
ASSUMPTIONS = ["refusing lazily loaded input with an exception is allowed", "results equal within 1e-9 of their scale",
               "tasks are run once or more, each after the tasks it depends on"]
BUDGET = dict(quick=25, thorough=600)

LAZY = dict(
    grids=["deriv", "continuation", "gaussian", "rtp", "gradient", "deriv"],
    fields=["bouguer", "moho", "moho", "angles"],
    layers=["layer_make", "layer_gravity", "layer_body", "layer_update"],
    arrays=["angles", "sources", "euler", "ellipsoid_g", "ellipsoid_m"],
)
TASKS = catalog.GROUPS["forward"] + ["bouguer", "moho", "deriv", "gaussian", "layer_gravity", "sources", "euler", "icgem", "oasis"]
EXC = ["os", "os", "memory", "value"]


def groups(tier):
    return ["grids", "layers", "arrays", "tasks", "folds", "fields", "grids", "fields"]


def jit(group):
    return False


def env(group):
    return dict(MPLBACKEND="agg")


def prepare(group):
    import dask
    import dask.array  # noqa: F401

    simthreads.install_locks()
    return c07.prepare(group)


def gen(rng, ctx, i):
    group = ctx["group"]
    case = dict(group=group, seed=rng.getrandbits(32), width=rng.pick([1, 1, 2, 3]), twice=rng.pick([0, 0, 0.2, 1.0]),
                order=rng.pick(["random", "first", "last"]),
                mode=rng.pick([dict(kind="pct", depth=rng.pick([1, 2, 4]), horizon=rng.pick([60, 600])),
                               dict(kind="random", p=rng.pick([0.01, 0.1])), dict(kind="first", p=0.3)]))
    if group in LAZY:
        spec = catalog.gen(rng, LAZY[group], 0)
        if "g" in spec and spec["g"] in ("readonly",):
            spec["g"] = "plain"
        if "pad" in spec and rng.chance(0.6):
            spec["pad"] = "off"
        if spec.get("how") not in (None, "array", "dataarray", "float32", "int", "2d"):
            spec["how"] = rng.pick(["array", "dataarray"] if "dataarray" in catalog.OPTS[spec["name"]]["how"] else ["array"])
        if spec["name"] in ("moho", "bouguer") and rng.chance(0.6):
            spec["how"] = "dataarray"
        if spec["name"] == "layer_gravity":
            spec["field"] = "potential"
        case.update(spec=spec, chunk=[rng.pick([1, 2, 3, 5, 99]), rng.pick([1, 2, 3, 5, 99])], part=rng.pick(["all", "all", "some"]))
        if rng.chance(0.5) and spec["name"] in ("deriv", "continuation", "gaussian", "rtp", "gradient"):
            case["chunk"] = [99, 99]
        if rng.chance(0.5):
            case["fault"] = [rng.randrange(rng.pick([2, 12])), rng.pick(EXC), rng.chance(0.4)]
        case["later"] = rng.chance(0.5)
    elif group == "tasks":
        pool = rng.some(TASKS, 1, 3)
        specs = [catalog.gen(rng, pool, 0.06)]
        while rng.chance(0.6) and len(specs) < 4:
            specs.append(c07.vary(rng, rng.pick(specs)) if rng.chance(0.6) else catalog.gen(rng, pool, 0.06))
        for s in specs:
            if s["name"] in ("tesseroid", "layer_gravity"):
                s["field"] = "potential"
        case.update(specs=specs, tasks=[rng.randrange(len(specs)) for _ in range(rng.randint(2, 5))])
    else:
        case.update(spec=dict(catalog.gen(rng, ["sources"], 0), how=rng.pick(["array", "readonly", "2d"])), folds=rng.pick([2, 3, 5]),
                    chain=rng.chance(0.3), blocks=rng.chance(0.3), n=rng.pick([8, 13]))
    return case


# ------------------------------------------------------------ the scheduler
class Storage:
    """A stored array whose chunks are read by tasks."""

    def __init__(self, world, array):
        self.world, self.array = world, array
        self.shape, self.dtype, self.ndim = array.shape, array.dtype, array.ndim

    def __getitem__(self, key):
        part = self.array[key]
        if part.size:  # dask looks at empty parts to know the type
            self.world.load()
        return part.copy()


class Lost(Exception):
    pass


class World:
    def __init__(self, case):
        self.case = case
        self.rng = Rng("tasks", case["seed"])
        self.loads = self.runs = self.repeats = self.switches = self.failed = self.retried = 0
        self.fault = case.get("fault")
        self.trace = []
        self.deadlock = False

    def load(self):
        self.loads += 1
        if self.fault and self.loads == self.fault[0] + 1:
            self.failed += 1
            raise interrupt.exception(self.fault[1])

    def get(self, dsk, keys, **kwargs):
        from dask._task_spec import convert_legacy_graph

        if hasattr(dsk, "__dask_graph__"):
            dsk = dsk.__dask_graph__()
        graph = convert_legacy_graph(dict(dsk))
        names = {k: j for j, k in enumerate(sorted(graph, key=str))}
        left, done = sorted(graph, key=str), {}
        while left:
            ready = [k for k in left if all(d in done for d in graph[k].dependencies)]
            wave = self.choose(ready)
            for k, value in zip(wave, self.execute([self.bound(graph[k], done) for k in wave])):
                done[k] = value
                left.remove(k)
                self.trace.append(names[k])
            self.runs += len(wave)

        def pick(k):
            return [pick(x) for x in k] if isinstance(k, list) else done[k]

        return pick(keys)

    def choose(self, ready):
        n = min(self.case["width"], len(ready))
        if self.case["order"] == "first":
            return ready[:n]
        if self.case["order"] == "last":
            return ready[-n:][::-1]
        return self.rng.sample(ready, n)

    def bound(self, task, done):
        def f():
            return task({d: done[d] for d in task.dependencies})

        def g():
            if self.case["twice"] and self.rng.chance(self.case["twice"]):
                self.repeats += 1
                try:  # the worker holding the first result is lost
                    f()
                except Exception:
                    if not (self.fault and self.fault[2]):
                        raise
            try:
                return f()
            except Exception:
                if self.fault and self.fault[2] and self.failed and not self.retried:
                    self.retried += 1
                    return f()
                raise

        return g

    def execute(self, tasks):
        if len(tasks) == 1:
            return [tasks[0]()]
        s = simthreads.Scheduler(Rng("waves", self.case["seed"], self.runs), self.case["mode"], roots=interrupt.all_roots())

        def body(t):
            def f():
                try:
                    return "ok", t()
                except BaseException as e:
                    return "error", e

            return f

        got = s.run([body(t) for t in tasks])
        self.switches += s.switches
        self.trace.append(tuple(s.trace[:50]))
        if s.deadlock:
            self.deadlock = True
            raise Violation("deadlock", f"{s.trace[-8:]}")
        for status, value in got:
            if status == "error":
                raise value
        return [v for _, v in got]


# ---------------------------------------------------------------- lazy input
def lazy(world, case, a, keep):
    """Arguments with arrays replaced by chunked ones; the stored arrays go to keep."""
    import dask.array as da
    import numpy as np
    import xarray as xr

    r = Rng("lazy", case["seed"])

    def array(x):
        if x.ndim == 0 or x.dtype.kind not in "fi" or (case["part"] == "some" and r.chance(0.4)):
            return x
        x = np.array(x)
        keep.append(x)
        chunks = tuple(min(n, c) for n, c in zip(x.shape, (case["chunk"] * 2)[:x.ndim]))
        return da.from_array(Storage(world, x), chunks=chunks, name=f"stored-{len(keep)}")

    def convert(x):
        if isinstance(x, np.ndarray):
            return array(x)
        if isinstance(x, xr.DataArray):
            new = x.copy(data=array(x.values))
            return new.assign_coords({k: (c.dims, array(c.values), c.attrs) for k, c in x.coords.items() if k not in x.indexes})
        if isinstance(x, xr.Dataset):
            new = x.assign({k: (v.dims, array(v.values), v.attrs) for k, v in x.data_vars.items()})
            return new.assign_coords({k: (c.dims, array(c.values), c.attrs) for k, c in x.coords.items() if k not in x.indexes})
        if isinstance(x, (tuple, list)):
            return type(x)(convert(v) for v in x)
        return x

    out = {}
    for k, v in a.items():
        if k in ("grid", "layer", "topography", "basement", "surface", "reference", "v", "data", "weights", "coordinates", "inc", "dec",
                 "targets", "points"):
            if k == "coordinates" and case["spec"]["name"] in ("layer_make", "layer_gravity"):
                out[k] = v  # nodes and observation points are compiled code's business
            else:
                out[k] = convert(v)
        elif k == "layers" and v:
            out[k] = {n: (convert(t), convert(d)) for n, (t, d) in v.items()}
        elif k == "properties" and v:
            out[k] = {n: convert(t) for n, t in v.items()}
        else:
            out[k] = v
    return out


def unnamed(x):
    """Without the names dask gives to results that have none."""
    import xarray as xr

    return x.rename(None) if isinstance(x, xr.DataArray) else [unnamed(v) for v in x] if isinstance(x, (tuple, list)) else x


def is_lazy(x):
    import dask

    if isinstance(x, (tuple, list)):
        return any(is_lazy(v) for v in x)
    return dask.is_dask_collection(x)


def settle(x):
    import dask

    x = unnamed(x)

    if isinstance(x, (tuple, list)):
        return [settle(v) for v in x]
    if dask.is_dask_collection(x):
        return x.compute()
    return x


def attempt(f):
    try:
        return "ok", c07.plain(f())
    except Violation:
        raise
    except BaseException as e:
        return "error", type(e).__name__


# -------------------------------------------------------------------- delayed
def survey(case):
    import numpy as np

    r = np.random.default_rng(case["seed"])
    n, sph = case["n"], case["spec"]["kind"] == "sph"
    if sph:
        c = (r.uniform(-20, 20, n), r.uniform(-30, 30, n), r.uniform(6.38e6, 6.40e6, n))
    else:
        c = (r.uniform(-100, 100, n), r.uniform(-80, 80, n), r.uniform(0, 20, n))
    return c, r.normal(size=n) * 10, r.uniform(0.5, 2, n) if case["spec"]["weights"] else None


def scores(case, delayed):
    """The scores of a cross-validation and what the estimator is afterwards."""
    import harmonica as hm
    import sklearn.model_selection as ms
    import verde as vd

    kind = case["spec"]["kind"]
    c, d, w = survey(case)
    if kind == "sph":
        e = hm.EquivalentSourcesSph(damping=1e-2, relative_depth=2e4, parallel=False)
    elif kind == "gb":
        e = hm.EquivalentSourcesGB(damping=1e-2, depth=30.0, window_size=25.0, random_state=3, parallel=False)
    else:
        e = hm.EquivalentSources(damping=1e-2, depth=30.0, block_size=case["spec"]["block"], parallel=False)
    if case["chain"]:
        e = vd.Chain([("trend", vd.Trend(1)), ("sources", e)])
    if case["blocks"]:
        cv = vd.BlockKFold(spacing=10.0 if kind == "sph" else 25.0, n_splits=2, shuffle=True, random_state=1)
    else:
        cv = ms.KFold(n_splits=case["folds"], shuffle=True, random_state=1)
    got = vd.cross_val_score(e, c, d, weights=w, cv=cv, delayed=delayed)
    return (got if delayed else [float(v) for v in got]), e


# ------------------------------------------------------------------------ run
def run(case, ctx, out):
    scratch = os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), f"c15-{os.getpid()}")
    os.makedirs(scratch)
    try:
        _run(case, ctx, out, scratch)
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


def build(spec, scratch):
    return catalog.build(spec, scratch)


def _run(case, ctx, out, scratch):
    import dask

    os.chdir(scratch)
    warnings.simplefilter("ignore")
    ids = Rng("ids", case["seed"])
    uuid.uuid4 = lambda: uuid.UUID(int=ids.getrandbits(128), version=4)  # dask names its tasks with these
    net = simnet.World(ctx["archive"], [])
    net.install()
    world = World(case)

    def direct(what):
        if case["group"] == "folds":
            return attempt(lambda: scores(case, False)[0])
        if case["group"] in LAZY:
            return attempt(lambda: unnamed(catalog.call(case["spec"], build(case["spec"], scratch))))
        spec = case["spec"] if what is None else case["specs"][what]
        return attempt(lambda: catalog.call(spec, build(spec, scratch)))

    fresh = Zygote(direct)
    wanted = {k: fresh.ask(k) for k in (set(case["tasks"]) if "tasks" in case else [None])}
    fresh.close()
    with dask.config.set(scheduler=world.get):
        if case["group"] == "tasks":
            check_tasks(case, world, wanted, scratch)
        elif case["group"] == "folds":
            check_folds(case, world, wanted[None])
        else:
            check_lazy(case, world, wanted[None], scratch, out)
    for name, n in dict(tasks_run=world.runs, task_repeated=world.repeats, switches=world.switches, loads=world.loads).items():
        out.stats.add(name, n)
    if world.repeats:
        out.fired("task_run_twice", world.repeats)
    if world.failed:
        out.fired("load_failed", world.failed)
    if world.retried:
        out.fired("task_retried", world.retried)
    out.digest = sha(world.trace, world.runs, world.failed)
    if world.runs > 1 or world.failed:
        out.sigs.append([case.get("spec", case.get("specs")), world.trace, world.failed])


def compare(cls, got, want, where):
    if got[0] != want[0]:
        raise Violation(cls + "-outcome", f"{where}: {got if got[0] == 'error' else 'ok'} deferred, {want if want[0] == 'error' else 'ok'} directly")
    if got[0] == "ok":
        bad = equal_values(got[1], want[1], 1e-9, path="result")
        if bad:
            raise Violation(cls + "-result", f"{where}: {bad} (second: direct)")


def check_tasks(case, world, wanted, scratch):
    import dask

    args = [build(s, scratch) for s in case["specs"]]
    before = [catalog.public(a) for a in args]

    def task(k):
        return attempt(lambda: catalog.call(case["specs"][k], args[k]))

    got = dask.compute(*[dask.delayed(task, pure=False)(k) for k in case["tasks"]])
    for k, g in zip(case["tasks"], got):
        if g[0] == "error" and wanted[k][0] == "error":
            continue
        if case["specs"][k]["name"] == "layer_update":
            continue
        compare("delayed-call", g, wanted[k], f"{case['specs'][k]} among {case['tasks']}")
    if [catalog.public(a) for a in args] != before:
        raise Violation("arguments-changed", f"{case['specs']}")


def check_folds(case, world, want):
    import dask

    label = {k: case[k] for k in ("spec", "folds", "chain", "blocks", "n")}
    made = attempt_raw(lambda: scores(case, True))
    if made[0] == "error":
        return compare("cross-validation", made, want, label)
    tasks, e = made[1]
    before = freeze(e)
    got = attempt(lambda: [float(v) for v in dask.compute(*tasks)])
    compare("cross-validation", got, want, label)
    if freeze(e) != before:
        raise Violation("estimator-changed-by-cross-validation", f"{label}")
    again = attempt(lambda: [float(v) for v in dask.compute(*tasks)])
    compare("cross-validation-again", again, want, label)


def attempt_raw(f):
    try:
        return "ok", f()
    except Violation:
        raise
    except BaseException as e:
        return "error", type(e).__name__


def check_lazy(case, world, want, scratch, out):
    spec = case["spec"]
    label = f"{spec} in chunks of {case['chunk']}, fault {case.get('fault')}"
    keep = []
    a = lazy(world, case, build(spec, scratch), keep)
    stored = [k.copy() for k in keep]
    made = attempt_raw(lambda: catalog.call(spec, a))
    if made[0] == "ok":
        if is_lazy(made[1]):
            out.stats.add("lazy_results")
            if case["later"]:  # other work in between
                attempt_raw(lambda: catalog.call(dict(spec, seed=spec["seed"] + 1), build(dict(spec, seed=spec["seed"] + 1), scratch)))
        got = attempt(lambda: settle(made[1]))
    else:
        got = made
    faulty = world.failed and not world.retried
    judge("lazy", got, want, label, out, faulty)
    world.fault = None  # the storage works again
    if made[0] == "ok":
        judge("lazy-computed-again", attempt(lambda: settle(made[1])), want, label, out, False, must=got[0] == "ok" or faulty)
    if spec["name"] != "layer_update":
        judge("lazy-call-again", attempt(lambda: settle(catalog.call(spec, a))), want, label, out, False, must=got[0] == "ok")
    for x, y in zip(keep, stored):
        if freeze(x) != freeze(y):
            raise Violation("stored-data-changed", label)


def judge(cls, got, want, label, out, faulty, must=False):
    if got[0] == "error":
        if want[0] == "ok" and not faulty:
            if must:
                raise Violation(cls + "-raises", f"{label}: {got}")
            out.stats.add("lazy_refused")
        return
    if want[0] == "error":
        raise Violation(cls + "-numbers-for-an-error", f"{label}: {want} on loaded data")
    bad = equal_values(got[1], want[1], 1e-9, path="result")
    if bad:
        raise Violation(cls + "-result", f"{label}: {bad} (second: direct)")
    out.stats.add("lazy_agreed")


def shrink(case):
    for k, v in dict(width=1, twice=0, order="first", later=False, part="all", chain=False, blocks=False).items():
        if k in case and case[k] != v:
            yield dict(case, **{k: v})
    if "fault" in case:
        yield {k: v for k, v in case.items() if k != "fault"}
    if "tasks" in case:
        for j in range(len(case["tasks"])):
            if len(case["tasks"]) > 1:
                yield dict(case, tasks=case["tasks"][:j] + case["tasks"][j + 1:])
    if "chunk" in case:
        for c in ([99, 99], [99, case["chunk"][1]], [case["chunk"][0], 99]):
            if c != case["chunk"]:
                yield dict(case, chunk=c)
