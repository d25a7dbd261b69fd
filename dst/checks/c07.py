"""C07: calls leave their arguments untouched and do not influence later calls."""

import decimal
import gc
import os
import pathlib
import pickle
import random
import struct
import sys
import time
import warnings

from .. import boot, catalog, interrupt, simnet
from ..core import Harness, Rng, Violation, equal_values, freeze, sha

RULE = (
    "A case is a history of calls of the public interface made by one process, drawn from a catalogue (forward models, "
    "layers, ellipsoids, grid transformations, corrections, fits, readers, geomagnetic field). Calls may repeat or vary "
    "earlier ones, reuse the very same argument objects (as they are or edited in place by the caller), get a spoiled argument, be hit by an exception at one of the "
    "library's statements, or have their result overwritten by the caller, and the program may change its surroundings in "
    "between (working directory, time zone, random seeds, error state, printing, warning filters, garbage collector, "
    "stale memory). Every call's arguments are compared bit by "
    "bit before and after, its result with that of the same call made first thing in a fresh copy of the process, and "
    "the process-wide state with what it was. Non-trivial when a call failed, was interrupted, or reused arguments."
)
MEASURE = "hash of the sequence of calls, outcomes and fault sites"
REAL = ["all of harmonica, kernels run as Python code", "verde, choclo, xarray, xrft, scikit-learn, SciPy, pooch and requests"]
STUB = ["the moment and kind of failure (exception raised before a chosen library statement)", "Numba compilation is off",
        "HTTP transport (simulated archive, no faults here)"]
ASSUMPTIONS = ["layer surface updates may change the layer they are called on, and nothing else",
               "results equal within 1e-9 of their scale", "user-visible state of an object is its public attributes"]
BUDGET = dict(quick=28, thorough=600)
EXC = ["memory", "interrupt", "value", "exit", "os"]


def groups(tier):
    return ["forward", "layers", "grids", "fits", "reads", "grids", "all", "all"]


def jit(group):
    return False


def env(group):
    return dict(MPLBACKEND="agg")


def prepare(group):
    hm = boot.import_harmonica()
    import dask.array  # noqa: F401
    import pandas  # noqa: F401
    import pooch  # noqa: F401
    import requests  # noqa: F401
    import sklearn.linear_model  # noqa: F401
    import xrft  # noqa: F401

    try:
        import pyvista  # noqa: F401
    except ImportError:
        pass
    return dict(group=group, hm=hm, archive=simnet.Archive(20))


def names(group):
    if group == "all":
        return sorted(catalog.OPTS)
    return catalog.GROUPS[group]


def vary(rng, spec):
    """A close relative: everything else equal, so that stale state would fit."""
    new = {k: v for k, v in spec.items() if k != "corrupt"}
    how = rng.randrange(4)
    options = catalog.OPTS[spec["name"]]
    if how == 0:
        new["seed"] = rng.getrandbits(32)
    elif how == 1:
        k = rng.pick(sorted(options))
        new[k] = rng.pick(options[k])
    elif how == 2:
        new["seed"] = spec["seed"] + 1
        k = rng.pick(sorted(options))
        new[k] = rng.pick(options[k])
    else:
        new["corrupt"] = [rng.pick(catalog.CORRUPT), rng.randrange(100)]
    return new


def gen(rng, ctx, i):
    pool = names(ctx["group"])
    pool = rng.some(pool, 1, 3 if ctx["group"] != "all" else 6)
    ops = []
    for _ in range(rng.randint(3, 9)):
        before = [o for o in ops]
        if before and rng.chance(0.6):
            o = rng.pick(before)
            spec = dict(o["spec"]) if rng.chance(0.35) else vary(rng, o["spec"])
            op = dict(spec=spec)
            if spec == o["spec"] and rng.chance(0.7):
                op["reuse"] = ops.index(o)
                if rng.chance(0.4) and spec["name"] != "layer_update":
                    op["edit"] = True
        else:
            op = dict(spec=catalog.gen(rng, pool, 0.2))
        op["scribble"] = rng.chance(0.5)
        if rng.chance(0.3):
            op["ambient"] = [[rng.pick(sorted(AMBIENT)), rng.randrange(1000)] for _ in range(rng.randint(1, 3))]
        if rng.chance(0.3):
            op.update(exc=rng.pick(EXC), at=rng.getrandbits(32))
        ops.append(op)
    if any(o["spec"]["name"] == "ellipsoid_surface" for o in ops):  # its text follows the printing options
        for o in ops:
            if "ambient" in o:
                o["ambient"] = [x for x in o["ambient"] if x[0] != "printing"]
    return dict(ops=ops, salt=rng.getrandbits(30))


# ------------------------------------------------- surroundings of a call
def _timezone(k):
    os.environ["TZ"] = ["Asia/Tokyo", "America/Los_Angeles", "XXX+11:30", "UTC"][k % 4]
    time.tzset()


def _chdir(k):
    d = os.path.join(os.environ["C07_SCRATCH"], f"work{k % 3}")
    os.makedirs(d, exist_ok=True)
    os.chdir(d)


def _errors(k):
    import numpy as np

    np.seterr(all=["ignore", "warn"][k % 2])


def _printing(k):
    import numpy as np

    np.set_printoptions(precision=1 + k % 5, threshold=3, suppress=bool(k % 2))


def _random(k):
    import numpy as np

    np.random.seed(k)
    random.seed(k)


def _collector(k):
    gc.disable() if k % 2 else gc.set_threshold(1 + k % 3, 2, 2)


def _filters(k):
    warnings.simplefilter(["ignore", "always", "default"][k % 3])


def _decimal(k):
    decimal.getcontext().prec = 2 + k % 4
    decimal.getcontext().rounding = decimal.ROUND_UP


def _display(k):
    import xarray as xr

    xr.set_options(display_width=20 + k % 60, display_style="text")


AMBIENT = dict(timezone=_timezone, chdir=_chdir, errors=_errors, printing=_printing, random=_random, collector=_collector,
               filters=_filters, decimal=_decimal, display=_display, memory=lambda k: boot.perturb([0, 255, 85, 1][k % 4]),
               umask=lambda k: os.umask([0o077, 0o022, 0][k % 3]), switch=lambda k: sys.setswitchinterval(1e-4 * (1 + k % 50)))


# -------------------------------------------------------------------- calls
def build(op, scratch, edits=0):
    return catalog.edit(catalog.build(op["spec"], scratch), op["spec"], edits)


def objects(ops):
    """Which operation built the arguments of each, and how often they were edited when it was called."""
    root, count, edits = [], {}, []
    for k, op in enumerate(ops):
        again = op.get("reuse") is not None and op["spec"]["name"] != "layer_update"
        root.append(root[op["reuse"]] if again else k)
        count[root[k]] = count.get(root[k], 0) + bool(again and op.get("edit"))
        edits.append(count[root[k]])
    return root, edits


def attempt(op, a):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return "ok", catalog.call(op["spec"], a)
        except BaseException as e:
            return "error", type(e).__name__


def in_fresh_copy(f):
    """f() in a forked copy of this process as it is now."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                blob = pickle.dumps(f())
            except BaseException as e:  # the machinery's own failure
                blob = pickle.dumps(("harness", repr(e), []))
            data = struct.pack("<Q", len(blob)) + blob
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    while True:
        b = os.read(r, 1 << 20)
        if not b:
            break
        buf += b
    os.close(r)
    os.waitpid(pid, 0)
    if len(buf) < 8:
        return None
    return pickle.loads(buf[8:])


def scribble(x, depth=0):
    """The caller overwrites a result it was given."""
    import numpy as np

    if depth > 6:
        return
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype.kind in "fiuc":
            x[...] = 77
        return
    if type(x).__module__.startswith("xarray"):
        if type(x).__name__ == "Dataset":
            for k in list(x.data_vars):
                scribble(x[k], depth + 1)
        else:
            try:
                scribble(x.variable._data if isinstance(x.variable._data, np.ndarray) else None, depth + 1)
            except Exception:
                pass
        x.attrs.clear()
        x.attrs["scribbled"] = 1
        return
    if isinstance(x, dict):
        for v in x.values():
            scribble(v, depth + 1)
    elif isinstance(x, (list, tuple)):
        for v in x:
            scribble(v, depth + 1)


def process_state(scratch):
    import logging
    import threading

    import numpy as np

    s = np.random.get_state()
    fds = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            continue
        if t.startswith(scratch):
            fds.append(os.path.basename(t))
    return dict(
        numpy_random=sha(s[1].tobytes(), s[2], s[3]), python_random=sha(__import__("random").getstate()),
        errstate=str(np.geterr()), printoptions=str(sorted(np.get_printoptions().items(), key=str)), cwd=os.getcwd(),
        environ=sha(sorted(os.environ.items())), open_files=sorted(fds),
        threads=sorted(t.name for t in threading.enumerate()), umask_log=logging.getLogger().level,
        xarray=str(__import__("xarray").get_options()), recursion=__import__("sys").getrecursionlimit(),
    )


def warning_filters():
    return list(warnings.filters)


def run(case, ctx, out):
    import numpy as np

    scratch = os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), f"c07-{os.getpid()}")
    os.makedirs(scratch)
    try:
        _run(case, ctx, out, scratch, np)
    finally:
        import shutil

        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


def _run(case, ctx, out, scratch, np):
    os.chdir(scratch)
    os.environ["C07_SCRATCH"] = scratch
    world = simnet.World(ctx["archive"], [])
    world.install()
    cache = catalog.cache_dir(scratch, world)
    (cache / simnet.FILE_NAME).write_bytes(ctx["archive"].bytes)

    def alone(op, edited):
        def f():
            np.random.seed(case["salt"] % 1000 + 5)
            a = build(op, scratch, edited)
            t = interrupt.Tracer()
            if key in traced:
                with t:
                    res = attempt(op, a)
            else:
                res = attempt(op, a)
            return res[0], plain(res[1]), t.sites

        return in_fresh_copy(f)

    ops = case["ops"]
    want = {}
    root, edits = objects(ops)
    keys = [repr((sorted(op["spec"].items()), n)) for op, n in zip(ops, edits)]
    traced = {key for op, key in zip(ops, keys) if "exc" in op}
    for k, op in enumerate(ops):
        key = keys[k]
        if key not in want:
            want[key] = alone(op, edits[k])
            if want[key] is not None and want[key][0] == "harness":
                raise Harness(f"step {k} {op['spec']}: {want[key][1]}")
            if want[key] is None:
                raise Violation("process-died", f"step {k} {op['spec']} in a fresh process")
    np.random.seed(case["salt"] % 99991)
    args = []
    trace = []
    warnings.simplefilter("default")
    for k, op in enumerate(ops):
        name = op["spec"]["name"]
        again = op.get("reuse") is not None and name != "layer_update"
        for how, value in op.get("ambient", ()):
            AMBIENT[how](value)
            out.stats.add("surroundings_changed")
        a = args[op["reuse"]] if again else build(op, scratch)
        args.append(a)
        if again and op.get("edit"):
            catalog.edit(a, dict(op["spec"], seed=op["spec"]["seed"] + edits[k] - 1), 1)
            out.stats.add("arguments_edited")
        at = None
        if "exc" in op:
            at = interrupt.choose(Rng("site", op["at"]), want[keys[k]][2])
        before = catalog.public(a if again else build(op, scratch))  # looking at an object may be its first use
        filters = warning_filters()
        state = process_state(scratch)
        tracer = interrupt.Tracer(at, op.get("exc"))
        outer = None
        # outside catch_warnings, to see filters left changed; output is discarded
        try:
            if at is not None:
                with tracer:
                    got = outcome(op, a)
            else:
                got = outcome(op, a)
        except Exception:
            raise
        fired = tracer.fired
        if fired:
            out.fired(op["exc"])
            out.stats.add("sites_" + interrupt.short(fired).split(":")[0])
        trace.append((name, got[0], interrupt.short(fired)))
        out.stats.add(f"{name}_{got[0]}")
        where = f"history {[o['spec']['name'] for o in ops[:k]]}, step {k} {op['spec']}" + (
            f", exception at {interrupt.short(fired)}" if fired else "") + (f" (same argument objects{', edited in place' if op.get('edit') else ''})" if again else "")
        after = catalog.public(a)
        if name == "layer_update":
            before, after = drop(before, "layer"), drop(after, "layer")
        if before != after:
            raise Violation("arguments-changed", f"{where} ({got[0]}): {diff(before, after)}")
        now = process_state(scratch)
        if now != state:
            ch = [f"{x}: {str(state[x])[:200]} -> {str(now[x])[:200]}" for x in state if state[x] != now[x]]
            raise Violation("process-state-changed-" + "-".join(x for x in state if state[x] != now[x]), f"{where} ({got[0]}): {ch}")
        if warning_filters() != filters:
            raise Violation("process-state-changed-warnings", f"{where} ({got[0]})")
        if fired:
            pass
        else:
            w = want[keys[k]]
            if got[0] != w[0] or (got[0] == "error" and got[1] != w[1]):
                raise Violation("history-changes-outcome", f"{where}: {w if w[0] == 'error' else 'ok'} in a fresh process, "
                                f"{got if got[0] == 'error' else 'ok'} here")
            if got[0] == "ok":
                bad = equal_values(plain(got[1]), w[1], 1e-9, path="result")
                if bad:
                    raise Violation("history-changes-result", f"{where}: {bad} (second: in a fresh process)")
        if op["scribble"] and got[0] == "ok" and not fired:
            b2 = catalog.public(a)
            scribble(got[1])
            if name not in ("layer_update",) and catalog.public(a) != b2:
                aliased = diff(b2, catalog.public(a))
                out.stats.add("result_aliases_argument_" + name)
                new = {}
                for j in range(k + 1):
                    last = max(i for i in range(k + 1) if root[i] == root[j])
                    if root[j] not in new:
                        new[root[j]] = build(ops[root[j]], scratch, edits[last])
                    args[j] = new[root[j]]
    out.digest = sha(trace)
    if any(t[1] == "error" or t[2] for t in trace) or any("reuse" in o for o in ops):
        out.sigs.append(trace)


def outcome(op, a):
    try:
        return "ok", catalog.call(op["spec"], a)
    except BaseException as e:
        return "error", type(e).__name__


def plain(x):
    """Results in a form that survives pickling."""
    if isinstance(x, tuple):
        return [plain(v) for v in x]
    if isinstance(x, list):
        return [plain(v) for v in x]
    if type(x).__module__.startswith("xarray"):
        return x.copy(deep=True)
    if isinstance(x, (int, float, str, bool, type(None), dict)) or type(x).__module__.startswith(("numpy", "pandas")):
        import copy

        return copy.deepcopy(x)
    return freeze(x)


def drop(pic, key):
    return ("d", tuple((k, v) for k, v in pic[1] if k != key))


def diff(a, b, path=""):
    if type(a) is not type(b):
        return f"{path}: {str(a)[:120]} -> {str(b)[:120]}"
    if isinstance(a, tuple):
        if len(a) != len(b):
            return f"{path}: length {len(a)} -> {len(b)}: {str(a)[:200]} -> {str(b)[:200]}"
        for j, (x, y) in enumerate(zip(a, b)):
            if x != y:
                label = x[0] if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) else j
                return diff(x, y, f"{path}/{label}")
    return f"{path}: {str(a)[:200]} -> {str(b)[:200]}"


def shrink(case):
    ops = case["ops"]
    for k in range(len(ops)):
        if len(ops) > 1:
            rest = []
            ok = True
            for j, o in enumerate(ops):
                if j == k:
                    continue
                o = dict(o)
                if o.get("reuse") is not None:
                    if o["reuse"] == k:
                        o.pop("reuse")
                        o.pop("edit", None)
                    elif o["reuse"] > k:
                        o["reuse"] -= 1
                rest.append(o)
            if ok:
                yield dict(case, ops=rest)
    for k, o in enumerate(ops):
        if "exc" in o:
            yield dict(case, ops=ops[:k] + [{a: b for a, b in o.items() if a not in ("exc", "at")}] + ops[k + 1:])
        if o.get("ambient"):
            yield dict(case, ops=ops[:k] + [{a: b for a, b in o.items() if a != "ambient"}] + ops[k + 1:])
        if o.get("edit"):
            yield dict(case, ops=ops[:k] + [{a: b for a, b in o.items() if a != "edit"}] + ops[k + 1:])
        if o.get("scribble"):
            yield dict(case, ops=ops[:k] + [dict(o, scribble=False)] + ops[k + 1:])
