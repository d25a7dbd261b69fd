"""Deterministic scheduler for Numba's compiled parallel loops.

``install()`` must run before anything is compiled for parallel execution.
"""

import contextlib
import ctypes

from . import boot
from .core import Rng

_lib = None
TICK = ctypes.CFUNCTYPE(None, ctypes.c_int)
_NAMES = (
    "regions rows switches preempts_fired jit_instructions_stepped traps "
    "errors_dropped errors_on_caller max_rows schedule_hash display_ticks"
).split()


def install():
    global _lib
    if _lib is not None:
        return
    _lib = ctypes.PyDLL(str(boot.build_c("simpar")))
    _lib.simpar_init()
    import llvmlite.binding as ll
    from numba.np.ufunc import omppool, parallel

    if parallel._is_initialized:
        raise RuntimeError("Numba's own threading layer already started")

    def addr(name):
        return ctypes.cast(getattr(_lib, name), ctypes.c_void_p).value

    class Layer:
        pass

    layer = Layer()
    for name in dir(omppool):
        if not name.startswith("_"):
            setattr(layer, name, getattr(omppool, name))
    layer.parallel_for = addr("simpar_parallel_for")
    layer.get_thread_id = addr("simpar_thread_id")
    parallel._set_init_process_lock()
    for symbol, attr in (
        ("numba_parallel_for", "parallel_for"),
        ("do_scheduling_signed", "do_scheduling_signed"),
        ("do_scheduling_unsigned", "do_scheduling_unsigned"),
        ("allocate_sched", "allocate_sched"),
        ("deallocate_sched", "deallocate_sched"),
    ):
        ll.add_symbol(symbol, getattr(layer, attr))
    from numba.core.registry import cpu_target

    cpu_target.target_context  # registers its own symbols first
    ll.add_symbol("numba_gil_ensure", addr("simpar_gil_ensure"))
    ll.add_symbol("numba_gil_release", addr("simpar_gil_release"))
    # the bookkeeping half of the layer (thread counts, chunking) stays real;
    # no pool thread is ever started
    ctypes.CFUNCTYPE(None, ctypes.c_int)(layer.launch_threads)(boot.NUM_THREADS)
    parallel._load_threading_functions(layer)
    parallel._threading_layer = "simulated"
    parallel._is_initialized = True
    set_plan(None)


def random_plan(rng, max_threads=boot.NUM_THREADS, preempt=0.6, workers=True, max_step=30000):
    """A JSON plan: thread count, chunking, order, workers and preemptions."""
    threads = rng.pick([1, 2, 2, 3, 4, 5, 7, 8, 11, max_threads])
    plan = dict(
        threads=threads,
        chunk=rng.pick([0, 0, 0, 1, 2, 3, 5, 8]),
        order=rng.getrandbits(48) | 1 if rng.chance(0.8) else 0,
        assign=rng.getrandbits(48) | 1,
        workers=threads if workers else 1,
        pre=[],
    )
    mode = rng.random()
    aligned = rng.chance(0.2)
    if aligned:
        # the schedule of a quiet machine: equal shares advancing in step
        plan.update(threads=rng.pick([2, 4, 8]), chunk=0, order=0)
        plan["workers"] = plan["threads"] if workers else 1
        mode *= 0.35
    if mode < 0.35 * preempt:
        # time slicing: every row loses the processor every q instructions
        q, jitter = rng.logint(20, 4000), rng.randint(0, 30)
        budget = 60000 // max(1, min(plan["threads"], 16))
        region = rng.pick([-1, -1, 0, 1, 2])
        k = max(1, min(100, budget // q))
        plan["pre"] = [[region, -1, q * (j + 1) + jitter] for j in range(k)]
    elif mode < preempt:
        for _ in range(rng.pick([1, 1, 2, 3, 5, 8])):
            step = rng.logint(1, max_step)
            if rng.chance(0.3):
                step = rng.logint(1, 300)
            plan["pre"].append([rng.pick([-1, -1, 0, 1, 2]), rng.pick([-1, rng.randrange(64)]), step])
    return plan


SEQUENTIAL = dict(threads=1, chunk=0, order=0, assign=0, workers=1, pre=[])
_keep = None


def set_plan(plan, tick=None):
    global _keep
    import numba

    plan = plan or SEQUENTIAL
    numba.set_num_threads(max(1, min(plan["threads"], boot.NUM_THREADS)))
    numba.set_parallel_chunksize(plan["chunk"])
    pre = plan["pre"][:256]
    n = len(pre)
    arr = [(ctypes.c_long * max(n, 1))(*[p[k] for p in pre]) for k in range(3)]
    cb = TICK(tick) if tick is not None else TICK(0)
    _keep = (cb, arr)
    _lib.simpar_plan(
        ctypes.c_uint64(plan["order"]), ctypes.c_uint64(plan["assign"]),
        ctypes.c_int(plan["workers"]), ctypes.c_int(n), arr[0], arr[1], arr[2], cb,
    )


def stats():
    out = (ctypes.c_long * 11)()
    _lib.simpar_stats(out)
    return dict(zip(_NAMES, list(out)))


@contextlib.contextmanager
def planned(plan, into=None, tick=None):
    """Run the body under a plan; add its statistics to ``into``."""
    set_plan(plan, tick)
    try:
        yield
    finally:
        st = stats()
        set_plan(None)
        if into is not None:
            for k in ("regions", "rows", "switches", "jit_instructions_stepped", "errors_dropped",
                      "errors_on_caller", "display_ticks"):
                into.add("par_" + k, st[k])
            into["max_par_rows"] = max(into.get("max_par_rows", 0), st["max_rows"])
            into.setdefault("_schedules", []).append(st["schedule_hash"])


def shrink_plan(plan):
    """Simpler plans, most drastic first."""
    if plan["pre"]:
        yield dict(plan, pre=[])
        n = len(plan["pre"])
        if n > 2:
            yield dict(plan, pre=plan["pre"][: n // 2])
            yield dict(plan, pre=plan["pre"][n // 2:])
        for i in range(len(plan["pre"])):
            yield dict(plan, pre=plan["pre"][:i] + plan["pre"][i + 1:])
    if plan["order"]:
        yield dict(plan, order=0)
    if plan["chunk"]:
        yield dict(plan, chunk=0)
    if plan["threads"] > 1:
        yield dict(plan, threads=1, workers=1)
        yield dict(plan, threads=2, workers=min(2, plan["workers"]))
        yield dict(plan, threads=plan["threads"] - 1, workers=min(plan["threads"] - 1, plan["workers"]))
    for i, (r, w, s) in enumerate(plan["pre"]):
        if s > 1:
            for s2 in (s // 2, s - 1):
                pre = [list(p) for p in plan["pre"]]
                pre[i][2] = s2
                yield dict(plan, pre=pre)


def check_plan(rng_label="x"):
    return random_plan(Rng(rng_label))


# ------------------------------------------------------- failing allocations
def alloc_faults(at=-1, every=0, minimum=256):
    """Arm (or disarm) the preloaded allocation shim."""
    lib = ctypes.CDLL(None)
    lib.allocfault_own()
    for name, v in (("allocfault_at", at), ("allocfault_every", every), ("allocfault_min", minimum),
                    ("allocfault_seen", 0), ("allocfault_fired", 0)):
        ctypes.c_long.in_dll(lib, name).value = v
    if at < 0:
        ctypes.c_int.in_dll(lib, "allocfault_region").value = 0


def alloc_region(on):
    ctypes.c_int.in_dll(ctypes.CDLL(None), "allocfault_region").value = int(on)


def alloc_counts():
    lib = ctypes.CDLL(None)
    return tuple(ctypes.c_long.in_dll(lib, n).value for n in ("allocfault_seen", "allocfault_fired"))
