"""Real threads run one at a time, switched at library code by a seeded scheduler.

Every thread is parked on its own semaphore; it runs only when it holds the
token, and may hand the token over whenever it is about to run a line (or a
bytecode instruction) of library code, acquires or releases a lock made by the
library, or ends. All decisions come from the seed.
"""

import sys
import threading

from . import boot, interrupt
from .core import Harness

_real_lock, _real_rlock = threading.Lock, threading.RLock
_active = None


class Deadlock(Exception):
    pass


class SimLock:
    """A lock whose waiting is decided by the scheduler."""

    def __init__(self, reentrant=False):
        self._lock = _real_rlock() if reentrant else _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        s = _active
        me = s.me() if s else None
        if me is None:
            return self._lock.acquire(blocking, timeout)
        s.point(me, ("lock", 0))
        while not self._lock.acquire(False):
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                return False  # time out at once: a legal outcome
            s.block(me, self)
        return True

    def release(self):
        self._lock.release()
        s = _active
        me = s.me() if s else None
        if s:
            s.wake(self)
        if me is not None:
            s.point(me, ("unlock", 0))

    def locked(self):
        if self._lock.acquire(False):
            self._lock.release()
            return False
        return True

    __enter__ = acquire

    def __exit__(self, *exc):
        self.release()

    def _is_owned(self):
        return self._lock._is_owned() if hasattr(self._lock, "_is_owned") else self.locked()

    def _at_fork_reinit(self):
        self._lock._at_fork_reinit()


def install_locks():
    """Locks created by library code become simulated ones."""
    roots = interrupt.harmonica_roots()

    def lock():
        f = sys._getframe(1).f_code.co_filename
        return SimLock() if interrupt.is_library(f, roots) else _real_lock()

    def rlock():
        f = sys._getframe(1).f_code.co_filename
        return SimLock(True) if interrupt.is_library(f, roots) else _real_rlock()

    threading.Lock, threading.RLock = lock, rlock


class Scheduler:
    """Runs the functions given to ``run`` as threads, one at a time."""

    def __init__(self, rng, mode, roots=None, opcodes=False, faults=None):
        self.rng, self.mode = rng, mode
        self.roots = roots or interrupt.harmonica_roots()
        self.opcodes = opcodes
        self.faults = faults or {}  # thread -> (position, kind)
        self.fired = {}
        self.count = {}
        self.local = threading.local()
        self.trace = []
        self.switches = 0
        self.points = 0
        self.seen = set()
        if mode["kind"] == "pct":
            self.changes = {rng.logint(1, mode["horizon"]) for _ in range(mode["depth"])}
        self.waiting = {}

    def me(self):
        return getattr(self.local, "k", None)

    # ------------------------------------------------------------ decisions
    def ready(self):
        return [k for k in self.alive if k not in self.waiting]

    def choose(self, site, current):
        ready = self.ready()
        if not ready:
            return None
        if current not in ready:
            if self.mode["kind"] == "pct":
                return max(ready, key=lambda k: self.priority[k])
            return self.rng.pick(ready)
        if len(ready) == 1:
            return current
        kind = self.mode["kind"]
        if kind == "pct":
            if self.points in self.changes:
                self.priority[current] = min(self.priority.values()) - 1
            return max(ready, key=lambda k: self.priority[k])
        if kind == "first":  # hand over when a statement is reached for the first time
            if (current, site) not in self.seen:
                self.seen.add((current, site))
                if self.rng.chance(self.mode["p"]):
                    return self.rng.pick([k for k in ready if k != current])
            return current
        if self.rng.chance(self.mode["p"]):
            return self.rng.pick([k for k in ready if k != current])
        return current

    def hand_over(self, me, nxt, site):
        if nxt == me:
            return
        self.switches += 1
        if len(self.trace) < 4000:
            self.trace.append((me, nxt, site[0].rsplit("/", 1)[-1], site[1]))
        self.current = nxt
        self.sems[nxt].release()
        if me is not None:
            self.sems[me].acquire()
            if self.stop:
                raise SystemExit

    def point(self, me, site):
        self.points += 1
        nxt = self.choose(site, me)
        if nxt is None:
            return
        self.hand_over(me, nxt, site)

    def block(self, me, lock):
        self.waiting[me] = lock
        nxt = self.choose(("wait", 0), me)
        if nxt is None:
            self.deadlock = True
            self.stop = True
            self.waiting.clear()
            raise Deadlock
        self.hand_over(me, nxt, ("wait", 0))
        self.waiting.pop(me, None)

    def wake(self, lock):
        for k in [k for k, v in self.waiting.items() if v is lock]:
            del self.waiting[k]

    # -------------------------------------------------------------- tracing
    def on_call(self, frame, event, arg):
        if event == "call" and interrupt.is_library(frame.f_code.co_filename, self.roots):
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self.on_line
        return None

    def on_line(self, frame, event, arg):
        if event == "line" or event == "opcode":
            k = self.local.k
            site = (frame.f_code.co_filename, frame.f_lineno)
            self.point(k, site)
            if event == "line" and k in self.faults and k not in self.fired and not interrupt.plain(frame.f_code, frame.f_lineno):
                self.count[k] = self.count.get(k, 0) + 1
                if self.count[k] > self.faults[k][0]:
                    self.fired[k] = site
                    raise interrupt.exception(self.faults[k][1])
        return self.on_line

    # --------------------------------------------------------------- running
    def run(self, functions, patience=40):
        global _active
        n = len(functions)
        self.alive = list(range(n))
        self.priority = dict(zip(range(n), self.rng.sample(range(100, 100 + n), n)))
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.done = threading.Semaphore(0)
        self.stop = self.deadlock = False
        self.results = [None] * n
        _active = self

        def body(k):
            self.local.k = k
            self.sems[k].acquire()
            sys.settrace(self.on_call)
            try:
                self.results[k] = functions[k]()
            finally:
                sys.settrace(None)
                self.local.k = None
                self.alive.remove(k)
                ready = self.ready()
                if ready:
                    nxt = self.choose(("end", 0), k)
                    self.current = nxt
                    self.sems[nxt].release()
                elif self.alive:
                    self.deadlock = True
                    self.done.release()
                else:
                    self.done.release()

        threads = [threading.Thread(target=body, args=(k,), daemon=True, name=f"caller-{k}") for k in range(n)]
        for t in threads:
            t.start()
        first = self.choose(("start", 0), None)
        self.current = first
        self.sems[first].release()
        finished = self.done.acquire(timeout=patience)
        _active = None
        if not finished and not self.deadlock:
            raise Harness("simulated threads made no progress")
        for t in threads:
            t.join(0.01 if self.deadlock else 5)
        return self.results
