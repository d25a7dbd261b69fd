"""The background display thread of progress bars, run by the simulator.

The real ``numba_progress`` bar and its real update function are used; only the
``Thread`` and ``Event`` classes it is built from are replaced, so that the
simulator decides when the updater runs: at ticks between the instructions of
the workers, or never until it is stopped.
"""

import io

from .core import Rng


class Yield(BaseException):
    pass


class World:
    def __init__(self, seed=0, rate=0.5, fail_start=False):
        self.rng = Rng("progress", seed)
        self.rate = rate
        self.fail_start = fail_start
        self.threads, self.bars, self.events = [], [], []
        self.updates = 0
        self.problems = []
        self.lowered = False

    # ------------------------------------------------------------- stand-ins
    def install(self):
        import numba_progress
        import numba_progress.progress as mod
        import tqdm

        tqdm.tqdm.monitor_interval = 0
        world = self

        class Event:
            def __init__(self):
                self.flag = False
                world.events.append(self)

            def is_set(self):
                return self.flag

            def set(self):
                self.flag = True

            def wait(self, timeout=None):
                if not self.flag:
                    raise Yield
                return True

        class Thread:
            def __init__(self, target=None, daemon=None, **kw):
                self.target, self.started, self.finished = target, False, False

            def start(self):
                if world.fail_start:
                    raise RuntimeError("can't start new thread")
                self.started = True
                world.threads.append(self)
                if world.rng.random() < 0.5:
                    self.step()

            def step(self):
                if not self.started or self.finished:
                    return
                world.updates += 1
                try:
                    self.target()
                    self.finished = True
                except Yield:
                    pass

            def join(self, timeout=None):
                if world.rng.random() < 0.5:
                    self.step()
                if not self.finished:
                    self.step()
                if not self.finished:
                    world.problems.append("the updater was joined without being told to stop")
                    self.finished = True

            def is_alive(self):
                return self.started and not self.finished

        mod.Thread, mod.Event = Thread, Event
        if not hasattr(mod, "_verif_bar"):
            mod._verif_bar = mod.ProgressBar
        real = mod._verif_bar
        original = real.__dict__.get("_verif_init") or real.__init__
        real._verif_init = original

        def __init__(bar, *a, **k):
            k["file"] = io.StringIO()
            world.bars.append(bar)
            bar.verif_shown = []
            bar.verif_entered = False
            original(bar, *a, **k)

        def __enter__(bar):
            bar.verif_entered = True
            return bar

        real.__init__ = __init__
        real.__enter__ = __enter__
        assert numba_progress.ProgressBar is real
        return self

    def tick(self, done=0):
        """Called by the scheduler between slices of work."""
        for bar in self.bars:
            if hasattr(bar, "hook"):
                seen = int(bar.hook[0])
                if bar.verif_shown and seen < bar.verif_shown[-1]:
                    self.lowered = True
                bar.verif_shown.append(seen)
        if self.rng.random() < self.rate:
            for t in self.threads:
                t.step()

    def settled(self):
        """No bar is between its creation and the start of its use."""
        return all(b.verif_entered for b in self.bars)

    def alive(self):
        return [t for t in self.threads if t.is_alive()]
