"""Shared by C09 and C10: calling a file reader under delivery faults and watching its descriptors."""

import io
import os
import pathlib
import tempfile
import warnings

from . import interrupt, simdisk
from .core import Rng, Violation


def folder():
    return pathlib.Path(tempfile.mkdtemp(prefix="read-", dir=os.environ.get("VERIF_SCRATCH") or None))


def remove(path):
    for p in sorted(path.iterdir()):
        p.unlink()
    path.rmdir()


def descriptors(path):
    """Descriptors of this process that are open on files of a folder."""
    found = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            target = os.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            continue
        if target.startswith(str(path)):
            found.append((int(fd), os.path.basename(target)))
    return found


class Raw(io.RawIOBase):
    """A caller's own stream: delivers bytes in pieces and may fail."""

    def __init__(self, data, rng, piece, fail_at=None, exc=None):
        self.data, self.pos, self.rng, self.piece = data, 0, rng, piece
        self.fail_at, self.exc, self.failed = fail_at, exc, False

    def readable(self):
        return True

    def readinto(self, b):
        if self.fail_at is not None and self.pos >= self.fail_at:
            self.failed = True
            raise self.exc
        n = min(len(b), len(self.data) - self.pos)
        if self.piece and n > 1:
            n = min(n, 1 + self.rng.randrange(self.piece))
        if self.fail_at is not None and n:
            n = max(1, min(n, self.fail_at - self.pos))
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


def disk_faults(rng, nops_hint):
    """Random plan of faults: index, kind, arg, errno."""
    out = []
    for _ in range(rng.pick([0, 1, 1, 1, 2, 3])):
        kind = rng.pick(["errno", "errno", "short", "short", "eof", "eintr", "eintr"])
        index = rng.pick([0, 1, 1, 2, 2, 3, 4, 5, 7, 11, 20, rng.randrange(max(1, nops_hint))])
        if index in [f[0] for f in out]:
            continue
        if kind == "eintr":
            out.append([index, "errno", 0, "EINTR"])
        elif kind == "errno":
            out.append([index, "errno", 0, rng.pick(["EIO", "EIO", "ENOMEM", "EACCES", "ENOENT", "EMFILE", "ESTALE", "ETIMEDOUT"])])
        else:
            out.append([index, kind, rng.randrange(1, 4000), None])
    return out


class Outcome:
    kind = "value"  # or "error"
    value = error = tracer = None
    disk = None


def call(f, path, case, out):
    """Call f() with the case's disk faults and interruption; returns an Outcome."""
    res = Outcome()
    exc = case.get("exc")
    if exc:
        tracer = interrupt.Tracer()
        with tracer:
            try:
                quiet(f)
            except Exception:
                pass
        res.tracer = interrupt.Tracer(interrupt.choose(Rng("site", case["at"]), tracer.sites), exc)
    else:
        res.tracer = interrupt.Tracer(at=None)
    before = descriptors(path)
    leaks = []
    simdisk.start(str(path), case.get("faults", ()), case.get("chunk", 0), case.get("chunk_seed", 1))
    try:
        if exc:
            with res.tracer:
                res.value = quiet(f, leaks)
        else:
            res.value = quiet(f, leaks)
    except BaseException as e:
        if isinstance(e, Violation):
            raise
        res.kind, res.error = "error", e  # its traceback keeps the frames of the reader alive
    finally:
        res.disk = simdisk.stop()
    res.open = [x for x in descriptors(path) if x not in before]
    res.leaks = leaks
    for index in res.disk["fired"]:
        name = next((fault[3] or fault[1] for fault in case["faults"] if fault[0] == index), "fault")
        out.fired(str(name).lower())
    if case.get("chunk"):
        out.fired("short-reads")
    if res.tracer.fired:
        out.fired("exception-" + exc)
    return res


def quiet(f, leaks=None):
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        try:
            return f()
        finally:
            if leaks is not None:
                leaks.extend(str(w.message) for w in seen if issubclass(w.category, ResourceWarning))


def effective(res, case):
    """Read errors the reader must not hide, whether the file ended early, whether closing failed."""
    hard, eof, closing = [], False, False
    for index in res.disk["fired"]:
        for fault in case["faults"]:
            if fault[0] == index:
                op = res.disk["ops"][index] if index < len(res.disk["ops"]) else "?"
                if fault[1] == "errno" and fault[3] != "EINTR" and op in ("open", "read"):
                    hard.append((op, fault[3]))
                eof = eof or fault[1] == "eof"
                closing = closing or op == "close"
    return hard, eof, closing
