"""File I/O under the simulator's control (the shim csrc/iofault.c)."""

import ctypes
import errno

from . import boot

OPS = {1: "open", 2: "read", 3: "write", 4: "close", 5: "rename", 6: "unlink", 7: "mkdir", 8: "chmod"}
KINDS = dict(errno=1, short=2, eof=3, crash=4, crash_after=5, torn_crash=7)
_lib = None


def setup():
    boot.build_c("iofault", "-ldl", "-lpthread")


def env():
    return dict(LD_PRELOAD=str(boot.build_c("iofault", "-ldl", "-lpthread")))


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(str(boot.build_c("iofault", "-ldl", "-lpthread")))
        _lib.iofault_add.argtypes = [ctypes.c_long, ctypes.c_int, ctypes.c_long, ctypes.c_int]
        _lib.iofault_chunk.argtypes = [ctypes.c_long, ctypes.c_ulonglong]
        _lib.iofault_counter.restype = ctypes.c_long
        _lib.iofault_delivered.restype = ctypes.c_long
        _lib.iofault_log.restype = ctypes.c_long
        _lib.iofault_fired.restype = ctypes.c_long
        _lib.iofault_mode_hits.restype = ctypes.c_long
    return _lib


def start(prefix, faults=(), chunk=0, seed=1):
    """Count and disturb I/O under ``prefix``; faults: [index, kind, arg, errno name]."""
    x = lib()
    x.iofault_reset(str(prefix).encode())
    for index, kind, arg, err in faults:
        x.iofault_add(index, KINDS[kind], arg, getattr(errno, err) if err else 0)
    x.iofault_chunk(chunk, seed)


def stop():
    """Stop disturbing; (operations seen, names of the faults that fired)."""
    x = lib()
    n, delivered = x.iofault_counter(), x.iofault_delivered()
    buf = (ctypes.c_ubyte * 65536)()
    k = x.iofault_log(buf, 65536)
    ops = [OPS[b] for b in bytes(buf[:k])]
    out = (ctypes.c_long * 256)()
    m = min(256, x.iofault_fired(out, 256))
    fired = list(out[:m])
    x.iofault_reset(b"")
    return dict(count=n, ops=ops, fired=fired, delivered=delivered)


def pause(on=True):
    """The machinery's own accesses are not disturbed or counted."""
    lib().iofault_pause(int(on))


def mode(readonly=False, full=False):
    """A file system mounted read-only, or without free space."""
    lib().iofault_mode(int(readonly), int(full))


def mode_hits():
    return lib().iofault_mode_hits()


def gate(read_fd, write_fd):
    """Every operation waits for its turn from the scheduler of processes."""
    lib().iofault_gate(read_fd, write_fd)


def turn():
    lib().iofault_yield()
