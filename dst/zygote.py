"""A pristine copy of the process that answers questions in fresh forks."""

import os
import pickle
import struct


def _send(fd, obj):
    blob = pickle.dumps(obj)
    data = struct.pack("<Q", len(blob)) + blob
    while data:
        data = data[os.write(fd, data):]


def _recv(fd):
    def exactly(n):
        buf = b""
        while len(buf) < n:
            b = os.read(fd, n - len(buf))
            if not b:
                return None
            buf += b
        return buf

    head = exactly(8)
    if head is None:
        return None
    body = exactly(struct.unpack("<Q", head)[0])
    return None if body is None else pickle.loads(body)


class Zygote:
    """Forked when made; every ``ask(*args)`` runs ``answer(*args)`` in a new fork of it."""

    def __init__(self, answer):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                while True:
                    args = _recv(r1)
                    if args is None:
                        break
                    pid = os.fork()
                    if pid == 0:
                        try:
                            _send(w2, ("answer", answer(*args)))
                        except BaseException as e:
                            _send(w2, ("failed", repr(e)))
                        finally:
                            os._exit(0)
                    _, status = os.waitpid(pid, 0)
                    if status != 0:
                        _send(w2, ("died", status))
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.r, self.w = r2, w1

    def ask(self, *args):
        _send(self.w, args)
        kind, value = _recv(self.r)
        if kind != "answer":
            from .core import Harness

            raise Harness(f"fresh process: {kind} {value}")
        return value

    def close(self):
        os.close(self.w)
        os.close(self.r)
        os.waitpid(self.pid, 0)
