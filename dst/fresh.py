"""A second Python interpreter, started with other hash seeds, that answers questions in forks.

``Fresh(prop, hashseed)`` starts it (once per worker); ``ask(*args)`` connects, and a new fork of that interpreter
runs ``answer(*args)`` of the check module.
"""

import atexit
import os
import pickle
import select
import shutil
import socket
import struct
import subprocess
import sys
import tempfile


def _send(s, obj):
    blob = pickle.dumps(obj)
    s.sendall(struct.pack("<Q", len(blob)) + blob)


def _recv(s):
    def exactly(n):
        buf = b""
        while len(buf) < n:
            b = s.recv(n - len(buf))
            if not b:
                raise EOFError("the other process ended")
            buf += b
        return buf

    return pickle.loads(exactly(struct.unpack("<Q", exactly(8))[0]))


class Fresh:
    def __init__(self, prop, group, hashseed):
        self.dir = tempfile.mkdtemp(prefix="fresh-", dir=os.environ.get("VERIF_SCRATCH"))
        self.path = os.path.join(self.dir, "s")
        self.owner = os.getpid()
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONPATH="/verif" if "PYTHONPATH" not in os.environ
                   else os.environ["PYTHONPATH"])
        root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        self.child = subprocess.Popen([sys.executable, "-m", "dst.fresh", prop, group, self.path], env=env, cwd=root,
                                      stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        line = self.child.stdout.readline()
        if line.strip() != b"ready":
            from .core import Harness

            raise Harness(f"the second interpreter did not start: {line!r}")
        atexit.register(self.close)

    def ask(self, *args):
        with socket.socket(socket.AF_UNIX) as s:
            s.connect(self.path)
            _send(s, args)
            kind, value = _recv(s)
        if kind != "answer":
            from .core import Harness

            raise Harness(f"second interpreter: {kind} {value}")
        return value

    def close(self):
        if os.getpid() == self.owner:
            self.child.kill()
            self.child.wait()
            shutil.rmtree(self.dir, True)


def main(prop, group, path):
    from . import worker

    mod = worker.load(prop)
    ctx = mod.prepare_fresh(group)
    server = socket.socket(socket.AF_UNIX)
    server.bind(path)
    server.listen(8)
    print("ready", flush=True)
    while True:
        ready, _, _ = select.select([server, sys.stdin], [], [])
        if sys.stdin in ready:  # the owner is gone
            os._exit(0)
        s, _ = server.accept()
        pid = os.fork()
        if pid == 0:
            try:
                args = _recv(s)
                try:
                    _send(s, ("answer", mod.answer(ctx, *args)))
                except BaseException as e:
                    _send(s, ("failed", repr(e)))
            finally:
                os._exit(0)
        s.close()
        os.waitpid(pid, 0)


if __name__ == "__main__":
    main(*sys.argv[1:])
