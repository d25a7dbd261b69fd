"""C11: IGRF coefficients are the official ones or an error, and recovery is automatic."""

import datetime
import hashlib
import json
import os
import pathlib
import select
import shutil
import sys
import tempfile
import warnings

from .. import boot, interrupt, simdisk, simnet, simthreads
from ..core import Harness, Rng, Violation, sha
from .c03 import gen_date

RULE = (
    "A case is a history of one cache folder: processes that build models and evaluate them (alone, or several whose file "
    "operations and requests are interleaved one at a time by the scheduler, or threads of one process interleaved at "
    "library statements), each with network faults, disk faults (errors, short reads, torn writes, a full or read-only "
    "file system), crashes before, during or after any file operation and exceptions at library statements, damage done "
    "to the cached file in between (also within the life of a process), and finally a fault-free process followed by one without network. Non-trivial when "
    "any fault fired, the cache was damaged, or users of the cache overlapped."
)
MEASURE = "hash of the outcomes, fired faults and sequence of interleaved operations"
REAL = ["IGRF14, load and interpolation of coefficients", "pooch, requests above its transport adapter", "the file system, separate processes and threads"]
STUB = ["network (requests' transport adapter)", "answers of file system calls under the cache folder (preloaded shim)",
        "MD5 of the synthetic archived file is presented as the official one", "Numba compilation is off"]
ASSUMPTIONS = [
    "a file system without injected errors keeps what was written (crashes are of processes, not of the machine)",
    "bytes of the file do not change between its verification and its loading by the same call, except by other simulated users",
    "field values within 1e-7 and coefficients within 1e-9 of their scale",
]
BUDGET = dict(quick=30, thorough=900)
CASE_TIMEOUT = 90
EXC = ["memory", "interrupt", "os", "value", "exit"]
ARCHIVE_SEED = 4711


def groups(tier):
    return ["net", "disk", "crash", "mixed", "together", "together", "threads", "state"]


def jit(group):
    return False


def env(group):
    return simdisk.env()


def setup():
    simdisk.setup()


def prepare(group):
    hm = boot.import_harmonica()
    import pooch  # noqa: F401
    import pooch.downloaders  # noqa: F401
    import requests  # noqa: F401

    simthreads.install_locks()
    archive = simnet.Archive(ARCHIVE_SEED)
    # where a healthy session keeps its copy
    base = tempfile.mkdtemp(prefix="probe-", dir=os.environ.get("VERIF_SCRATCH"))
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        places = []
        try:
            at_home(base)
            simnet.World(archive).install()
            hm.IGRF14("2020-06-15").coefficients
            places = [str(p.relative_to(base)) for p in copies(base, archive)]
        except BaseException:
            pass
        os.write(w, json.dumps(places).encode())
        os._exit(0)
    os.close(w)
    places = json.loads(os.fdopen(r).read())
    os.waitpid(pid, 0)
    shutil.rmtree(base, ignore_errors=True)
    return dict(group=group, hm=hm, archive=archive, places=places)


def at_home(base):
    """Every place a user's cache could be is inside the scratch folder."""
    os.environ["XDG_CACHE_HOME"] = os.path.join(base, "cache")
    os.environ["HOME"] = os.path.join(base, "home")
    os.environ["TMPDIR"] = os.path.join(base, "tmp")
    os.makedirs(os.environ["TMPDIR"], exist_ok=True)
    tempfile.tempdir = None


def copies(base, archive):
    """Intact copies of the official file anywhere below."""
    found = []
    for p in sorted(pathlib.Path(base).rglob("*")):
        try:
            if p.is_file() and p.read_bytes() == archive.bytes and "tmp" not in p.name:
                found.append(p)
        except OSError:
            pass
    return found


def cached(base, ctx):
    """The copy a healthy session keeps is there and intact."""
    try:
        return bool(ctx["places"]) and all((pathlib.Path(base) / p).read_bytes() == ctx["archive"].bytes for p in ctx["places"])
    except OSError:
        return False


# -------------------------------------------------------------- generation
DAMAGE = ["remove", "remove-folder", "empty", "truncate", "bitflip", "digit", "whole_lines", "other_version", "garbage", "stale-temporary",
          "tail-zeros", "intact"]


def gen_ops(rng, ctx, faulty):
    ops = []
    for _ in range(rng.randint(1, 5)):
        what = rng.pick(["coef", "coef", "predict", "predict", "grid", "new", "set", "bad-date"])
        if ctx["group"] not in ("together", "threads") and rng.chance(0.15):
            ops.append(dict(op="damage", model=0, seed=0, damage=[rng.pick(DAMAGE), rng.randrange(60000)]))
            if rng.chance(0.7):
                ops.append(dict(op="new", model=rng.randrange(2), seed=0, date=gen_date(rng).isoformat(), degree=rng.pick([13, 2]), nmin=1, how="date"))
        op = dict(op=what, model=rng.randrange(2), seed=rng.getrandbits(30))
        if what in ("new", "set"):
            op["date"] = gen_date(rng).isoformat()
            op["degree"] = rng.pick([13, 1, 2, 3, 5, rng.randint(1, 13)])
            op["nmin"] = rng.pick([1, 1, 1, 2])
            op["how"] = rng.pick(["date", "max_degree", "min_degree", "both"])
        if faulty and rng.chance(0.15):
            op.update(exc=rng.pick(EXC), at=rng.getrandbits(32))
        ops.append(op)
    if faulty and rng.chance(0.5):
        ops.append(dict(op="heal", model=0, seed=0))
        ops.append(dict(op=rng.pick(["coef", "predict"]), model=rng.randrange(2), seed=rng.getrandbits(30)))
    return ops


def gen_disk(rng, crash):
    faults, n = [], rng.pick([0, 1, 1, 2, 3])
    for _ in range(n):
        index = rng.pick([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 16, 18, 20, 24, 30, 40])
        if index in [f[0] for f in faults]:
            continue
        kind = rng.pick(["errno", "errno", "short", "eintr"] + (["crash", "crash_after", "torn_crash", "crash"] if crash else []))
        if kind == "eintr":
            faults.append([index, "errno", 0, "EINTR"])
        elif kind == "errno":
            faults.append([index, "errno", 0, rng.pick(["EIO", "ENOSPC", "EACCES", "EROFS", "EMFILE", "ENOMEM", "EDQUOT", "ENOENT", "EXDEV"])])
        else:
            faults.append([index, kind, rng.randrange(1, 60000), None])
    out = dict(faults=faults)
    if rng.chance(0.25):
        out["chunk"], out["seed"] = rng.pick([100, 1000, 7000]), rng.getrandbits(30)
    if rng.chance(0.15):
        out["full"] = True
    if rng.chance(0.15):
        out["readonly"] = True
    return out


def gen_process(rng, ctx, group):
    faulty = group != "state"
    p = dict(models=[[gen_date(rng).isoformat(), 1, rng.pick([13, 8, 5, 3, 2, 1])] for _ in range(2)], ops=gen_ops(rng, ctx, faulty), net=[], disk=dict(faults=[]))
    if group in ("net", "mixed") or (group in ("together", "threads") and rng.chance(0.4)):
        p["net"] = simnet.random_faults(rng, 8, rng.pick([0.2, 0.5, 0.9]))
    if group in ("disk", "crash", "mixed") or group == "together" and rng.chance(0.4):
        p["disk"] = gen_disk(rng, crash=group in ("crash", "mixed", "together"))
    return p


def gen(rng, ctx, i):
    group = ctx["group"]
    phases = []
    for _ in range(rng.randint(1, 3)):
        if rng.chance(0.5 if group != "together" else 0.7):
            phases.append(dict(damage=[rng.pick(DAMAGE), rng.randrange(60000)]))
        if group == "together":
            n = rng.pick([2, 2, 3])
            phases.append(dict(processes=[gen_process(rng, ctx, group) for _ in range(n)], order=rng.getrandbits(32), p=rng.pick([0.05, 0.2, 0.5, 0.9])))
        elif group == "threads":
            phases.append(dict(threads=rng.pick([2, 2, 3]), process=gen_process(rng, ctx, group), order=rng.getrandbits(32), shared=rng.chance(0.5),
                               mode=rng.pick([dict(kind="pct", depth=rng.pick([1, 2, 3, 5]), horizon=600), dict(kind="random", p=rng.pick([0.02, 0.1, 0.4])),
                                              dict(kind="first", p=0.3)])))
        else:
            phases.append(dict(processes=[gen_process(rng, ctx, group)]))
    return dict(phases=phases)


# ----------------------------------------------------------- one process
class Session:
    """Runs in a forked process; reports every operation as it completes."""

    def __init__(self, spec, ctx, base, fd, gate):
        self.spec, self.ctx, self.base, self.fd = spec, ctx, base, fd
        self.archive = ctx["archive"]
        at_home(base)
        self.world = simnet.World(self.archive, {i: (k, a) for i, k, a in spec["net"]}, on_request=lambda i: simdisk.turn()).install()
        self.world.offline = bool(spec.get("offline"))
        d = spec["disk"]
        simdisk.start(os.path.join(base, "cache"), d["faults"], d.get("chunk", 0), d.get("seed", 1))
        simdisk.mode(d.get("readonly", False), d.get("full", False))
        if gate:
            simdisk.gate(*gate)
            simdisk.turn()
        self.models = []
        for date, nmin, nmax in spec["models"]:
            self.models.append(self.new(date, nmin, nmax))
        self.healed = False
        self.disk_seen = 0
        self.net_seen = 0

    def new(self, date, nmin, nmax):
        model = self.ctx["hm"].IGRF14(date, min_degree=min(nmin, nmax), max_degree=nmax)
        return [model, date, min(nmin, nmax), nmax]

    def report(self, **kw):
        data = (json.dumps(kw) + "\n").encode()
        while data:
            data = data[os.write(self.fd, data):]

    def run(self):
        for k, op in enumerate(self.spec["ops"]):
            self.step(k, op)
        self.report(kind="end", requests=len(self.world.requests), net=self.world.fired, simtime=self.world.clock.now)

    def disk_state(self):
        return simdisk.lib().iofault_fired(None, 0) + simdisk.mode_hits()

    def step(self, k, op):
        what = op["op"]
        m = self.models[op["model"] % len(self.models)]
        if what == "heal":
            self.healed = True
            self.world.faults = {}
            simdisk.start(os.path.join(self.base, "cache"))
            self.report(kind="heal", k=k)
            return
        if what == "damage":
            simdisk.pause(True)
            damage(*op["damage"], self.base, self.ctx)
            simdisk.pause(False)
            self.report(kind="damage", k=k, what=op["damage"][0])
            return
        if what == "new":
            self.models[op["model"] % len(self.models)] = self.new(op["date"], op["nmin"], op["degree"])
            return
        if what == "set":
            model = m[0]
            if op["how"] in ("date", "both"):
                model.date = datetime.datetime.fromisoformat(op["date"])
                m[1] = op["date"]
            if op["how"] in ("max_degree", "both"):
                model.max_degree = m[3] = max(op["degree"], m[2])
            if op["how"] == "min_degree":
                model.min_degree = m[2] = min(op["nmin"], m[3])
            return
        simdisk.pause(True)
        intact = cached(self.base, self.ctx)
        simdisk.pause(False)
        before = (len(self.world.requests), len(self.world.fired), self.disk_state())
        tracer = interrupt.Tracer()
        if "exc" in op:
            tracer = self.choose_site(op, what, m)
        result, problem = None, None
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with tracer:
                    result = self.evaluate(op, what, m)
        except simnet.Hang as e:
            problem = ["hang", str(e)]
        except BaseException as e:
            result = ["error", type(e).__name__, str(e)[:200]]
        fired = dict(net=self.world.fired[before[1]:], disk=self.disk_state() - before[2], exc=interrupt.short(tracer.fired), kind=op.get("exc"))
        if problem is None and result[0] == "ok":
            problem = self.judge(op, what, m, result[1])
            result = ["ok"]
        simdisk.pause(True)
        after = cached(self.base, self.ctx)
        simdisk.pause(False)
        self.report(kind="op", k=k, what=what, model=m[1:], result=result, problem=problem, fired=fired, intact=intact, after=after,
                    requests=len(self.world.requests) - before[0], healed=self.healed, offline=self.world.offline)

    def choose_site(self, op, what, m):
        """Sites are counted on a copy of the object in a fork, on the same cache and faults."""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            n = []
            try:
                os.close(r)
                simdisk.gate(-1, -1)
                simdisk.pause(True)
                scratch = tempfile.mkdtemp(prefix="dry-", dir=os.path.join(self.base, "tmp"))
                if os.path.isdir(os.path.join(self.base, "cache")):
                    shutil.copytree(os.path.join(self.base, "cache"), os.path.join(scratch, "cache"))
                os.environ["XDG_CACHE_HOME"] = os.path.join(scratch, "cache")
                t = interrupt.Tracer(roots=roots())
                try:
                    with t:
                        self.evaluate(op, what, m)
                except BaseException:
                    pass
                n = [[f, x] for f, x in t.sites]
                shutil.rmtree(scratch, ignore_errors=True)
            finally:
                data = json.dumps(n).encode()
                while data:
                    data = data[os.write(w, data):]
                os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            sites = [tuple(x) for x in json.loads(f.read())]
        os.waitpid(pid, 0)
        return interrupt.Tracer(interrupt.choose(Rng("site", op["at"]), sites), op["exc"], roots=roots())

    def evaluate(self, op, what, m):
        model = m[0]
        if what == "coef":
            g, h = model.coefficients
            return ["ok", (g, h)]
        if what == "predict":
            return ["ok", model.predict(points(op))]
        if what == "grid":
            g = model.grid((10, 14, -3, 5), 1000.0, shape=(2, 3))
            return ["ok", g]
        # a date outside the model is refused, whatever the state of the cache
        bad = self.ctx["hm"].IGRF14("1899-12-31")
        bad.coefficients
        return ["ok", None]

    def judge(self, op, what, m, value):
        """None when the value is what the official file gives."""
        import boule
        import numpy as np

        if what == "bad-date":
            return ["invalid-date-accepted", ""]
        _, date, nmin, nmax = m
        g, h = self.archive.at(datetime.datetime.fromisoformat(date))
        if what == "coef":
            for name, got, want in (("g", value[0], g), ("h", value[1], h)):
                got = np.asarray(got, float)
                if got.shape[0] < nmax + 1 or got.shape[1] < nmax + 1:
                    return ["wrong-coefficients", f"{name} has shape {got.shape} for degree {nmax}"]
                for n in range(1, nmax + 1):
                    if not np.allclose(got[n, : n + 1], want[n, : n + 1], rtol=0, atol=1e-9 * 3e4):
                        return ["wrong-coefficients", f"{name}[{n}] is {got[n, : n + 1]} instead of {want[n, : n + 1]}"]
            return None
        if what == "predict":
            lon, lat, up = points(op)
            got = [np.asarray(v, float).ravel() for v in value]
        else:
            lon, lat = (v.ravel() for v in np.meshgrid(value.longitude.values, value.latitude.values))
            up = np.full(lon.size, 1000.0)
            got = [value[k].values.ravel() for k in ("b_east", "b_north", "b_up")]
            if not str(value.attrs.get("date", date)).startswith(datetime.datetime.fromisoformat(date).isoformat()[:10]):
                return ["wrong-metadata", f"date {value.attrs.get('date')} for {date}"]
        want = simnet.synthesis(g, h, nmin, nmax, lon, lat, up, boule.WGS84.semimajor_axis, boule.WGS84.flattening)
        size = max(float(np.max(np.abs(v))) for v in want) + 1e-9
        for name, a, b in zip("enu", got, want):
            if a.shape != b.shape or not np.allclose(a, b, rtol=0, atol=1e-7 * size):
                return ["wrong-field", f"{name}: {a} instead of {b}"]
        return None


def roots():
    import pooch

    return interrupt.harmonica_roots() + (os.path.dirname(pooch.__file__) + os.sep,)


def points(op):
    import numpy as np

    r = np.random.default_rng(op["seed"])
    return r.uniform(-180, 180, 2), r.uniform(-80, 80, 2), r.uniform(0, 1e5, 2)


# ------------------------------------------------------------- the parent
def damage(kind, arg, base, ctx):
    archive = ctx["archive"]
    places = [pathlib.Path(base) / p for p in ctx["places"]]
    if not places:
        return
    path = places[0]
    data = archive.bytes
    b = bytearray(data)
    if kind == "remove":
        for p in places:
            if p.exists():
                p.unlink()
        return
    if kind == "remove-folder":
        shutil.rmtree(os.path.join(base, "cache"), ignore_errors=True)
        return
    path.parent.mkdir(parents=True, exist_ok=True)
    if kind == "stale-temporary":
        (path.parent / "tmpabcdefg1").write_bytes(data[: arg % len(data)])
        return
    if kind == "empty":
        b = b""
    elif kind == "truncate":
        b = b[: arg % len(b)]
    elif kind == "bitflip":
        b[arg % len(b)] ^= 1 << (arg % 7)
    elif kind == "digit":
        digits = [i for i, c in enumerate(b) if 48 <= c <= 57]
        k = digits[arg % len(digits)]
        b[k] = 48 + (b[k] - 48 + 1) % 10
    elif kind == "whole_lines":
        lines = data.splitlines(keepends=True)
        b = b"".join(lines[: arg % len(lines)])
    elif kind == "other_version":
        b = simnet.Archive(arg + 777).bytes
    elif kind == "garbage":
        b = b"\x00\xffgarbage" * (arg % 500)
    elif kind == "tail-zeros":
        k = arg % len(b)
        b[k:] = bytes(len(b) - k)
    for p in places:
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_bytes(bytes(b))


class Child:
    def __init__(self, spec, ctx, base, gated):
        self.spec = spec
        r, w = os.pipe()
        gate = None
        if gated:
            up_r, up_w = os.pipe()
            down_r, down_w = os.pipe()
            gate = (down_r, up_w)
        sys.stdout.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = 97
            try:
                os.close(r)
                if gated:
                    os.close(up_r)
                    os.close(down_w)
                Session(spec, ctx, base, w, gate).run()
                code = 0
            except BaseException:
                import traceback

                simdisk.lib().iofault_gate(-1, -1)
                os.write(w, (json.dumps(dict(kind="harness", error=traceback.format_exc()[-1500:])) + "\n").encode())
            finally:
                simdisk.lib().iofault_gate(-1, -1)
                os._exit(code)
        os.close(w)
        self.out, self.buffer = r, b""
        self.ended = False
        if gated:
            os.close(up_w)
            os.close(down_r)
            self.up, self.down = up_r, down_w

    def drain(self, block):
        while True:
            if not block and not select.select([self.out], [], [], 0)[0]:
                return
            data = os.read(self.out, 65536)
            if not data:
                return
            self.buffer += data

    def wait_turn(self):
        """Until it asks for a turn (True) or ends (False)."""
        while True:
            ready, _, _ = select.select([self.up, self.out], [], [], 60)
            if not ready:
                raise Harness("a simulated process made no progress")
            if self.out in ready:
                data = os.read(self.out, 65536)
                self.buffer += data
                if not data and self.up not in ready:
                    return False
            if self.up in ready:
                return bool(os.read(self.up, 1))

    def go(self):
        os.write(self.down, b"t")

    def finish(self):
        self.drain(True)
        _, status = os.waitpid(self.pid, 0)
        os.close(self.out)
        if hasattr(self, "up"):
            os.close(self.up)
            os.close(self.down)
        self.code = os.waitstatus_to_exitcode(status)
        self.records = [json.loads(x) for x in self.buffer.decode().splitlines()]
        return self


def run_together(specs, ctx, base, order, p):
    rng = Rng("processes", order)
    children = [Child(s, ctx, base, True) for s in specs]
    alive = [k for k, c in enumerate(children) if c.wait_turn()]
    trace, current = [], None
    while alive:
        if current not in alive or rng.chance(p):
            current = rng.pick(alive)
        trace.append(current)
        if len(trace) > 100000:
            raise Harness("simulated processes do not end")
        children[current].go()
        if not children[current].wait_turn():
            alive.remove(current)
    return [c.finish() for c in children], trace


def run_threads(phase, ctx, base):
    """In a forked process: threads of one program sharing the cache and perhaps the models."""
    spec = phase["process"]
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 97
        try:
            sessions = []
            simdisk.start(os.path.join(base, "cache"))
            first = Session(dict(spec, disk=dict(faults=[])), ctx, base, w, None)
            for k in range(phase["threads"]):
                s = first
                if k:
                    s = Session.__new__(Session)
                    s.__dict__.update(first.__dict__)
                    if not phase["shared"]:
                        s.models = [s.new(*m[1:]) for m in first.models]
                sessions.append(s)
            s = simthreads.Scheduler(Rng("threads", phase["order"]), phase["mode"], roots=roots())

            def body(k):
                def go():
                    out = []
                    ops = [o for o in spec["ops"] if o["op"] in ("coef", "predict", "grid", "bad-date")][k % 2:] or [dict(op="coef", model=0, seed=1)]
                    for j, op in enumerate(ops):
                        m = sessions[k].models[op["model"] % 2]
                        problem = None
                        try:
                            result = sessions[k].evaluate(op, op["op"], m)
                        except simnet.Hang as e:
                            result, problem = ["hang"], ["hang", str(e)]
                        except BaseException as e:
                            result = ["error", type(e).__name__, str(e)[:200]]
                        if result[0] == "ok":
                            problem = sessions[k].judge(op, op["op"], m, result[1])
                            result = ["ok"]
                        out.append(dict(kind="op", k=[k, j], what=op["op"], model=m[1:], result=result, problem=problem))
                    return out
                return go

            warnings.simplefilter("ignore")
            results = s.run([body(k) for k in range(phase["threads"])])
            for k, rs in enumerate(results):
                for x in rs or [dict(kind="lost", k=k)]:
                    first.report(**x)
            first.report(kind="end", requests=len(first.world.requests), net=first.world.fired, simtime=first.world.clock.now,
                         switches=s.switches, trace=sha(s.trace), deadlock=s.deadlock)
            code = 0
        except BaseException:
            import traceback

            os.write(w, (json.dumps(dict(kind="harness", error=traceback.format_exc()[-1500:])) + "\n").encode())
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r) as f:
        records = [json.loads(x) for x in f.read().splitlines()]
    _, status = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(status), records


HARMLESS_DISK = ("short",)


def quiet_disk(spec):
    """The session's disk plan cannot make an operation fail."""
    d = spec["disk"]
    return not d.get("full") and not d.get("readonly") and all(f[1] in HARMLESS_DISK or f[3] in HARMLESS_DISK for f in d["faults"])


def check_process(child, where, out, alone):
    """Judge the record of one process; returns a trace."""
    trace, spec = [], child.spec
    crash_planned = any("crash" in f[1] for f in spec["disk"]["faults"])
    for rec in child.records:
        if rec["kind"] == "harness":
            raise Harness(rec["error"])
        if rec["kind"] == "damage":
            out.fired("cache-" + rec["what"])
        if rec["kind"] != "op":
            continue
        at = f"{where}: operation {rec['k']} {rec['what']} of model {rec['model']}"
        fired = rec["fired"]
        if rec["problem"]:
            raise Violation(rec["problem"][0], f"{at}: {rec['problem'][1]}; faults {fired}, cache intact before: {rec['intact']}")
        error = rec["result"][0] == "error"
        faults = bool(fired["net"] or fired["disk"] or fired["exc"])
        harmless = not fired["exc"] and all(n in ("slow", "nolength") for n in fired["net"]) and (not fired["disk"] or quiet_disk(spec) or rec["healed"])
        if rec["what"] == "bad-date":
            pass
        elif error and harmless and not (rec["offline"] and not rec["intact"]):
            raise Violation("failed-without-a-fault" if not rec["healed"] else "does-not-recover",
                            f"{at}: {rec['result'][1:]}; faults {fired}, cache intact before: {rec['intact']}")
        if rec["intact"] and rec["requests"] and alone and not fired["disk"] and not fired["exc"]:
            raise Violation("network-used-with-intact-cache", f"{at}: {rec['requests']} requests")
        if not error and not faults and rec["what"] != "bad-date" and not rec["after"] and not spec["disk"].get("readonly") \
                and not spec["disk"].get("full") and alone and (rec["requests"] or rec["intact"]):
            raise Violation("no-durable-copy", f"{at}: succeeded with {rec['requests']} requests and left no intact copy")
        if rec["requests"] > 30:
            raise Violation("too-many-requests", f"{at}: {rec['requests']} requests")
        for n in fired["net"]:
            out.fired("net-" + n)
        if fired["disk"]:
            out.fired("disk", fired["disk"])
        if fired["exc"]:
            out.fired("exception-" + fired["kind"])
        out.stats.add(f"{rec['what']}_{rec['result'][0]}")
        trace.append([rec["k"], rec["what"], rec["result"][:2], fired["net"], fired["disk"], fired["exc"], rec["requests"]])
    if child.code == 99 and crash_planned:
        out.fired("crash")
        trace.append("crash")
    elif child.code != 0:
        raise Harness(f"simulated process ended with {child.code}: {child.records[-1:]}") if child.code in (97, 98) else Violation(
            "process-died", f"{where}: exit {child.code}")
    else:
        out.stats.add("requests", child.records[-1]["requests"])
        out.stats["simulated_seconds"] = out.stats.get("simulated_seconds", 0) + int(child.records[-1]["simtime"])
    return trace


def run(case, ctx, out):
    base = tempfile.mkdtemp(prefix="igrf-", dir=os.environ.get("VERIF_SCRATCH"))
    try:
        body(case, ctx, base, out)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def body(case, ctx, base, out):
    os.makedirs(os.path.join(base, "tmp"), exist_ok=True)
    trace, nontrivial = [], False
    for k, phase in enumerate(case["phases"]):
        where = f"phase {k} of {json.dumps(case['phases'])}"
        if "damage" in phase:
            damage(*phase["damage"], base, ctx)
            out.fired("cache-" + phase["damage"][0])
            nontrivial = True
        elif "threads" in phase:
            code, records = run_threads(phase, ctx, base)
            if any(r["kind"] == "harness" for r in records) or code:
                raise Harness(f"{code} {records[-1:]}")
            end = records[-1]
            if end["deadlock"]:
                raise Violation("deadlock", where)
            for rec in records[:-1]:
                if rec["kind"] == "lost":
                    raise Violation("thread-lost", where)
                at = f"{where}: thread and operation {rec['k']} {rec['what']} of model {rec['model']}"
                if rec["problem"]:
                    raise Violation(rec["problem"][0], f"{at}: {rec['problem'][1]}; network {end['net']}")
                if rec["result"][0] == "error" and rec["what"] != "bad-date" and all(n in ("slow", "nolength") for n in end["net"]):
                    raise Violation("failed-without-a-fault", f"{at}: {rec['result'][1:]}")
                out.stats.add(f"{rec['what']}_{rec['result'][0]}")
                trace.append([rec["k"], rec["result"][:2]])
            for n in end["net"]:
                out.fired("net-" + n)
            out.stats.add("thread_switches", end["switches"])
            trace.append(end["trace"])
            nontrivial = nontrivial or end["switches"] > 0
        else:
            specs = phase["processes"]
            if len(specs) > 1:
                children, order = run_together(specs, ctx, base, phase["order"], phase["p"])
                switches = sum(a != b for a, b in zip(order, order[1:]))
                out.stats.add("process_switches", switches)
                out.stats.add("process_turns", len(order))
                trace.append(order)
                nontrivial = nontrivial or switches > 0
            else:
                children = [Child(specs[0], ctx, base, False).finish()]
            for j, c in enumerate(children):
                t = check_process(c, f"process {j} of {where}", out, len(children) == 1)
                trace.append(t)
    # faults stop
    last = [["2024-03-01", 1, 13], ["1957-08-09T12:00:00", 1, 4]]
    plain = dict(models=last, ops=[dict(op="coef", model=0, seed=1), dict(op="predict", model=1, seed=2)], net=[], disk=dict(faults=[]))
    for offline in (False, True):
        c = Child(dict(plain, offline=offline), ctx, base, False).finish()
        end = "the final process " + ("without network" if offline else "without faults") + f" after {json.dumps(case['phases'])}"
        for rec in c.records:
            if rec["kind"] == "op" and rec["result"] and rec["result"][0] == "error":
                raise Violation("does-not-recover", f"{end}: {rec['result'][1:]}")
        trace.append(check_process(c, end, out, True))
        if offline and c.records and c.records[-1].get("requests"):
            raise Violation("network-used-with-intact-cache", end)
    if any(t for t in out.stats if t.startswith("fault_")):
        nontrivial = True
    out.stats.add("phases", len(case["phases"]))
    out.digest = sha(json.dumps(trace))
    if nontrivial:
        out.sigs.append(trace)


def shrink(case):
    ph = case["phases"]
    for k in range(len(ph)):
        if len(ph) > 1:
            yield dict(phases=ph[:k] + ph[k + 1:])
    for k, p in enumerate(ph):
        if "processes" in p:
            for j, s in enumerate(p["processes"]):
                def put(new):
                    return dict(phases=ph[:k] + [dict(p, processes=p["processes"][:j] + new + p["processes"][j + 1:])] + ph[k + 1:])
                if len(p["processes"]) > 1:
                    yield put([])
                for i in range(len(s["ops"])):
                    if len(s["ops"]) > 1:
                        yield put([dict(s, ops=s["ops"][:i] + s["ops"][i + 1:])])
                for i in range(len(s["net"])):
                    yield put([dict(s, net=s["net"][:i] + s["net"][i + 1:])])
                for i in range(len(s["disk"]["faults"])):
                    yield put([dict(s, disk=dict(s["disk"], faults=s["disk"]["faults"][:i] + s["disk"]["faults"][i + 1:]))])
                for key in ("chunk", "full", "readonly"):
                    if s["disk"].get(key):
                        yield put([dict(s, disk={a: b for a, b in s["disk"].items() if a != key})])
                for i, o in enumerate(s["ops"]):
                    if "exc" in o:
                        yield put([dict(s, ops=s["ops"][:i] + [{a: b for a, b in o.items() if a not in ("exc", "at")}] + s["ops"][i + 1:])])
        if "threads" in p and p["process"]["net"]:
            yield dict(phases=ph[:k] + [dict(p, process=dict(p["process"], net=[]))] + ph[k + 1:])
        if "threads" in p and p["threads"] > 2:
            yield dict(phases=ph[:k] + [dict(p, threads=2)] + ph[k + 1:])
