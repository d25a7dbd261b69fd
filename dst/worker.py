"""Explores cases of one check in forked children of a warmed-up process."""

import importlib
import json
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback

from .core import Harness, Rng, Stats, Violation, dump, sha


def load(prop):
    return importlib.import_module(f"dst.checks.{prop.lower()}")


class Outcome:
    """What one simulated run produced."""

    def __init__(self):
        self.stats = Stats()
        self.sigs = []  # identities of non-trivial schedules / fault histories
        self.digest = None  # everything observable, to prove repeatability
        self.violation = None  # (class, detail)
        self.harness = None

    def fired(self, kind, n=1):
        self.stats.add("fault_" + kind, n)


def run_here(mod, case, ctx):
    out = Outcome()
    try:
        mod.run(case, ctx, out)
    except Violation as v:
        out.violation = (v.cls, str(v.detail)[:2000])
    except Harness:
        out.harness = traceback.format_exc()[-3000:]
    except Exception:
        # the checks classify everything the library raises themselves; what
        # gets here is the machinery's own failure
        out.harness = traceback.format_exc()[-3000:]
    sched = out.stats.pop("_schedules", [])
    out.sigs = [sha(s) for s in out.sigs]
    if sched and not out.sigs:
        out.sigs = [sha(dump(case), tuple(sched))]
    return out


def run_forked(mod, case, ctx, timeout=None):
    timeout = timeout or getattr(mod, "CASE_TIMEOUT", 60)
    sys.stdout.flush()
    sys.stderr.flush()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            devnull = os.open(os.devnull, os.O_WRONLY)
            if not os.environ.get("VERIF_DEBUG"):
                os.dup2(devnull, 1)
                os.dup2(devnull, 2)
            out = run_here(mod, case, ctx)
            blob = pickle.dumps(out.__dict__)
            data = struct.pack("<Q", len(blob)) + blob
            while data:
                data = data[os.write(w, data):]
        except BaseException:
            code = 77
        finally:
            os._exit(code)
    os.close(w)
    chunks, end = [], time.monotonic() + timeout
    timed_out = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], min(left, 5))
        if ready:
            b = os.read(r, 1 << 16)
            if not b:
                break
            chunks.append(b)
            buf = b"".join(chunks) if len(chunks) > 1 else b
            chunks = [buf]
            if len(buf) >= 8 and len(buf) >= 8 + struct.unpack("<Q", buf[:8])[0]:
                break
    os.close(r)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    out = Outcome()
    buf = b"".join(chunks)
    if len(buf) >= 8 and len(buf) >= 8 + struct.unpack("<Q", buf[:8])[0]:
        out.__dict__.update(pickle.loads(buf[8:]))
    elif timed_out:
        out.violation = ("hang", f"no result within {timeout} s")
    elif os.WIFSIGNALED(status):
        sig = os.WTERMSIG(status)
        if sig == signal.SIGKILL or getattr(mod, "crash_is_harness", lambda c: False)(case):
            out.harness = f"child ended by signal {sig}"
        else:
            out.violation = (f"process-crash-{signal.Signals(sig).name}", "the process died")
    else:
        out.harness = f"child ended without a result, status {status}"
    return out


def minimise(mod, case, cls, ctx, budget):
    """Greedy: take any simpler case that fails in the same class."""
    end = time.monotonic() + budget
    tried = {dump(case)}
    runs, detail, progress = 0, None, True
    shrink = getattr(mod, "shrink", None)
    while progress and shrink and time.monotonic() < end:
        progress = False
        for cand in shrink(case):
            key = dump(cand)
            if key in tried:
                continue
            tried.add(key)
            if time.monotonic() > end:
                break
            if hasattr(mod, "warm"):
                mod.warm(cand, ctx)
            o = run_forked(mod, cand, ctx, 30)
            runs += 1
            if o.violation and o.violation[0] == cls:
                case, detail, progress = cand, o.violation[1], True
                break
    return case, detail, runs


def explore(prop, group, slot, seed, tier, budget, cap, outfile):
    emit_file = open(outfile, "a", buffering=1)

    def emit(**kw):
        emit_file.write(json.dumps(kw) + "\n")

    t0 = time.monotonic()
    mod = load(prop)
    ctx = mod.prepare(group)
    emit(kind="ready", after=time.monotonic() - t0)
    stats, sigs, samples = Stats(), set(), []
    n = rechecks = mismatches = 0
    warmed = []
    known = known_findings(prop)
    known_hit = {}
    t1 = time.monotonic()
    harness_errors = 0
    i = -1
    while True:
        i += 1
        now = time.monotonic()
        if i >= cap or (now - t1 > budget and i >= getattr(mod, "MIN_CASES", 3)):
            break
        if now - t0 > 4 * budget + 120:
            break
        case = mod.gen(Rng(seed, prop, group, slot, i), ctx, i)
        if case is None:
            break
        if hasattr(mod, "warm"):
            key = mod.warm(case, ctx)
            if key and key not in warmed:
                warmed.append(key)
        o = run_forked(mod, case, ctx)
        if o.harness:
            harness_errors += 1
            emit(kind="harness", case=case, error=o.harness, index=i)
            if harness_errors > 3:
                break
            continue
        n += 1
        stats.merge(o.stats)
        sigs.update(o.sigs)
        if len(samples) < 2:
            samples.append(case)
        if n % 20 == 1 and not o.violation:
            o2 = run_forked(mod, case, ctx)
            rechecks += 1
            if (o2.digest, o2.violation, o2.sigs) != (o.digest, o.violation, o.sigs):
                mismatches += 1
                emit(kind="mismatch", case=case, index=i, a=[o.digest, str(o.violation), o.sigs[:3]], b=[o2.digest, str(o2.violation), o2.sigs[:3]])
        if o.violation:
            cls, detail = o.violation
            hit = next((k for k in known if k["class"] == cls), None)
            if hit:
                known_hit[hit["id"]] = known_hit.get(hit["id"], 0) + 1
                continue
            again = run_forked(mod, case, ctx)
            emit(kind="found", cls=cls, detail=detail, index=i, again=str(again.violation))
            small, d2, runs = minimise(mod, case, cls, ctx, 45 if tier == "quick" else 120)
            emit(kind="violation", cls=cls, detail=d2 or detail, case=small, original=case, group=group,
                 slot=slot, index=i, minimise_runs=runs, warmed=warmed)
            break
    emit(kind="done", n=n, stats=stats, sigs=sorted(sigs), samples=samples, rechecks=rechecks,
         mismatches=mismatches, harness_errors=harness_errors, known=known_hit,
         ready=t1 - t0, search=time.monotonic() - t1)


def known_findings(prop):
    from . import boot

    path = boot.VERIF / "known_findings.json"
    if not path.exists():
        return []
    return [k for k in json.loads(path.read_text())["findings"] if k["property"] == prop]


def replay(prop, path):
    """Exit 1 with the class on stdout when the recorded failure reproduces."""
    rec = json.load(open(path))
    mod = load(prop)
    ctx = mod.prepare(rec["group"])
    case = rec["case"]
    if hasattr(mod, "warm"):
        if rec.get("replay_warmed"):
            for key in rec["warmed"]:
                mod.warm_key(key, ctx)
        mod.warm(case, ctx)
    o = run_forked(mod, case, ctx)
    print(json.dumps(dict(violation=o.violation, harness=o.harness)))
    if o.harness:
        return 3
    return 1 if o.violation else 0


def main(argv):
    if argv[0] == "--replay":
        return replay(argv[1], argv[2])
    a = json.loads(argv[0])
    explore(**a)
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
