"""Runs one check: workers, minimised replay, evidence, exit code."""

import json
import os
import pathlib
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from . import boot
from .core import Stats
from .worker import known_findings, load

SLOTS = int(os.environ.get("VERIF_SLOTS", "0")) or max(2, min(8, os.cpu_count() or 2))


def spawn(args, env, log):
    return subprocess.Popen(
        [boot.python(), "-m", "dst.worker", *args], cwd=str(boot.VERIF), env=env,
        stdout=log, stderr=subprocess.STDOUT, start_new_session=True,
    )


def stop(proc):
    try:
        os.killpg(proc.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    proc.wait()


def read_lines(path):
    try:
        return [json.loads(x) for x in path.read_text().splitlines() if x.endswith("}")]
    except FileNotFoundError:
        return []


def env_for(mod, group):
    env = boot.base_env(jit=mod.jit(group) if hasattr(mod, "jit") else True)
    if hasattr(mod, "env"):
        env.update(mod.env(group))
    for k in ("VERIF_REPO", "VERIF_BUILD", "VERIF_DEBUG"):
        if k in os.environ:
            env[k] = os.environ[k]
    return env


def run_replay(prop, mod, path):
    rec = json.loads(pathlib.Path(path).read_text())
    p = subprocess.run(
        [boot.python(), "-m", "dst.worker", "--replay", prop, str(path)], cwd=str(boot.VERIF),
        env=env_for(mod, rec["group"]), capture_output=True, text=True, timeout=600,
    )
    last = [x for x in p.stdout.splitlines() if x.startswith("{")]
    return p.returncode, (json.loads(last[-1]) if last else dict(violation=None, harness=p.stdout[-500:] + p.stderr[-1500:]))


def main(argv):
    prop = argv[0]
    mod = load(prop)
    if len(argv) > 2 and argv[1] == "--replay":
        code, res = run_replay(prop, mod, argv[2])
        print(json.dumps(res))
        if res.get("violation"):
            print(f"VIOLATION property={prop} replay={argv[2]}")
            return 1
        return 0 if code == 0 else 3
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    budget = float(os.environ.get("VERIF_BUDGET", 0)) or getattr(mod, "BUDGET", {}).get(tier) or dict(quick=35, thorough=600)[tier]
    print(f"check {prop}: seed={seed} tier={tier} budget={budget}s slots={SLOTS} repo={boot.REPO}", flush=True)
    t0 = time.monotonic()
    if hasattr(mod, "setup"):
        mod.setup()
    groups = mod.groups(tier)
    tmp = pathlib.Path(tempfile.mkdtemp(prefix=f"verif-{prop}-"))
    jobs = []
    counts = {}
    nslots = max(SLOTS, len(groups)) if len(groups) <= SLOTS else len(groups)
    for k in range(nslots):
        g = groups[k % len(groups)]
        slot = counts.get(g, 0)
        counts[g] = slot + 1
        jobs.append((g, slot, tmp / f"{k}.jsonl", tmp / f"{k}.log"))
    pending, running = list(jobs), []
    found = None
    hard = t0 + (780 if tier == "quick" else max(3000, 6 * budget))
    waves = -(-len(jobs) // SLOTS)
    cap = getattr(mod, "CAP", {}).get(tier, 10**9)
    try:
        while (pending or running) and not found:
            while pending and len(running) < SLOTS:
                g, slot, out, log = pending.pop(0)
                args = json.dumps(dict(prop=prop, group=g, slot=slot, seed=seed, tier=tier,
                                       budget=budget / waves, cap=cap, outfile=str(out)))
                env = env_for(mod, g)
                env["VERIF_SCRATCH"] = str(tmp)
                running.append((spawn([args], env, open(log, "w")), g, out, log))
            time.sleep(0.2)
            for item in list(running):
                if item[0].poll() is not None:
                    running.remove(item)
            for _, _, out, _ in jobs:
                v = [x for x in read_lines(out) if x["kind"] == "violation"]
                if v:
                    found = v[0]
            if time.monotonic() > hard:
                print("harness: hard time limit reached", flush=True)
                break
    finally:
        for item in running:
            stop(item[0])
    stats, sigs, samples = Stats(), set(), []
    n = rechecks = mismatches = herr = 0
    known_hit = {}
    unfinished = 0
    messages = []
    for g, slot, out, log in jobs:
        lines = read_lines(out)
        done = [x for x in lines if x["kind"] == "done"]
        for x in lines:
            if x["kind"] in ("harness", "mismatch"):
                messages.append((g, x))
            if x["kind"] == "found":
                messages.append((g, x))
        if not done:
            unfinished += 1
            tail = log.read_text()[-1500:] if log.exists() else ""
            if tail and not found:
                messages.append((g, dict(kind="log", tail=tail)))
            continue
        d = done[0]
        n += d["n"]
        stats.merge(d["stats"])
        sigs.update(d["sigs"])
        samples += d["samples"]
        rechecks += d["rechecks"]
        mismatches += d["mismatches"]
        herr += d["harness_errors"]
        for k, v in d["known"].items():
            known_hit[k] = known_hit.get(k, 0) + v
    shutil.rmtree(tmp, ignore_errors=True)
    wall = time.monotonic() - t0
    result, replay_path = 0, None
    if found:
        rdir = boot.VERIF / "replays"
        rdir.mkdir(exist_ok=True)
        replay_path = rdir / f"{prop}-seed{seed}-{found['group']}-{found['slot']}-{found['index']}.json"
        rec = dict(property=prop, seed=seed, group=found["group"], violation=found["cls"], detail=found["detail"],
                   case=found["case"], original_case=found["original"], warmed=found["warmed"],
                   minimise_runs=found["minimise_runs"])
        confirmed = None
        for variant in (dict(), dict(replay_warmed=True), dict(case=found["original"]),
                        dict(case=found["original"], replay_warmed=True)):
            if variant.get("replay_warmed") and not (hasattr(mod, "warm_key") and found["warmed"]):
                continue
            replay_path.write_text(json.dumps({**rec, **variant}, indent=1))
            try:
                code, res = run_replay(prop, mod, replay_path)
            except subprocess.TimeoutExpired:
                continue
            if res.get("violation"):
                confirmed = res["violation"]
                break
        print(f"violation class: {found['cls']}\n  detail: {found['detail'][:1500]}\n  replay in a fresh process: {confirmed}")
        if confirmed:
            print(f"VIOLATION property={prop} replay={replay_path}", flush=True)
            result = 1
        else:
            print("harness: the failure did not reproduce in a fresh process; not reported as a violation")
            result = 3
    for k in known_findings(prop):
        print(f"KNOWN-FINDING: property={prop} {k['description']}")
    if not found:
        for g, m in messages[:6]:
            print(f"note [{g}] {json.dumps(m)[:3000]}")
        if n == 0 or herr > 2 or unfinished:
            print(f"harness: {n} runs, {herr} harness errors, {unfinished} workers unfinished")
            result = 3
    search_h = max(wall, 1e-9) / 3600
    cov = dict(
        evaluations=n,
        distinct_nontrivial=len(sigs),
        rule=mod.RULE,
        samples=samples[:4],
        simulated_runs_per_hour=round(n / search_h),
        seeds_per_hour=round(n / search_h),
        simulated_time=f"{stats['simulated_seconds']} s on the simulated clock" if stats.get("simulated_seconds")
        else "no clock in this property; progress is counted in scheduler steps (see counts)",
        counts={k: v for k, v in sorted(stats.items()) if not k.startswith("fault_")},
        faults_fired={k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault_")},
        distinct_measure=getattr(mod, "MEASURE", "hash of the case and of every scheduling decision taken"),
        real_components=mod.REAL,
        stubbed_components=mod.STUB,
        determinism_rechecks=rechecks,
        determinism_mismatches=mismatches,
        harness_errors=herr,
        known_findings_hit=known_hit,
        groups=groups,
    )
    if found:
        cov["evaluations"] = max(n, 1)
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 2), violations=1 if result == 1 else 0)
    edir = boot.VERIF / "evidence"
    edir.mkdir(exist_ok=True)
    (edir / f"{prop}.json").write_text(json.dumps(ev, indent=1))
    print(f"{prop}: {n} runs, {len(sigs)} distinct non-trivial, rechecks {rechecks} (mismatches {mismatches}), "
          f"{wall:.1f} s, exit {result}", flush=True)
    return result


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
