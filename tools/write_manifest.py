"""Regenerates MANIFEST.json from the check modules that exist."""
import json
import pathlib

V = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(x) for x in (V / "properties.jsonl").read_text().splitlines()]
PURE = "it is a pure function of its arguments: no schedule, clock, I/O, randomness or shared state for a simulator to decide; "
NA = dict(
    N01="Linearity and additivity of a pure function; " + PURE + "input generation would be property-based testing, not simulation.",
    N02="Derivative and Laplace relations between fields; " + PURE + "deciding it is numerical analysis of formulas.",
    N03="Agreement with closed-form solutions; " + PURE + "deciding it is numerical analysis of formulas.",
    N04="Sign and unit conventions; " + PURE + "they are constants of the formulas.",
    N05="Frequency responses of single-threaded FFT filters; " + PURE + "their non-interference with callers is decided in C06 and C07.",
    N06="Inverse relation between two pure conversions; " + PURE + "nothing to schedule or to fault.",
    N07="Closed-form corrections; " + PURE + "their non-interference with callers is decided in C06 and C07.",
    N08="Numerical accuracy of a least-squares fit; " + PURE + "the schedule and history dependence of fits is decided in C02, C08 and C12.",
    N09="Numerical accuracy of Euler methods; " + PURE + "their failure atomicity is decided in C08.",
    N10="Identities of special functions; " + PURE + "IGRF synthesis built on them is decided in C03.",
    N11="Periodicity in an argument; " + PURE + "nothing to schedule or to fault.",
    N12="Argument validation; " + PURE + "state after a rejected call is decided in C08, C13 and C14.",
    N13="Construction of meshes from bodies; " + PURE + "nothing to schedule or to fault.",
)
TECH = dict(
    C01="deterministic simulation: seeded scheduler for the compiled parallel loops with instruction-level preemption, differential oracle",
    C02="deterministic simulation: seeded scheduler for the compiled parallel loops with instruction-level preemption, differential oracle",
    C03="deterministic simulation: seeded scheduler for the compiled parallel loops, reference-model synthesis oracle",
    C04="deterministic simulation: failing workers injected at singular points under a seeded scheduler of the parallel loops",
    C05="deterministic simulation: seeded worker schedules with a simulated display thread and injected failures",
    C06="deterministic simulation: seeded one-at-a-time scheduling of real caller threads, run-alone oracle",
    C07="deterministic simulation: seeded call histories with injected interruptions, snapshot and fresh-process oracles",
    C08="deterministic simulation: seeded estimator histories with failures injected at arbitrary points, reference-model oracle",
    C09="deterministic simulation: simulated file delivery and disk faults, reference reader oracle",
    C10="deterministic simulation: simulated file delivery and disk faults, reference reader oracle",
    C11="deterministic simulation: simulated network, disk faults, crashes and concurrent users of one cache",
    C12="deterministic simulation: seeded random windows and interfering random-number users, sequential reference model",
    C13="deterministic simulation: seeded layer histories with injected interruptions, reference-model oracle",
    C14="deterministic simulation: seeded body histories with injected interruptions, reference-model oracle",
    C15="deterministic simulation: simulated task scheduler and chunk storage with repeated tasks, interleaved waves and failing loads, fresh-process oracle",
    C16="deterministic simulation: seeded histories with crashes, failing and torn saves and restarts in pristine processes, uninterrupted-life oracle",
)
NOTE = dict(
    C01="Seeded search, not proof. Unmodified compiled kernels run under a simulated threading layer; assumes sequentially consistent memory.",
    C02="Seeded search, not proof. Unmodified compiled kernels and estimators run under a simulated threading layer.",
    C03="Seeded search, not proof. The coefficient file is synthetic, served by a simulated download; reference synthesis is independent code.",
    C04="Seeded search, not proof. Errors on simulated workers other than the caller are dropped as on real pool threads.",
    C05="Seeded search, not proof. The bar's refresh thread is simulated; proxy, atomic counter and tqdm are real.",
    C06="Seeded search, not proof. Python threads are real, one runs at a time, switches at traced lines/opcodes of library code and at lock operations; compiled kernels run serially or under the simulated layer.",
    C07="Seeded search, not proof. Interruptions land at traced lines of library frames.",
    C08="Seeded search, not proof. Failures land at traced lines of library frames, in allocations and in the linear solver.",
    C09="Seeded search, not proof. System calls on the scratch file are answered by a preloaded shim.",
    C10="Seeded search, not proof. System calls on the scratch file are answered by a preloaded shim.",
    C11="Seeded search, not proof. Pooch, requests above its transport adapter, and the file system calls run for real; the network is simulated.",
    C12="Seeded search, not proof. Oracle is a sequential boosting model written from the documentation.",
    C13="Seeded search, not proof. Oracle is an explicit list of bodies summed with the library's own single-body forward model.",
    C14="Seeded search, not proof. Oracle is a freshly constructed body.",
    C15="Seeded search, not proof. Kernels run as Python code; refusing lazily loaded input with an exception is allowed.",
    C16="Seeded search, not proof. Kernels run as Python code; the saved bytes live in memory.",
)
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
    elif (V / "dst" / "checks" / f"{i.lower()}.py").exists():
        checks.append(dict(property=i, quick_cmd=f"./check {i}", thorough_cmd=f"VERIF_TIER=thorough ./check {i}",
                           evidence_file=f"evidence/{i}.json", technique=TECH[i], level="exploration", level_note=NOTE[i]))
    else:
        na.append(dict(property=i, reason="Applicable; its check is still being built."))
out = dict(
    version=1,
    setup_cmd="/opt/venv/bin/python -m dst.setup",
    hooks=dict(guard="none: every seam used already exists (Numba's threading layer symbols, numba_progress, "
                     "requests adapters, the C library's file calls, sys.settrace); /repo carries no hooks",
               enable="checks import /repo/src directly; nothing to enable", source_commits=[]),
    checks=checks, not_applicable=na,
    notes="See DESIGN.md. VERIF_SEED decides every random choice; ./check ID --replay FILE re-runs a recorded failure.",
)
(V / "MANIFEST.json").write_text(json.dumps(out, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not applicable")
