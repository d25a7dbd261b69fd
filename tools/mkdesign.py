import json,glob,os
head=open('/verif/DESIGN.md').read()
i=head.index('## How one execution is decided and repeated') if '## How one execution' in head else head.index('## Properties and how each is decided')
top=head[:i]
body='''## How one execution is decided and repeated

One run = one JSON case drawn from `Rng(VERIF_SEED, property, group, slot, index)`.
The worker process imports harmonica once, compiles kernels, then forks a child per
case; the child executes the case with every decision (scheduling rows and workers,
preemption steps, bytes of fresh memory, thread switches, fault sites, replies of the
network, results of system calls, random streams) taken from the case. What a case
did is summed up in `out.digest` (results, outcomes, fired faults, sequence of
decisions). A violation is shrunk by re-running smaller cases and keeping those with
the same violation class, saved in `replays/`, and only reported when a new process
replaying the file reproduces class and digest. `./check C01 --replay FILE` does the
same by hand. Sampled cases are executed twice within each check
(`determinism_checked` in the evidence) and `tools/determinism.py` compares digests
over worker processes, PYTHONHASHSEED values and repeated runs.

A check stops on its wall-clock budget (22-55 s quick, 600-900 s thorough), with a
floor on the number of cases per worker, so a slow machine explores less but never
fails. Harness errors (not violations) exit 2.

### Simulators in more detail

* **simpar.** Numba compiles `prange` to a function called with a table of chunks
  through `numba_parallel_for`; simpar provides that symbol (and the thread-count
  ones). A plan gives number of threads, chunk size, order of chunks, worker of each
  chunk and preemptions `(chunk, steps)`. Each chunk is a `ucontext` coroutine with
  its own stack; preemption uses the trap flag to count executed instructions in the
  compiled kernel. "Aligned" plans start all rows together and preempt each after the
  same number of steps, which makes rows that share scratch meet. An exception in a
  chunk whose worker is not the caller's is lost, as on real pool threads (libgomp,
  tbb and workqueue were checked to behave so: this is the defect fixed in 1c7fb44).
  Limits: one core, so sequential consistency; vectorised stores are atomic.
* **stale memory.** `mallopt(M_PERTURB)` fills fresh and freed memory with a chosen
  byte, so an uninitialised result differs between plans.
* **allocfault** (`LD_PRELOAD`): the k-th large allocation made by compiled code
  fails, on a chosen worker.
* **simthreads.** Real Python threads, one running at a time; `sys.settrace` line or
  opcode events of harmonica and verde code are the switch points; locks of the
  interpreter are replaced by simulated ones, so blocking is a scheduling decision and
  deadlock is a violation. Switches at any opcode are possible because the GIL can be
  released between any two opcodes.
* **interrupts.** A dry run lists the executed library lines; a plan repeats the run
  raising MemoryError, KeyboardInterrupt, OSError... before the k-th of them. Lines
  that only move references (no call, no allocation, no signal check) are not fault
  sites, since no real execution can fail there.
* **simprogress.** The real numba_progress bar; only its Thread and Event are
  replaced, so display updates happen between machine instructions of the workers.
* **simdisk/iofault** (`LD_PRELOAD`): open, read, write, close, rename, unlink, mkdir,
  chmod under one directory are counted; the k-th can give EINTR, EIO, ENOSPC, EROFS,
  a short or torn transfer, early EOF, or kill the process before or after; "gate"
  mode makes each process wait for the scheduler before every operation, so
  interleavings of processes are decided too. Modes: full disk, read-only disk.
* **simnet.** requests' transport is answered in-process: DOI landing page, Zenodo API,
  file; faults: refused, DNS failure, timeouts, 4xx/5xx, dropped after n bytes,
  truncated, corrupted, wrong file, redirect to an HTML page, bad JSON. The official
  coefficient file cannot be had offline, so a synthetic file is served and its digest
  presented as the official one; every integrity check still runs.
* **zygote.** Reference results come from a process forked before the history under
  test started, so "the same call made first in a process" is exact.

## Properties and how each is decided

| | family of cases | oracle | why tests cannot settle it |
|---|---|---|---|
| C01 | forward model x points (1 to 66000; 2-D, lists, strided, int, read-only, surveys with repeats, clusters) x plans x stale bytes | parallel == serial; reversed/permuted points; points alone | a race, lost row or dependence on neighbours needs one schedule or layout |
| C02 | sources of three kinds: Jacobian, fit, predict, grid, profile under plans | serial session, plus numpy Green's functions | same |
| C03 | 1-3 models (also changed to another date or degrees between calls), dates near epochs, degrees 1-13, grids and points under plans | numpy synthesis of the served coefficients (own recurrences, own interpolation) | the repository's IGRF tests need the network and few dates |
| C04 | failing points at any row/worker, failing scratch allocations | raises iff serial raises; otherwise complete | only a failing point on another worker shows it |
| C05 | bar on/off, serial/parallel, updates at any instruction, failing work, failing thread start, interrupts | same result; total == count == points; closed; no updater left | tests look at finished bars only |
| C06 | 2-4 threads, 1-3 calls each, shared arguments, catalogue of ~60 calls | each call's own result run alone in a fork | tests never run two callers |
| C07 | histories of 2-8 catalogue calls: repeats, spoiled arguments, interrupts, caller overwriting results | bit snapshots of arguments; fork-fresh result; process-wide state (error state, filters, cwd, env, threads, RNG) | tests sample single calls |
| C08 | histories on one estimator | model "last completed fit", realised by a new estimator in a fork | needs failure at a particular statement |
| C09 | generated files x at-rest damage x delivery faults x path/handle | independent reader: grid or "inconsistent" | all delivery patterns and cut positions |
| C10 | as C09 for .grd, compressed and not | independent reader | as C09 |
| C11 | histories of a cache: processes, threads, crashes, damage, network | official coefficients or an exception; fault-free run works; intact cache makes no request | crash points x interleavings |
| C12 | GB fits with interfering RNG users, interrupts, copies | exact repeatability; sequential boosting whose window order is *recovered* from the misfit history (so no assumption on how the shuffling is done); last misfit; global RNG state | tests fix one seed |
| C13 | histories on a layer | model of contents; gravity == sum over explicit bodies; all-or-nothing updates | histories |
| C14 | histories on ellipsoids | stored values == model; fields == fresh body in a fork | histories |
| C15 | lazily loaded (chunked) grids, layers, arrays; delayed calls; delayed cross-validation | direct calls on loaded data in a fork-fresh process; stored data, arguments and estimator unchanged | tests call directly on loaded data from one thread |
| C16 | histories of one object and its copies, with saves to a simulated disk (full, torn, interrupted), crashes, and restarts in fork-fresh processes and a second interpreter with other hash seeds | the same linear history lived by one object in one pristine process without copies | ~25 s; copies and process boundaries are where hidden shared or missing state shows |

Tolerances are relative to the scale of the quantity and recorded as `assumptions` in
MANIFEST/evidence. Checks compare behaviour only (arguments, results, exceptions,
files, requests), not how the code is written: C12 recovers the order of windows from
misfits; C08 and C14 read public attributes; C11 counts requests at the transport.

### Not applicable

N01-N13 are pure input-output facts (linearity, potential-field identities, analytic
solutions, units, frequency responses, angle conversions, formulas, accuracy of fits,
Legendre identities, periodicity, validation, meshes): there is no schedule, time,
I/O or fault they could depend on, so simulation would be plain input generation.
They are listed in MANIFEST `not_applicable`.

'''
f=json.load(open('/verif/known_findings.json'))
find='## Findings\n\nGenuine defects found by the checks, all repaired (`known_findings.json`); no finding is left unrepaired.\n\n'
for l in f['fixed']:
    l=l[len('fixed: property='):]; p,c,t=l.split(' ',2); find+=f'* {p}, {c}: {t}\n'
find+='''
Defects noticed while reading that no listed property covers, or that are too far from
a small safe repair; none makes a check fail: IGRF14.grid with an array of heights
raises; max_degree=0 reads out of bounds; coordinates of different but broadcastable
sizes are read out of bounds by compiled kernels; EquivalentSourcesSph.predict with
integer longitudes gives integers; isostatic_moho_airy raises for integer thicknesses with
integer densities; Sph.points_ can be views of the caller's arrays;
estimate_required_memory of cart/GB ignores custom points; the default GB window on
very elongated surveys raises; Oasis data_factor 0; a header with size 0 and a damaged
block count reads as an empty grid; NaN semi-axes are accepted; variable-density
tesseroids do not drop null bodies; Numba's workqueue layer is not thread safe
(C06 assumes omp or tbb, as Numba documents).

## False alarms met and corrected

* C01/C02 compared fits without damping between runs: ill-conditioned systems amplify
  rounding, so only damped fits are compared.
* C03 compared the eastward component at the exact poles (singular by definition).
* C12 with a window exactly as wide as the region: 2.5 windows along the other side, where
  round-off decides between two and three (such cases get a slightly smaller window).
* C05 counted an interrupt between making the bar and entering its `with`; CPython
  cannot close that gap, so it is outside the property.
* C08/C09/C13/C14 raised at statements that can neither fail nor be interrupted; such
  statements are no longer fault sites.
* C12 first assumed scikit-learn's shuffle order; now the order is recovered.

'''
missed={'c07-tesseroids-shifted-in-place':'missed at first; catalogue got tesseroids of all longitude conventions',
'c07-kernel-cache-ignores-spacing':'missed at first; catalogue got grids of equal shape and other spacing',
'c11-verified-once':'missed at first; damage within the life of a process added',
'c13-small-updates-ignored':'missed at first; near-identical updates added',
'c13-surfaces-prepared-once':'missed at first; in-place edits of top/bottom added',
'c14-remanence-accumulates':'missed at first; unrotated bodies with sorted axes added',
}
try: missed.update(json.load(open('/verif/tools/missed.json')))
except FileNotFoundError: pass
cat='## Planted bugs (`seeded/`) and the checks that catch them\n\nEvery one is caught by the quick check of its own property with VERIF_SEED=1.\n\n| bug | check | needs | note |\n|---|---|---|---|\n'
for d in sorted(glob.glob('/verif/seeded/*')):
    m=json.load(open(d+'/meta.json')); b=os.path.basename(d)
    cat+=f"| {b} | {m['property']} | {m['needs']} | {missed.get(b,'')} |\n"
open('/verif/DESIGN.md','w').write(top+body+find+cat)
