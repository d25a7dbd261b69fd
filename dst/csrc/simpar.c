/*
 * Simulated threading layer for Numba.
 *
 * Numba's compiled parallel loops call numba_parallel_for(kernel, ...) to run
 * a table of work rows on a pool of threads.  This file provides that symbol.
 * Every row becomes a coroutine (own stack) on the calling thread; a plan
 * decides the order, which simulated worker each row runs on, and at which
 * executed machine instruction of the JIT code a row is preempted in favour
 * of the next one.  Preemption uses the CPU's single-step trap (TF flag), so
 * real, unmodified machine code is interleaved, at instruction granularity,
 * by a deterministic scheduler.
 *
 * A worker runs one row at a time.  Worker 0 is the calling thread.  Rows of any other worker run with their
 * own error indicator, which is dropped when the row ends: that is what
 * happens to an exception raised on a pool thread (it is set on that thread's
 * Python state and nobody looks at it).
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <signal.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <ucontext.h>

typedef void (*kernel_fn)(char **, size_t *, size_t *, void *);
typedef void (*tick_fn)(int);

/* CPython API, resolved in the process that loads us */
typedef int gilstate;
extern gilstate PyGILState_Ensure(void);
extern void PyGILState_Release(gilstate);
extern void PyErr_Fetch(void **, void **, void **);
extern void PyErr_Restore(void *, void *, void *);
extern void *PyErr_Occurred(void);
extern void PyErr_Clear(void);

#define MAXARR 128
#define MAXPRE 256
#define STACKSZ (1 << 20)
#define TRAPCAP 4000000L
#define STEPCAP 60000L

typedef struct {
    ucontext_t ctx;
    void *stack;
    int started, done, preempted, stepping;
    int worker, gil;
    long row, steps, target;
    int npre, ipre;
    long pre[MAXPRE];
    void *et, *ev, *tb;
    char *a[MAXARR];
    size_t d[32];
    kernel_fn fn;
    size_t *st;
    void *data;
} task_t;

/* plan */
static uint64_t order_seed, assign_seed;
static int nworkers = 1;
static long pre_region[MAXPRE], pre_row[MAXPRE], pre_step[MAXPRE];
static int npre;
static tick_fn tick;

/* statistics since the last plan */
static long st_regions, st_rows, st_switches, st_fired, st_jitsteps, st_traps;
static long st_dropped, st_mainerr, st_maxrows, st_ticks;
static uint64_t st_hash;

static task_t *cur;
static ucontext_t sched_ctx;
static int in_region;
static int cur_worker;
static volatile int *alloc_region; /* of allocfault.c, when preloaded */

static struct { uintptr_t lo, hi; } rng[512];
static int nrng;

static uint64_t mix(uint64_t z)
{
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

static void fold(uint64_t v) { st_hash = mix(st_hash ^ mix(v)); }

static void load_ranges(void)
{
    FILE *f = fopen("/proc/self/maps", "r");
    char line[1024];
    nrng = 0;
    if (!f) return;
    while (fgets(line, sizeof line, f)) {
        unsigned long lo, hi, off, ino;
        char perm[8], dev[16];
        int n = 0;
        if (sscanf(line, "%lx-%lx %7s %lx %15s %lu %n", &lo, &hi, perm, &off, dev, &ino, &n) < 6)
            continue;
        if (perm[2] != 'x' || ino != 0) continue;
        if (n && line[n] && line[n] != '\n') continue; /* [vdso] and friends */
        if (nrng < 512) { rng[nrng].lo = lo; rng[nrng].hi = hi; nrng++; }
    }
    fclose(f);
}

static int in_jit(uintptr_t p)
{
    for (int i = 0; i < nrng; i++)
        if (p >= rng[i].lo && p < rng[i].hi) return 1;
    return 0;
}

/*
 * Calls from JIT code into ordinary libraries (allocator, libm, Numba's
 * runtime) run at full speed: their return address is replaced by this
 * trampoline, which turns single-stepping back on and returns to the JIT code.
 */
uint64_t simpar_saved_ret;
void simpar_tramp(void);
__asm__(".text\n.globl simpar_tramp\n.type simpar_tramp,@function\nsimpar_tramp:\n"
        "  lea -8(%rsp),%rsp\n"
        "  pushfq\n"
        "  pushq %rax\n"
        "  movq simpar_saved_ret@GOTPCREL(%rip),%rax\n"
        "  movq (%rax),%rax\n"
        "  movq %rax,16(%rsp)\n"
        "  popq %rax\n"
        "  orq $0x100,(%rsp)\n"
        "  popfq\n"
        "  ret\n");

static void on_trap(int sig, siginfo_t *si, void *ucv)
{
    ucontext_t *uc = ucv;
    task_t *t = cur;
    st_traps++;
    if (!t || !t->stepping) {
        uc->uc_mcontext.gregs[REG_EFL] &= ~0x100L;
        return;
    }
    if (in_jit((uintptr_t)uc->uc_mcontext.gregs[REG_RIP])) {
        t->steps++;
        st_jitsteps++;
        if (t->steps >= t->target && !t->gil) {
            t->preempted = 1;
            swapcontext(&t->ctx, &sched_ctx);
            t = cur;
        }
    } else {
        uint64_t *sp = (uint64_t *)uc->uc_mcontext.gregs[REG_RSP];
        if (in_jit((uintptr_t)*sp)) {
            simpar_saved_ret = *sp;
            *sp = (uint64_t)(uintptr_t)simpar_tramp;
            uc->uc_mcontext.gregs[REG_EFL] &= ~0x100L;
            return;
        }
    }
    if (!t->stepping || st_traps > TRAPCAP || st_jitsteps > STEPCAP) {
        t->stepping = 0;
        uc->uc_mcontext.gregs[REG_EFL] &= ~0x100L;
    }
}

static void __attribute__((noinline)) tf_on(void)
{
    __asm__ volatile("lea -128(%%rsp),%%rsp; pushfq; orq $0x100,(%%rsp); popfq; lea 128(%%rsp),%%rsp" ::: "cc", "memory");
}

static void entry(void)
{
    task_t *t = cur;
    if (t->stepping) tf_on();
    t->fn(t->a, t->d, t->st, t->data);
    t = cur;
    t->stepping = 0;
    t->done = 1;
    swapcontext(&t->ctx, &sched_ctx);
}

void simpar_init(void)
{
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_trap;
    sa.sa_flags = SA_SIGINFO | SA_RESTART;
    sigaction(SIGTRAP, &sa, NULL);
    alloc_region = dlsym(RTLD_DEFAULT, "allocfault_region");
}

void simpar_plan(uint64_t oseed, uint64_t aseed, int nw, int n, const long *reg,
                 const long *row, const long *step, tick_fn t)
{
    order_seed = oseed;
    assign_seed = aseed;
    nworkers = nw < 1 ? 1 : nw;
    npre = n > MAXPRE ? MAXPRE : n;
    for (int i = 0; i < npre; i++) {
        pre_region[i] = reg[i];
        pre_row[i] = row[i];
        pre_step[i] = step[i];
    }
    tick = t;
    st_regions = st_rows = st_switches = st_fired = st_jitsteps = st_traps = 0;
    st_dropped = st_mainerr = st_maxrows = st_ticks = 0;
    st_hash = 0x1234;
    nrng = 0;
}

void simpar_stats(long *out)
{
    out[0] = st_regions; out[1] = st_rows; out[2] = st_switches; out[3] = st_fired;
    out[4] = st_jitsteps; out[5] = st_traps; out[6] = st_dropped; out[7] = st_mainerr;
    out[8] = st_maxrows; out[9] = (long)(st_hash & 0x7fffffffffffffffull); out[10] = st_ticks;
}

/* a row that holds the interpreter lock cannot be overtaken by another one */
void simpar_gil_ensure(gilstate *g)
{
    if (cur) cur->gil++;
    *g = PyGILState_Ensure();
}

void simpar_gil_release(gilstate *g)
{
    PyGILState_Release(*g);
    if (cur) cur->gil--;
}

int simpar_thread_id(void) { return in_region ? cur_worker : 0; }

static int cmpl(const void *a, const void *b)
{
    long x = *(const long *)a, y = *(const long *)b;
    return x < y ? -1 : x > y;
}

void simpar_parallel_for(void *fn, char **args, size_t *dims, size_t *steps, void *data,
                         size_t inner_ndim, size_t array_count, int nthreads)
{
    size_t n = dims[0];
    long region = st_regions++;
    if (array_count > MAXARR || inner_ndim + 1 > 32) abort();
    if ((long)n > st_maxrows) st_maxrows = (long)n;
    st_rows += (long)n;
    if (in_region || n == 0) { /* nested region: run in place, in order */
        for (size_t r = 0; r < n; r++) {
            char *a[MAXARR];
            size_t d[32];
            for (size_t i = 0; i < array_count; i++) a[i] = args[i] + r * steps[i];
            memcpy(d, dims, sizeof(size_t) * (inner_ndim + 1));
            d[0] = 1;
            ((kernel_fn)fn)(a, d, steps, data);
        }
        return;
    }
    if (nrng == 0 || !in_jit((uintptr_t)fn)) load_ranges();
    in_region = 1;
    task_t *tasks = calloc(n, sizeof(task_t));
    size_t *q = malloc(sizeof(size_t) * n);
    size_t qh = 0, qn = n;
    for (size_t r = 0; r < n; r++) q[r] = r;
    if (order_seed)
        for (size_t i = n; i > 1; i--) {
            size_t j = mix(order_seed ^ mix((uint64_t)region * 1000003u + i)) % i;
            size_t x = q[i - 1]; q[i - 1] = q[j]; q[j] = x;
        }
    for (size_t r = 0; r < n; r++) {
        task_t *t = &tasks[r];
        t->row = (long)r;
        uint64_t h = mix(assign_seed ^ mix((uint64_t)region * 7919u));
        if (nworkers <= 1) t->worker = 0;
        else if (h & 0x30) t->worker = (int)((h / 64 + r) % (uint64_t)nworkers); /* round robin */
        else t->worker = (int)(mix(h + r) % (uint64_t)nworkers); /* any worker takes any row */
        for (size_t i = 0; i < array_count; i++) t->a[i] = args[i] + r * steps[i];
        memcpy(t->d, dims, sizeof(size_t) * (inner_ndim + 1));
        t->d[0] = 1;
        t->fn = (kernel_fn)fn;
        t->st = steps;
        t->data = data;
        for (int i = 0; i < npre; i++)
            if ((pre_region[i] < 0 || pre_region[i] == region) && (pre_row[i] < 0 || (size_t)pre_row[i] % n == r))
                t->pre[t->npre++] = pre_step[i];
        if (t->npre > 1) qsort(t->pre, t->npre, sizeof(long), cmpl);
    }
    void *met = NULL, *mev = NULL, *mtb = NULL;
    size_t *ring = malloc(sizeof(size_t) * (n + 1));
    memcpy(ring, q, sizeof(size_t) * n);
    size_t cap = n + 1, tail = n;
    char *busy = calloc(nworkers > 1 ? nworkers : 1, 1);
    while (qn > 0) {
        size_t r = ring[qh];
        qh = (qh + 1) % cap;
        task_t *t = &tasks[r];
        if (!t->started && busy[t->worker]) { /* its worker is in the middle of another row */
            ring[tail] = r;
            tail = (tail + 1) % cap;
            continue;
        }
        qn--;
        busy[t->worker] = 1;
        while (t->ipre < t->npre && t->pre[t->ipre] <= t->steps) t->ipre++;
        t->stepping = t->ipre < t->npre;
        t->target = t->stepping ? t->pre[t->ipre] : -1;
        t->preempted = 0;
        if (!t->started) {
            t->started = 1;
            t->stack = mmap(NULL, STACKSZ, PROT_READ | PROT_WRITE,
                            MAP_PRIVATE | MAP_ANONYMOUS | MAP_STACK, -1, 0);
            if (t->stack == MAP_FAILED) abort();
            getcontext(&t->ctx);
            t->ctx.uc_stack.ss_sp = t->stack;
            t->ctx.uc_stack.ss_size = STACKSZ;
            t->ctx.uc_link = &sched_ctx;
            makecontext(&t->ctx, entry, 0);
        }
        if (t->et) {
            gilstate g = PyGILState_Ensure();
            PyErr_Restore(t->et, t->ev, t->tb);
            PyGILState_Release(g);
            t->et = t->ev = t->tb = NULL;
        }
        cur = t;
        cur_worker = t->worker;
        if (alloc_region) *alloc_region = 1;
        swapcontext(&sched_ctx, &t->ctx);
        if (alloc_region) *alloc_region = 0;
        cur = NULL;
        fold((uint64_t)region << 40 ^ (uint64_t)r << 32 ^ (uint64_t)(t->preempted ? t->steps : 0) ^ (uint64_t)t->done << 63);
        {
            gilstate g = PyGILState_Ensure();
            if (PyErr_Occurred()) PyErr_Fetch(&t->et, &t->ev, &t->tb);
            if (t->done && t->et) {
                if (t->worker == 0) {
                    st_mainerr++;
                    if (!met) { met = t->et; mev = t->ev; mtb = t->tb; }
                    else { PyErr_Restore(t->et, t->ev, t->tb); PyErr_Clear(); }
                } else {
                    st_dropped++;
                    PyErr_Restore(t->et, t->ev, t->tb);
                    PyErr_Clear();
                }
                t->et = t->ev = t->tb = NULL;
            }
            PyGILState_Release(g);
        }
        if (t->done) {
            munmap(t->stack, STACKSZ);
            t->stack = NULL;
            busy[t->worker] = 0;
        } else {
            st_switches++;
            st_fired++;
            ring[tail] = r;
            tail = (tail + 1) % cap;
            qn++;
        }
        if (tick) { st_ticks++; tick(t->done); }
    }
    in_region = 0;
    if (met) {
        gilstate g = PyGILState_Ensure();
        PyErr_Restore(met, mev, mtb);
        PyGILState_Release(g);
    }
    free(ring);
    free(busy);
    free(q);
    free(tasks);
}
