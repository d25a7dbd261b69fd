/*
 * Failing memory allocations inside compiled numerical code.
 *
 * Preloaded; counts calls of malloc of at least `allocfault_min` bytes made
 * while `allocfault_region` is set (by simpar, while rows of a parallel loop
 * run; by the harness around a serial call) and makes the chosen ones fail.
 */
#include <errno.h>
#include <stddef.h>

extern void *__libc_malloc(size_t);
volatile int allocfault_region;
volatile long allocfault_min = 256, allocfault_at = -1, allocfault_every;
volatile long allocfault_seen, allocfault_fired;
static void *volatile owner;

void allocfault_own(void) { owner = __builtin_thread_pointer(); }

void *malloc(size_t n)
{
    if (__builtin_expect(allocfault_region && allocfault_at >= 0 && owner == __builtin_thread_pointer() && n >= (size_t)allocfault_min, 0)) {
        long k = allocfault_seen++;
        if (k == allocfault_at || (allocfault_every && k > allocfault_at && (k - allocfault_at) % allocfault_every == 0)) {
            allocfault_fired++;
            errno = ENOMEM;
            return NULL;
        }
    }
    return __libc_malloc(n);
}
