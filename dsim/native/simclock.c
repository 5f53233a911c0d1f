/* Simulated clock: LD_PRELOAD shim.
 *
 * While simclock_on(1) is in force every reading of the wall clock in this
 * process (through libc) is answered from a clock the simulator owns: it starts
 * where the simulator says, advances by a fixed step per reading, and jumps by
 * given amounts at given reading numbers.  CLOCK_MONOTONIC is left to the
 * interpreter, which uses it for the timed waits of its own GIL; Python code
 * that reads it (time.monotonic, time.perf_counter) is answered from
 * simclock_mono() by the harness.  CLOCK_MONOTONIC_RAW is real: budgets only.
 */
#define _GNU_SOURCE
#include <time.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <stdint.h>

#define MAXJ 64
static volatile int on = 0;
static int64_t now_ns, mono_ns, step_ns;
static int64_t reads, wall_reads;
static int njump;
static int64_t jump_at[MAXJ], jump_by[MAXJ];

static int64_t tick(int wall)
{
    int64_t r = __sync_add_and_fetch(&reads, 1);
    int64_t w, m;
    if (wall) __sync_add_and_fetch(&wall_reads, 1);
    for (int i = 0; i < njump; i++)
        if (jump_at[i] == r)
            __sync_add_and_fetch(&now_ns, jump_by[i]);
    w = __sync_add_and_fetch(&now_ns, step_ns);
    m = __sync_add_and_fetch(&mono_ns, step_ns);
    return wall ? w : m;
}

void simclock_set(int64_t wall, int64_t mono, int64_t step)
{ now_ns = wall; mono_ns = mono; step_ns = step; reads = wall_reads = 0; njump = 0; }
void simclock_jump(int64_t at, int64_t by)
{ if (njump < MAXJ) { jump_at[njump] = at; jump_by[njump] = by; njump++; } }
void simclock_advance(int64_t wall, int64_t mono) { now_ns += wall; mono_ns += mono; }
void simclock_on(int v) { on = v; }
int64_t simclock_reads(void) { return reads; }
int64_t simclock_wall_reads(void) { return wall_reads; }
int64_t simclock_now(void) { return now_ns; }
int64_t simclock_mono(void) { return tick(0); }

static void split(int64_t t, int64_t *s, int64_t *ns)
{
    int64_t q = t / 1000000000LL, r = t % 1000000000LL;
    if (r < 0) { r += 1000000000LL; q--; }
    *s = q; *ns = r;
}

int clock_gettime(clockid_t id, struct timespec *ts)
{
    if (on && ts) {
        int64_t s, ns;
        if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) {
            split(tick(1), &s, &ns); ts->tv_sec = s; ts->tv_nsec = ns; return 0;
        }
    }
    return syscall(SYS_clock_gettime, id, ts);
}

int gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
    (void)tz;
    if (on && tv) {
        int64_t s, ns;
        split(tick(1), &s, &ns); tv->tv_sec = s; tv->tv_usec = ns / 1000; return 0;
    }
    return syscall(SYS_gettimeofday, tv, tz);
}

time_t time(time_t *t)
{
    int64_t s, ns;
    if (on) split(tick(1), &s, &ns);
    else { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); s = ts.tv_sec; }
    if (t) *t = s;
    return s;
}
