/* The system clock under the simulator's control (LD_PRELOAD): wall clock = real + offset + step * calls. */
#define _GNU_SOURCE
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static long long offset_s, step_ns, calls;

void simclock_set(long long off, long long step) { offset_s = off; step_ns = step; calls = 0; }
long long simclock_calls(void) { return calls; }

static void warp(struct timespec *ts)
{
    long long d = step_ns * ++calls;
    long long n = (long long)ts->tv_nsec + d % 1000000000LL;
    ts->tv_sec += offset_s + d / 1000000000LL;
    while (n < 0) { n += 1000000000LL; ts->tv_sec--; }
    while (n >= 1000000000LL) { n -= 1000000000LL; ts->tv_sec++; }
    ts->tv_nsec = n;
}

int clock_gettime(clockid_t c, struct timespec *ts)
{
    int r = syscall(SYS_clock_gettime, c, ts);
    if (!r && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) warp(ts);
    return r;
}

int gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
    struct timespec ts;
    (void)tz;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}

time_t time(time_t *t)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
