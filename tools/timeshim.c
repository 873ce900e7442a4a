/* Preloaded into a compressing process: every reading of a clock jumps ahead, the more the more often it is read. */
#define _GNU_SOURCE
#include <stdatomic.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static atomic_ullong calls, total;

static unsigned long long ahead(void) {
    /* nanoseconds: nothing, or microseconds up to hours at a time, never backwards */
    static const unsigned long long steps[] = {0, 1000ULL, 3000000ULL, 400000000ULL, 7000000000ULL, 100000000000ULL, 7200000000000ULL, 0};
    unsigned long long n = atomic_fetch_add(&calls, 1) + 1;
    unsigned long long s = steps[(n * 0x9E3779B97F4A7C15ULL) >> 61];
    return atomic_fetch_add(&total, s) + s;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
    long r = syscall(SYS_clock_gettime, id, ts);
    if (r == 0) {
        unsigned long long ns = (unsigned long long)ts->tv_nsec + ahead();
        if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)
            ts->tv_sec += 400L * 86400L; /* and another day of another year */
        ts->tv_sec += ns / 1000000000ULL;
        ts->tv_nsec = ns % 1000000000ULL;
    }
    return (int)r;
}
int gettimeofday(struct timeval *tv, void *tz) {
    struct timespec ts;
    (void)tz;
    int r = clock_gettime(CLOCK_REALTIME, &ts);
    if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
    return r;
}
time_t time(time_t *t) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
