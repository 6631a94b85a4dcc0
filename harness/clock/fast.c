/* Preloaded into the program under test: makes its monotonic clock run fast, so that whatever
 * it would give up waiting for, it gives up within the time a run takes. */
#define _GNU_SOURCE
#include <signal.h>
#include <stddef.h>
#include <sys/epoll.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#define K 400
#define S 1000000000ll

static long long base;

int clock_gettime(clockid_t c, struct timespec *t) {
    int r = syscall(SYS_clock_gettime, c, t);
    if (r == 0 && c == CLOCK_MONOTONIC) {
        long long now = t->tv_sec * S + t->tv_nsec, none = 0;
        __atomic_compare_exchange_n(&base, &none, now, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
        long long b = __atomic_load_n(&base, __ATOMIC_SEQ_CST);
        long long v = b + (now - b) * K;
        t->tv_sec = v / S;
        t->tv_nsec = v % S;
    }
    return r;
}

int epoll_wait(int e, struct epoll_event *v, int n, int ms) {
    return syscall(SYS_epoll_pwait, e, v, n, ms > 0 ? (ms + K - 1) / K : ms, NULL, _NSIG / 8);
}

int nanosleep(const struct timespec *d, struct timespec *left) {
    long long v = (d->tv_sec * S + d->tv_nsec) / K;
    struct timespec t = { v / S, v % S };
    return syscall(SYS_nanosleep, &t, left);
}

int clock_nanosleep(clockid_t c, int flags, const struct timespec *d, struct timespec *left) {
    if (flags & TIMER_ABSTIME)
        return -1;
    (void)c;
    return nanosleep(d, left);
}
