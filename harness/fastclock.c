/* the monotonic clock of a program under test runs VH_CLOCK times faster, so that its time limited steps end earlier */
#define _GNU_SOURCE
#include <stdlib.h>
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>

static long scale = 0;
static long long base;

int clock_gettime(clockid_t clk, struct timespec *ts) {
    int res = syscall(SYS_clock_gettime, clk, ts);
    if (res || clk != CLOCK_MONOTONIC) return res;
    long long t = ts->tv_sec * 1000000000LL + ts->tv_nsec;
    if (!scale) {
        const char *e = getenv("VH_CLOCK");
        base = t;
        scale = e ? atol(e) : 1;
        if (scale < 1) scale = 1;
    }
    t = base + (t - base) * scale;
    ts->tv_sec = t / 1000000000LL;
    ts->tv_nsec = t % 1000000000LL;
    return 0;
}
