/* Clock, entropy and identity seam (LD_PRELOAD): VENV_CLOCK="start step
 * jump_every jump_by" in seconds / nanoseconds / calls / seconds,
 * VENV_ENTROPY=seed, VENV_WHO="process user" and VENV_DENY (nothing below
 * the working directory is accessible to access()). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

static int have_clock, have_entropy, deny;
static int pid = -1, uid = -1;
static long long extra_ns;
static long long now_ns, step_ns, jump_every, jump_s, calls;
static uint64_t ent;

__attribute__((constructor)) static void init(void)
{
    char *c = getenv("VENV_CLOCK"), *e = getenv("VENV_ENTROPY");
    long long start;
    if (c && sscanf(c, "%lld %lld %lld %lld", &start, &step_ns, &jump_every, &jump_s) == 4) {
        now_ns = start * 1000000000LL;
        have_clock = 1;
    }
    if (e) { ent = strtoull(e, NULL, 10) * 2654435761u + 88172645463325252ull; have_entropy = 1; }
    char *w = getenv("VENV_WHO");
    if (w) sscanf(w, "%d %d", &pid, &uid);
    deny = getenv("VENV_DENY") != NULL;
    unsetenv("VENV_WHO");
    unsetenv("VENV_DENY");
    unsetenv("LD_PRELOAD");
    unsetenv("VENV_CLOCK");
    unsetenv("VENV_ENTROPY");
}

static long long tick(void)
{
    now_ns += step_ns;
    if (jump_every > 0 && ++calls % jump_every == 0) now_ns += jump_s * 1000000000LL;
    return now_ns;
}

pid_t getpid(void) { return pid >= 0 ? pid : (pid_t)syscall(SYS_getpid); }
uid_t getuid(void) { return uid >= 0 ? (uid_t)uid : (uid_t)syscall(SYS_getuid); }
uid_t geteuid(void) { return uid >= 0 ? (uid_t)uid : (uid_t)syscall(SYS_geteuid); }

int access(const char *path, int mode)
{
    if (deny && path[0] != '/') { errno = EACCES; return -1; }
    return (int)syscall(SYS_access, path, mode);
}

int clock_gettime(clockid_t id, struct timespec *ts)
{
    if (have_clock && id == CLOCK_MONOTONIC) {
        int r = (int)syscall(SYS_clock_gettime, id, ts);
        if (extra_ns < 2000000000000000000LL) extra_ns += step_ns;
        long long n = ts->tv_sec * 1000000000LL + ts->tv_nsec + extra_ns;
        ts->tv_sec = n / 1000000000LL;
        ts->tv_nsec = n % 1000000000LL;
        return r;
    }
    if (!have_clock || (id != CLOCK_REALTIME && id != CLOCK_REALTIME_COARSE))
        return (int)syscall(SYS_clock_gettime, id, ts);
    long long n = tick();
    ts->tv_sec = n / 1000000000LL;
    ts->tv_nsec = n % 1000000000LL;
    return 0;
}

int gettimeofday(struct timeval *tv, void *tz)
{
    if (!have_clock) return (int)syscall(SYS_gettimeofday, tv, tz);
    long long n = tick();
    tv->tv_sec = n / 1000000000LL;
    tv->tv_usec = n % 1000000000LL / 1000;
    return 0;
}

time_t time(time_t *t)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}

static void fill(unsigned char *b, size_t n)
{
    for (size_t i = 0; i < n; i++) {
        ent ^= ent << 13; ent ^= ent >> 7; ent ^= ent << 17;
        b[i] = (unsigned char)(ent >> 24);
    }
}

ssize_t getrandom(void *b, size_t n, unsigned f)
{
    if (!have_entropy) return syscall(SYS_getrandom, b, n, f);
    fill(b, n);
    return (ssize_t)n;
}

int getentropy(void *b, size_t n)
{
    if (!have_entropy) return syscall(SYS_getrandom, b, n, 0) == (ssize_t)n ? 0 : -1;
    fill(b, n);
    return 0;
}
