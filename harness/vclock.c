// LD_PRELOAD: a virtual processor-time clock. Every reading advances it by VC_STEP microseconds; the VC_K-th reading and
// all those after it are VC_T seconds later.  At exit, one line "calls <n>" to VC_LOG.  With VC_ONLY, only the program of
// that name gets this clock: the others (builds, Python) see the real one.
// Fault injection (with VC_ONLY): VC_DIE=<n>, the program given a file whose name ends in VC_DIE_ON ends at the n-th reading,
// VC_DIE_HOW: kill, exit, or parent (the process that started it is killed, too; only one whose id is in the file VC_PARENT).
#define _GNU_SOURCE
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <signal.h>
#include <sys/syscall.h>
#include <sys/time.h>
static long k, step, calls, base; static double T; static int init;
static int mine(void) {     // 1: this program gets the virtual clock
    if (!init) {
        const char *o = getenv("VC_ONLY");
        init = !o || !strncmp(o, program_invocation_short_name, 15) ? 1 : 2;
        if (init == 1) { k = atol(getenv("VC_K")); T = atof(getenv("VC_T")); step = atol(getenv("VC_STEP")); base = atol(getenv("VC_BASE")); }
    }
    return init == 1;
}
static void die(void) {
    static char c[8192]; const char *on = getenv("VC_DIE_ON"), *how = getenv("VC_DIE_HOW"), *pf = getenv("VC_PARENT");
    FILE *f = fopen("/proc/self/cmdline", "r"); size_t z = f ? fread(c, 1, sizeof c - 1, f) : 0, i; if (f) fclose(f);
    int hit = 0; for (i = 0; i < z; i += strlen(c + i) + 1) { size_t a = strlen(c + i), b = on ? strlen(on) : 0; if (b && a >= b && !strcmp(c + i + a - b, on)) hit = 1; }
    if (!hit || !how) return;
    if (getenv("VC_MARK") && (f = fopen(getenv("VC_MARK"), "w"))) fclose(f);
    if (!strcmp(how, "exit")) _exit(1);
    if (!strcmp(how, "parent")) { long p = 0; f = pf ? fopen(pf, "r") : NULL; if (f) { if (fscanf(f, "%ld", &p) != 1) p = 0; fclose(f); } if (p > 1 && p == getppid()) kill(p, SIGKILL); }
    kill(getpid(), SIGKILL);
}
static long now(void) {
    calls++;
    static long d = -1; if (d < 0) { const char *v = getenv("VC_DIE"); d = v && getenv("VC_ONLY") ? atol(v) : 0; }
    if (d && calls == d) die();
    return base + calls * step + (k && calls >= k ? (long)(T * 1e6) : 0);
}
int clock_gettime(clockid_t id, struct timespec *t) {
    if (!mine()) return (int) syscall(SYS_clock_gettime, id, t);
    long v = now(); t->tv_sec = v / 1000000; t->tv_nsec = v % 1000000 * 1000; return 0;
}
clock_t clock(void) {
    struct timespec t;
    if (mine()) return now();
    syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &t);
    return t.tv_sec * 1000000L + t.tv_nsec / 1000;
}
time_t time(time_t *p) {
    struct timespec t;
    if (mine()) t.tv_sec = now() / 1000000; else syscall(SYS_clock_gettime, CLOCK_REALTIME, &t);
    if (p) *p = t.tv_sec;
    return t.tv_sec;
}
int gettimeofday(struct timeval *t, void *z) {
    if (!mine()) return (int) syscall(SYS_gettimeofday, t, z);
    long v = now(); t->tv_sec = v / 1000000; t->tv_usec = v % 1000000; return 0;
}
__attribute__((destructor)) static void bye(void) {
    const char *p = getenv("VC_LOG");
    FILE *f = p && mine() ? fopen(p, "w") : NULL;
    if (f) { fprintf(f, "calls %ld\n", calls); fclose(f); }
}
