// LD_PRELOAD library for C16: the clocks show the second XP_TIME; the fraction of the second is the real one.
#define _GNU_SOURCE
#include <stdlib.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
// With XP_ANSWER set, every environment variable the program asks for has that value.
#include <string.h>
extern char** environ;
static char* entry(const char* name) {
    size_t n = strlen(name);
    for (char** e = environ; e && *e; ++e) if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
    return NULL;
}
char* getenv(const char* name) {
    char* v = entry(name); char* a = entry("XP_ANSWER");
    if (v || !a) return v;
    for (const char* const* p = (const char* const[]){"LD_", "XP_", "GLIBC", "LC_", "LANG", "TZ", "MALLOC", "LOC", "GCONV", "NLS", NULL}; *p; ++p) if (!strncmp(name, *p, strlen(*p))) return NULL;
    return a;
}
char* secure_getenv(const char* name) { return getenv(name); }
static long at(void) { const char* t = getenv("XP_TIME"); return t ? atol(t) : 0; }
static long nanos(void) { struct timespec s; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &s); return s.tv_nsec; }
time_t time(time_t* t) { time_t v = at(); if (t) *t = v; return v; }
// processor time (XP_CPU) and time since boot (XP_UPTIME) are chosen independently of the start second
static long num(const char* name) { const char* t = entry(name); return t ? atol(t) : 0; }
clock_t clock(void) { return num("XP_CPU") * CLOCKS_PER_SEC + nanos() / 1000000; }
int clock_gettime(clockid_t c, struct timespec* s) {
    s->tv_sec = c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID ? num("XP_CPU") : c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI ? at() : 1000 + num("XP_UPTIME");
    s->tv_nsec = nanos(); return 0;
}
int timespec_get(struct timespec* s, int base) { s->tv_sec = at(); s->tv_nsec = nanos(); return base; }
int gettimeofday(struct timeval* restrict v, void* restrict z) { (void)z; v->tv_sec = at(); v->tv_usec = nanos() / 1000; return 0; }
