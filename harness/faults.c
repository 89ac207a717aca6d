// LD_PRELOAD library for C11.  XP_FAULT="kind:from:to[:kind:from:to...]" makes the from-th .. to-th call of a kind fail.
// kinds: open-ERR (open of the watched file), read-ERR / read-1 / read-h (reads from it: error, one byte, half), mem (allocations).
// XP_WATCH: path of the watched file.  XP_TIME: value of time().  XP_COUNT: file receiving the number of calls of each kind.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

extern void* __libc_malloc(size_t); extern void* __libc_calloc(size_t, size_t); extern void* __libc_realloc(void*, size_t); extern void* __libc_memalign(size_t, size_t);
enum { OPEN, READ, MEM, KINDS };
static int counts[KINDS], watched[1024], ready;
static struct { int kind, from, to, how; } faults[8];
static int nfaults;
static const char* watch; static long fixed_time;

static int number(const char** p) { int v = 0; while (**p >= '0' && **p <= '9') v = v * 10 + *(*p)++ - '0'; if (**p == ':') ++*p; return v; }
static void init(void)
{
    if (ready) return; ready = 1;
    const char* p = getenv("XP_FAULT"); watch = getenv("XP_WATCH");
    const char* t = getenv("XP_TIME"); fixed_time = t ? atol(t) : 0;
    while (p && *p && nfaults < 8) {
        char k = *p; while (*p && *p != ':') ++p; if (*p) ++p;
        int how = number(&p), f = number(&p), to = number(&p);
        faults[nfaults].kind = k == 'o' ? OPEN : k == 'r' ? READ : MEM; faults[nfaults].how = how; faults[nfaults].from = f; faults[nfaults++].to = to;
    }
}
static int hit(int kind, int* how)
{
    init();
    int n = ++counts[kind];
    for (int i = 0; i < nfaults; ++i) if (faults[i].kind == kind && n >= faults[i].from && n <= faults[i].to) { *how = faults[i].how; return 1; }
    return 0;
}
__attribute__((destructor)) static void report(void)
{
    const char* c = getenv("XP_COUNT"); if (!c) return;
    char b[100]; int n = snprintf(b, sizeof b, "%d %d %d\n", counts[OPEN], counts[READ], counts[MEM]);
    static int (*o)(const char*, int, ...); o = (int (*)(const char*, int, ...))dlsym(RTLD_NEXT, "open");
    int fd = o(c, O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd >= 0) { if (write(fd, b, n) != n) abort(); close(fd); }
}
#define NEXT(f) static __typeof__(f)* next; if (!next) next = (__typeof__(f)*)dlsym(RTLD_NEXT, #f)
static int is_watched(const char* p) { init(); return watch && p && strcmp(p, watch) == 0; }
static int opened(int fd) { if (fd >= 0 && fd < 1024) watched[fd] = 1; return fd; }

#define OPENER(name) \
int name(const char* p, int fl, ...) { NEXT(name); va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); int how; \
    if (!is_watched(p)) return next(p, fl, m); if (hit(OPEN, &how)) { errno = how; return -1; } return opened(next(p, fl, m)); }
OPENER(open) OPENER(open64)
#define ATOPENER(name) \
int name(int d, const char* p, int fl, ...) { NEXT(name); va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); int how; \
    if (!is_watched(p)) return next(d, p, fl, m); if (hit(OPEN, &how)) { errno = how; return -1; } return opened(next(d, p, fl, m)); }
ATOPENER(openat) ATOPENER(openat64)
#define FOPENER(name) \
FILE* name(const char* p, const char* m) { NEXT(name); int how; \
    if (!is_watched(p)) return next(p, m); if (hit(OPEN, &how)) { errno = how; return NULL; } FILE* f = next(p, m); if (f) opened(fileno(f)); return f; }
FOPENER(fopen) FOPENER(fopen64)
int close(int fd) { NEXT(close); if (fd >= 0 && fd < 1024) watched[fd] = 0; return next(fd); }
ssize_t read(int fd, void* b, size_t n)
{
    NEXT(read); int how;
    if (fd >= 0 && fd < 1024 && watched[fd] && hit(READ, &how)) {
        if (how == 1001) { if (n > 1) n = 1; }
        else if (how == 1002) { if (n > 1) n = (n + 1) / 2; }
        else { errno = how; return -1; }
    }
    return next(fd, b, n);
}
ssize_t readv(int fd, const struct iovec* v, int c);
#define ALLOC(call) int how; if (hit(MEM, &how)) { errno = ENOMEM; return NULL; } return call
void* malloc(size_t n) { ALLOC(__libc_malloc(n)); }
void* calloc(size_t m, size_t n) { ALLOC(__libc_calloc(m, n)); }
void* realloc(void* p, size_t n) { ALLOC(__libc_realloc(p, n)); }
void* memalign(size_t a, size_t n) { ALLOC(__libc_memalign(a, n)); }
void* aligned_alloc(size_t a, size_t n) { ALLOC(__libc_memalign(a, n)); }
int posix_memalign(void** p, size_t a, size_t n) { int how; if (hit(MEM, &how)) return ENOMEM; *p = __libc_memalign(a, n); return *p ? 0 : ENOMEM; }

time_t time(time_t* t) { NEXT(time); init(); time_t v = fixed_time ? fixed_time : next(NULL); if (t) *t = v; return v; }
int clock_gettime(clockid_t c, struct timespec* ts) { NEXT(clock_gettime); init(); if (!fixed_time) return next(c, ts); ts->tv_sec = fixed_time; ts->tv_nsec = 0; return 0; }
int gettimeofday(struct timeval* restrict tv, void* restrict z) { NEXT(gettimeofday); init(); if (!fixed_time) return next(tv, z); tv->tv_sec = fixed_time; tv->tv_usec = 0; return 0; }
