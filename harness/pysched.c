// Scheduler for C20: exactly one controlled thread runs at a time; the baton moves only at points.
// Points: sequence callbacks and bytecodes (reported from Python), and - when a controlled thread runs
// without the interpreter lock - every basic block of the extension, every allocation and FFTW call.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <semaphore.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>

extern int PyGILState_Check(void) __attribute__((weak));
enum { T = 12, L = 1 << 20 };
static __thread int me = -1, inside;
static sem_t baton[T], all_done;
static int threads, alive[T], left, planned, plan[L], last_first;
static volatile int points, released;
static unsigned char options[L], chosen[L], kinds[L], runner[L];   // chosen: index into the enabled threads, 0 = go on
static int gil_free, overlap, in_planner[T];

static int enabled(int cur, int* who)
{
    int n = 0;
    if (cur >= 0 && alive[cur]) who[n++] = cur;
    for (int t = 0; t < threads; ++t) if (t != cur && alive[t]) who[n++] = t;
    return n;
}

static uintptr_t pcs[L];

static void point(int kind, int cur, uintptr_t pc)
{
    if (released) return;
    int who[T], n = enabled(cur, who), c = 0;
    if (n == 0) return;
    if (points < planned) c = plan[points];
    if (c >= n) c = 0;
    if (last_first && kind == 0 && cur >= 0) c = n - 1;     // when a thread ends: the last one goes on
    if (points < L) { options[points] = n; chosen[points] = c; kinds[points] = kind; pcs[points] = pc * T + (cur < 0 ? 0 : cur); runner[points] = who[c]; }
    ++points;
    if (who[c] == cur) return;
    int stays = cur >= 0 && alive[cur];         // read before the baton goes
    sem_post(&baton[who[c]]);
    if (stays) while (sem_wait(&baton[cur]) && errno == EINTR) {}
}

#define PC (uintptr_t)__builtin_return_address(0)
static void lock_free_point(int kind, uintptr_t pc)
{
    if (me < 0 || inside || released || !PyGILState_Check || PyGILState_Check()) return;
    inside = 1; ++gil_free; point(kind, me, pc); inside = 0;
}

void __sanitizer_cov_trace_pc(void) { if (me >= 0) lock_free_point(3, PC); }

// ---- called from Python through ctypes (which drops the interpreter lock) ------------------------------
void xp_plan(const int* p, int n, int nthreads)
{
    memcpy(plan, p, n * sizeof *p); planned = n; threads = nthreads; points = released = gil_free = overlap = 0; left = nthreads;
    for (int t = 0; t < T; ++t) { alive[t] = t < nthreads; in_planner[t] = 0; sem_init(&baton[t], 0, 0); }
    sem_init(&all_done, 0, 0);
}
void xp_policy(int p) { last_first = p; }
void xp_begin(int t) { while (sem_wait(&baton[t]) && errno == EINTR) {} me = t; }
void xp_point(int kind) { if (me >= 0 && !inside) { inside = 1; point(kind, me, kind); inside = 0; } }
void xp_end(void)
{
    int t = me; me = -1; alive[t] = 0;
    if (__atomic_sub_fetch(&left, 1, __ATOMIC_SEQ_CST) == 0) { sem_post(&all_done); return; }
    point(0, t, 0);
}
int xp_run(int grace_ms)    // 0: controlled run, 1: a thread was blocked, the others were released
{
    int last = -1, r = 0;
    clock_t cpu = clock();
    point(0, -1, 0);
    for (;;) {
        struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
        long ns = ts.tv_nsec + grace_ms * 1000000L; ts.tv_sec += ns / 1000000000L; ts.tv_nsec = ns % 1000000000L;
        if (sem_timedwait(&all_done, &ts) == 0) return r;
        clock_t now = clock();
        if (points == last && !released && now - cpu < grace_ms * (CLOCKS_PER_SEC / 1000) / 50) {
            released = 1;   // neither points nor computation: blocked
            r = 1; for (int t = 0; t < threads; ++t) sem_post(&baton[t]); }
        last = points; cpu = now;
    }
}
int xp_points(void) { return points < L ? points : L; }
void xp_trace(unsigned char* o, unsigned char* c, unsigned char* k, unsigned char* w, uintptr_t* p) { int n = xp_points(); memcpy(p, pcs, n * sizeof *p); memcpy(o, options, n); memcpy(c, chosen, n); memcpy(k, kinds, n); memcpy(w, runner, n); }
int xp_gil_free(void) { return gil_free; }
int xp_overlap(void) { return overlap; }

// ---- interposed functions ----------------------------------------------------------------------------
static void* find(const char* f)
{
    void* p = dlsym(RTLD_NEXT, f);
    const char* libs[] = {"libfftw3.so.3", "libm.so.6"};      // loaded by the extension, outside the global scope
    for (int i = 0; !p && i < 2; ++i) { void* h = dlopen(libs[i], RTLD_LAZY); if (h) p = dlsym(h, f); }
    if (!p) abort();
    return p;
}
#define NEXT(f) static __typeof__(f)* next; if (!next) next = (__typeof__(f)*)find(#f)
extern void* __libc_malloc(size_t); extern void __libc_free(void*); extern void* __libc_memalign(size_t, size_t);
void* malloc(size_t n) { if (me >= 0) lock_free_point(4, PC); return __libc_malloc(n); }
void free(void* p) { if (me >= 0) lock_free_point(4, PC); __libc_free(p); }
void* memalign(size_t a, size_t n) { if (me >= 0) lock_free_point(4, PC); return __libc_memalign(a, n); }
double frexp(double x, int* e) { NEXT(frexp); if (me >= 0) lock_free_point(5, PC); double r = next(x, e); if (me >= 0) lock_free_point(5, PC + 1); return r; }
long double frexpl(long double x, int* e) { NEXT(frexpl); if (me >= 0) lock_free_point(5, PC); long double r = next(x, e); if (me >= 0) lock_free_point(5, PC + 1); return r; }

// FFTW: only the execute functions may run concurrently
static void enter(uintptr_t pc) { if (me < 0) return; lock_free_point(6, pc); for (int t = 0; t < T; ++t) if (t != me && in_planner[t]) overlap = 1; in_planner[me] = 1; }
static void leave(uintptr_t pc) { if (me < 0) return; in_planner[me] = 0; lock_free_point(6, pc + 1); }
typedef void* plan_t;
plan_t fftw_plan_dft_r2c_1d(int n, double* i, void* o, unsigned f) { NEXT(fftw_plan_dft_r2c_1d); enter(PC); plan_t p = next(n, i, o, f); leave(PC); return p; }
plan_t fftw_plan_dft_c2r_1d(int n, void* i, double* o, unsigned f) { NEXT(fftw_plan_dft_c2r_1d); enter(PC); plan_t p = next(n, i, o, f); leave(PC); return p; }
plan_t fftw_plan_dft_1d(int n, void* i, void* o, int s, unsigned f) { NEXT(fftw_plan_dft_1d); enter(PC); plan_t p = next(n, i, o, s, f); leave(PC); return p; }
plan_t fftw_plan_r2r_1d(int n, double* i, double* o, int k, unsigned f) { NEXT(fftw_plan_r2r_1d); enter(PC); plan_t p = next(n, i, o, k, f); leave(PC); return p; }
void fftw_destroy_plan(plan_t p) { NEXT(fftw_destroy_plan); enter(PC); next(p); leave(PC); }
void fftw_execute(const plan_t p) { NEXT(fftw_execute); if (me >= 0) lock_free_point(6, PC); next(p); if (me >= 0) lock_free_point(6, PC + 1); }
