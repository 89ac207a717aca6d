// C13 (library): every heap block ends at an inaccessible page and is made inaccessible when
// released, so that overruns and late accesses fault even inside the uninstrumented FFT library.
// Slack before the page (alignment) is filled with a canary that is verified on release.
#include "mem.hpp"
#include <cerrno>
#include <malloc.h>

static const size_t PAGE = 4096, REGION = size_t(1) << 36;
static const size_t MAGIC = 0x5ca1ab1e;
static char *base, *top, *limit; static bool armed; static long live_blocks; static const char* broken;
struct Head { size_t magic, size, span; char* user; };   // at the start of the page(s) of a block
extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_realloc(void*, size_t); void* __libc_calloc(size_t, size_t); void* __libc_memalign(size_t, size_t);

static void* guarded(size_t align, size_t n) {
    if (align < 16) align = 16;
    size_t body = (n + align - 1) / align * align; if (body == 0) body = align;
    size_t span = (sizeof(Head) + body + PAGE - 1) / PAGE * PAGE;
    if (top + span + PAGE > limit) return nullptr;
    char* p = top; top += span + PAGE;
    if (mprotect(p, span, PROT_READ | PROT_WRITE)) return nullptr;
    Head* h = (Head*)p; char* u = p + span - body;
    h->magic = MAGIC; h->size = n; h->span = span; h->user = u;
    memset(p + sizeof(Head), 0xa5, span - sizeof(Head));
    ++live_blocks;
    return u;
}
static Head* head(void* u) { // the header is at most span below: walk pages down
    char* p = (char*)((uintptr_t)u & ~(PAGE - 1));
    while (p >= base) { Head* h = (Head*)p; if (h->magic == MAGIC && h->user == u) return h; p -= PAGE; }
    return nullptr;
}
static bool ours(void* p) { return p >= base && p < limit && base; }
static void release(void* u) {
    Head* h = head(u);
    if (!h) { broken = "free() of an address that was not allocated"; abort(); }
    for (unsigned char* c = (unsigned char*)(h + 1); c < (unsigned char*)h->user; ++c) if (*c != 0xa5) { broken = "bytes before a heap block were overwritten"; break; }
    for (unsigned char* c = (unsigned char*)h->user + h->size; c < (unsigned char*)h + h->span; ++c) if (*c != 0xa5) { broken = "bytes behind a heap block were overwritten"; break; }
    --live_blocks;
    size_t span = h->span;
    h->magic = 0;
    madvise(h, span, MADV_DONTNEED);
    mprotect(h, span, PROT_NONE);
}
void* malloc(size_t n) { return armed ? guarded(16, n) : __libc_malloc(n); }
void free(void* p) { if (ours(p)) release(p); else __libc_free(p); }
void* calloc(size_t a, size_t b) { if (!armed) return __libc_calloc(a, b); void* p = guarded(16, a * b); if (p) memset(p, 0, a * b); return p; }
void* realloc(void* p, size_t n) {
    if (!ours(p)) { if (!armed || p) return __libc_realloc(p, n); return guarded(16, n); }
    void* q = guarded(16, n); Head* h = head(p); if (q && h) { memcpy(q, p, h->size < n ? h->size : n); release(p); } return q;
}
void* memalign(size_t a, size_t n) { return armed ? guarded(a, n) : __libc_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) { void* p = memalign(a, n); if (!p) return ENOMEM; *r = p; return 0; }
}
int main(int argc, char** argv) {
    return xp_main(argc, argv, [](X& x) {
        base = (char*)mmap(0, REGION, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (base == MAP_FAILED) { perror("mmap"); _exit(96); }
        top = base; limit = base + REGION;
        mem_space(x, true, [&](Fn f, const V& u, const V& w) {
            V cu = u, cw = w;
            if (top > base + REGION / 2) {   // recycle the address space (nothing of ours is live except planner caches)
                if (live_blocks == 0) { mmap(base, REGION, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0); top = base; }
            }
            broken = nullptr;
            {
                armed = true;
                V* a = new V(u), *b = new V(w);        // the arguments themselves are guarded too
                try { raw(f, *a, *b); } catch (std::exception&) {}
                delete a; delete b;
                armed = false;
            }
            if (broken) x.fail("%s", broken);
        });
    });
}
