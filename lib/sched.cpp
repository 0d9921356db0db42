// The -fsanitize=thread entry points, the memory functions and the allocator used by the instrumented library.
#include "sched.hpp"
using namespace sx;
int g_isa = -1;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n)                                                          \
    void __tsan_read##n(void *p) { access(p, n, false); }              \
    void __tsan_write##n(void *p) { access(p, n, true); }              \
    void __tsan_unaligned_read##n(void *p) { access(p, n, false); }    \
    void __tsan_unaligned_write##n(void *p) { access(p, n, true); }    \
    void __tsan_volatile_read##n(void *p) { access(p, n, false); }     \
    void __tsan_volatile_write##n(void *p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access(p, n, false); }
void __tsan_write_range(void *p, size_t n) { access(p, n, true); }
void __tsan_vptr_update(void **p, void *) { access(p, 8, true); }
void __tsan_vptr_read(void **p) { access(p, 8, false); }
#define AT(bits, T)                                                                                                    \
    T __tsan_atomic##bits##_load(const volatile T *p, int mo) {                                                        \
        point((const void *)p, true);                                                                                  \
        touch_atomic((const void *)p, sizeof(T));                                                                      \
        a_load((const void *)p, mo);                                                                                   \
        return *p;                                                                                                     \
    }                                                                                                                  \
    void __tsan_atomic##bits##_store(volatile T *p, T v, int mo) {                                                     \
        point((const void *)p, false);                                                                                 \
        touch_atomic((const void *)p, sizeof(T));                                                                      \
        a_store((const void *)p, mo, false);                                                                           \
        *p = v;                                                                                                        \
    }                                                                                                                  \
    static T rmw##bits(volatile T *p, int mo, int what, T v) {                                                         \
        point((const void *)p, false);                                                                                 \
        touch_atomic((const void *)p, sizeof(T));                                                                      \
        a_load((const void *)p, mo);                                                                                   \
        a_store((const void *)p, mo, true);                                                                            \
        T old = *p;                                                                                                    \
        *p = what == 0 ? (T)(old + v) : what == 1 ? (T)(old - v) : what == 2 ? (T)(old & v) : what == 3 ? (T)(old | v) \
             : what == 4 ? (T)(old ^ v)                                                                                \
                         : v;                                                                                          \
        return old;                                                                                                    \
    }                                                                                                                  \
    T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int mo) { return rmw##bits(p, mo, 0, v); }                   \
    T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int mo) { return rmw##bits(p, mo, 1, v); }                   \
    T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int mo) { return rmw##bits(p, mo, 2, v); }                   \
    T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int mo) { return rmw##bits(p, mo, 3, v); }                    \
    T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int mo) { return rmw##bits(p, mo, 4, v); }                   \
    T __tsan_atomic##bits##_exchange(volatile T *p, T v, int mo) { return rmw##bits(p, mo, 5, v); }                    \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *c, T v, int mo, int fmo) {                     \
        point((const void *)p, false);                                                                                 \
        touch_atomic((const void *)p, sizeof(T));                                                                      \
        if (*p == *c) {                                                                                                \
            a_load((const void *)p, mo);                                                                               \
            a_store((const void *)p, mo, true);                                                                        \
            *p = v;                                                                                                    \
            return 1;                                                                                                  \
        }                                                                                                              \
        a_load((const void *)p, fmo);                                                                                  \
        *c = *p;                                                                                                       \
        return 0;                                                                                                      \
    }                                                                                                                  \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *c, T v, int mo, int fmo) {                       \
        return __tsan_atomic##bits##_compare_exchange_strong(p, c, v, mo, fmo);                                        \
    }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { fence(mo); }
void __tsan_atomic_signal_fence(int) {}
void *mcr_memcpy(void *d, const void *s, size_t n) {
    access(s, n, false);
    access(d, n, true);
    return memcpy(d, s, n);
}
void *mcr_memmove(void *d, const void *s, size_t n) {
    access(s, n, false);
    access(d, n, true);
    return memmove(d, s, n);
}
void *mcr_memset(void *d, int c, size_t n) {
    access(d, n, true);
    return memset(d, c, n);
}
int mcr_memcmp(const void *a, const void *b, size_t n) {
    access(a, n, false);
    access(b, n, false);
    return memcmp(a, b, n);
}
// raw allocator calls from library objects bypass the hooks
void *libraw_malloc(size_t n) { W().foreign++; return malloc(n); }
void *libraw_calloc(size_t a, size_t b) { W().foreign++; return calloc(a, b); }
void *libraw_realloc(void *p, size_t n) { W().foreign++; return realloc(p, n); }
void libraw_free(void *p) { W().foreign++; free(p); }
int libraw_posix_memalign(void **p, size_t a, size_t n) { W().foreign++; return posix_memalign(p, a, n); }
void *libraw_memalign(size_t a, size_t n) { W().foreign++; return aligned_alloc(a, (n + a - 1) / a * a); }
void *libraw_valloc(size_t n) { W().foreign++; return aligned_alloc(4096, (n + 4095) / 4096 * 4096); }
void *libraw_reallocarray(void *p, size_t a, size_t b) { W().foreign++; return realloc(p, a * b); }
char *libraw_strdup(const char *s) { W().foreign++; return strdup(s); }
char *libraw_strndup(const char *s, size_t n) { W().foreign++; return strndup(s, n); }
void *libraw_aligned_alloc(size_t a, size_t n) { W().foreign++; return aligned_alloc(a, n); }
int __real_croaring_hardware_support(void);
int __wrap_croaring_hardware_support(void) { return g_isa < 0 ? __real_croaring_hardware_support() : g_isa; }
}
static const uint64_t LIVE = 0x11bea110c8ed0001ULL;
static void *a_alloc(size_t n, size_t al, uint64_t kind) {
    World &w = W();
    size_t o = (w.top + sizeof(Block) + al - 1) / al * al;
    if (o + n + 64 > ARENA_SIZE) stop("arena exhausted");
    Block *b = (Block *)(ARENA + o) - 1;
    b->magic = LIVE;
    b->size = n;
    b->kind = kind;
    w.top = o + n + 32;
    w.live++;
    return ARENA + o;
}
static void *h_malloc(size_t n) { return a_alloc(n, 16, 1); }
static void *h_calloc(size_t a, size_t b) {
    void *p = a_alloc(a * b, 16, 1);
    memset(p, 0, a * b);
    return p;
}
static void h_release(void *p, uint64_t kind) {
    World &w = W();
    if (!p) return;
    Block *b = (Block *)p - 1;
    if (b->magic != LIVE) stop(mc::strf("thread %d, in %s, releases a block that is not live", w.cur, w.f[w.cur].op));
    if (b->kind != kind) stop("block released by the wrong hook");
    access(p, b->size, true);
    if (w.active && !w.aborted)
        for (size_t i = 0; i < b->size; i++) {
            Shadow &s = w.shadow[(char *)p + i - ARENA];
            s.freed = 1;
            s.gen = w.gen;
            s.wt = (uint8_t)w.cur;
        }
    b->magic = 0;
    w.live--;
}
static void h_free(void *p) { h_release(p, 1); }
static void h_afree(void *p) { h_release(p, 2); }
static void *h_aligned(size_t al, size_t n) { return a_alloc(n, al < 16 ? 16 : al, 2); }
static void *h_realloc(void *p, size_t n) {
    if (!p) return h_malloc(n);
    Block *b = (Block *)p - 1;
    void *q = h_malloc(n);
    size_t k = b->size < n ? b->size : n;
    access(p, k, false);
    access(q, k, true);
    memcpy(q, p, k);
    h_release(p, 1);
    return q;
}
namespace sx {
void install() {
    roaring_memory_t h = {h_malloc, h_realloc, h_calloc, h_free, h_aligned, h_afree};
    roaring_init_memory_hook(h);
}
}  // namespace sx
