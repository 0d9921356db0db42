#include "hooks.hpp"
int g_isa = -1;
extern "C" int __wrap_croaring_hardware_support(void) {
    int r = __real_croaring_hardware_support();
    return g_isa < 0 ? r : (r & g_isa);
}
// red zone over our own headers, when the sanitizer's runtime is linked in
extern "C" void __asan_poison_memory_region(void const volatile *, size_t) __attribute__((weak));
extern "C" void __asan_unpoison_memory_region(void const volatile *, size_t) __attribute__((weak));
namespace hk {
State S;
[[noreturn]] static void die(const char *m) {
    fprintf(stderr, "ERROR: memory hook misuse: %s\n", m);
    fflush(stderr);
    // provoke a report with a stack trace
    __builtin_trap();
}
static bool should_fail() {
    if (!S.armed) return false;
    uint64_t n = S.calls++;
    if (S.fail_at >= 0 && ((int64_t)n == S.fail_at || (S.fail_forever && (int64_t)n >= S.fail_at))) {
        S.failed++;
        return true;
    }
    return false;
}
static void *finish(char *blk, size_t off, size_t n, int kind) {
    Hdr *h = (Hdr *)(blk + off) - 1;
    h->magic = M_LIVE;
    h->size = n;
    h->kind = kind;
    h->off = off;
    S.live++;
    S.live_bytes += n;
    if (__asan_poison_memory_region) __asan_poison_memory_region(blk, off);
    return blk + off;
}
static bool too_big(size_t n) {
    if (n > S.max_request) S.max_request = n;
    return n > S.limit;
}
static void *m_malloc(size_t n) {
    if (should_fail() || too_big(n)) return nullptr;
    char *b = (char *)malloc(n + sizeof(Hdr));
    if (!b) return nullptr;
    return finish(b, sizeof(Hdr), n, 1);
}
static void *m_calloc(size_t a, size_t c) {
    size_t n;
    if (__builtin_mul_overflow(a, c, &n)) return nullptr;
    void *p = m_malloc(n);
    if (p) memset(p, 0, n);
    return p;
}
static void release(void *p, int kind) {
    if (!p) return;
    Hdr *h = (Hdr *)p - 1;
    if (h->magic == M_DEAD) die("block released twice");
    if (h->magic != M_LIVE) die("releasing a pointer the hooks never returned");
    if ((int)h->kind != kind) die(kind == 1 ? "aligned block released with the plain hook" : "plain block released with the aligned hook");
    h->magic = M_DEAD;
    S.live--;
    S.live_bytes -= h->size;
    char *blk = (char *)p - h->off;
    if (__asan_unpoison_memory_region) __asan_unpoison_memory_region(blk, h->off);
    free(blk);
}
static void m_free(void *p) { release(p, 1); }
static void *m_realloc(void *p, size_t n) {
    if (!p) return m_malloc(n);
    Hdr *h = (Hdr *)p - 1;
    if (h->magic != M_LIVE) die("resizing a pointer the hooks never returned or already released");
    if (h->kind != 1) die("aligned block resized with the plain hook");
    if (n == 0) {
        // like glibc: frees and returns NULL
        m_free(p);
        return nullptr;
    }
    if (should_fail() || too_big(n)) return nullptr;
    char *b = (char *)malloc(n + sizeof(Hdr));
    if (!b) return nullptr;
    void *q = finish(b, sizeof(Hdr), n, 1);
    memcpy(q, p, h->size < n ? h->size : n);
    release(p, 1);
    return q;
}
static void *m_aligned(size_t al, size_t n) {
    if (should_fail() || too_big(n)) return nullptr;
    size_t off = al < sizeof(Hdr) ? sizeof(Hdr) : al;
    void *b = nullptr;
    if (posix_memalign(&b, al, n + off)) return nullptr;
    return finish((char *)b, off, n, 2);
}
static void m_aligned_free(void *p) { release(p, 2); }
void install() {
    roaring_memory_t m;
    m.malloc = m_malloc;
    m.realloc = m_realloc;
    m.calloc = m_calloc;
    m.free = m_free;
    m.aligned_malloc = m_aligned;
    m.aligned_free = m_aligned_free;
    roaring_init_memory_hook(m);
}
void arm(int64_t at, bool forever) {
    S.armed = true;
    S.calls = 0;
    S.failed = 0;
    S.fail_at = at;
    S.fail_forever = forever;
}
void disarm() {
    S.armed = false;
    S.fail_at = -1;
    S.fail_forever = false;
}
}  // namespace hk
// The library objects are linked with their libc allocation symbols renamed to these; only the default
// hook table may refer to them, so once hooks are installed any call is a bypass.
extern "C" {
void *libraw_malloc(size_t n) { hk::S.foreign++; return malloc(n); }
void *libraw_calloc(size_t a, size_t b) { hk::S.foreign++; return calloc(a, b); }
void *libraw_realloc(void *p, size_t n) { hk::S.foreign++; return realloc(p, n); }
void libraw_free(void *p) { hk::S.foreign++; free(p); }
int libraw_posix_memalign(void **p, size_t a, size_t n) { hk::S.foreign++; return posix_memalign(p, a, n); }
void *libraw_memalign(size_t a, size_t n) { hk::S.foreign++; return aligned_alloc(a, (n + a - 1) / a * a); }
void *libraw_valloc(size_t n) { hk::S.foreign++; return aligned_alloc(4096, (n + 4095) / 4096 * 4096); }
void *libraw_reallocarray(void *p, size_t a, size_t b) { hk::S.foreign++; return realloc(p, a * b); }
char *libraw_strdup(const char *s) { hk::S.foreign++; return strdup(s); }
char *libraw_strndup(const char *s, size_t n) { hk::S.foreign++; return strndup(s, n); }
void *libraw_aligned_alloc(size_t a, size_t n) { hk::S.foreign++; return aligned_alloc(a, n); }
}
