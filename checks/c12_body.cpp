// Compiled once per build configuration into a shared object: replays numbered executions of the public
// interface and returns a transcript (hash, optionally text) of everything observable.
#include <roaring/bitset/bitset.h>
#include "../lib/hist32.hpp"
#include "../lib/hist64.hpp"
#include "../lib/queries32.hpp"
#include "../lib/near.hpp"
#include "../lib/zoo.hpp"
#include "../lib/zoo64.hpp"
typedef unsigned long long ull;
struct T {
    mc::Hash h;
    std::string *txt = nullptr;
    uint64_t n = 0, visited = 0;
    void u(const char *name, uint64_t v) {
        h.u64(v);
        n++;
        if (txt && txt->size() < (1u << 22)) *txt += mc::strf("%llu %s = %llu\n", (ull)n, name, (ull)v);
    }
    void bytes(const char *name, const void *p, size_t len) {
        mc::Hash k;
        k.bytes(p, len);
        h.u64(k.h);
        h.u64(len);
        n++;
        if (txt && txt->size() < (1u << 22)) {
            *txt += mc::strf("%llu %s: %zu bytes hash %llx", (ull)n, name, len, (ull)k.h);
            *txt += "\n";
        }
    }
    void d(const char *name, double x) {
        uint64_t v;
        memcpy(&v, &x, 8);
        u(name, v);
    }
};
static void ser(T &t, const char *name, const R *r) {
    if (!r) {
        t.u(name, ~0ull);
        return;
    }
    std::string b(roaring_bitmap_portable_size_in_bytes(r), '\0');
    size_t w = roaring_bitmap_portable_serialize(r, &b[0]);
    t.u("portable_serialize", w);
    t.bytes(name, b.data(), b.size());
}
static void ser64(T &t, const char *name, const R64 *r) {
    if (!r) {
        t.u(name, ~0ull);
        return;
    }
    std::string b(roaring64_bitmap_portable_size_in_bytes(r), '\0');
    size_t w = roaring64_bitmap_portable_serialize(r, &b[0]);
    t.u("portable_serialize64", w);
    t.bytes(name, b.data(), b.size());
}
template <class F>
static void pair_ops(T &t, const F &mka, const F &mkb) {
    RP a(mka()), b(mkb());
    auto res = [&](const char *n, R *r) {
        RP h(r);
        t.u("cardinality", roaring_bitmap_get_cardinality(r));
        ser(t, n, r);
    };
    res("and", roaring_bitmap_and(a.get(), b.get()));
    res("or", roaring_bitmap_or(a.get(), b.get()));
    res("xor", roaring_bitmap_xor(a.get(), b.get()));
    res("andnot", roaring_bitmap_andnot(a.get(), b.get()));
    res("lazy_or", [&] { R *r = roaring_bitmap_lazy_or(a.get(), b.get(), true); roaring_bitmap_repair_after_lazy(r); return r; }());
    res("lazy_xor", [&] { R *r = roaring_bitmap_lazy_xor(a.get(), b.get()); roaring_bitmap_repair_after_lazy(r); return r; }());
    typedef void (*IF)(R *, const R *);
    static const IF fs[] = {roaring_bitmap_and_inplace, roaring_bitmap_or_inplace, roaring_bitmap_xor_inplace, roaring_bitmap_andnot_inplace};
    static const char *fn[] = {"and_inplace", "or_inplace", "xor_inplace", "andnot_inplace"};
    for (int i = 0; i < 4; i++) {
        RP c(mka());
        fs[i](c.get(), b.get());
        ser(t, fn[i], c.get());
    }
    t.u("and_cardinality", roaring_bitmap_and_cardinality(a.get(), b.get()));
    t.u("or_cardinality", roaring_bitmap_or_cardinality(a.get(), b.get()));
    t.u("xor_cardinality", roaring_bitmap_xor_cardinality(a.get(), b.get()));
    t.u("andnot_cardinality", roaring_bitmap_andnot_cardinality(a.get(), b.get()));
    t.u("intersect", roaring_bitmap_intersect(a.get(), b.get()));
    t.u("equals", roaring_bitmap_equals(a.get(), b.get()));
    t.u("is_subset", roaring_bitmap_is_subset(a.get(), b.get()));
    t.u("is_strict_subset", roaring_bitmap_is_strict_subset(a.get(), b.get()));
    if (roaring_bitmap_or_cardinality(a.get(), b.get())) t.d("jaccard", roaring_bitmap_jaccard_index(a.get(), b.get()));
}
static bool cb32(uint32_t v, void *p) {
    T *t = (T *)p;
    t->h.u64(v);
    return ++t->visited % 100000 != 0;
}
static void queries(T &t, const R *r, size_t npts) {
    Set s = to_set_ser(r);
    t.u("cardinality", roaring_bitmap_get_cardinality(r));
    t.u("minimum", roaring_bitmap_minimum(r));
    t.u("maximum", roaring_bitmap_maximum(r));
    uint64_t c = s.card();
    auto pts = query_points(s, npts, true);
    std::vector<uint32_t> p32;
    for (auto x : pts)
        if (x < UEND) p32.push_back((uint32_t)x);
    roaring_bulk_context_t ctx;
    memset(&ctx, 0, sizeof ctx);
    for (auto x : p32) {
        t.u("contains", roaring_bitmap_contains(r, x));
        t.u("contains_bulk", roaring_bitmap_contains_bulk(r, &ctx, x));
        t.u("rank", roaring_bitmap_rank(r, x));
        t.u("get_index", (uint64_t)roaring_bitmap_get_index(r, x));
        uint32_t el = 7;
        bool f = roaring_bitmap_select(r, (uint32_t)s.rank(x), &el);
        t.u("select found", f);
        if (f) t.u("select", el);
    }
    std::vector<uint64_t> ans(p32.size() + 1, 0);
    roaring_bitmap_rank_many(r, p32.data(), p32.data() + p32.size(), ans.data());
    t.bytes("rank_many", ans.data(), ans.size() * 8);
    for (size_t i = 0; i < pts.size(); i += pts.size() > 12 ? 3 : 1)
        for (size_t j = i; j < pts.size(); j += pts.size() > 12 ? 2 : 1) {
            t.u("range_cardinality", roaring_bitmap_range_cardinality(r, pts[i], pts[j]));
            t.u("contains_range", roaring_bitmap_contains_range(r, pts[i], pts[j]));
            t.u("intersect_with_range", roaring_bitmap_intersect_with_range(r, pts[i], pts[j]));
        }
    roaring_statistics_t st;
    memset(&st, 0, sizeof st);
    roaring_bitmap_statistics(r, &st);
    t.u("statistics arrays", st.n_array_containers);
    t.u("statistics runs", st.n_run_containers);
    t.u("statistics bitsets", st.n_bitset_containers);
    t.u("statistics cardinality", st.cardinality);
    t.u("statistics bytes", (uint64_t)st.n_bytes_array_containers + st.n_bytes_run_containers + st.n_bytes_bitset_containers);
    if (c <= (1u << 20)) {
        std::vector<uint32_t> v(c + 1, 0xA5A5A5A5u);
        roaring_bitmap_to_uint32_array(r, v.data());
        t.bytes("to_uint32_array", v.data(), v.size() * 4);
        for (uint64_t off : {(uint64_t)0, (uint64_t)1, (uint64_t)31, c / 3, c / 2, c - (c > 5 ? 5 : c)})
            for (uint64_t lim : {(uint64_t)1, (uint64_t)17, (uint64_t)5000}) {
                if (off + lim > c) continue;
                std::vector<uint32_t> w(lim, 1);
                t.u("range_uint32_array", roaring_bitmap_range_uint32_array(r, off, lim, w.data()));
                t.bytes("range_uint32_array", w.data(), lim * 4);
            }
        t.u("iterate", roaring_iterate(r, cb32, &t));
        if (!s.empty() && s.max() < (1u << 23)) {
            bitset_t *b = bitset_create();
            t.u("to_bitset", roaring_bitmap_to_bitset(r, b));
            t.bytes("to_bitset", b->array, b->arraysize * 8);
            t.u("bitset_count", bitset_count(b));
            t.u("bitset_minimum", bitset_minimum(b));
            t.u("bitset_maximum", bitset_maximum(b));
            bitset_free(b);
        }
    }
    {  // iterators
        roaring_uint32_iterator_t *it = roaring_iterator_create(r);
        uint32_t buf[100];
        for (uint32_t n : {1u, 7u, 64u, 100u, 3u}) {
            uint32_t g = roaring_uint32_iterator_read(it, buf, n);
            t.u("iterator read", g);
            t.bytes("iterator read", buf, g * 4);
        }
        for (auto x : p32) {
            t.u("move_equalorlarger", roaring_uint32_iterator_move_equalorlarger(it, x));
            if (it->has_value) t.u("at", it->current_value);
            for (int k = 0; k < 40 && it->has_value; k++) {
                t.h.u64(it->current_value);
                roaring_uint32_iterator_advance(it);
            }
        }
        roaring_uint32_iterator_free(it);
        roaring_uint32_iterator_t lst;
        roaring_iterator_init_last(r, &lst);
        for (int i = 0; i < 200 && lst.has_value; i++) {
            t.h.u64(lst.current_value);
            roaring_uint32_iterator_previous(&lst);
        }
    }
}
static void formats(T &t, const R *r) {
    size_t n = roaring_bitmap_portable_size_in_bytes(r);
    std::string b(n, '\0');
    roaring_bitmap_portable_serialize(r, &b[0]);
    t.bytes("portable", b.data(), n);
    std::string c(roaring_bitmap_size_in_bytes(r), '\0');
    t.u("serialize", roaring_bitmap_serialize(r, &c[0]));
    t.bytes("native", c.data(), c.size());
    RP d(roaring_bitmap_deserialize_safe(c.data(), c.size()));
    ser(t, "native back", d.get());
    for (size_t cut : {n, n - 1, n / 2, (size_t)9, (size_t)3, (size_t)0}) {
        if (cut > n) continue;
        std::unique_ptr<char[]> p(new char[cut + 1]);
        memcpy(p.get(), b.data(), cut);
        t.u("portable_deserialize_size", roaring_bitmap_portable_deserialize_size(p.get(), cut));
        RP x(roaring_bitmap_portable_deserialize_safe(p.get(), cut));
        const char *why = nullptr;
        bool valid = x && roaring_bitmap_internal_validate(x.get(), &why);
        t.u("read back", x ? 1 + valid : 0);
        if (valid) ser(t, "read back", x.get());
    }
    size_t f = roaring_bitmap_frozen_size_in_bytes(r);
    t.u("frozen size", f);
    char *buf = (char *)aligned_alloc(32, (f + 63) & ~31ull);
    memset(buf, 0, f);
    roaring_bitmap_frozen_serialize(r, buf);
    t.bytes("frozen", buf, f);
    const R *v = roaring_bitmap_frozen_view(buf, f);
    ser(t, "frozen view", v);
    if (v) queries(t, v, 3);
    if (v) roaring_bitmap_free(v);
    free(buf);
}
static const std::vector<Content> &cat(int level) {
    static std::vector<Content> c[3];
    if (c[level].empty()) c[level] = contents(level);
    return c[level];
}
static const std::vector<Item> &its(int level) {
    static std::vector<Item> v[3];
    if (v[level].empty()) v[level] = items(cat(level));
    return v[level];
}
static const std::vector<Zoo> &zo(int level) {
    static std::vector<Zoo> v[3];
    if (v[level].empty()) v[level] = zoo(level);
    return v[level];
}
static const std::vector<Zoo64> &zo64(int level) {
    static std::vector<Zoo64> v[3];
    if (v[level].empty()) v[level] = zoo64(level);
    return v[level];
}
static const std::vector<Theme> &th() {
    static std::vector<Theme> v;
    if (v.empty()) v = themes32();
    return v;
}
static const std::vector<h64::Theme> &th64() {
    static std::vector<h64::Theme> v;
    if (v.empty()) v = h64::themes();
    return v;
}
template <class V>
static uint64_t nhist(const V &th, int depth) {
    uint64_t n = 0;
    for (auto &t : th) {
        uint64_t k = 1;
        for (int i = 0; i < depth; i++) k *= t.ops.size();
        n += k;
    }
    return n;
}
static std::vector<uint32_t> arr(int n, int step, int from) {
    std::vector<uint32_t> v;
    for (int i = 0; i < n; i++) v.push_back(from + i * step);
    return v;
}
enum { PAIRS, ARRAYS, QUERIES, FORMATS, HIST, HIST64, PAIRS64, ZOO64, MANY, RANGES, COW, BITSETS, NEAR, NFAM };
static const char *fam_names[] = {"pairs", "arrays", "queries", "formats", "histories", "histories64", "pairs64", "bitmaps64", "many", "ranges", "sharing", "bitsets", "near"};
static int g_thorough;
static int lv() { return g_thorough ? 2 : 1; }
static const int MAXA = 36;
static uint64_t count_of(int f) {
    switch (f) {
        case PAIRS: return its(lv()).size() * its(lv()).size();
        case ARRAYS: return (uint64_t)MAXA * MAXA * 6;
        case QUERIES: return zo(lv()).size();
        case FORMATS: return zo(lv()).size();
        case HIST: return nhist(th(), g_thorough ? 4 : 3);
        case HIST64: return nhist(th64(), 3);
        case PAIRS64: return its(0).size() * its(0).size() * (g_thorough ? 4 : 1);
        case ZOO64: return zo64(lv()).size();
        case MANY: return its(0).size() * its(0).size() * 3;
        case RANGES: return its(lv()).size() * 24;
        case COW: return its(0).size() * 40;
        case BITSETS: return 14 * 14 * 5;
        case NEAR: return near_::count();
    }
    return 0;
}
template <class V, class MK, class SER>
static void history(T &t, const V &th, int depth, uint64_t i, const MK &mk, const SER &ser) {
    for (auto &x : th) {
        uint64_t k = 1;
        for (int j = 0; j < depth; j++) k *= x.ops.size();
        if (i >= k) {
            i -= k;
            continue;
        }
        auto r = mk();
        Set s;
        for (int j = 0; j < depth; j++) {
            auto &o = x.ops[i % x.ops.size()];
            i /= x.ops.size();
            o.f(r.get(), s);  // the operations check their own return values; a mismatch is thrown and recorded
            ser(t, o.name.c_str(), r.get());
        }
        return;
    }
}
static void run_case(T &t, int f, uint64_t i) {
    switch (f) {
        case PAIRS: {
            auto &v = its(lv());
            const Item &a = v[i / v.size()], &b = v[i % v.size()];
            std::function<R *()> fa = [&] { return build(*a.s, 3, a.rep); }, fb = [&] { return build(*b.s, 3, b.rep); };
            pair_ops(t, fa, fb);
            break;
        }
        case NEAR: {
            near_::Pair q = near_::get(i);
            std::function<R *()> fa = [&] { return build(q.a, 3, q.ra); }, fb = [&] { return build(q.b, 3, q.rb); };
            pair_ops(t, fa, fb);
            break;
        }
        case ARRAYS: {
            int n = (int)(i % MAXA), m = (int)(i / MAXA % MAXA), rel = (int)(i / MAXA / MAXA);
            // relations: interleaved, identical prefix, disjoint blocks, every third shared, skewed, shifted
            std::vector<uint32_t> a, b;
            switch (rel) {
                case 0: a = arr(n, 2, 0), b = arr(m, 2, 1); break;
                case 1: a = arr(n, 3, 10), b = arr(m, 3, 10); break;
                case 2: a = arr(n, 1, 65536 - 100), b = arr(m, 1, 65536 - 100 + n); break;
                case 3: a = arr(n, 1, 0), b = arr(m, 3, 0); break;
                case 4: a = arr(n, 1, 500), b = arr(m * 70, 7, 0); break;
                default: a = arr(n, 5, 65535 - 5 * n), b = arr(m, 5, 65535 - 5 * (m > 3 ? m - 3 : m)); break;
            }
            std::function<R *()> fa = [&] { return roaring_bitmap_of_ptr(a.size(), a.data()); }, fb = [&] { return roaring_bitmap_of_ptr(b.size(), b.data()); };
            pair_ops(t, fa, fb);
            break;
        }
        case QUERIES: {
            RP sh;
            RP r(zoo_build(zo(lv())[i], sh));
            queries(t, r.get(), 8);
            t.u("run_optimize", roaring_bitmap_run_optimize(r.get()));
            ser(t, "run_optimize", r.get());
            t.u("remove_run_compression", roaring_bitmap_remove_run_compression(r.get()));
            ser(t, "remove_run_compression", r.get());
            const char *why = nullptr;
            t.u("valid", roaring_bitmap_internal_validate(r.get(), &why));
            break;
        }
        case FORMATS: {
            RP sh;
            RP r(zoo_build(zo(lv())[i], sh));
            formats(t, r.get());
            break;
        }
        case HIST:
            history(t, th(), g_thorough ? 4 : 3, i, [] { return RP(roaring_bitmap_create()); }, [](T &t, const char *n, const R *r) { ser(t, n, r); });
            break;
        case HIST64:
            history(t, th64(), 3, i, [] { return RP64(roaring64_bitmap_create()); }, [](T &t, const char *n, const R64 *r) { ser64(t, n, r); });
            break;
        case PAIRS64: {
            auto &v = its(0);
            uint64_t n = v.size();
            const Item &a = v[i / n % n], &b = v[i % n];
            uint64_t base = (i / n / n) * 0x100000005ull << 16;
            auto ba = split64(a.s->shift(base), a.rep == R_RUN ? rep_run : rep_natural), bb = split64(b.s->shift(base), b.rep == R_RUN ? rep_run : rep_natural);
            RP64 x(build64_buckets(ba)), y(build64_buckets(bb));
            auto res = [&](const char *nm, R64 *r) { RP64 h(r); ser64(t, nm, r); };
            res("and", roaring64_bitmap_and(x.get(), y.get()));
            res("or", roaring64_bitmap_or(x.get(), y.get()));
            res("xor", roaring64_bitmap_xor(x.get(), y.get()));
            res("andnot", roaring64_bitmap_andnot(x.get(), y.get()));
            t.u("and_cardinality", roaring64_bitmap_and_cardinality(x.get(), y.get()));
            t.u("intersect", roaring64_bitmap_intersect(x.get(), y.get()));
            t.u("equals", roaring64_bitmap_equals(x.get(), y.get()));
            t.u("is_subset", roaring64_bitmap_is_subset(x.get(), y.get()));
            typedef void (*IF)(R64 *, const R64 *);
            for (IF g : {(IF)roaring64_bitmap_and_inplace, (IF)roaring64_bitmap_or_inplace, (IF)roaring64_bitmap_xor_inplace, (IF)roaring64_bitmap_andnot_inplace}) {
                RP64 c(build64_buckets(ba));
                g(c.get(), y.get());
                ser64(t, "inplace", c.get());
            }
            break;
        }
        case ZOO64: {
            const Zoo64 &z = zo64(lv())[i];
            RP64 r(zoo64_build(z));
            ser64(t, "built", r.get());
            t.u("cardinality", roaring64_bitmap_get_cardinality(r.get()));
            t.u("minimum", roaring64_bitmap_minimum(r.get()));
            t.u("maximum", roaring64_bitmap_maximum(r.get()));
            for (auto &iv : z.s.v) {
                t.u("contains", roaring64_bitmap_contains(r.get(), iv.a - 1));
                t.u("rank", roaring64_bitmap_rank(r.get(), iv.b));
                uint64_t el = 0;
                if (roaring64_bitmap_select(r.get(), z.s.rank(iv.a) - 1, &el)) t.u("select", el);
                t.u("range_cardinality", roaring64_bitmap_range_cardinality(r.get(), iv.a / 2, iv.b));
                if (t.n > 400) break;
            }
            std::vector<uint64_t> v(z.s.card() + 1, 5);
            roaring64_bitmap_to_uint64_array(r.get(), v.data());
            t.bytes("to_uint64_array", v.data(), v.size() * 8);
            roaring64_iterator_t *it = roaring64_iterator_create(r.get());
            uint64_t buf[70];
            for (int k = 0; k < 6; k++) {
                uint64_t g = roaring64_iterator_read(it, buf, 70 - k);
                t.bytes("read", buf, g * 8);
            }
            roaring64_iterator_free(it);
            roaring64_bitmap_shrink_to_fit(r.get());
            size_t fz = roaring64_bitmap_frozen_size_in_bytes(r.get());
            t.u("frozen size", fz);
            if (fz) {
                char *b = (char *)aligned_alloc(64, (fz + 127) & ~63ull);
                memset(b, 0, fz);
                t.u("frozen_serialize", roaring64_bitmap_frozen_serialize(r.get(), b));
                t.bytes("frozen", b, fz);
                R64 *w = roaring64_bitmap_frozen_view(b, fz);
                ser64(t, "frozen view", w);
                if (w) roaring64_bitmap_free(w);
                free(b);
            }
            t.u("run_optimize", roaring64_bitmap_run_optimize(r.get()));
            ser64(t, "run_optimize", r.get());
            roaring64_bitmap_flip_closed_inplace(r.get(), z.s.empty() ? 5 : z.s.min(), (z.s.empty() ? 5 : z.s.min()) + 100000 < 100000 ? U64M : (z.s.empty() ? 5 : z.s.min()) + 100000);
            ser64(t, "flip", r.get());
            break;
        }
        case MANY: {
            auto &v = its(0);
            uint64_t n = v.size();
            std::vector<RP> h;
            std::vector<const R *> p;
            uint64_t x = i;
            for (int k = 0; k < 2 + (int)(i / n / n); k++) {
                const Item &a = v[(x + k * 7) % n];
                x /= n;
                h.push_back(RP(build(*a.s, (uint16_t)(k / 2), a.rep)));
                p.push_back(h.back().get());
            }
            p.push_back(p[0]);
            auto res = [&](const char *nm, R *r) { RP g(r); ser(t, nm, r); };
            res("or_many", roaring_bitmap_or_many(p.size(), p.data()));
            res("or_many_heap", roaring_bitmap_or_many_heap((uint32_t)p.size(), p.data()));
            res("xor_many", roaring_bitmap_xor_many(p.size(), p.data()));
            break;
        }
        case RANGES: {
            const Item &a = its(lv())[i / 24];
            static const uint32_t ed[] = {0, 1, 31, 63, 64, 65, 127, 4095, 4096, 4097, 30000, 32768, 40000, 65472, 65534, 65535, 65536, 65600};
            uint32_t lo = ed[i % 24 % 18], hi = ed[(i * 7 + 3) % 18];
            if (lo > hi) std::swap(lo, hi);
            for (int k = 0; k < 4; k++) {
                RP r(build(*a.s, 0, a.rep));
                if (k == 0) roaring_bitmap_add_range_closed(r.get(), lo, hi);
                if (k == 1) roaring_bitmap_remove_range_closed(r.get(), lo, hi);
                if (k == 2) roaring_bitmap_flip_inplace_closed(r.get(), lo, hi);
                if (k == 3) {
                    RP q(roaring_bitmap_flip_closed(r.get(), lo, hi));
                    ser(t, "flip", q.get());
                    RP o(roaring_bitmap_add_offset(r.get(), (int64_t)hi - 100));
                    ser(t, "add_offset", o.get());
                    RP o2(roaring_bitmap_add_offset(r.get(), -(int64_t)lo));
                    ser(t, "add_offset", o2.get());
                    RP fr(roaring_bitmap_from_range(lo, hi, 1 + lo % 5));
                    ser(t, "from_range", fr.get());
                    t.u("intersect_with_range", roaring_bitmap_intersect_with_range(r.get(), lo, hi));
                    t.u("range_cardinality", roaring_bitmap_range_cardinality(r.get(), lo, hi));
                    t.u("contains_range", roaring_bitmap_contains_range(r.get(), lo, hi));
                }
                ser(t, "range op", r.get());
            }
            break;
        }
        case COW: {
            const Item &a = its(0)[i / 40];
            uint64_t c = i % 40;
            RP r(build_chunks({{1, *a.s, a.rep}, {2, Set::range(3, 9), R_RUN}, {7, Set{1, 5}, R_ARRAY}}));
            roaring_bitmap_set_copy_on_write(r.get(), c & 1);
            RP s(roaring_bitmap_copy(r.get()));
            RP u(roaring_bitmap_copy(s.get()));
            switch (c / 2 % 5) {
                case 0: roaring_bitmap_add(s.get(), 65536 + 77); break;
                case 1: roaring_bitmap_remove_range(s.get(), 65536, 131072 + 5); break;
                case 2: roaring_bitmap_flip_inplace(s.get(), 65536 + 3, 200000); break;
                case 3: roaring_bitmap_or_inplace(s.get(), u.get()); break;
                default: roaring_bitmap_xor_inplace(s.get(), r.get());
            }
            switch (c / 10) {
                case 0: r.reset(); break;
                case 1: roaring_bitmap_run_optimize(u.get()); break;
                case 2: roaring_bitmap_andnot_inplace(u.get(), s.get()); break;
                default: roaring_bitmap_set_copy_on_write(u.get(), false);
            }
            if (r) ser(t, "first", r.get());
            ser(t, "second", s.get());
            ser(t, "third", u.get());
            RP x(roaring_bitmap_or(s.get(), u.get()));
            ser(t, "or", x.get());
            if (r) t.u("shrink_to_fit>0", roaring_bitmap_shrink_to_fit(r.get()) > 0);
            break;
        }
        case BITSETS: {
            int n = (int)(i % 14), m = (int)(i / 14 % 14), v = (int)(i / 196);
            bitset_t *a = bitset_create(), *b = bitset_create();
            for (int k = 0; k < n * 64; k++)
                if (v == 0 || (k * 7 + v) % (v + 2) == 0) bitset_set(a, k);
            for (int k = 0; k < m * 64; k++)
                if ((k * 5 + v) % (v + 3) == 0) bitset_set(b, k);
            t.u("count", bitset_count(a));
            t.u("union_count", bitset_union_count(a, b));
            t.u("intersection_count", bitset_intersection_count(a, b));
            t.u("difference_count", bitset_difference_count(a, b));
            t.u("symmetric_difference_count", bitset_symmetric_difference_count(a, b));
            t.u("disjoint", bitsets_disjoint(a, b));
            t.u("contains_all", bitset_contains_all(a, b));
            bitset_shift_left(a, m * 9 + 1);
            t.bytes("shift_left", a->array, a->arraysize * 8);
            size_t buf[300], st = 0;
            size_t g = bitset_next_set_bits(a, buf, 300, &st);
            t.bytes("next_set_bits", buf, g * 8);
            bitset_inplace_symmetric_difference(a, b);
            t.bytes("xor", a->array, a->arraysize * 8);
            bitset_free(a);
            bitset_free(b);
            break;
        }
    }
}
extern "C" __attribute__((visibility("default"))) uint64_t c12_count(int f, int thorough) {
    g_thorough = thorough;
    return f < NFAM ? count_of(f) : 0;
}
extern "C" __attribute__((visibility("default"))) const char *c12_family(int f) { return f < NFAM ? fam_names[f] : nullptr; }
// returns the number of recorded observations; text (if given) receives the transcript
extern "C" __attribute__((visibility("default"))) uint64_t c12_case(int f, uint64_t i, int isa, int thorough, uint64_t *hash, char **text) {
    static bool inst = false;
    if (!inst) {
        hk::install();
        inst = true;
    }
    g_thorough = thorough;
    g_isa = isa;
    T t;
    std::string s;
    if (text) t.txt = &s;
    int64_t l0 = hk::S.live;
    try {
        run_case(t, f, i);
    } catch (mc::Violation &v) {
        mc::Hash h;
        h.bytes(v.msg.data(), v.msg.size());
        t.h.u64(h.h);
        s += "mismatch with the operation's documented result: " + v.msg + "\n";
        l0 = hk::S.live;  // the exception may have skipped releases of plain handles
    }
    t.u("blocks left allocated", (uint64_t)(hk::S.live - l0));
    *hash = t.h.h;
    if (text) *text = strdup(s.c_str());
    return t.n;
}
