// C10: every schedule of small multi-threaded programs over bitmaps sharing storage.
#include <roaring/roaring.h>
#include <roaring/roaring64.h>
#include <roaring/bitset/bitset.h>
#include <sys/wait.h>
#include "codec.hpp"
#include "sched.hpp"
extern int g_isa;
extern "C" int __real_croaring_hardware_support(void);
namespace sx { void install(); }
typedef roaring_bitmap_t R;
static R *from(const Chunks &cs) {
    std::string b = encode32(cs);
    R *r = roaring_bitmap_portable_deserialize_safe(b.data(), b.size());
    MC_CHECK(r, "builder refused a valid stream");
    return r;
}
static Set contents_of(const R *r) {
    uint64_t n = roaring_bitmap_get_cardinality(r);
    std::vector<uint32_t> v(n + 1);
    roaring_bitmap_to_uint32_array(r, v.data());
    Set s;
    for (uint64_t i = 0; i < n; i++) {
        if (!s.v.empty() && s.v.back().b + 1 == v[i]) s.v.back().b = v[i];
        else s.v.push_back({v[i], v[i]});
    }
    return s;
}
struct TOp {
    const char *name;
    std::function<void(R *&, Set &)> f;  // works on the thread's own bitmap
};
static R *priv() {  // a private operand made by the thread itself
    R *p = roaring_bitmap_create();
    roaring_bitmap_set_copy_on_write(p, true);
    roaring_bitmap_add_range(p, 3, 12);
    roaring_bitmap_add(p, 70000);
    return p;
}
static const Set PRIV = Set::range(3, 11).uni(Set{70000});
static void need(bool c, const char *w) {
    if (!c) sx::stop(std::string("wrong answer in ") + w);
}
static bool count_cb(uint32_t v, void *p) {
    (void)v;
    ++*(uint64_t *)p;
    return true;
}
static std::vector<TOp> thread_ops() {
    std::vector<TOp> v;
    auto add = [&](const char *n, std::function<void(R *&, Set &)> f) { v.push_back({n, f}); };
    add("free only", [](R *&, Set &) {});
    add("add", [](R *&r, Set &s) { roaring_bitmap_add(r, 7); s.add(7); });
    add("remove", [](R *&r, Set &s) { roaring_bitmap_remove(r, 5); s.remove(5); });
    add("add_many", [](R *&r, Set &s) { uint32_t x[] = {2, 65540, 8}; roaring_bitmap_add_many(r, 3, x); for (auto y : x) s.add(y); });
    add("remove_many", [](R *&r, Set &s) { uint32_t x[] = {5, 100, 65546, 5}; roaring_bitmap_remove_many(r, 4, x); for (auto y : x) s.remove(y); });
    add("add_range", [](R *&r, Set &s) { roaring_bitmap_add_range(r, 4, 66000); s = s.uni(Set::range(4, 65999)); });
    add("remove_range", [](R *&r, Set &s) { roaring_bitmap_remove_range(r, 4, 65550); s = s.minus(Set::range(4, 65549)); });
    add("flip_inplace", [](R *&r, Set &s) { roaring_bitmap_flip_inplace(r, 5, 65548); s = s.flip(5, 65547); });
    add("run_optimize", [](R *&r, Set &) { roaring_bitmap_run_optimize(r); });
    add("remove_run_compression", [](R *&r, Set &) { roaring_bitmap_remove_run_compression(r); });
    add("shrink_to_fit", [](R *&r, Set &) { roaring_bitmap_shrink_to_fit(r); });
    add("clear", [](R *&r, Set &s) { roaring_bitmap_clear(r); s = Set(); });
    add("copy, change the copy", [](R *&r, Set &s) {
        R *c = roaring_bitmap_copy(r);
        roaring_bitmap_add(c, 6);
        need(contents_of(c) == s.uni(Set{6}), "the changed copy");
        roaring_bitmap_free(c);
    });
    add("copy, keep the copy", [](R *&r, Set &) {
        R *c = roaring_bitmap_copy(r);
        roaring_bitmap_free(r);
        r = c;
    });
    add("overwrite with own", [](R *&r, Set &s) { R *p = priv(); roaring_bitmap_overwrite(r, p); roaring_bitmap_free(p); s = PRIV; });
    add("or_inplace", [](R *&r, Set &s) { R *p = priv(); roaring_bitmap_or_inplace(r, p); roaring_bitmap_free(p); s = s.uni(PRIV); });
    add("and_inplace", [](R *&r, Set &s) { R *p = priv(); roaring_bitmap_and_inplace(r, p); roaring_bitmap_free(p); s = s.inter(PRIV); });
    add("xor_inplace", [](R *&r, Set &s) { R *p = priv(); roaring_bitmap_xor_inplace(r, p); roaring_bitmap_free(p); s = s.xr(PRIV); });
    add("andnot_inplace", [](R *&r, Set &s) { R *p = priv(); roaring_bitmap_andnot_inplace(r, p); roaring_bitmap_free(p); s = s.minus(PRIV); });
    add("lazy_or_inplace+repair", [](R *&r, Set &s) { R *p = priv(); roaring_bitmap_lazy_or_inplace(r, p, true); roaring_bitmap_repair_after_lazy(r); roaring_bitmap_free(p); s = s.uni(PRIV); });
    add("lazy_xor_inplace+repair", [](R *&r, Set &s) { R *p = priv(); roaring_bitmap_lazy_xor_inplace(r, p); roaring_bitmap_repair_after_lazy(r); roaring_bitmap_free(p); s = s.xr(PRIV); });
    add("or", [](R *&r, Set &s) { R *p = priv(), *q = roaring_bitmap_or(r, p); roaring_bitmap_free(p); roaring_bitmap_free(r); r = q; s = s.uni(PRIV); });
    add("and", [](R *&r, Set &s) { R *p = priv(), *q = roaring_bitmap_and(r, p); roaring_bitmap_free(p); roaring_bitmap_free(r); r = q; s = s.inter(PRIV); });
    add("xor", [](R *&r, Set &s) { R *p = priv(), *q = roaring_bitmap_xor(r, p); roaring_bitmap_free(p); roaring_bitmap_free(r); r = q; s = s.xr(PRIV); });
    add("andnot", [](R *&r, Set &s) { R *p = priv(), *q = roaring_bitmap_andnot(r, p); roaring_bitmap_free(p); roaring_bitmap_free(r); r = q; s = s.minus(PRIV); });
    add("flip", [](R *&r, Set &s) { R *q = roaring_bitmap_flip(r, 5, 65536); roaring_bitmap_free(r); r = q; s = s.flip(5, 65535); });
    add("lazy_or+repair", [](R *&r, Set &s) { R *p = priv(), *q = roaring_bitmap_lazy_or(r, p, true); roaring_bitmap_repair_after_lazy(q); roaring_bitmap_free(p); roaring_bitmap_free(r); r = q; s = s.uni(PRIV); });
    add("or_many", [](R *&r, Set &s) { R *p = priv(); const R *l[] = {r, p}; R *q = roaring_bitmap_or_many(2, l); roaring_bitmap_free(p); roaring_bitmap_free(r); r = q; s = s.uni(PRIV); });
    add("add_offset", [](R *&r, Set &s) { R *q = roaring_bitmap_add_offset(r, 3); roaring_bitmap_free(r); r = q; s = s.shift(3); });
    add("iterate", [](R *&r, Set &s) {
        uint64_t n = 0;
        roaring_iterate(r, count_cb, &n);
        need(n == s.card(), "callback iteration");
        auto *it = roaring_iterator_create(r);
        n = 0;
        while (it->has_value && n < 12) {
            n++;
            roaring_uint32_iterator_advance(it);
        }
        roaring_uint32_iterator_free(it);
        need(n == std::min<uint64_t>(12, s.card()), "cursor iteration");
    });
    add("queries", [](R *&r, Set &s) {
        need(roaring_bitmap_contains(r, 5) == s.has(5), "contains");
        need(roaring_bitmap_rank(r, 70000) == s.rank(70000), "rank");
        uint32_t e;
        uint64_t w;
        bool ok = roaring_bitmap_select(r, 2, &e), wok = s.select(2, w);
        need(ok == wok && (!ok || e == w), "select");
        need(roaring_bitmap_range_cardinality(r, 3, 66000) == s.range_card(3, 65999), "range_cardinality");
        uint32_t buf[8];
        roaring_bitmap_range_uint32_array(r, 0, 4, buf);
        const char *why;
        need(roaring_bitmap_internal_validate(r, &why), "internal validation");
    });
    add("serialize", [](R *&r, Set &s) {
        size_t n = roaring_bitmap_portable_size_in_bytes(r);
        std::vector<char> b(n);
        roaring_bitmap_portable_serialize(r, b.data());
        Chunks cs;
        size_t used;
        need(decode32(b.data(), n, cs, used, nullptr) && chunks_set(cs) == s, "serialized bytes");
        size_t fz = roaring_bitmap_frozen_size_in_bytes(r);
        char *f = (char *)aligned_alloc(32, (fz + 63) / 32 * 32);
        roaring_bitmap_frozen_serialize(r, f);
        free(f);
    });
    return v;
}
// ---- read-only operations on one common object ---------------------------------------------------
struct ROp {
    const char *name;
    bool copies;  // makes new bitmaps from it: only without copy-on-write (see README, "Thread safety")
    std::function<void(const R *, const R *, const Set &)> f;
};
static std::vector<ROp> read_ops() {
    std::vector<ROp> v;
    auto q = [&](const char *n, std::function<void(const R *, const R *, const Set &)> f) { v.push_back({n, false, f}); };
    auto c = [&](const char *n, std::function<void(const R *, const R *, const Set &)> f) { v.push_back({n, true, f}); };
    q("contains", [](const R *r, const R *, const Set &s) { for (uint32_t x : {0u, 5u, 65546u, 131072u + 200, 999999u}) need(roaring_bitmap_contains(r, x) == s.has(x), "contains"); });
    q("contains_range", [](const R *r, const R *, const Set &s) { need(roaring_bitmap_contains_range(r, 65546, 65600) == s.contains_range(65546, 65599), "contains_range"); });
    q("cardinality", [](const R *r, const R *, const Set &s) { need(roaring_bitmap_get_cardinality(r) == s.card() && !roaring_bitmap_is_empty(r), "cardinality"); });
    q("range_cardinality", [](const R *r, const R *, const Set &s) { need(roaring_bitmap_range_cardinality(r, 3, 140000) == s.range_card(3, 139999), "range_cardinality"); });
    q("rank/select", [](const R *r, const R *, const Set &s) {
        need(roaring_bitmap_rank(r, 140000) == s.rank(140000), "rank");
        uint32_t e;
        uint64_t w;
        need(roaring_bitmap_select(r, 100, &e) && s.select(100, w) && e == w, "select");
        need(roaring_bitmap_get_index(r, e) == 100, "get_index");
        uint32_t b[] = {0, 5, 70000, 140000, 4000000};
        uint64_t a[5];
        roaring_bitmap_rank_many(r, b, b + 5, a);
    });
    q("min/max", [](const R *r, const R *, const Set &s) { need(roaring_bitmap_minimum(r) == s.min() && roaring_bitmap_maximum(r) == s.max(), "extremes"); });
    q("to_uint32_array", [](const R *r, const R *, const Set &s) { need(contents_of(r) == s, "to_uint32_array"); });
    q("range_uint32_array", [](const R *r, const R *, const Set &) { std::vector<uint32_t> b(600); need(roaring_bitmap_range_uint32_array(r, 2, 500, b.data()), "range_uint32_array"); });
    q("iterate", [](const R *r, const R *, const Set &s) { uint64_t n = 0; roaring_iterate(r, count_cb, &n); need(n == s.card(), "iterate"); });
    q("cursor", [](const R *r, const R *, const Set &s) {
        auto *it = roaring_iterator_create(r);
        std::vector<uint32_t> b(s.card() + 1);
        roaring_uint32_iterator_move_equalorlarger(it, 9);
        auto *k = roaring_uint32_iterator_copy(it);
        uint32_t n = roaring_uint32_iterator_read(it, b.data(), (uint32_t)b.size());
        roaring_uint32_iterator_previous(it);
        need(n == s.card() - s.rank(8), "cursor");
        roaring_uint32_iterator_free(it);
        roaring_uint32_iterator_free(k);
        roaring_uint32_iterator_t l;
        roaring_iterator_init_last(r, &l);
        need(l.current_value == s.max(), "last cursor");
    });
    q("portable serialize", [](const R *r, const R *, const Set &) { std::vector<char> b(roaring_bitmap_portable_size_in_bytes(r)); roaring_bitmap_portable_serialize(r, b.data()); });
    q("native serialize", [](const R *r, const R *, const Set &) { std::vector<char> b(roaring_bitmap_size_in_bytes(r)); roaring_bitmap_serialize(r, b.data()); });
    q("frozen serialize", [](const R *r, const R *, const Set &) {
        size_t n = roaring_bitmap_frozen_size_in_bytes(r);
        char *f = (char *)aligned_alloc(32, (n + 63) / 32 * 32);
        roaring_bitmap_frozen_serialize(r, f);
        free(f);
    });
    q("statistics/validate", [](const R *r, const R *, const Set &s) {
        roaring_statistics_t st;
        roaring_bitmap_statistics(r, &st);
        need(st.cardinality == s.card(), "statistics");
        const char *w;
        need(roaring_bitmap_internal_validate(r, &w), "internal validation");
    });
    q("to_bitset", [](const R *r, const R *, const Set &s) {
        bitset_t *b = bitset_create();
        need(roaring_bitmap_to_bitset(r, b) && bitset_count(b) == s.card(), "to_bitset");
        bitset_free(b);
    });
    q("comparisons", [](const R *r, const R *o, const Set &) {
        roaring_bitmap_equals(r, o);
        roaring_bitmap_is_subset(r, o);
        roaring_bitmap_is_strict_subset(o, r);
        roaring_bitmap_intersect(r, o);
        roaring_bitmap_intersect_with_range(r, 3, 70000);
        roaring_bitmap_jaccard_index(r, o);
    });
    q("cardinalities", [](const R *r, const R *o, const Set &) { roaring_bitmap_and_cardinality(r, o); roaring_bitmap_or_cardinality(r, o); roaring_bitmap_xor_cardinality(r, o); roaring_bitmap_andnot_cardinality(o, r); });
    c("copy", [](const R *r, const R *, const Set &) { roaring_bitmap_free(roaring_bitmap_copy(r)); });
    c("and/or", [](const R *r, const R *o, const Set &) { roaring_bitmap_free(roaring_bitmap_and(r, o)); roaring_bitmap_free(roaring_bitmap_or(r, o)); });
    c("xor/andnot", [](const R *r, const R *o, const Set &) { roaring_bitmap_free(roaring_bitmap_xor(r, o)); roaring_bitmap_free(roaring_bitmap_andnot(r, o)); });
    c("operand of in-place", [](const R *r, const R *, const Set &) {
        R *p = roaring_bitmap_create();
        roaring_bitmap_add_range(p, 3, 70000);
        roaring_bitmap_or_inplace(p, r);
        roaring_bitmap_and_inplace(p, r);
        roaring_bitmap_xor_inplace(p, r);
        roaring_bitmap_andnot_inplace(p, r);
        roaring_bitmap_overwrite(p, r);
        roaring_bitmap_free(p);
    });
    c("many", [](const R *r, const R *o, const Set &) {
        const R *l[] = {r, o, r};
        roaring_bitmap_free(roaring_bitmap_or_many(3, l));
        roaring_bitmap_free(roaring_bitmap_or_many_heap(3, l));
        roaring_bitmap_free(roaring_bitmap_xor_many(3, l));
    });
    c("lazy", [](const R *r, const R *o, const Set &) {
        for (int k = 0; k < 3; k++) {
            R *p = k == 2 ? roaring_bitmap_lazy_xor(r, o) : roaring_bitmap_lazy_or(r, o, k);
            roaring_bitmap_lazy_or_inplace(p, o, k == 1);
            roaring_bitmap_repair_after_lazy(p);
            roaring_bitmap_free(p);
        }
    });
    c("flip/offset", [](const R *r, const R *, const Set &) { roaring_bitmap_free(roaring_bitmap_flip(r, 3, 70000)); roaring_bitmap_free(roaring_bitmap_add_offset(r, 65536)); roaring_bitmap_free(roaring_bitmap_add_offset(r, 7)); });
    return v;
}
struct R6 {
    const char *name;
    std::function<void(const roaring64_bitmap_t *, const roaring64_bitmap_t *)> f;
};
static bool cb64(uint64_t, void *p) { ++*(uint64_t *)p; return true; }
static std::vector<R6> read_ops64() {
    std::vector<R6> v;
    auto q = [&](const char *n, std::function<void(const roaring64_bitmap_t *, const roaring64_bitmap_t *)> f) { v.push_back({n, f}); };
    q("contains64", [](const roaring64_bitmap_t *r, const roaring64_bitmap_t *) { need(roaring64_bitmap_contains(r, 5) && !roaring64_bitmap_contains(r, 4), "contains"); roaring64_bulk_context_t c = CROARING_ZERO_INITIALIZER; roaring64_bitmap_contains_bulk(r, &c, 5); roaring64_bitmap_contains_bulk(r, &c, 9); });
    q("rank64", [](const roaring64_bitmap_t *r, const roaring64_bitmap_t *) { uint64_t e; roaring64_bitmap_rank(r, 1ull << 40); roaring64_bitmap_select(r, 3, &e); roaring64_bitmap_get_index(r, 5, &e); });
    q("cardinality64", [](const roaring64_bitmap_t *r, const roaring64_bitmap_t *) { roaring64_bitmap_get_cardinality(r); roaring64_bitmap_range_cardinality(r, 3, 1ull << 50); roaring64_bitmap_minimum(r); roaring64_bitmap_maximum(r); });
    q("cursor64", [](const roaring64_bitmap_t *r, const roaring64_bitmap_t *) {
        auto *it = roaring64_iterator_create(r);
        for (int i = 0; i < 10 && roaring64_iterator_has_value(it); i++) roaring64_iterator_advance(it);
        roaring64_iterator_move_equalorlarger(it, 1ull << 33);
        roaring64_iterator_previous(it);
        roaring64_iterator_free(it);
        uint64_t n = 0;
        roaring64_bitmap_iterate(r, cb64, &n);
    });
    q("serialize64", [](const roaring64_bitmap_t *r, const roaring64_bitmap_t *) { std::vector<char> b(roaring64_bitmap_portable_size_in_bytes(r)); roaring64_bitmap_portable_serialize(r, b.data()); });
    q("frozen64", [](const roaring64_bitmap_t *r, const roaring64_bitmap_t *) {
        size_t n = roaring64_bitmap_frozen_size_in_bytes(r);
        if (!n) return;
        char *f = (char *)aligned_alloc(64, (n + 127) / 64 * 64);
        roaring64_bitmap_frozen_serialize(r, f);
        free(f);
    });
    q("compare64", [](const roaring64_bitmap_t *r, const roaring64_bitmap_t *o) { roaring64_bitmap_equals(r, o); roaring64_bitmap_is_subset(o, r); roaring64_bitmap_intersect(r, o); roaring64_bitmap_and_cardinality(r, o); roaring64_bitmap_or_cardinality(r, o); roaring64_bitmap_intersect_with_range(r, 6, 1ull << 40); });
    q("binary64", [](const roaring64_bitmap_t *r, const roaring64_bitmap_t *o) { roaring64_bitmap_free(roaring64_bitmap_and(r, o)); roaring64_bitmap_free(roaring64_bitmap_or(r, o)); roaring64_bitmap_free(roaring64_bitmap_xor(r, o)); roaring64_bitmap_free(roaring64_bitmap_andnot(r, o)); });
    q("copy64/flip64", [](const roaring64_bitmap_t *r, const roaring64_bitmap_t *) { roaring64_bitmap_free(roaring64_bitmap_copy(r)); roaring64_bitmap_free(roaring64_bitmap_flip(r, 3, 200000)); });
    q("statistics64", [](const roaring64_bitmap_t *r, const roaring64_bitmap_t *) { roaring64_statistics_t s; roaring64_bitmap_statistics(r, &s); const char *w; need(roaring64_bitmap_internal_validate(r, &w), "validate"); });
    q("operand64", [](const roaring64_bitmap_t *r, const roaring64_bitmap_t *) {
        auto *p = roaring64_bitmap_create();
        roaring64_bitmap_add_range(p, 3, 70000);
        roaring64_bitmap_or_inplace(p, r);
        roaring64_bitmap_and_inplace(p, r);
        roaring64_bitmap_xor_inplace(p, r);
        roaring64_bitmap_andnot_inplace(p, r);
        roaring64_bitmap_free(p);
    });
    return v;
}
static std::vector<Chunks> bases() {
    Set arr{1, 5, 9, 60000}, run = Set::range(4, 100).uni(Set::range(2000, 2999)), dense = Set::range(2, 4299), run2 = Set::range(10, 90);
    return {{{0, arr, R_ARRAY}}, {{0, run, R_RUN}}, {{0, dense, R_BITSET}}, {{0, arr, R_ARRAY}, {1, run2, R_RUN}}};
}
static const char *base_name[] = {"array", "run", "bitset", "array+run", "array with slack, two chunks", "run with slack, two chunks", "array with slack"};
static const int NB = 7;
// the bitmap every thread copies; the last two kinds have spare capacity
static R *base_bitmap(int b) {
    if (b < 4) return from(bases()[b]);
    R *r = roaring_bitmap_create();
    if (b == 6) {
        for (uint32_t x : {1u, 5u, 9u, 60000u, 2u, 3u}) roaring_bitmap_add(r, x);
        roaring_bitmap_remove(r, 2);
        roaring_bitmap_remove(r, 3);
    } else if (b == 4) {
        for (uint32_t x : {1u, 5u, 9u, 60000u, 2u, 3u, 65546u}) roaring_bitmap_add(r, x);
        roaring_bitmap_remove(r, 2);
        roaring_bitmap_remove(r, 3);
    } else {
        roaring_bitmap_add_range(r, 4, 101);
        roaring_bitmap_add_range(r, 2000, 3000);
        roaring_bitmap_add_range(r, 65546, 65627);
        roaring_bitmap_run_optimize(r);
        for (uint32_t x : {50u, 2500u, 70u}) {
            roaring_bitmap_remove(r, x);
            roaring_bitmap_add(r, x);
        }
    }
    return r;
}
static Set base_set(int b) {
    if (b < 4) return chunks_set(bases()[b]);
    if (b == 6) return Set{1, 5, 9, 60000};
    if (b == 4) return Set{1, 5, 9, 60000, 65546};
    return Set::range(4, 100).uni(Set::range(2000, 2999)).uni(Set::range(65546, 65626));
}
struct Case {
    int base, topo;
    std::vector<int> prog[3];
    int nt;
};
int main(int argc, char **argv) {
    auto &e = mc::E();
    e.init(argc, argv, "C10");
    e.hang_limit = 120;
    sx::install();
    g_isa = 0;
    bool T = e.thorough;
    auto ops = thread_ops();
    auto bs = bases();
    auto note = [&](const sx::Stats &st) { e.eval(st.schedules + st.pruned); };
    auto run_case = [&](const Case &c) {
        std::string d = mc::strf("%s shared by %d threads%s:", base_name[c.base], c.nt, c.topo ? " and the main thread" : "");
        for (int t = 0; t < c.nt; t++) {
            d += mc::strf(" T%d[", t + 1);
            for (int o : c.prog[t]) d += std::string(ops[o].name) + "; ";
            d += "free]";
        }
        e.detail("%s", d.c_str());
        Set S = base_set(c.base);
        auto exec = [&]() -> bool {
            sx::begin();
            R *orig = base_bitmap(c.base);
            roaring_bitmap_set_copy_on_write(orig, true);
            R *own[3] = {nullptr, nullptr, nullptr};
            for (int t = 0; t < c.nt; t++) own[t] = roaring_bitmap_copy(orig);
            if (!c.topo) roaring_bitmap_free(orig);
            std::vector<std::function<void()>> body;
            for (int t = 0; t < c.nt; t++)
                body.push_back([&, t] {
                    Set m = S;
                    for (int o : c.prog[t]) {
                        sx::W().f[t + 1].op = ops[o].name;
                        ops[o].f(own[t], m);
                    }
                    sx::W().f[t + 1].op = "reading its own bitmap";
                    Set g = contents_of(own[t]);
                    if (g != m) sx::stop(mc::strf("thread %d ends with wrong contents (%llu values, expected %llu)", t + 1, (unsigned long long)g.card(), (unsigned long long)m.card()));
                    sx::W().f[t + 1].op = "free";
                    roaring_bitmap_free(own[t]);
                });
            if (!sx::run_threads(body)) return false;
            if (c.topo) {
                if (contents_of(orig) != S) mc::fail("the main thread's bitmap changed");
                roaring_bitmap_free(orig);
            }
            sx::end();
            MC_CHECK(sx::W().live == 0, "%lld blocks left after every thread released its bitmap (schedule %s)", (long long)sx::W().live, sx::sched_str().c_str());
            MC_CHECK(sx::W().foreign == 0, "the library bypassed the memory hooks");
            return true;
        };
        sx::W().truncated = false;
        // three threads over several chunks: preemption bound 2; otherwise every schedule
        sx::W().bound = c.nt == 3 && c.base >= 3 && c.base < 6 ? 2 : -1;
        sx::Stats st;
        try {
            st = sx::explore(exec, T ? 3000000 : 300000);
        } catch (mc::Violation &v) {
            sx::W().active = false;
            throw mc::Violation{v.msg + " [schedule " + sx::sched_str() + "]"};
        }
        sx::W().bound = -1;
        note(st);
        mc::Hash h;
        h.u64(st.schedules);
        for (int t = 0; t < c.nt; t++)
            for (int o : c.prog[t]) h.u64(o + 1000 * t);
        e.outcome(h.h);
        if (sx::W().truncated) mc::fail("more than the budgeted number of schedules");
    };
    std::vector<Case> two, twolong, three;
    int n = (int)ops.size();
    for (int b = 0; b < NB; b++)
        for (int topo = 0; topo < 2; topo++)
            for (int i = 0; i < n; i++)
                for (int j = i; j < n; j++) two.push_back({b, topo, {{i}, {j}, {}}, 2});
    e.parallel("two-threads", two.size(), [&](uint64_t i) { run_case(two[i]); }, nullptr, 4);
    e.samples.push_back(mc::strf("two threads: all pairs of %d operations x %zu contents x 2 sharing topologies", n, bs.size()));
    // two operations each
    std::vector<int> core;
    for (int i = 0; i < n; i++)
        for (const char *w : {"add", "remove", "copy, keep the copy", "run_optimize", "shrink_to_fit", "or_inplace", "clear", "or", "iterate", "remove_many", "and_inplace", "flip_inplace"})
            if (!strcmp(ops[i].name, w)) core.push_back(i);
    for (int b = 0; b < NB; b++)
        for (int i : core)
            for (int j : core)
                for (int k : core)
                    for (int l : core) {
                        if (!T && b != 1 && b != 6) continue;
                        if (T && b >= 3 && b < 6) continue;
                        if (i * 100 + j > k * 100 + l) continue;
                        twolong.push_back({b, 0, {{i, j}, {k, l}, {}}, 2});
                    }
    e.parallel("two-threads-two-steps", twolong.size(), [&](uint64_t i) { run_case(twolong[i]); }, nullptr, 4);
    for (int b : T ? std::vector<int>{0, 1, 2, 3, 4, 5, 6} : std::vector<int>{1, 6})
        for (int topo = 0; topo < (T ? 2 : 1); topo++)
            for (size_t i = 0; i < core.size(); i++)
                for (size_t j = i; j < core.size(); j++)
                    for (size_t k = j; k < core.size(); k++) three.push_back({b, topo, {{core[i]}, {core[j]}, {core[k]}}, 3});
    for (int b = 0; b < (int)bs.size(); b++) three.push_back({b, 0, {{}, {}, {}}, 3});
    e.parallel("three-threads", three.size(), [&](uint64_t i) { run_case(three[i]); }, nullptr, 1);
    // two bitmaps each: what a thread combines is itself shared
    {
        // every thread owns copies x of A and y of B; combines, frees both
        e.parallel("two-owned", 8 * 8 * 3, [&](uint64_t ci) {
            int k[2] = {(int)(ci % 8), (int)(ci / 8 % 8)};
            size_t b = ci / 64;
            e.detail("contents %zu, combinations %d and %d", b, k[0], k[1]);
            Chunks ca = bs[b], cb = bs[(b + 1) % 4];
            Set A = chunks_set(ca), B = chunks_set(cb);
            auto exec = [&]() -> bool {
                sx::begin();
                R *a = from(ca), *bb = from(cb);
                roaring_bitmap_set_copy_on_write(a, true);
                roaring_bitmap_set_copy_on_write(bb, true);
                R *x[2] = {roaring_bitmap_copy(a), roaring_bitmap_copy(a)}, *y[2] = {roaring_bitmap_copy(bb), roaring_bitmap_copy(bb)};
                roaring_bitmap_free(a);
                roaring_bitmap_free(bb);
                std::vector<std::function<void()>> body;
                for (int t = 0; t < 2; t++)
                    body.push_back([&, t] {
                        static const char *nm[] = {"or", "and", "xor", "andnot", "or_inplace", "and_inplace", "xor_inplace", "andnot_inplace"};
                        sx::W().f[t + 1].op = nm[k[t]];
                        R *r = nullptr;
                        Set m;
                        switch (k[t]) {
                            case 0: r = roaring_bitmap_or(x[t], y[t]); m = A.uni(B); break;
                            case 1: r = roaring_bitmap_and(x[t], y[t]); m = A.inter(B); break;
                            case 2: r = roaring_bitmap_xor(x[t], y[t]); m = A.xr(B); break;
                            case 3: r = roaring_bitmap_andnot(x[t], y[t]); m = A.minus(B); break;
                            case 4: roaring_bitmap_or_inplace(x[t], y[t]); m = A.uni(B); break;
                            case 5: roaring_bitmap_and_inplace(x[t], y[t]); m = A.inter(B); break;
                            case 6: roaring_bitmap_xor_inplace(x[t], y[t]); m = A.xr(B); break;
                            default: roaring_bitmap_andnot_inplace(x[t], y[t]); m = A.minus(B);
                        }
                        need(contents_of(r ? r : x[t]) == m, "the combination");
                        need(contents_of(y[t]) == B, "the operand afterwards");
                        if (r) roaring_bitmap_free(r);
                        roaring_bitmap_free(y[t]);
                        roaring_bitmap_free(x[t]);
                    });
                if (!sx::run_threads(body)) return false;
                sx::end();
                MC_CHECK(sx::W().live == 0, "%lld blocks left", (long long)sx::W().live);
                return true;
            };
            try {
                auto st = sx::explore(exec, 3000000);
                note(st);
                e.outcome(st.schedules * 64 + ci);
            } catch (mc::Violation &v) {
                sx::W().active = false;
                throw mc::Violation{v.msg + " [schedule " + sx::sched_str() + "]"};
            }
        }, nullptr, 1);
    }
    // read-only use of one common bitmap
    {
        auto ro = read_ops();
        Set arr{1, 5, 9, 60000}, run = Set::range(10, 1000), dense = Set::range(100, 4500);
        Chunks cs{{0, arr, R_ARRAY}, {1, run, R_RUN}, {2, dense, R_BITSET}}, co{{0, run, R_RUN}, {1, dense, R_BITSET}, {3, arr, R_ARRAY}};
        Set S = chunks_set(cs);
        uint64_t m = ro.size();
        // kind 0: plain bitmap, 1: its storage is shared with another bitmap, 2: frozen view
        e.parallel("read-only", m * m * 3, [&](uint64_t ci) {
            auto &p = ro[ci % m], &q = ro[ci / m % m];
            int kind = (int)(ci / m / m);
            if (kind == 1 && (p.copies || q.copies)) return;
            e.detail("common bitmap (%s): %s in parallel with %s", kind == 0 ? "plain" : kind == 1 ? "shared storage" : "frozen view", p.name, q.name);
            char *fz = nullptr;
            auto exec = [&]() -> bool {
                sx::begin();
                R *r = from(cs), *o = from(co), *sh = nullptr;
                const R *v = r;
                if (kind == 1) {
                    roaring_bitmap_set_copy_on_write(r, true);
                    roaring_bitmap_set_copy_on_write(o, true);
                    sh = roaring_bitmap_copy(r);
                }
                if (kind == 2) {
                    size_t n = roaring_bitmap_frozen_size_in_bytes(r);
                    fz = (char *)aligned_alloc(32, (n + 63) / 32 * 32);
                    roaring_bitmap_frozen_serialize(r, fz);
                    v = roaring_bitmap_frozen_view(fz, n);
                    MC_CHECK(v, "frozen view refused");
                }
                bool full = sx::run_threads({[&] { sx::W().f[1].op = p.name; p.f(v, o, S); }, [&] { sx::W().f[2].op = q.name; q.f(v, o, S); }});
                if (full) {
                    if (kind == 2) roaring_bitmap_free(v);
                    roaring_bitmap_free(r);
                    roaring_bitmap_free(o);
                    if (sh) roaring_bitmap_free(sh);
                    sx::end();
                    MC_CHECK(sx::W().live == 0, "%lld blocks left", (long long)sx::W().live);
                }
                free(fz);
                fz = nullptr;
                return full;
            };
            note(sx::explore(exec, 3000000));
            e.outcome(ci);
        }, nullptr, 4);
        auto r6 = read_ops64();
        uint64_t k = r6.size();
        e.parallel("read-only-64", k * k, [&](uint64_t ci) {
            auto &p = r6[ci % k], &q = r6[ci / k];
            e.detail("common 64-bit bitmap: %s in parallel with %s", p.name, q.name);
            auto exec = [&]() -> bool {
                sx::begin();
                auto *r = roaring64_bitmap_create(), *o = roaring64_bitmap_create();
                for (uint64_t i = 0; i < 20; i++) roaring64_bitmap_add(r, i << 30 | 5);
                roaring64_bitmap_add_range(r, 1ull << 40, (1ull << 40) + 70000);
                roaring64_bitmap_add_range(o, 1ull << 40, (1ull << 40) + 9);
                roaring64_bitmap_shrink_to_fit(r);
                bool full = sx::run_threads({[&] { sx::W().f[1].op = p.name; p.f(r, o); }, [&] { sx::W().f[2].op = q.name; q.f(r, o); }});
                if (!full) return false;
                roaring64_bitmap_free(r);
                roaring64_bitmap_free(o);
                sx::end();
                MC_CHECK(sx::W().live == 0, "%lld blocks left", (long long)sx::W().live);
                return true;
            };
            note(sx::explore(exec, 3000000));
            e.outcome(ci + 100000);
        }, nullptr, 2);
        // an uncompressed bitset read by two threads
        e.parallel("read-only-bitset", 1, [&](uint64_t) {
            auto exec = [&]() -> bool {
                sx::begin();
                bitset_t *b = bitset_create(), *o = bitset_create();
                for (int i = 0; i < 1000; i += 3) bitset_set(b, i);
                for (int i = 0; i < 500; i += 7) bitset_set(o, i);
                auto body = [&] {
                    bitset_count(b);
                    bitset_minimum(b);
                    bitset_maximum(b);
                    bitset_union_count(b, o);
                    bitset_intersection_count(b, o);
                    bitset_difference_count(b, o);
                    bitset_symmetric_difference_count(b, o);
                    bitsets_disjoint(b, o);
                    bitsets_intersect(b, o);
                    bitset_contains_all(b, o);
                    bitset_t *c = bitset_copy(b);
                    bitset_inplace_union(c, o);
                    bitset_inplace_difference(c, b);
                    bitset_free(c);
                };
                if (!sx::run_threads({body, body})) return false;
                bitset_free(b);
                bitset_free(o);
                sx::end();
                MC_CHECK(sx::W().live == 0, "%lld blocks left", (long long)sx::W().live);
                return true;
            };
            note(sx::explore(exec));
        });
    }
    // first use of processor-feature detection from several threads: each schedule in a fresh process
    e.parallel("first-use-detection", 2, [&](uint64_t i) {
        int nt = 2 + (int)i;
        e.detail("%d threads ask for the processor features for the first time", nt);
        struct Out {
            size_t n;
            bool full;
            uint8_t ncand[400], cand[400][4];
            int nslp[400];
            char err[300];
        };
        Out *o = (Out *)mmap(nullptr, sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        sx::W().init();
        auto exec = [&]() -> bool {
            // the child replays the prefix and extends it; the parent copies the node list back
            o->n = 0;
            o->err[0] = 0;
            pid_t pid = fork();
            if (!pid) {
                try {
                    sx::begin();
                    std::vector<std::function<void()>> b;
                    int *got = new int[4]();
                    for (int t = 0; t < nt; t++) b.push_back([=] { sx::W().f[t + 1].op = "croaring_hardware_support"; got[t] = __real_croaring_hardware_support(); });
                    o->full = sx::run_threads(b);
                    if (o->full) {
                        int want = __real_croaring_hardware_support();
                        for (int t = 0; t < nt; t++) MC_CHECK(got[t] == want, "thread %d saw features %x, later calls %x", t + 1, got[t], want);
                    }
                } catch (mc::Violation &v) {
                    snprintf(o->err, sizeof o->err, "%s", v.msg.c_str());
                }
                auto &nd = sx::W().nodes;
                o->n = std::min<size_t>(nd.size(), 400);
                for (size_t k = 0; k < o->n; k++) {
                    o->ncand[k] = (uint8_t)nd[k].cand.size();
                    for (size_t c = 0; c < nd[k].cand.size(); c++) o->cand[k][c] = (uint8_t)nd[k].cand[c];
                }
                _exit(0);
            }
            int stt;
            waitpid(pid, &stt, 0);
            if (!WIFEXITED(stt) || WEXITSTATUS(stt)) mc::fail("the detection crashed");
            if (o->err[0]) mc::fail("%s", o->err);
            auto &nd = sx::W().nodes;
            for (size_t k = nd.size(); k < o->n; k++) {
                sx::Node x;
                for (int c = 0; c < o->ncand[k]; c++) x.cand.push_back(o->cand[k][c]);
                nd.push_back(x);
            }
            return o->full;
        };
        sx::W().bound = nt == 2 ? -1 : T ? 3 : 2;
        sx::W().truncated = false;
        auto st = sx::explore(exec, 100000);
        sx::W().bound = -1;
        if (sx::W().truncated) mc::fail("more than the budgeted number of schedules");
        note(st);
        e.outcome(st.schedules + 777000);
        sx::W().truncated = false;
        munmap(o, sizeof(Out));
    }, nullptr, 1);
    e.rule = "stateless exploration of the real library compiled with thread instrumentation: a switch before every atomic "
             "operation, all schedules up to commutation of independent steps (sleep sets), no preemption bound except 2 for three threads over several chunks and 2 or 3 for the first-use detection by three threads; every plain "
             "access goes through a happens-before monitor that honours the memory orders in the code; releases are writes to "
             "the whole block";
    return e.finish();
}
