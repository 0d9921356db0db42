// Every query of the 64-bit interface against the set model, for boundary arguments.
#pragma once
#include "lib64.hpp"
#include "queries32.hpp"
inline std::vector<uint64_t> points64(const Set &s, size_t n) {
    std::vector<uint64_t> p = {0, 1, 65535, 65536, 1ull << 32, U64M, U64M - 65536};
    size_t m = s.v.size();
    for (size_t k = 0; k < std::min(n, m); k++) {
        auto &i = s.v[m <= n ? k : k * (m - 1) / (n > 1 ? n - 1 : 1)];
        for (uint64_t x : {i.a, i.b, i.a - 1, i.b + 1, i.a + (i.b - i.a) / 2, i.a & ~(uint64_t)65535, i.b | (uint64_t)65535}) p.push_back(x);
    }
    std::sort(p.begin(), p.end());
    p.erase(std::unique(p.begin(), p.end()), p.end());
    return p;
}
inline void eq64(const char *q, uint64_t a, uint64_t b, uint64_t got, uint64_t want) {
    if (got != want)
        mc::fail("64-bit %s(%llx,%llx): got %llu, expected %llu", q, (unsigned long long)a, (unsigned long long)b, (unsigned long long)got, (unsigned long long)want);
    mc::E().eval();
}
inline void range_queries64(const R64 *r, const Set &s, uint64_t a, uint64_t b) {
    bool ne = a < b;
    eq64("range_cardinality", a, b, roaring64_bitmap_range_cardinality(r, a, b), ne ? s.range_card(a, b - 1) : 0);
    eq64("contains_range", a, b, roaring64_bitmap_contains_range(r, a, b), ne ? s.contains_range(a, b - 1) : 1);
    eq64("intersect_with_range", a, b, roaring64_bitmap_intersect_with_range(r, a, b), ne && s.intersects_range(a, b - 1));
    eq64("range_closed_cardinality", a, b, roaring64_bitmap_range_closed_cardinality(r, a, b), a <= b ? s.range_card(a, b) : 0);
}
inline void check_queries64(const R64 *r, const Set &s, size_t npts, bool extract = true) {
    typedef unsigned long long ull;
    uint64_t card = s.card();
    eq64("get_cardinality", 0, 0, roaring64_bitmap_get_cardinality(r), card);
    eq64("is_empty", 0, 0, roaring64_bitmap_is_empty(r), s.empty());
    eq64("minimum", 0, 0, roaring64_bitmap_minimum(r), s.empty() ? U64M : s.min());
    eq64("maximum", 0, 0, roaring64_bitmap_maximum(r), s.empty() ? 0 : s.max());
    auto pts = points64(s, npts);
    roaring64_bulk_context_t ctx;
    memset(&ctx, 0, sizeof ctx);
    std::vector<uint64_t> ranks = {0, 1, card - 1, card, card + 1, card / 2, U64M};
    for (auto x : pts) {
        bool h = s.has(x);
        uint64_t rk = s.rank(x), ix = 0x77;
        eq64("contains", x, 0, roaring64_bitmap_contains(r, x), h);
        eq64("contains_bulk", x, 0, roaring64_bitmap_contains_bulk(r, &ctx, x), h);
        eq64("rank", x, 0, roaring64_bitmap_rank(r, x), rk);
        eq64("get_index found", x, 0, roaring64_bitmap_get_index(r, x, &ix), h);
        if (h) eq64("get_index", x, 0, ix, rk - 1);
        ranks.push_back(rk);
        ranks.push_back(rk - 1);
    }
    for (size_t i = pts.size(); i-- > 0;) eq64("contains_bulk backward", pts[i], 0, roaring64_bitmap_contains_bulk(r, &ctx, pts[i]), s.has(pts[i]));
    for (auto k : ranks) {
        uint64_t el = 0, want = 0;
        bool w = s.select(k, want), g = roaring64_bitmap_select(r, k, &el);
        eq64("select found", k, 0, g, w);
        if (w) eq64("select", k, 0, el, want);
    }
    for (auto a : pts)
        for (auto b : pts) range_queries64(r, s, a, b);
    roaring64_statistics_t st;
    memset(&st, 0xEE, sizeof st);
    roaring64_bitmap_statistics(r, &st);
    eq64("statistics.cardinality", 0, 0, st.cardinality, card);
    eq64("statistics.min_value", 0, 0, st.min_value, s.empty() ? U64M : s.min());
    eq64("statistics.max_value", 0, 0, st.max_value, s.empty() ? 0 : s.max());
    eq64("statistics.n_containers", 0, 0, st.n_containers, st.n_array_containers + st.n_run_containers + st.n_bitset_containers);
    eq64("statistics.n_values", 0, 0, st.n_values_array_containers + st.n_values_run_containers + st.n_values_bitset_containers, card);
    uint64_t chunks = 0;
    for (auto &b : split64(s, rep_natural)) chunks += b.cs.size();
    eq64("statistics.n_containers vs chunks", 0, 0, st.n_containers, chunks);
    if (extract && card <= (1u << 20)) {
        Set g = to_set64(r);
        MC_CHECK(g == s, "to_uint64_array: %s", diff_str(g, s).c_str());
        for (uint64_t stop : {U64M, (uint64_t)1, (uint64_t)2, card / 2 + 1, card}) {
            if (!stop || card > (1u << 18)) continue;
            IterRec a;
            a.stop_after = stop;
            bool ra = roaring64_bitmap_iterate(r, rec64, &a);
            uint64_t want = std::min(stop, card), i = 0;
            eq64("iterate calls", stop, 0, a.calls, want);
            eq64("iterate returned", stop, 0, ra, stop > card);
            if (stop == U64M)
                s.each([&](uint64_t x) {
                    if (a.got[i] != x) mc::fail("64-bit iterate[%llu]: got %llu, expected %llu", (ull)i, (ull)a.got[i], (ull)x);
                    i++;
                });
        }
    }
}
