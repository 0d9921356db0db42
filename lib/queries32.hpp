// Every query of the 32-bit interface against the set model, for a list of interesting arguments.
#pragma once
#include "lib32.hpp"
#include "roaring/bitset/bitset.h"
static const uint64_t UEND = 1ull << 32;
// boundary arguments of a set: interval ends and neighbours, middles, universe ends; at most about n of them
inline std::vector<uint64_t> query_points(const Set &s, size_t n, bool beyond) {
    std::vector<uint64_t> p = {0, 1, 65535, 65536, UEND - 1, UEND - 65536};
    if (beyond) {
        p.push_back(UEND);
        p.push_back(UEND + 1);
    }
    size_t m = s.v.size();
    std::vector<size_t> idx;
    if (m <= n) {
        for (size_t i = 0; i < m; i++) idx.push_back(i);
    } else {
        for (size_t k = 0; k < n; k++) idx.push_back(k * (m - 1) / (n - 1));
    }
    uint64_t lim = beyond ? UEND + 1 : UEND - 1;
    for (auto i : idx) {
        uint64_t a = s.v[i].a, b = s.v[i].b;
        for (uint64_t x : {a, b, a - 1, b + 1, (a + b) / 2})
            if (x <= lim) p.push_back(x);
        p.push_back((a & ~65535ull));
        p.push_back((b | 65535ull));
    }
    std::sort(p.begin(), p.end());
    p.erase(std::unique(p.begin(), p.end()), p.end());
    return p;
}
struct QOpts {
    size_t points = 8;
    bool ranges = true, extraction = true, iterate = true;
};
struct IterRec {
    std::vector<uint64_t> got;
    uint64_t stop_after = UINT64_MAX;
    uint64_t calls = 0;
};
inline bool rec32(uint32_t v, void *p) {
    auto *r = (IterRec *)p;
    r->calls++;
    if (r->got.size() < (1u << 18)) r->got.push_back(v);
    return r->calls < r->stop_after;
}
inline bool rec64(uint64_t v, void *p) {
    auto *r = (IterRec *)p;
    r->calls++;
    if (r->got.size() < (1u << 18)) r->got.push_back(v);
    return r->calls < r->stop_after;
}
inline void check_queries(const R *r, const Set &s, const QOpts &o) {
    auto &e = mc::E();
    typedef unsigned long long ull;
    uint64_t card = s.card();
    auto eq = [&](const char *q, uint64_t arg, uint64_t arg2, uint64_t got, uint64_t want) {
        if (got != want) mc::fail("%s(%llu,%llu): got %llu, expected %llu", q, (ull)arg, (ull)arg2, (ull)got, (ull)want);
        e.eval();
    };
    eq("get_cardinality", 0, 0, roaring_bitmap_get_cardinality(r), card);
    eq("is_empty", 0, 0, roaring_bitmap_is_empty(r), s.empty());
    eq("minimum", 0, 0, roaring_bitmap_minimum(r), s.empty() ? UINT32_MAX : s.min());
    eq("maximum", 0, 0, roaring_bitmap_maximum(r), s.empty() ? 0 : s.max());
    auto pts = query_points(s, o.points, true);
    std::vector<uint32_t> p32;
    for (auto x : pts)
        if (x < UEND) p32.push_back((uint32_t)x);
    roaring_bulk_context_t ctx;
    memset(&ctx, 0, sizeof ctx);
    for (auto x : p32) {
        bool h = s.has(x);
        eq("contains", x, 0, roaring_bitmap_contains(r, x), h);
        eq("contains_bulk", x, 0, roaring_bitmap_contains_bulk(r, &ctx, x), h);
        eq("rank", x, 0, roaring_bitmap_rank(r, x), s.rank(x));
        eq("get_index", x, 0, (uint64_t)roaring_bitmap_get_index(r, x), h ? s.rank(x) - 1 : UINT64_MAX);
    }
    for (size_t i = p32.size(); i-- > 0;)
        eq("contains_bulk(backward)", p32[i], 0, roaring_bitmap_contains_bulk(r, &ctx, p32[i]), s.has(p32[i]));
    {   // batched rank over every suffix and every prefix start
        for (size_t a = 0; a < p32.size(); a += p32.size() > 12 ? p32.size() / 6 : 1) {
            size_t n = p32.size() - a;
            std::vector<uint64_t> ans(n + 1, 0xABABABABABABABABull);
            roaring_bitmap_rank_many(r, p32.data() + a, p32.data() + p32.size(), ans.data());
            for (size_t i = 0; i < n; i++) eq("rank_many", p32[a + i], i, ans[i], s.rank(p32[a + i]));
            eq("rank_many(past end)", 0, 0, ans[n], 0xABABABABABABABABull);
        }
    }
    // select at every interval start/end rank and around
    {
        std::vector<uint64_t> ranks = {0, 1, card - 1, card, card + 1, card / 2, 0xFFFFFFFFull};
        for (auto x : p32) {
            uint64_t k = s.rank(x);
            ranks.push_back(k);
            ranks.push_back(k - 1);
        }
        for (auto k : ranks) {
            if (k > UINT32_MAX) continue;
            uint32_t el = 0x5A5A5A5Au;
            uint64_t want;
            bool w = s.select(k, want);
            bool g = roaring_bitmap_select(r, (uint32_t)k, &el);
            eq("select(found)", k, 0, g, w);
            if (w) eq("select", k, 0, el, want);
        }
    }
    if (o.ranges) {
        for (auto a : pts)
            for (auto b : pts) {  // half-open [a,b), includes inverted
                Set q = a < b && a < UEND ? Set::range(a, std::min<uint64_t>(b, UEND) - 1) : Set();
                bool ne = !q.empty();
                eq("range_cardinality", a, b, roaring_bitmap_range_cardinality(r, a, b), ne ? s.range_card(q.min(), q.max()) : 0);
                eq("contains_range", a, b, roaring_bitmap_contains_range(r, a, b), ne ? s.contains_range(q.min(), q.max()) : 1);
                eq("intersect_with_range", a, b, roaring_bitmap_intersect_with_range(r, a, b),
                   ne ? s.intersects_range(q.min(), q.max()) : 0);
                if (a < UEND && b < UEND) {
                    bool ok = a <= b;
                    eq("range_cardinality_closed", a, b, roaring_bitmap_range_cardinality_closed(r, (uint32_t)a, (uint32_t)b),
                       ok ? s.range_card(a, b) : 0);
                    eq("contains_range_closed", a, b, roaring_bitmap_contains_range_closed(r, (uint32_t)a, (uint32_t)b),
                       ok ? s.contains_range(a, b) : 1);
                }
            }
        for (auto a : pts) {
            eq("intersect_with_range", a, UINT64_MAX, roaring_bitmap_intersect_with_range(r, a, UINT64_MAX),
               a < UEND && s.intersects_range(a, UEND - 1));
            eq("range_cardinality", a, UINT64_MAX, roaring_bitmap_range_cardinality(r, a, UINT64_MAX),
               a < UEND ? s.range_card(a, UEND - 1) : 0);
        }
    }
    {
        roaring_statistics_t st;
        memset(&st, 0xEE, sizeof st);
        roaring_bitmap_statistics(r, &st);
        eq("statistics.cardinality", 0, 0, st.cardinality, card);
        eq("statistics.min_value", 0, 0, st.min_value, s.empty() ? UINT32_MAX : s.min());
        eq("statistics.max_value", 0, 0, st.max_value, s.empty() ? 0 : s.max());
        eq("statistics.n_containers", 0, 0, st.n_containers,
           (uint64_t)st.n_array_containers + st.n_run_containers + st.n_bitset_containers);
        eq("statistics.n_values", 0, 0, (uint64_t)st.n_values_array_containers + st.n_values_run_containers + st.n_values_bitset_containers,
           card & 0xFFFFFFFF);
        uint64_t keys = split32(s, [](const Chunk &) { return R_AUTO; }).size();
        eq("statistics.n_containers vs chunks", 0, 0, st.n_containers, keys);
    }
    if (o.extraction && card <= (1u << 20)) {
        auto all = s.list();
        Set g = to_set(r);
        MC_CHECK(g == s, "to_uint32_array: %s", diff_str(g, s).c_str());
        e.eval();
        // paging: offsets and limits at every boundary rank
        std::vector<uint64_t> offs = {0, 1, 2, 4095, 4096, 4097, card / 2, card - 1, card, card + 1, card + 100000};
        for (auto x : p32) offs.push_back(s.rank(x));
        std::sort(offs.begin(), offs.end());
        offs.erase(std::unique(offs.begin(), offs.end()), offs.end());
        if (offs.size() > 24) {
            std::vector<uint64_t> t;
            for (size_t i = 0; i < 24; i++) t.push_back(offs[i * (offs.size() - 1) / 23]);
            offs = t;
        }
        for (auto off : offs)
            for (uint64_t lim : {(uint64_t)0, (uint64_t)1, (uint64_t)2, (uint64_t)63, (uint64_t)1000, card + 5}) {
                if (off > card + 200000) continue;
                uint64_t n = off < card ? std::min(lim, card - off) : 0;
                // exactly the memory the interface asks for: one slot per requested element
                uint32_t *pg = (uint32_t *)malloc(lim * 4 + (lim == 0));
                bool ok = roaring_bitmap_range_uint32_array(r, (size_t)off, (size_t)lim, pg);
                std::string why;
                if (!ok) why = "reported failure";
                for (uint64_t i = 0; i < n && why.empty(); i++)
                    if (pg[i] != all[off + i])
                        why = mc::strf("[%llu]: got %u, expected %llu", (ull)i, pg[i], (ull)all[off + i]);
                free(pg);
                if (!why.empty()) mc::fail("range_uint32_array(%llu,%llu) %s", (ull)off, (ull)lim, why.c_str());
                e.eval();
            }
    }
    if (o.iterate && card <= (1u << 18)) {
        for (uint64_t stop : {UINT64_MAX, (uint64_t)1, (uint64_t)2, card / 2 + 1, card}) {
            if (stop == 0) continue;
            IterRec a, b;
            a.stop_after = b.stop_after = stop;
            bool ra = roaring_iterate(r, rec32, &a);
            uint64_t hi = 0xABCDull << 32;
            bool rb = roaring_iterate64(r, rec64, hi, &b);
            uint64_t want = std::min(stop, card);
            eq("iterate calls", stop, 0, a.calls, want);
            eq("iterate64 calls", stop, 0, b.calls, want);
            eq("iterate returned", stop, 0, ra, stop > card);
            eq("iterate64 returned", stop, 0, rb, stop > card);
            uint64_t i = 0;
            if (stop == UINT64_MAX || want < 100)
                s.each([&](uint64_t x) {
                    if (i < want) {
                        if (a.got[i] != x) mc::fail("iterate[%llu]: got %llu, expected %llu", (ull)i, (ull)a.got[i], (ull)x);
                        if (b.got[i] != (x | hi)) mc::fail("iterate64[%llu]: got %llu, expected %llu", (ull)i, (ull)b.got[i], (ull)(x | hi));
                    }
                    i++;
                });
        }
    }
}
// conversion to an uncompressed bitset (only for sets whose maximum is moderate)
inline void check_to_bitset(const R *r, const Set &s) {
    if (!s.empty() && s.max() > (1u << 24)) return;
    for (int pre = 0; pre < 2; pre++) {
        bitset_t *b = pre ? bitset_create_with_capacity(777) : bitset_create();
        MC_CHECK(b, "bitset_create failed");
        if (pre) {  // the interface asks for a cleared bitset; its size stays
            bitset_set(b, 5);
            bitset_set(b, 700);
            bitset_clear(b);
        }
        bool ok = roaring_bitmap_to_bitset(r, b);
        Set g;
        size_t i = 0;
        uint64_t cnt = bitset_count(b);
        bool size_ok = s.empty() || bitset_size_in_bits(b) > s.max();
        for (; bitset_next_set_bit(b, &i); i++) {
            if (!g.v.empty() && g.v.back().b + 1 == i) g.v.back().b = i;
            else g.v.push_back({i, i});
        }
        bitset_free(b);
        MC_CHECK(ok, "to_bitset reported failure");
        MC_CHECK(size_ok, "to_bitset: bitset too small for the maximum");
        MC_CHECK(g == s, "to_bitset(%s): %s", pre ? "non-empty target" : "empty target", diff_str(g, s).c_str());
        MC_CHECK(cnt == s.card(), "to_bitset: count %llu", (unsigned long long)cnt);
        mc::E().eval();
    }
}
