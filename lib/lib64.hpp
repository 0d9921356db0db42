// Helpers for 64-bit bitmaps.
#pragma once
#include "lib32.hpp"
#include <roaring/roaring64.h>
typedef roaring64_bitmap_t R64;
struct RFree64 {
    void operator()(R64 *r) const { roaring64_bitmap_free(r); }
};
typedef std::unique_ptr<R64, RFree64> RP64;
inline Rep rep_natural(const Chunk &c) { return natural(c.s); }
inline Rep rep_run(const Chunk &) { return R_RUN; }
// runs only where they are the smaller encoding
inline Rep rep_best(const Chunk &c) {
    size_t runs = 2 + 4 * c.s.v.size(), nat = c.s.card() <= 4096 ? 2 * c.s.card() : 8192;
    return runs < nat ? R_RUN : natural(c.s);
}
inline R64 *build64_buckets(const std::vector<Bucket> &bs) {
    std::string b = encode64(bs);
    R64 *r = roaring64_bitmap_portable_deserialize_safe(b.data(), b.size());
    MC_CHECK(r, "builder: a specification-conforming 64-bit stream was refused");
    return r;
}
inline R64 *build64(const Set &s, Rep (*rep)(const Chunk &) = rep_best) { return build64_buckets(split64(s, rep)); }
inline Set to_set64(const R64 *r) {
    uint64_t n = roaring64_bitmap_get_cardinality(r);
    MC_CHECK(n <= (1u << 27), "cardinality %llu too large to extract", (unsigned long long)n);
    std::vector<uint64_t> v(n + 1, 0xA5A5A5A5A5A5A5A5ull);
    roaring64_bitmap_to_uint64_array(r, v.data());
    MC_CHECK(v[n] == 0xA5A5A5A5A5A5A5A5ull, "to_uint64_array wrote past the cardinality %llu", (unsigned long long)n);
    Set s;
    for (uint64_t i = 0; i < n; i++) {
        uint64_t x = v[i];
        if (i)
            MC_CHECK(x > v[i - 1], "to_uint64_array not increasing at %llu: %llu then %llu", (unsigned long long)i,
                     (unsigned long long)v[i - 1], (unsigned long long)x);
        if (!s.v.empty() && s.v.back().b + 1 == x) s.v.back().b = x;
        else s.v.push_back({x, x});
    }
    return s;
}
inline std::string ser_bytes64(const R64 *r) {
    std::string b(roaring64_bitmap_portable_size_in_bytes(r), '\0');
    size_t w = roaring64_bitmap_portable_serialize(r, &b[0]);
    MC_CHECK(w == b.size(), "64-bit serialize wrote %zu of %zu bytes", w, b.size());
    return b;
}
inline Set to_set64_ser(const R64 *r, std::vector<Bucket> *out = nullptr) {
    std::string b = ser_bytes64(r), why = "format";
    std::vector<Bucket> bs;
    size_t used = 0;
    MC_CHECK(decode64(b.data(), b.size(), bs, used, &why), "64-bit serialized bytes do not follow the format: %s", why.c_str());
    MC_CHECK(used == b.size(), "64-bit serialized bytes: %zu used of %zu", used, b.size());
    if (out) *out = bs;
    return buckets_set(bs);
}
inline void expect_set64(const R64 *r, const Set &want, const char *what) {
    MC_CHECK(r != nullptr, "%s: NULL result", what);
    uint64_t c = roaring64_bitmap_get_cardinality(r);
    MC_CHECK(c == want.card(), "%s: cardinality %llu, expected %llu", what, (unsigned long long)c, (unsigned long long)want.card());
    Set g = c > g_extract_limit ? to_set64_ser(r) : to_set64(r);
    if (g != want) mc::fail("%s: wrong contents: %s", what, diff_str(g, want).c_str());
}
inline void expect_valid64(const R64 *r, const char *what) {
    const char *why = nullptr;
    if (!roaring64_bitmap_internal_validate(r, &why)) mc::fail("%s: 64-bit internal validation fails: %s", what, why ? why : "?");
}
static const uint64_t U64M = UINT64_MAX;
