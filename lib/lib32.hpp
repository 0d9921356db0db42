// Helpers for 32-bit bitmaps: catalogue of contents, builders for every representation, comparison with
// the model.
#pragma once
#include <memory>
#include <roaring/roaring.h>
#include "codec.hpp"
#include "hooks.hpp"
#include "mc.hpp"

struct Content {
    std::string name;
    Set s;  // over 0..65535
};
inline uint64_t lcg(uint64_t &x) {
    x = x * 6364136223846793005ULL + 1442695040888963407ULL;
    return x >> 33;
}
inline Set scattered(uint64_t seed, uint64_t n) {  // n pseudo-random distinct values, fixed
    std::vector<bool> b(65536);
    uint64_t x = seed, c = 0;
    while (c < n) {
        uint64_t v = lcg(x) & 0xffff;
        if (!b[v]) {
            b[v] = true;
            c++;
        }
    }
    Set s;
    for (uint64_t i = 0; i < 65536; i++)
        if (b[i]) {
            if (!s.v.empty() && s.v.back().b + 1 == i) s.v.back().b = i;
            else s.v.push_back({i, i});
        }
    return s;
}
inline Set full16() { return Set::range(0, 65535); }
inline Set first_n(const Set &s, uint64_t n) {
    Set r;
    for (auto i : s.v) {
        if (!n) break;
        uint64_t k = std::min(n, i.b - i.a + 1);
        r.v.push_back({i.a, i.a + k - 1});
        n -= k;
    }
    return r;
}
// level 0: small core, 1: quick, 2: thorough
inline std::vector<Content> contents(int level) {
    std::vector<Content> c;
    auto add = [&](int l, const char *n, Set s) {
        if (l <= level) c.push_back({n, s});
    };
    add(0, "zero", Set{0});
    add(0, "last", Set{65535});
    add(1, "first2", Set{0, 1});
    add(0, "ends", Set{0, 65535});
    add(0, "small8", Set{0, 1, 2, 100, 1000, 30000, 65534, 65535});
    add(1, "wordedge", Set{63, 64, 127, 128, 191, 255, 256, 4095, 4096});
    add(2, "a31", Set::step(3, 65535, 2000));
    add(1, "a33", Set::step(5, 65000, 1999));
    add(2, "a64", Set::step(0, 65535, 1024));
    add(1, "a100", scattered(11, 100));
    add(2, "a1023", first_n(Set::step(1, 65535, 64), 1023));
    add(1, "a1025", first_n(Set::step(0, 65535, 60), 1025));
    add(0, "a2000", scattered(7, 2000));
    add(1, "a3000", scattered(21, 3000));
    add(1, "a4095", first_n(Set::step(0, 65535, 16), 4095));
    add(0, "a4096", Set::step(0, 65535, 16));
    add(2, "a4096b", scattered(5, 4096));
    add(0, "b4097", first_n(Set::step(0, 65535, 15), 4097));
    add(1, "b4098", scattered(9, 4098));
    add(0, "d4096", Set::range(0, 4095));
    add(1, "d4097", Set::range(0, 4096));
    add(1, "d4096hi", Set::range(61440, 65535));
    add(0, "dmid", Set::range(30000, 40000));
    add(1, "word", Set::range(64, 127));
    add(2, "unaligned", Set::range(65, 130));
    add(0, "even", Set::step(0, 65535, 2));
    add(1, "odd", Set::step(1, 65535, 2));
    add(1, "even4096", first_n(Set::step(0, 65535, 2), 4096));
    add(2, "odd4097", first_n(Set::step(1, 65535, 2), 4097));
    add(0, "full", full16());
    add(1, "full-0", full16().minus(Set{0}));
    add(0, "full-last", full16().minus(Set{65535}));
    add(2, "full-mid", full16().minus(Set{32768}));
    add(1, "full-holes", full16().minus(Set::step(500, 65535, 1000)));
    add(2, "full-ends", Set::range(1, 65534));
    add(1, "half", Set::step(0, 65535, 64, 32));
    add(1, "r2048", Set::step(0, 65535, 32, 31));
    add(2, "r2047", first_n(Set::step(0, 65535, 32, 31), 2047 * 31));
    add(0, "r1986", Set::step(1, 65535, 33, 32));
    add(2, "r3x4096", Set::step(0, 65535, 16, 3));
    add(0, "runs3", Set::range(10, 20).uni(Set::range(100, 200)).uni(Set::range(65000, 65535)));
    add(1, "runsword", Set::range(63, 64).uni(Set::range(127, 128)).uni(Set::range(4095, 4097)));
    add(2, "runs50", Set::step(100, 65535, 1300, 700));
    add(1, "runs5+pts", Set::step(0, 65535, 13107, 3000).xr(scattered(3, 60)));
    add(1, "s5000", scattered(31, 5000));
    add(0, "s20000", scattered(41, 20000));
    add(1, "s60000", scattered(51, 60000));
    add(2, "s65000", scattered(61, 65000));
    return c;
}
struct Item {
    int ci;  // index into contents
    Rep rep;
    std::string name;
    const Set *s;
};
static inline const char *rep_name(Rep r) {
    static const char *n[] = {"auto", "array", "bitset", "run"};
    return n[r];
}
inline std::vector<Item> items(const std::vector<Content> &cs) {
    std::vector<Item> v;
    for (size_t i = 0; i < cs.size(); i++) {
        Rep n = natural(cs[i].s);
        v.push_back({(int)i, n, cs[i].name + "/" + rep_name(n), &cs[i].s});
        v.push_back({(int)i, R_RUN, cs[i].name + "/run", &cs[i].s});
    }
    return v;
}

typedef roaring_bitmap_t R;
struct RFree {
    void operator()(R *r) const { roaring_bitmap_free(r); }
};
typedef std::unique_ptr<R, RFree> RP;

inline R *build_chunks(const Chunks &cs) {
    std::string b = encode32(cs);
    R *r = roaring_bitmap_portable_deserialize_safe(b.data(), b.size());
    MC_CHECK(r, "builder: a specification-conforming stream of %zu chunks was refused", cs.size());
    return r;
}
inline R *build(const Set &s, uint16_t key, Rep rep) { return build_chunks({{key, s, rep}}); }
// same contents through the public update interface, leaving spare capacity behind
inline R *build_slack(const Set &s, uint16_t key, Rep rep) {
    R *r = roaring_bitmap_create();
    uint32_t base = (uint32_t)key << 16;
    if (rep == R_RUN) {
        for (auto &i : s.v) roaring_bitmap_add_range_closed(r, base + (uint32_t)i.a, base + (uint32_t)i.b);
        roaring_bitmap_run_optimize(r);
    } else {
        std::vector<uint32_t> v;
        s.each([&](uint64_t x) { v.push_back(base + (uint32_t)x); });
        roaring_bitmap_add_many(r, v.size(), v.data());
    }
    return r;
}
inline Set to_set(const R *r) {
    uint64_t n = roaring_bitmap_get_cardinality(r);
    MC_CHECK(n <= (1u << 27), "cardinality %llu too large to extract", (unsigned long long)n);
    std::vector<uint32_t> v(n + 1, 0xA5A5A5A5u);
    roaring_bitmap_to_uint32_array(r, v.data());
    MC_CHECK(v[n] == 0xA5A5A5A5u, "to_uint32_array wrote past cardinality %llu", (unsigned long long)n);
    Set s;
    for (uint64_t i = 0; i < n; i++) {
        uint64_t x = v[i];
        if (i) MC_CHECK(x > v[i - 1], "to_uint32_array not increasing at %llu: %u then %u", (unsigned long long)i, v[i - 1], v[i]);
        if (!s.v.empty() && s.v.back().b + 1 == x) s.v.back().b = x;
        else s.v.push_back({x, x});
    }
    return s;
}
// contents through the serialized bytes and the independent decoder (works for huge sets)
inline Set to_set_ser(const R *r, Chunks *out = nullptr) {
    size_t n = roaring_bitmap_portable_size_in_bytes(r);
    std::vector<char> b(n + 1);
    size_t w = roaring_bitmap_portable_serialize(r, b.data());
    MC_CHECK(w == n, "serialize wrote %zu of %zu bytes", w, n);
    Chunks cs;
    size_t used;
    std::string why;
    MC_CHECK(decode32(b.data(), n, cs, used, &why), "serialized bytes do not follow the format: %s", why.c_str());
    MC_CHECK(used == n, "serialized bytes: %zu used of %zu", used, n);
    Set s = chunks_set(cs);
    if (out) *out = cs;
    return s;
}
inline bool ser_eq(const R *r, const std::string &want) {
    std::string b(roaring_bitmap_portable_size_in_bytes(r), '\0');
    roaring_bitmap_portable_serialize(r, &b[0]);
    return b == want;
}
inline std::string diff_str(const Set &got, const Set &want) {
    return "got-want=" + got.minus(want).str(4) + " want-got=" + want.minus(got).str(4);
}
// larger sets are compared through their serialized bytes instead of extraction to an array
inline uint64_t g_extract_limit = 1u << 20;
inline void expect_set(const R *r, const Set &want, const char *what) {
    MC_CHECK(r != nullptr, "%s: NULL result", what);
    uint64_t c = roaring_bitmap_get_cardinality(r);
    MC_CHECK(c == want.card(), "%s: cardinality %llu, expected %llu", what, (unsigned long long)c,
             (unsigned long long)want.card());
    Set g = c > g_extract_limit ? to_set_ser(r) : to_set(r);
    if (g != want) mc::fail("%s: wrong contents: %s", what, diff_str(g, want).c_str());
}
inline void expect_valid(const R *r, const char *what) {
    const char *why = nullptr;
    if (!roaring_bitmap_internal_validate(r, &why)) mc::fail("%s: internal validation fails: %s", what, why ? why : "?");
}
static const int ISA_LEVELS[3] = {0, 1, 3};
inline const char *isa_name(int l) { return l == 0 ? "scalar" : l == 1 ? "avx2" : "avx512"; }
struct IsaScope {
    int old;
    IsaScope(int l) : old(g_isa) { g_isa = l; }
    ~IsaScope() { g_isa = old; }
};
struct LeakScope {  // fails when the case leaves blocks behind
    int64_t l0 = hk::S.live;
    void check(const char *what) {
        MC_CHECK(hk::S.live == l0, "%s: %lld blocks left allocated", what, (long long)(hk::S.live - l0));
    }
};
