// A list of 64-bit bitmaps to run per-bitmap checks on.
#pragma once
#include "lib64.hpp"
struct Zoo64 {
    std::string name;
    Set s;
    int how;  // 0 read from bytes with natural chunks, 1 runs, 2 added one by one, 3 added with extra keys which are removed again
};
inline std::vector<Zoo64> zoo64(int level) {
    static std::vector<Content> cat;
    cat = contents(level);
    std::vector<Zoo64> z;
    z.push_back({"empty", Set(), 0});
    z.push_back({"emptied", Set(), 3});
    static const uint64_t bases[4] = {0, 1ull << 16, 0x1234567890ull << 16, 0xFFFFFFFFFFFFull << 16};
    for (size_t i = 0; i < cat.size(); i++)
        for (int how = 0; how < 4; how++)
            z.push_back({cat[i].name + mc::strf(" how %d base %zu", how, (i + how) % 4), cat[i].s.shift(bases[(i + how) % 4]), how});
    static const std::vector<Set> ks = {Set(), Set{0, 65535}, full16(), Set::range(62, 4200), Set::range(0, 9).uni(Set::range(65530, 65535))};
    static const uint64_t pools[4][4] = {{0, 1, 2, 3}, {0xFFFFFFFFFFFCull, 0xFFFFFFFFFFFDull, 0xFFFFFFFFFFFEull, 0xFFFFFFFFFFFFull}, {0, 0xFF, 0x10000, 0xFFFFFFFFFFFFull}, {5, 6, 0x100000005ull, 0x100000006ull}};
    for (int p = 0; p < 4; p++)
        for (int q = 1; q < 625; q += level >= 2 ? 1 : 3) {
            Set s;
            int c = q;
            for (int j = 0; j < 4; j++, c /= 5) s = s.uni(ks[c % 5].shift(pools[p][j] << 16));
            z.push_back({mc::strf("layout %d pool %d", q, p), s, (q + p) % 2});
        }
    for (int n : {2, 4, 5, 16, 17, 48, 49, 100, 255, 256, 257, 1000})
        for (int shift : {16, 24, 40, 56})
            for (int how = 0; how < 4; how++) {
                Set s;
                for (int k = 0; k < n && (shift < 56 || k < 256); k++) s.add(((uint64_t)k << shift) | (uint64_t)(k % 7));
                z.push_back({mc::strf("%d keys at bit %d how %d", n, shift, how), s, how});
            }
    return z;
}
inline R64 *zoo64_build(const Zoo64 &z) {
    if (z.how <= 1) return build64(z.s, z.how ? rep_run : rep_natural);
    R64 *r = roaring64_bitmap_create();
    auto v = z.s.list();
    if (z.how == 2) {
        for (auto x : v) roaring64_bitmap_add(r, x);
        return r;
    }
    // extra keys come and go, in an order that leaves freed slots in the middle
    std::vector<uint64_t> ex;
    for (uint64_t k = 0; k < 60; k++) {
        uint64_t x = (k * 0x9E3779B97F4A7C15ull & ~65535ull) | 3;
        if (k % 3 == 0) x = k << 16 | 40000;
        if (!z.s.has(x)) ex.push_back(x);
    }
    for (size_t i = 0; i < ex.size() / 2; i++) roaring64_bitmap_add(r, ex[i]);
    for (size_t i = v.size(); i-- > 0;) roaring64_bitmap_add(r, v[i]);
    for (size_t i = ex.size() / 2; i < ex.size(); i++) roaring64_bitmap_add(r, ex[i]);
    for (auto x : ex) roaring64_bitmap_remove(r, x);
    return r;
}
