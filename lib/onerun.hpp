// One interval [a, z] of a chunk, of every length around word and block boundaries, and chunks that avoid it, meet it in one
// value or have all of it but one value.
#pragma once
#include "lib32.hpp"
namespace onerun {
static const int LENS[] = {0, 1, 2, 3, 15, 30, 31, 32, 33, 61, 62, 63, 64, 65, 66, 94, 95, 96, 97, 125, 126, 127, 128, 129, 130, 190, 191, 192, 193, 254, 255, 256,
                           257, 258, 319, 383, 511, 512, 513, 767, 1023, 1024, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 32767, 60000};
static const int STARTS[] = {0, 1, 31, 63, 64, 100, 127, 4095, -1, -2, -64, -65};  // negative: the interval ends that far from the end
static const uint64_t NL = sizeof LENS / sizeof *LENS, NS = sizeof STARTS / sizeof *STARTS;
inline uint64_t count() { return NL * NS; }
inline bool get(uint64_t i, int &a, int &z) {
    int len = LENS[i % NL];
    a = STARTS[i / NL];
    if (a < 0) a = 65536 + a - len;
    z = a + len;
    return a >= 0 && z <= 65535;
}
inline std::vector<std::pair<Set, Rep>> partners(int a, int z) {
    Set A = Set::range((uint64_t)a, (uint64_t)z);
    std::set<int> pts = {-1, a, z, a + (z - a) / 2, std::min(z, (a | 63) + 1), std::max(a, (z & ~63) - 1)};
    std::vector<std::pair<Set, Rep>> bs;
    Set far, rest = full16().minus(A), odd = Set::step(1, 65535, 2).minus(A);
    for (int d : {1, 2, 70, 300}) {
        if (a - d >= 0) far.add((uint64_t)(a - d));
        if (z + d <= 65535) far.add((uint64_t)(z + d));
    }
    auto put = [&](Set t, Rep r) {
        if (!t.empty() && valid_rep(t, r)) bs.push_back({t, r});
    };
    for (int x : pts) {
        Set one;
        if (x >= 0) one.add((uint64_t)x);
        put(far.uni(one), R_ARRAY);
        put(rest.uni(one), R_RUN);
        put(rest.uni(one), R_BITSET);
        put(odd.uni(one), R_BITSET);
        if (x < 0) continue;
        put(one, R_ARRAY);
        put(A.minus(one), R_RUN);
        put(A.minus(one), natural(A.minus(one)));
        put(full16().minus(one), R_BITSET);
    }
    return bs;
}
}  // namespace onerun
