// Four consecutive chunks, each absent, full, short of full by one value, or holding a block at either end:
// every combination, with every pair of boundary positions. Decides the multi-chunk range predicates.
#pragma once
#include "lib32.hpp"
struct SpanKind { Set s; Rep r; };
inline const std::vector<SpanKind> &span_kinds() {
    static const std::vector<SpanKind> k = {
        {Set(), R_AUTO},
        {full16(), R_RUN},
        {full16(), R_BITSET},
        {full16().minus(Set{30000}), R_BITSET},
        {Set::range(1, 65535), R_RUN},
        {Set::range(0, 65534), R_RUN},
        {Set::range(64000, 65535), R_ARRAY},
        {Set::range(0, 1599), R_ARRAY},
        {Set::range(0, 1599).uni(Set::range(64000, 65535)), R_RUN},
    };
    return k;
}
inline uint64_t span_count() { return 9ull * 9 * 9 * 9; }
// the chunks of combination c, at keys key..key+3
inline Chunks span_chunks(uint64_t c, uint16_t key) {
    Chunks ch;
    for (int j = 0; j < 4; j++, c /= 9)
        if (c % 9) ch.push_back({(uint16_t)(key + j), span_kinds()[c % 9].s, span_kinds()[c % 9].r});
    return ch;
}
// calls f(a, b, count of values in [a,b]) for every boundary pair a<=b, positions relative to the first chunk
template <class F>
inline void span_pairs(const Set &s, uint64_t base, bool thorough, F f) {
    static const uint64_t P[] = {0, 1, 1599, 1600, 30000, 30001, 63999, 64000, 65534, 65535};
    struct Pt { uint64_t x, below, le; };
    std::vector<Pt> p;
    for (uint64_t j = 0; j < 4; j++)
        for (uint64_t q : P) {
            if (!thorough && (q == 30001 || q == 1)) continue;
            uint64_t x = base + (j << 16 | q);
            uint64_t r = s.rank(x);
            p.push_back({x, r - s.has(x), r});
        }
    for (size_t i = 0; i < p.size(); i++)
        for (size_t j = i; j < p.size(); j++) f(p[i].x, p[j].x, p[j].le - p[i].below);
}
