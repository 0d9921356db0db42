// Rows: 24 chunks of every kind, and every interval of positions in the row.
#pragma once
#include "lib32.hpp"
namespace rows {
static const int N = 24;
static const uint64_t INTERVALS = N * (N + 1) / 2;
inline const std::vector<std::pair<Set, Rep>> &kinds() {
    static const std::vector<std::pair<Set, Rep>> k = {
        {Set{3, 9, 65535}, R_ARRAY}, {Set::range(5, 300), R_RUN}, {Set::range(60000, 64500).uni(Set{9}), R_BITSET}, {Set{777}, R_ARRAY},
        {Set::range(0, 40), R_RUN}, {Set{0, 65535}, R_RUN}, {Set::step(0, 65535, 800), R_ARRAY}, {full16(), R_RUN}};
    return k;
}
inline const std::pair<Set, Rep> &kind(int c, int v) { return kinds()[c == 11 ? 7 : (c * 5 + c / 7 + v) % 7]; }
// interval number p: positions i..j inclusive
inline void interval(uint64_t p, int &i, int &j) {
    i = 0;
    for (j = (int)p; j >= N - i; j -= N - i, i++) {}
    j += i;
}
inline Chunks row(int v, uint64_t k0, int step, int i = 0, int j = N - 1) {
    Chunks c;
    for (int k = i; k <= j; k++) c.push_back({(uint16_t)(k0 + (uint64_t)k * step), kind(k, v).first, kind(k, v).second});
    return c;
}
// Wide rows: 300 chunks (positions and counts beyond 256), intervals between positions around powers of two.
static const int W = 300;
static const int WP[] = {0, 1, 7, 31, 128, 254, 255, 256, 257, 298, 299};
static const uint64_t WINTERVALS = 11 * 12 / 2;
inline const std::pair<Set, Rep> &wkind(int c, int v) {
    static const std::vector<std::pair<Set, Rep>> k = {{Set{3, 9, 65535}, R_ARRAY}, {Set::range(5, 300), R_RUN}, {Set{777}, R_ARRAY}, {Set::range(0, 40), R_RUN},
                                                       {Set{0, 65535}, R_RUN}, {Set::range(100, 5000), R_BITSET}, {full16(), R_RUN}};
    return k[(c + v) % 41 == 7 ? 5 : c == 150 ? 6 : (c * 3 + c / 5 + v) % 5];
}
inline void winterval(uint64_t p, int &i, int &j) {
    int a = 0, b;
    for (b = (int)p; b >= 11 - a; b -= 11 - a, a++) {}
    i = WP[a], j = WP[a + b];
}
// part: 0 the interval, 1 what is outside it, 2 the keys beside the interval's
inline Chunks wrow(int v, uint64_t k0, int step, int i = 0, int j = W - 1, int part = 0) {
    Chunks c;
    for (int k = 0; k < W; k++)
        if ((k >= i && k <= j) != (part == 1)) c.push_back({(uint16_t)(k0 + (uint64_t)k * step + (part == 2)), wkind(k, v).first, wkind(k, v).second});
    return c;
}
// Either family under one name, for cases that run on both.
struct Rows {
    bool wide;
    int n() const { return wide ? W : N; }
    uint64_t intervals() const { return wide ? WINTERVALS : INTERVALS; }
    void interval(uint64_t p, int &i, int &j) const { wide ? winterval(p, i, j) : rows::interval(p, i, j); }
    Chunks row(int v, uint64_t k0, int step) const { return row(v, k0, step, 0, n() - 1); }
    Chunks row(int v, uint64_t k0, int step, int i, int j) const { return wide ? wrow(v, k0, step, i, j) : rows::row(v, k0, step, i, j); }
    std::vector<int> points() const {
        if (wide) return std::vector<int>(WP, WP + 11);
        std::vector<int> p;
        for (int i = 0; i < N; i++) p.push_back(i);
        return p;
    }
    const char *name() const { return wide ? "wide rows" : "rows"; }
};
// A partner for a row that agrees with it everywhere but in chunk p. how: 0 the row itself, 1 without chunk p's last value,
// 2 with one more value in chunk p, 3 other values in every chunk but p (nothing else in common), 4 the same contents as
// plain chunks, 5 the row plus a chunk behind it.
static const int TWINS = 6;
inline Chunks twin(Chunks c, int p, int how) {
    if (how == 5) {
        c.push_back({(uint16_t)(c.back().key + 1), Set{4}, R_ARRAY});
        return c;
    }
    for (int k = 0; k < (int)c.size(); k++) {
        Set &s = c[k].s;
        if (how == 4 && c[k].rep == R_RUN) c[k].rep = s.card() > 4096 ? R_BITSET : R_ARRAY;
        if (how == 3 && k != p) {
            s = s.card() == 65536 ? Set() : Set{s.max() == 65535 ? 40001 : s.max() + 1, 1};
            if (!s.empty() && s.min() == 1) s.remove(1);
            c[k].rep = R_ARRAY;
        }
        if (k != p) continue;
        if (how == 1) s.remove(s.max());
        if (how == 2 && s.card() < 65536) s.add(s.has(50001) ? 4 : 50001);
    }
    Chunks o;
    for (auto &x : c)
        if (!x.s.empty()) {
            if (x.rep == R_ARRAY && x.s.card() > 4096) x.rep = R_BITSET;
            if (x.rep == R_BITSET && x.s.card() <= 4096) x.rep = R_ARRAY;
            o.push_back(x);
        }
    return o;
}
// the same under 48-bit keys
inline std::vector<Bucket> wrow64(int v, uint64_t k0, uint64_t step, int i = 0, int j = W - 1, int part = 0) {
    std::vector<Bucket> b;
    for (int k = 0; k < W; k++) {
        if ((k >= i && k <= j) == (part == 1)) continue;
        uint64_t key = k0 + k * step + (part == 2);
        if (b.empty() || b.back().high != (uint32_t)(key >> 16)) b.push_back({(uint32_t)(key >> 16), {}});
        b.back().cs.push_back({(uint16_t)key, wkind(k, v).first, wkind(k, v).second});
    }
    return b;
}
}  // namespace rows
