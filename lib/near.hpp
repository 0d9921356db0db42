// Pairs of chunk contents that differ in exactly one place, at every place: words of bitsets, positions of
// sorted arrays, runs of run lists.  Many have equal cardinality, so no shortcut tells them apart.
#pragma once
#include "lib32.hpp"
namespace near_ {
struct Pair {
    Set a, b;
    Rep ra, rb;
    std::string name;
};
static const int NB = 1024 * 2;
inline const std::vector<std::pair<int, int>> &array_places() {  // (size, position)
    static std::vector<std::pair<int, int>> v;
    if (v.empty()) {
        for (int n = 1; n <= 40; n++)
            for (int p = 0; p < n; p++) v.push_back({n, p});
        for (int n : {64, 127, 128, 129, 1000, 4095, 4096})
            for (int p = 0; p < n; p++)
                if (p < 18 || p >= n - 18 || p % 509 == 7) v.push_back({n, p});
    }
    return v;
}
inline const std::vector<std::pair<int, int>> &run_places() {
    static std::vector<std::pair<int, int>> v;
    if (v.empty())
        for (int n = 1; n <= 20; n++)
            for (int p = 0; p < n; p++) v.push_back({n, p});
    return v;
}
inline uint64_t count() { return NB + array_places().size() * 3 + run_places().size() * 5; }
inline Pair get(uint64_t i) {
    Pair q;
    if (i < (uint64_t)NB) {
        uint64_t w = i / 2;
        Set base = Set::range(20000, 30000);
        q.a = base.xr(Set{64 * w + w % 61});
        q.b = i % 2 ? base : base.xr(Set{64 * w + w % 61 + 2});
        q.ra = q.rb = R_BITSET;
        q.name = mc::strf("bitsets, word %llu variant %llu", (unsigned long long)w, (unsigned long long)(i % 2));
        return q;
    }
    i -= NB;
    auto &ap = array_places();
    if (i < ap.size() * 3) {
        int n = ap[i / 3].first, p = ap[i / 3].second, v = (int)(i % 3);
        uint64_t from = n > 1000 ? 2 : 65535 - 3 * (n + 1);
        std::vector<uint64_t> x, y;
        for (int k = 0; k < n; k++) {
            uint64_t e = from + 3 * k;
            x.push_back(e);
            if (k != p) y.push_back(e);
            else if (v == 0) y.push_back(e + 1);
            else if (v == 2 && n < 4096) y.push_back(e), y.push_back(e + 2);
        }
        for (auto e : x) q.a.v.push_back({e, e});
        for (auto e : y) {
            if (!q.b.v.empty() && q.b.v.back().b + 1 == e) q.b.v.back().b = e;
            else q.b.v.push_back({e, e});
        }
        q.ra = q.rb = R_ARRAY;
        if (q.b.empty()) q.b = Set{0};
        q.name = mc::strf("arrays of %d, position %d variant %d", n, p, v);
        return q;
    }
    i -= ap.size() * 3;
    auto &rp = run_places();
    int n = rp[i / 5].first, p = rp[i / 5].second, v = (int)(i % 5);
    for (int k = 0; k < n; k++) {
        uint64_t a = (n % 2 ? 0 : 65535 - 100ull * n + 41) + 100 * k, b = a + 58;  // the last run may end the chunk
        q.a.v.push_back({a, b});
        if (k != p) q.b.v.push_back({a, b});
        else switch (v) {
            case 0: q.b.v.push_back({a, b - 1}); break;
            case 1: q.b.v.push_back({a + 1, b}); break;
            case 2: break;
            case 3: q.b.v.push_back({a, a + 20}); q.b.v.push_back({a + 22, b}); break;
            case 4: q.b.v.push_back({a + 1, b < 65535 ? b + 1 : b}); break;
        }
    }
    if (q.b.empty()) q.b = Set{60000};
    q.ra = q.rb = R_RUN;
    q.name = mc::strf("%d runs, run %d variant %d", n, p, v);
    return q;
}
}  // namespace near_
