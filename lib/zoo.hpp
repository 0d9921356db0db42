// A list of 32-bit bitmaps to run per-bitmap checks on: catalogue items at several keys, key layouts, wide sets.
#pragma once
#include "lib32.hpp"
struct Zoo {
    std::string name;
    Chunks cs;
    bool shared;
    bool slack;  // built through updates, leaving spare capacity
};
inline std::vector<Zoo> zoo(int level, bool with_shared = true) {
    static std::vector<Content> cat;
    cat = contents(level);
    std::vector<Zoo> z;
    auto add = [&](std::string n, Chunks c) {
        z.push_back({n, c, false, false});
        if (with_shared) z.push_back({n + " shared", c, true, false});
    };
    add("empty", {});
    auto its = items(cat);
    for (size_t i = 0; i < its.size(); i++) {
        uint16_t key = (uint16_t)(i % 3 == 0 ? 0 : i % 3 == 1 ? 6 : 0xFFFF);
        add(its[i].name + mc::strf("@%u", key), {{key, *its[i].s, its[i].rep}});
        z.push_back({its[i].name + " slack", {{key, *its[i].s, its[i].rep}}, false, true});
    }
    struct K { Set s; Rep r; };
    static const std::vector<K> ks = {{Set(), R_AUTO}, {Set{0, 65535}, R_ARRAY}, {full16(), R_RUN}, {Set::range(3, 9).uni(Set{70}), R_RUN},
                                      {Set::step(0, 65535, 11), R_BITSET}, {Set::step(1, 65535, 16), R_ARRAY}};
    static const uint16_t keys[5] = {0, 1, 2, 300, 0xFFFF};
    int nk = level >= 2 ? 5 : 4;
    uint64_t per = 1;
    for (int j = 0; j < nk; j++) per *= ks.size();
    for (uint64_t q = 0; q < per; q++) {
        uint64_t c = q;
        Chunks ch;
        std::string nm;
        for (int j = 0; j < nk; j++, c /= ks.size())
            if (c % ks.size()) {
                ch.push_back({keys[j + (nk == 4 && j)], ks[c % ks.size()].s, ks[c % ks.size()].r});
                nm += mc::strf("%u:%s%llu ", ch.back().key, rep_name(ch.back().rep), (unsigned long long)(c % ks.size()));
            }
        z.push_back({nm, ch, with_shared && q % 3 == 1, false});
    }
    for (uint32_t n : {3u, 4u, 5u, 7u, 8u, 9u, 15u, 16u, 17u, 100u, 1000u}) {  // header shapes
        for (int v = 0; v < 4; v++) {
            Chunks ch;
            for (uint32_t k = 0; k < n; k++) {
                bool run = v == 1 || (v == 2 && k % 3 == 0) || (v == 3 && k == n - 1);
                ch.push_back({(uint16_t)(k * 60), run ? Set::range(k, k + 10) : Set{k, 2 * k + 1, 60000}, run ? R_RUN : R_ARRAY});
            }
            add(mc::strf("wide %u variant %d", n, v), ch);
        }
    }
    return z;
}
inline R *zoo_build(const Zoo &z, RP &sharer) {
    R *r;
    if (z.cs.empty()) r = roaring_bitmap_create();
    else if (z.slack) r = build_slack(z.cs[0].s, z.cs[0].key, z.cs[0].rep);
    else r = build_chunks(z.cs);
    if (z.shared) {
        roaring_bitmap_set_copy_on_write(r, true);
        sharer.reset(roaring_bitmap_copy(r));
    }
    return r;
}
