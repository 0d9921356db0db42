// Bounds-checked readers on systematically damaged streams, 32-bit and 64-bit.
#pragma once
#include "queries32.hpp"
#include "lib64.hpp"
#include "rows.hpp"
namespace ut {
typedef unsigned long long ull;
struct Exact {  // exactly n readable bytes (address-sanitized library code reads them)
    char *p;
    Exact(const char *b, size_t n) {
        p = (char *)malloc(n ? n : 1);
        if (n) memcpy(p, b, n);
        if (!n) {
            free(p);
            p = (char *)malloc(0);
        }
    }
    ~Exact() { free(p); }
};
// the same accepted bytes are exercised once per worker
inline bool first_time(const char *b, size_t n) {
    static std::set<uint64_t> done;
    mc::Hash h;
    h.bytes(b, n);
    h.u64(n);
    return done.insert(h.h).second;
}
inline void exercise32(R *r) {
    // a validated bitmap behaves as a proper set
    Set S = to_set(r);
    MC_CHECK(S.card() == roaring_bitmap_get_cardinality(r), "validated bitmap: cardinality disagrees with extraction");
    bool big = S.card() > 6000;
    // the quadratic range queries: once per shape (cardinality, number of intervals, ends) and worker
    static std::set<std::vector<uint64_t>> shapes;
    bool ranges = mc::E().thorough || mc::E().replay ||
                  shapes.insert({S.card(), S.v.size(), S.empty() ? 1 : S.min(), S.empty() ? 0 : S.max()}).second;
    check_queries(r, S, QOpts{2, ranges, !big, !big});
    RP c(roaring_bitmap_copy(r));
    if (!big) expect_set(c.get(), S, "copy of a validated bitmap");
    static const Set O = Set{0, 3, 65535, 65537}.uni(Set::range(100, 5000)).uni(Set::range(131072, 131080));
    RP o(roaring_bitmap_create());
    O.each([&](uint64_t x) { roaring_bitmap_add(o.get(), (uint32_t)x); });
    RP a(roaring_bitmap_and(r, o.get())), u(roaring_bitmap_or(o.get(), r)), x(roaring_bitmap_xor(r, o.get())), d(roaring_bitmap_andnot(r, o.get())),
        d2(roaring_bitmap_andnot(o.get(), r));
    expect_set(a.get(), S.inter(O), "and of a validated bitmap");
    expect_set(u.get(), S.uni(O), "or of a validated bitmap");
    expect_set(x.get(), S.xr(O), "xor of a validated bitmap");
    expect_set(d.get(), S.minus(O), "andnot of a validated bitmap");
    expect_set(d2.get(), O.minus(S), "andnot with a validated bitmap");
    if (!big) {
        RP f(roaring_bitmap_flip(r, 5, 70000));
        expect_set(f.get(), S.flip(5, 69999), "flip of a validated bitmap");
    }
    std::string b(roaring_bitmap_portable_size_in_bytes(r), 0);
    roaring_bitmap_portable_serialize(r, &b[0]);
    roaring_bitmap_run_optimize(r);
    expect_set(r, S, "run_optimize of a validated bitmap");
    roaring_bitmap_remove_run_compression(r);
    expect_set(r, S, "remove_run_compression of a validated bitmap");
    for (uint32_t y : {0u, 4u, 65535u, 65536u, 0xFFFFFFFFu}) {
        roaring_bitmap_add(r, y);
        S.add(y);
    }
    roaring_bitmap_remove_range(r, 2, 66000);
    S.remove_range(2, 65999);
    expect_set(r, S, "updates of a validated bitmap");
    RP back(roaring_bitmap_portable_deserialize_safe(b.data(), b.size()));
    MC_CHECK(back, "bytes written from a validated bitmap are refused");
    MC_CHECK(roaring_bitmap_equals(back.get(), c.get()), "bytes written from a validated bitmap read as another set");
}
// one stream, one limit
inline void one32(const std::string &s, size_t lim) {
    auto &e = mc::E();
    hk::S.max_request = 0;
    int64_t l0 = hk::S.live;
    {
        Exact b(s.data(), lim);
        size_t probe = roaring_bitmap_portable_deserialize_size(b.p, lim);
        MC_CHECK(probe <= lim, "deserialize_size says %zu with a limit of %zu", probe, lim);
        RP r(roaring_bitmap_portable_deserialize_safe(b.p, lim));
        Chunks cs;
        size_t used = 0;
        bool good = decode32(s.data(), lim, cs, used);
        if (good) {
            MC_CHECK(r, "a valid stream of %zu bytes (limit %zu) was refused", used, lim);
            MC_CHECK(probe == used, "deserialize_size says %zu for a valid stream of %zu bytes", probe, used);
        }
        e.eval(2);
        if (r) {
            MC_CHECK(probe > 0, "the size probe refuses what the reader accepts");
            const char *why = nullptr;
            bool v = roaring_bitmap_internal_validate(r.get(), &why);
            bool adjacent = false;
            if (good) {
                // the specification does not say that neighbouring runs are merged; validation may insist
                for (size_t i = 0; i < cs.size(); i++) adjacent |= cs[i].rep == R_RUN;
                if (!v && !adjacent) mc::fail("validation rejects a valid stream: %s", why ? why : "?");
            }
            if (v) {
                if (good) {
                    Set g = to_set(r.get());
                    MC_CHECK(g == chunks_set(cs), "valid stream read as another set: %s", diff_str(g, chunks_set(cs)).c_str());
                }
                size_t rd = probe < lim ? probe : lim;
                if (roaring_bitmap_get_cardinality(r.get()) <= (1u << 18) && (mc::E().replay || first_time(s.data(), rd))) exercise32(r.get());
                e.outcome(mc::hash64(lim * 31 + s.size()) ^ 1);
            }
            mc::Hash h;
            h.bytes(s.data(), lim);
            e.outcome(h.h);
        }
    }
    MC_CHECK(hk::S.live == l0, "%lld blocks leaked reading a stream of %zu bytes", (long long)(hk::S.live - l0), lim);
}
inline void exercise64(R64 *r) {
    Set S = to_set64(r);
    MC_CHECK(S.card() == roaring64_bitmap_get_cardinality(r), "validated 64-bit bitmap: cardinality disagrees with extraction");
    RP64 c(roaring64_bitmap_copy(r));
    expect_set64(c.get(), S, "copy of a validated 64-bit bitmap");
    static const Set O = Set{0, 3, 65535, 65537, 1ull << 32, U64M}.uni(Set::range(100, 5000));
    RP64 o(roaring64_bitmap_create());
    O.each([&](uint64_t x) { roaring64_bitmap_add(o.get(), x); });
    RP64 a(roaring64_bitmap_and(r, o.get())), u(roaring64_bitmap_or(o.get(), r)), x(roaring64_bitmap_xor(r, o.get())), d(roaring64_bitmap_andnot(r, o.get()));
    expect_set64(a.get(), S.inter(O), "and of a validated 64-bit bitmap");
    expect_set64(u.get(), S.uni(O), "or of a validated 64-bit bitmap");
    expect_set64(x.get(), S.xr(O), "xor of a validated 64-bit bitmap");
    expect_set64(d.get(), S.minus(O), "andnot of a validated 64-bit bitmap");
    for (size_t q = 0; q < S.v.size(); q += 1 + S.v.size() / 20)
        for (uint64_t y : {S.v[q].a, S.v[q].b, S.v[q].a - 1, S.v[q].b + 1}) {
            MC_CHECK(roaring64_bitmap_contains(r, y) == S.has(y), "contains on a validated 64-bit bitmap");
            MC_CHECK(roaring64_bitmap_rank(r, y) == S.rank(y), "rank on a validated 64-bit bitmap");
        }
    std::string b = ser_bytes64(r);
    RP64 back(roaring64_bitmap_portable_deserialize_safe(b.data(), b.size()));
    MC_CHECK(back, "bytes written from a validated 64-bit bitmap are refused");
    MC_CHECK(roaring64_bitmap_equals(back.get(), r), "bytes written from a validated 64-bit bitmap read as another set");
    for (uint64_t y : {(uint64_t)0, (uint64_t)65536, (uint64_t)1 << 33, U64M}) {
        roaring64_bitmap_add(r, y);
        S.add(y);
    }
    roaring64_bitmap_remove_range(r, 2, 66000);
    S.remove_range(2, 65999);
    roaring64_bitmap_run_optimize(r);
    expect_set64(r, S, "updates of a validated 64-bit bitmap");
}
inline void one64(const std::string &s, size_t lim) {
    auto &e = mc::E();
    int64_t l0 = hk::S.live;
    {
        Exact b(s.data(), lim);
        size_t probe = roaring64_bitmap_portable_deserialize_size(b.p, lim);
        MC_CHECK(probe <= lim, "64-bit deserialize_size says %zu with a limit of %zu", probe, lim);
        RP64 r(roaring64_bitmap_portable_deserialize_safe(b.p, lim));
        std::vector<Bucket> bs;
        size_t used = 0;
        bool good = decode64(s.data(), lim, bs, used);
        if (good) {
            MC_CHECK(r, "a valid 64-bit stream of %zu bytes (limit %zu) was refused", used, lim);
            MC_CHECK(probe == used, "64-bit deserialize_size says %zu for a valid stream of %zu bytes", probe, used);
        }
        e.eval(2);
        if (r) {
            MC_CHECK(probe > 0, "the 64-bit size probe refuses what the reader accepts");
            const char *why = nullptr;
            bool v = roaring64_bitmap_internal_validate(r.get(), &why), run = false;
            if (good) {
                for (auto &k : bs)
                    for (auto &c : k.cs) run |= c.rep == R_RUN;
                if (!v && !run) mc::fail("64-bit validation rejects a valid stream: %s", why ? why : "?");
            }
            if (v) {
                if (good) {
                    Set g = to_set64(r.get());
                    MC_CHECK(g == buckets_set(bs), "valid 64-bit stream read as another set: %s", diff_str(g, buckets_set(bs)).c_str());
                }
                size_t rd = probe < lim ? probe : lim;
                if (roaring64_bitmap_get_cardinality(r.get()) <= (1u << 18) && (mc::E().replay || first_time(s.data(), rd))) exercise64(r.get());
            }
            mc::Hash h;
            h.bytes(s.data(), lim);
            e.outcome(h.h);
        }
    }
    MC_CHECK(hk::S.live == l0, "%lld blocks leaked reading a 64-bit stream of %zu bytes", (long long)(hk::S.live - l0), lim);
}
inline std::vector<std::pair<std::string, std::string>> bases32() {
    std::vector<std::pair<std::string, std::string>> v;
    auto add = [&](const char *n, Chunks c) { v.push_back({n, encode32(c)}); };
    add("one array", {{0, Set{0, 5, 65535}, R_ARRAY}});
    add("two arrays", {{1, Set{3}, R_ARRAY}, {0xFFFF, Set{1, 2}, R_ARRAY}});
    add("one run", {{7, Set{1}.uni(Set::range(10, 20)), R_RUN}});
    add("run+array", {{0, Set::range(3, 3000), R_RUN}, {1, Set{4, 6}, R_ARRAY}});
    add("four with runs", {{0, Set{1}, R_ARRAY}, {1, Set::range(5, 6), R_RUN}, {2, Set{9, 11}, R_ARRAY}, {9, Set::range(65530, 65535), R_RUN}});
    add("empty", {});
    add("nine", {{0, Set{1}, R_ARRAY}, {1, Set{1}, R_ARRAY}, {2, Set{1}, R_ARRAY}, {3, Set{1}, R_ARRAY}, {4, Set{1}, R_ARRAY}, {5, Set{1}, R_ARRAY}, {6, Set{1}, R_ARRAY}, {7, Set{1}, R_ARRAY}, {8, Set{7}, R_RUN}});
    add("bitset", {{0, first_n(Set::step(0, 65535, 15), 4097), R_BITSET}});
    add("bitset+run+array", {{0, first_n(Set::step(1, 65535, 15), 4098), R_BITSET}, {1, Set::range(3, 9), R_RUN}, {2, Set{1}, R_ARRAY}});
    add("a4096", {{0, Set::step(0, 65535, 16), R_ARRAY}});
    return v;
}
inline std::vector<std::pair<std::string, std::string>> bases64() {
    std::vector<std::pair<std::string, std::string>> v;
    auto add = [&](const char *n, std::vector<Bucket> b) { v.push_back({n, encode64(b)}); };
    add("64 empty", {});
    add("64 one array", {{0, {{0, Set{0, 5, 65535}, R_ARRAY}}}});
    add("64 two buckets", {{1, {{0, Set{2}, R_ARRAY}}}, {0xFFFFFFFFu, {{0xFFFF, Set{7, 65535}, R_ARRAY}}}});
    add("64 run buckets", {{0, {{0, Set::range(3, 9), R_RUN}}}, {2, {{5, Set{1}, R_ARRAY}, {6, Set::range(65000,65535), R_RUN}}}});
    add("64 empty bucket", {{0, {}}, {3, {{1, Set{1}, R_ARRAY}}}});
    add("64 bitset", {{9, {{0, first_n(Set::step(0, 65535, 15), 4097), R_BITSET}}}});
    return v;
}
// Streams of 24 and of 300 chunks, damaged at one position. how: 0 undamaged, 1 the key of the chunk before, 2 the key of the
// first chunk, 3 key and the one before swapped, 4 header count one higher, 5 payload's first field 65535, 6 container offset
// one higher, 7 cut inside the payload, 8 cut inside the header; 64-bit only: 9 one bucket per chunk, 10 .. with the high key
// of the one before, 11 .. with the high key of the first.
template <class One>
inline void wide(One one, bool is64, const char *pre) {
    auto &e = mc::E();
    for (int w = 0; w < 2; w++) {
        rows::Rows rw{w == 1};
        auto pts = rw.points();
        uint64_t hows = is64 ? 12 : 9;
        e.parallel(std::string(pre) + rw.name(), pts.size() * 2 * hows, [=, &e](uint64_t i) {
            int how = (int)(i % hows), v = (int)(i / hows % 2), p = pts[i / hows / 2];
            Chunks cs = rw.row(0, 5, 3);
            // variant 1: no run containers (the other cookie)
            if (v)
                for (auto &c : cs)
                    if (c.rep == R_RUN) c.rep = natural(c.s);
            auto put = [&](std::string &s, size_t at, uint32_t x) {
                s[at] = (char)(x & 255);
                s[at + 1] = (char)(x >> 8 & 255);
            };
            if (how == 1 && p) cs[p].key = cs[p - 1].key;
            if (how == 2 && p) cs[p].key = cs[0].key;
            if (how == 3 && p) std::swap(cs[p].key, cs[p - 1].key);
            e.detail("%d chunks, %s, damage %d at chunk %d", (int)cs.size(), v ? "no runs" : "runs", how, p);
            if (how >= 9) {
                std::vector<Bucket> b;
                for (auto &c : cs) b.push_back({(uint32_t)(c.key * 7), {c}});
                if (how == 10 && p) b[p].high = b[p - 1].high;
                if (how == 11 && p) b[p].high = b[0].high;
                std::string s = encode64(b);
                return one(s, s.size());
            }
            Layout L;
            std::string s = encode32(cs, &L);
            size_t lim = s.size();
            if (how == 4) put(s, L.desc + 4 * p + 2, (uint32_t)cs[p].s.card());
            if (how == 5) put(s, L.payloads[p], 65535);
            if (how == 6 && L.has_offs) put(s, L.offs + 4 * p, (uint32_t)(L.payloads[p] + 1));
            if (how == 7) lim = L.payloads[p] + 1;
            if (how == 8) lim = (p % 2 ? L.desc : L.offs) + 4 * p + 1;
            if (is64) {
                std::string h;
                put64(h, 1);
                put32(h, 77);
                s = h + s;
                lim += h.size();
            }
            one(s, std::min(lim, s.size()));
        }, nullptr, 1);
    }
}
inline bool plausible_pos(const std::string &s, size_t i) { return s.size() < 400 || i < 64 || i + 8 >= s.size() || i % 997 == 0; }
template <class One>
inline void families(const std::vector<std::pair<std::string, std::string>> &bases, One one, const char *pre) {
    auto &e = mc::E();
    std::string P = pre;
    // every truncation, with the limit equal to the buffer and smaller than it
    e.parallel(P + "truncate", bases.size(), [&](uint64_t i) {
        auto &s = bases[i].second;
        for (size_t n = 0; n <= s.size(); n++) {
            e.detail("%s, limit %zu of %zu", bases[i].first.c_str(), n, s.size());
            one(s, n);
        }
        for (size_t extra : {1, 3, 64}) one(s + std::string(extra, '\xEE'), s.size() + extra);
    }, nullptr, 1);
    // every byte, every value
    std::vector<std::pair<size_t, size_t>> bp;
    for (size_t k = 0; k < bases.size(); k++)
        for (size_t i = 0; i < bases[k].second.size(); i++)
            if (plausible_pos(bases[k].second, i)) bp.push_back({k, i});
    e.parallel(P + "bytes", bp.size(), [&](uint64_t i) {
        auto &b = bases[bp[i].first];
        size_t pos = bp[i].second;
        for (int v = 0; v < 256; v++) {
            std::string s = b.second;
            s[pos] = (char)v;
            e.detail("%s, byte %zu set to %d", b.first.c_str(), pos, v);
            one(s, s.size());
        }
    }, nullptr, 2);
    // pairs of 16-bit fields over boundary values
    static const uint32_t vals[] = {0, 1, 2, 3, 4, 5, 9, 255, 256, 4095, 4096, 4097, 8192, 12346, 12347, 32767, 32768, 65534, 65535};
    int nv = e.thorough ? 19 : 12;
    static const uint32_t few[] = {0, 1, 2, 3, 4, 5, 4096, 12346, 12347, 32768, 65534, 65535};
    const uint32_t *vv = e.thorough ? vals : few;
    struct PP { size_t k, a, b; };
    std::vector<PP> pp;
    for (size_t k = 0; k < bases.size(); k++) {
        auto &s = bases[k].second;
        size_t lim = std::min<size_t>(s.size() / 2, s.size() < 400 ? 60 : e.thorough ? 20 : 12);
        for (size_t a = 0; a < lim; a++)
            for (size_t b = a; b < lim; b++) pp.push_back({k, a, b});
    }
    e.parallel(P + "fields", pp.size(), [&](uint64_t i) {
        auto &x = pp[i];
        for (int u = 0; u < nv; u++)
            for (int w = 0; w < nv; w++) {
                std::string s = bases[x.k].second;
                s[2 * x.b] = (char)(vv[w] & 255);
                s[2 * x.b + 1] = (char)(vv[w] >> 8);
                s[2 * x.a] = (char)(vv[u] & 255);
                s[2 * x.a + 1] = (char)(vv[u] >> 8);
                e.detail("%s, field %zu = %u, field %zu = %u", bases[x.k].first.c_str(), x.a, vv[u], x.b, vv[w]);
                one(s, s.size());
                if (x.a == x.b) break;
            }
    }, nullptr, 4);
}
}  // namespace ut
