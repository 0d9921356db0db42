// Operation alphabets over one 64-bit bitmap and breadth-first search of every history up to a depth.
#pragma once
#include "lib64.hpp"
namespace h64 {
typedef unsigned long long ull;
struct Op {
    std::string name;
    std::function<void(R64 *, Set &)> f;
};
typedef std::vector<Op> Ops;
inline Set half(uint64_t a, uint64_t b) { return a < b ? Set::range(a, b - 1) : Set(); }
inline std::string n1(const char *n, uint64_t a) { return mc::strf("%s(%llx)", n, (ull)a); }
inline std::string n2(const char *n, uint64_t a, uint64_t b) { return mc::strf("%s(%llx,%llx)", n, (ull)a, (ull)b); }
inline Op add(uint64_t x) {
    return {n1("add", x), [=](R64 *r, Set &s) { roaring64_bitmap_add(r, x); s.add(x); }};
}
inline Op addc(uint64_t x) {
    return {n1("add_checked", x), [=](R64 *r, Set &s) {
                bool w = !s.has(x), g = roaring64_bitmap_add_checked(r, x);
                MC_CHECK(g == w, "add_checked(%llx) returned %d, expected %d", (ull)x, g, w);
                s.add(x);
            }};
}
inline Op rem(uint64_t x) {
    return {n1("remove", x), [=](R64 *r, Set &s) { roaring64_bitmap_remove(r, x); s.remove(x); }};
}
inline Op remc(uint64_t x) {
    return {n1("remove_checked", x), [=](R64 *r, Set &s) {
                bool w = s.has(x), g = roaring64_bitmap_remove_checked(r, x);
                MC_CHECK(g == w, "remove_checked(%llx) returned %d, expected %d", (ull)x, g, w);
                s.remove(x);
            }};
}
inline Op addr(uint64_t a, uint64_t b) {
    return {n2("add_range", a, b), [=](R64 *r, Set &s) { roaring64_bitmap_add_range(r, a, b); s = s.uni(half(a, b)); }};
}
inline Op remr(uint64_t a, uint64_t b) {
    return {n2("remove_range", a, b), [=](R64 *r, Set &s) { roaring64_bitmap_remove_range(r, a, b); s = s.minus(half(a, b)); }};
}
inline Op addrc(uint64_t a, uint64_t b) {
    return {n2("add_range_closed", a, b), [=](R64 *r, Set &s) { roaring64_bitmap_add_range_closed(r, a, b); s = s.uni(Set::range(a, b)); }};
}
inline Op remrc(uint64_t a, uint64_t b) {
    return {n2("remove_range_closed", a, b), [=](R64 *r, Set &s) { roaring64_bitmap_remove_range_closed(r, a, b); s = s.minus(Set::range(a, b)); }};
}
inline Op flip(uint64_t a, uint64_t b) {
    return {n2("flip_inplace", a, b), [=](R64 *r, Set &s) { roaring64_bitmap_flip_inplace(r, a, b); s = s.xr(half(a, b)); }};
}
inline Op flipc(uint64_t a, uint64_t b) {
    return {n2("flip_closed_inplace", a, b), [=](R64 *r, Set &s) { roaring64_bitmap_flip_closed_inplace(r, a, b); s = s.xr(Set::range(a, b)); }};
}
inline Op addm(const char *n, std::vector<uint64_t> v) {
    return {mc::strf("add_many(%s)", n), [=](R64 *r, Set &s) {
                roaring64_bitmap_add_many(r, v.size(), v.data());
                for (auto x : v) s.add(x);
            }};
}
inline Op remm(const char *n, std::vector<uint64_t> v) {
    return {mc::strf("remove_many(%s)", n), [=](R64 *r, Set &s) {
                roaring64_bitmap_remove_many(r, v.size(), v.data());
                for (auto x : v) s.remove(x);
            }};
}
inline Op runopt() { return {"run_optimize", [](R64 *r, Set &) { roaring64_bitmap_run_optimize(r); }}; }
inline Op shrink() { return {"shrink_to_fit", [](R64 *r, Set &) { roaring64_bitmap_shrink_to_fit(r); }}; }
inline Op clear() { return {"clear", [](R64 *r, Set &s) { roaring64_bitmap_clear(r); s = Set(); }}; }
inline Op inpl(const char *which, const char *on, Set o, bool run) {
    auto bs = std::make_shared<std::vector<Bucket>>(split64(o, run ? rep_run : rep_natural));
    char w = which[0] == 'a' && which[3] == 'n' ? 'd' : which[0];
    return {mc::strf("%s_inplace(%s%s)", which, on, run ? "/run" : ""), [=](R64 *r, Set &s) {
                RP64 b(build64_buckets(*bs));
                switch (w) {
                    case 'a': roaring64_bitmap_and_inplace(r, b.get()); s = s.inter(o); break;
                    case 'o': roaring64_bitmap_or_inplace(r, b.get()); s = s.uni(o); break;
                    case 'x': roaring64_bitmap_xor_inplace(r, b.get()); s = s.xr(o); break;
                    default: roaring64_bitmap_andnot_inplace(r, b.get()); s = s.minus(o);
                }
            }};
}
inline std::vector<uint64_t> keys_at(uint64_t base, int shift, int n, int from = 0, int step = 1) {
    std::vector<uint64_t> v;
    for (int i = 0; i < n; i++) v.push_back(base + ((uint64_t)(from + i * step) << shift));
    return v;
}
struct Theme {
    std::string name;
    Ops ops;
    int dq, dt;
};
inline std::vector<Theme> themes() {
    std::vector<Theme> t;
    t.push_back({"tiny",
                 {add(0), addc(1), add(65535), rem(0), remc(1), remc(65535), addr(0, 3), remr(1, 2), flip(0, 2), flipc(65534, 65535),
                  addrc(65533, 65535), remrc(0, 65535), runopt(), shrink(), clear(), addc(U64M), remc(U64M), flipc(U64M - 1, U64M)},
                 20, 40});
    Set s16 = Set::step(0, 65535, 16).shift(5ull << 40);
    uint64_t B = 5ull << 40;
    t.push_back({"threshold",
                 {addm("every 16th", s16.list()), add(B + 1), addc(B + 65535), rem(B), remc(B + 16), addr(B + 100, B + 4200),
                  remr(B, B + 32768), remr(B + 100, B + 4201), flip(B, B + 65536), flip(B + 1, B + 4097), addrc(B, B + 4095),
                  remrc(B + 4095, B + 4095), runopt(), shrink(), inpl("and", "d4097", Set::range(B, B + 4096), false),
                  inpl("or", "odd4096", first_n(Set::step(1, 65535, 2), 4096).shift(B), false), inpl("xor", "every16", s16, false),
                  inpl("andnot", "runs3", Set::range(B + 5, B + 9).uni(Set::range(B + 4000, B + 5000)), true),
                  remm("every 32nd", Set::step(0, 65535, 32).shift(B).list())},
                 4, 5});
    // keys whose 48-bit parts share 0..5 leading bytes
    uint64_t k0 = 0, k1 = 0x10000, k2 = 0x1000000, k3 = 0x100000000ull, k4 = 0x0100010000000000ull, k5 = 0xFF00000000000000ull, k6 = 0xFFFFFFFFFFFF0000ull;
    Set mixed{k0, k1 + 5, k3, k4 + 1, k6};
    t.push_back({"keys",
                 {add(k0), addc(k1), add(k2), addc(k3), add(k4), addc(k5), add(k6), rem(k0), remc(k1), rem(k2), remc(k3), rem(k4), remc(k5), rem(k6),
                  shrink(), clear(), inpl("and", "mixed", mixed, false), inpl("or", "mixed", mixed, false), inpl("xor", "mixed", mixed, false),
                  inpl("andnot", "mixed", mixed, false)},
                 8, 11});
    // index nodes growing and shrinking through their sizes
    t.push_back({"nodes",
                 {addm("4 keys", keys_at(0, 16, 4)), addm("1 more", keys_at(0, 16, 1, 4)), addm("16 keys", keys_at(0, 16, 16, 0, 3)),
                  addm("48 keys", keys_at(0, 16, 48, 100)), addm("256 keys", keys_at(0, 16, 256)), remm("256 keys", keys_at(0, 16, 256)),
                  remm("odd keys", keys_at(0, 16, 128, 1, 2)), remm("all but 5", keys_at(0, 16, 251, 5)), remm("all but 49", keys_at(0, 16, 207, 49)),
                  remm("17 keys", keys_at(0, 16, 17)), add(200ull << 16), remc(200ull << 16), addm("far keys", keys_at(0, 40, 5)),
                  remm("far keys", keys_at(0, 40, 5)), remm("desc", {255ull << 16, 254ull << 16, 253ull << 16, 2ull << 16, 1ull << 16, 0}),
                  shrink(), clear()},
                 5, 6});
    t.push_back({"ranges",
                 {addrc(U64M - 70000, U64M), addr(U64M - 2, U64M), remrc(U64M, U64M), remr(U64M - 65536, U64M), flipc(U64M - 65540, U64M), flip(U64M - 3, U64M),
                  addr(0xFFFFFF00ull, 0x100010100ull), remr(0x100000000ull, 0x100000001ull), remrc(0xFFFFFFF0ull, 0x10001FFFFull), flip(0xFFFF0000ull, 0x100020000ull),
                  addrc(5, 4), addr(7, 7), remrc(9, 3), remr(8, 8), flipc(3, 1), flip(2, 2), addr(65535, 131074), remr(0, U64M), remrc(70000, U64M), runopt(), shrink(),
                  addrc(0, 0), remrc(131072, 131073)},
                 5, 6});
    t.push_back({"lists",
                 {addm("a", {5, 3, 5, 70000, 3, 65536, 1ull << 40}), addm("b", {U64M, 0, U64M - 1, U64M - 65536}), addm("dense", Set::range(0, 4100).list()), addm("empty", {}),
                  remm("a", {70000, 5, 5, 3, 9, 65536}), remm("b", {0, U64M, 1, U64M - 65536}), remm("dense", Set::range(0, 4099).list()), remm("tail", {4098, 4100, 4099}),
                  remm("again", {5, 6, 5, 6, 1ull << 40, (1ull << 40) + 1, 5}), addr(0, 200000), remr(2, 66000), runopt(), add(4100), remc(4100), shrink()},
                 6, 8});
    return t;
}
struct HistOpts {
    bool values = true, valid = false, leaks = false;
    int depth_delta = 0;
    std::function<void(R64 *, const Set &)> extra;
};
// destroys the compactness of r (shrinks it); call last
inline uint64_t state_fp(R64 *r, int64_t bytes) {
    mc::Hash h;
    std::string b(roaring64_bitmap_portable_size_in_bytes(r), '\0');
    roaring64_bitmap_portable_serialize(r, &b[0]);
    h.bytes(b.data(), b.size());
    roaring64_statistics_t st;
    roaring64_bitmap_statistics(r, &st);
    h.u64(st.n_array_containers << 40 | st.n_run_containers << 20 | st.n_bitset_containers);
    h.u64((uint64_t)bytes);
    return h.h | 1;
}
inline std::string hist_str(const Ops &ops, const mc::Engine::Hist &h) {
    std::string s;
    for (auto o : h) s += (s.empty() ? "" : " ") + ops[o].name;
    return s;
}
inline void run_hist_families(const HistOpts &o) {
    auto &e = mc::E();
    for (auto &t : themes()) {
        if (!e.want("hist64-" + t.name)) continue;
        int depth = (e.thorough ? t.dt : t.dq) + o.depth_delta;
        const Ops &ops = t.ops;
        e.samples.push_back(t.name + ": " + ops[0].name + " " + ops[ops.size() / 2].name + " " + ops.back().name);
        e.bfs("hist64-" + t.name, (int)ops.size(), depth, [&](const mc::Engine::Hist &h) -> uint64_t {
            e.detail("%s", hist_str(ops, h).c_str());
            uint64_t fp;
            LeakScope ls;
            {
                int64_t b0 = hk::S.live_bytes;
                RP64 r(roaring64_bitmap_create());
                Set s;
                for (size_t i = 0; i < h.size(); i++) {
                    ops[h[i]].f(r.get(), s);
                    e.eval();
                }
                const char *last = h.empty() ? "initial" : ops[h.back()].name.c_str();
                if (o.valid) expect_valid64(r.get(), last);
                if (o.values) expect_set64(r.get(), s, last);
                fp = state_fp(r.get(), hk::S.live_bytes - b0);
                if (o.extra) o.extra(r.get(), s);  // may change the bitmap
            }
            if (o.leaks) {
                ls.check("64-bit history");
                MC_CHECK(hk::S.foreign == 0, "library bypassed the memory hooks");
            }
            return fp;
        });
        if (e.over_budget()) break;
    }
}
}  // namespace h64
