// Operation alphabets over one 32-bit bitmap and breadth-first search of every history up to a depth.
#pragma once
#include "lib32.hpp"
static const uint64_t U32END = 1ull << 32;
struct Op {
    std::string name;
    std::function<void(R *, Set &)> f;
};
typedef std::vector<Op> Ops;
inline Set clip32(uint64_t min, uint64_t max) {  // half-open, clipped to the universe
    if (max > U32END) max = U32END;
    return min < max ? Set::range(min, max - 1) : Set();
}
namespace op {
inline Op add(uint32_t x) {
    return {mc::strf("add(%u)", x), [=](R *r, Set &s) { roaring_bitmap_add(r, x); s.add(x); }};
}
inline Op addc(uint32_t x) {
    return {mc::strf("add_checked(%u)", x), [=](R *r, Set &s) {
                bool w = !s.has(x), g = roaring_bitmap_add_checked(r, x);
                MC_CHECK(g == w, "add_checked(%u) returned %d, expected %d", x, g, w);
                s.add(x);
            }};
}
inline Op rem(uint32_t x) {
    return {mc::strf("remove(%u)", x), [=](R *r, Set &s) { roaring_bitmap_remove(r, x); s.remove(x); }};
}
inline Op remc(uint32_t x) {
    return {mc::strf("remove_checked(%u)", x), [=](R *r, Set &s) {
                bool w = s.has(x), g = roaring_bitmap_remove_checked(r, x);
                MC_CHECK(g == w, "remove_checked(%u) returned %d, expected %d", x, g, w);
                s.remove(x);
            }};
}
inline std::string rg(const char *n, uint64_t a, uint64_t b) {
    return mc::strf("%s(%llu,%llu)", n, (unsigned long long)a, (unsigned long long)b);
}
inline Op addr(uint64_t a, uint64_t b) {
    return {rg("add_range", a, b), [=](R *r, Set &s) { roaring_bitmap_add_range(r, a, b); s = s.uni(clip32(a, b)); }};
}
inline Op remr(uint64_t a, uint64_t b) {
    return {rg("remove_range", a, b), [=](R *r, Set &s) { roaring_bitmap_remove_range(r, a, b); s = s.minus(clip32(a, b)); }};
}
inline Op addrc(uint32_t a, uint32_t b) {
    return {rg("add_range_closed", a, b), [=](R *r, Set &s) { roaring_bitmap_add_range_closed(r, a, b); s = s.uni(Set::range(a, b)); }};
}
inline Op remrc(uint32_t a, uint32_t b) {
    return {rg("remove_range_closed", a, b), [=](R *r, Set &s) { roaring_bitmap_remove_range_closed(r, a, b); s = s.minus(Set::range(a, b)); }};
}
inline Op flip(uint64_t a, uint64_t b) {
    return {rg("flip_inplace", a, b), [=](R *r, Set &s) { roaring_bitmap_flip_inplace(r, a, b); s = s.xr(clip32(a, b)); }};
}
inline Op flipc(uint32_t a, uint32_t b) {
    return {rg("flip_inplace_closed", a, b), [=](R *r, Set &s) { roaring_bitmap_flip_inplace_closed(r, a, b); s = s.xr(Set::range(a, b)); }};
}
inline Op addm(const char *n, std::vector<uint32_t> v) {
    return {mc::strf("add_many(%s)", n), [=](R *r, Set &s) {
                roaring_bitmap_add_many(r, v.size(), v.data());
                for (auto x : v) s.add(x);
            }};
}
inline Op remm(const char *n, std::vector<uint32_t> v) {
    return {mc::strf("remove_many(%s)", n), [=](R *r, Set &s) {
                roaring_bitmap_remove_many(r, v.size(), v.data());
                for (auto x : v) s.remove(x);
            }};
}
inline Op runopt() {
    return {"run_optimize", [](R *r, Set &s) { (void)s; roaring_bitmap_run_optimize(r); }};
}
inline Op remrun() {
    return {"remove_run_compression", [](R *r, Set &s) { (void)s; roaring_bitmap_remove_run_compression(r); }};
}
inline Op shrink() {
    return {"shrink_to_fit", [](R *r, Set &s) { (void)s; roaring_bitmap_shrink_to_fit(r); }};
}
inline Op clear() {
    return {"clear", [](R *r, Set &s) { roaring_bitmap_clear(r); s = Set(); }};
}
// in-place set operation with a fixed operand, encoded as natural or run
inline Op inpl(const char *which, const char *on, Set o, bool run) {
    auto shared = std::make_shared<Chunks>(split32(o, [=](const Chunk &c) { return run ? R_RUN : natural(c.s); }));
    char w = which[0] == 'a' && which[3] == 'n' ? 'd' : which[0];
    return {mc::strf("%s_inplace(%s%s)", which, on, run ? "/run" : ""), [=](R *r, Set &s) {
                RP b(build_chunks(*shared));
                switch (w) {
                    case 'a': roaring_bitmap_and_inplace(r, b.get()); s = s.inter(o); break;
                    case 'o': roaring_bitmap_or_inplace(r, b.get()); s = s.uni(o); break;
                    case 'x': roaring_bitmap_xor_inplace(r, b.get()); s = s.xr(o); break;
                    default: roaring_bitmap_andnot_inplace(r, b.get()); s = s.minus(o);
                }
            }};
}
inline Op overwrite(const char *on, Set o, bool run) {
    auto shared = std::make_shared<Chunks>(split32(o, [=](const Chunk &c) { return run ? R_RUN : natural(c.s); }));
    return {mc::strf("overwrite(%s%s)", on, run ? "/run" : ""), [=](R *r, Set &s) {
                RP b(o.empty() ? roaring_bitmap_create() : build_chunks(*shared));
                MC_CHECK(roaring_bitmap_overwrite(r, b.get()), "overwrite failed");
                s = o;
            }};
}
}  // namespace op

inline std::vector<uint32_t> vec32(const Set &s) {
    std::vector<uint32_t> v;
    s.each([&](uint64_t x) { v.push_back((uint32_t)x); });
    return v;
}
struct Theme {
    std::string name;
    Ops ops;
    int dq, dt;  // depth, quick and thorough
};
inline std::vector<Theme> themes32() {
    using namespace op;
    std::vector<Theme> t;
    // few values inside one chunk: arrays, runs, emptying and refilling; closes quickly
    t.push_back({"tiny",
                 {add(0), addc(1), add(65535), rem(0), remc(1), remc(65535), addr(0, 3), remr(1, 2), flip(0, 2),
                  flipc(65534, 65535), addrc(65533, 65535), remrc(0, 65535), runopt(), remrun(), shrink(),
                  clear(), overwrite("runs", Set::range(0, 20), true)},
                 20, 40});
    // around the 4096 array/bitset threshold
    Set s16 = Set::step(0, 65535, 16);
    t.push_back({"threshold",
                 {addm("every 16th", vec32(s16)), add(1), addc(65535), rem(0), remc(16), addr(100, 4200),
                  remr(0, 32768), remr(100, 4201), flip(0, 65536), flip(1, 4097), addrc(0, 4095), remrc(4095, 4095),
                  runopt(), remrun(), shrink(), inpl("and", "d4097", Set::range(0, 4096), false),
                  inpl("or", "odd4096", first_n(Set::step(1, 65535, 2), 4096), false),
                  inpl("xor", "every16", s16, false), inpl("andnot", "runs3", Set::range(5, 9).uni(Set::range(4000, 5000)), true),
                  remm("every 32nd", vec32(Set::step(0, 65535, 32)))},
                 4, 6});
    // full chunk and many runs
    Set r31 = Set::step(0, 65535, 32, 31), r2 = Set::step(0, 65535, 3, 2);
    t.push_back({"runs",
                 {addr(0, 65536), remc(32768), addc(32768), rem(0), rem(65535), add(0), add(65535), flip(0, 65536),
                  remr(10, 65530), addr(10, 65530), remr(31, 32), overwrite("r2048", r31, true),
                  overwrite("r2of3", r2, false), runopt(), remrun(), shrink(), inpl("and", "r2048", r31, true),
                  inpl("or", "single", Set{31, 63, 32768}, false), inpl("xor", "r2of3", r2, false),
                  inpl("andnot", "ends", Set{0, 31, 65535}, false)},
                 5, 7});
    // chunk boundaries, several keys, insertion and removal of chunks in the middle
    Set multi = Set::range(65530, 65540).uni(Set{131072, 200000, 0xFFFF0000u});
    t.push_back({"keys",
                 {add(65535), addc(65536), add(131072), rem(65535), remc(65536), rem(131072), addr(65530, 131080),
                  remr(65536, 131072), remr(0, 131072), flip(65535, 65537), flip(0, 196608), addr(131071, 262145),
                  addc(0xFFFFFFFFu), remc(0xFFFFFFFFu), addr(0xFFFEFFFFull, U32END), remr(70000, U32END),
                  runopt(), shrink(), clear(), inpl("and", "multi", multi, false), inpl("or", "multi", multi, true),
                  inpl("xor", "multi", multi, false), inpl("andnot", "multi", multi, true)},
                 5, 7});
    // lists: unsorted, duplicated, spanning chunks
    t.push_back({"lists",
                 {addm("a", {5, 3, 5, 70000, 3, 65536, 4}), addm("b", {0xFFFFFFFFu, 0, 0xFFFFFFFEu, 0xFFFF0000u}),
                  addm("dense", vec32(Set::range(0, 4100))), addm("empty", {}), remm("a", {70000, 5, 5, 3, 9, 65536}),
                  remm("b", {0, 0xFFFFFFFFu, 1, 0xFFFF0000u}), remm("dense", vec32(Set::range(0, 4099))),
                  remm("tail", {4098, 4100, 4099}), addr(0, 200000), remr(2, 66000), runopt(), remrun(),
                  add(4100), remc(4100), remm("desc", {70000, 69999, 69998, 65536, 5, 4, 3, 2, 1, 0}), shrink()},
                 7, 10});
    // edges of the universe and bounds outside it
    t.push_back({"edges",
                 {addr(U32END - 1, U32END), addr(U32END - 2, U32END + 5), addr(U32END, U32END + 1),
                  addr(U32END + 1, U32END + 10), addr(0, 1), addr(5, 5), addr(7, 3), remr(U32END - 1, UINT64_MAX),
                  remr(U32END, U32END + 1), remr(0, 1), remr(9, 2), flip(U32END - 3, U32END), flip(U32END, U32END + 3),
                  flip(U32END - 70000, UINT64_MAX), flip(3, 3), flip(4, 1), addrc(0xFFFFFFFFu, 0xFFFFFFFFu),
                  addrc(5, 4), remrc(0xFFFFFFF0u, 0xFFFFFFFFu), remrc(4, 2), flipc(0xFFFFFFFFu, 0xFFFFFFFFu), flipc(8, 2),
                  remr(U32END + 3, UINT64_MAX), addr(U32END - 65536, UINT64_MAX)},
                 4, 5});
    return t;
}
struct HistOpts {
    bool values = true, valid = false, leaks = false;
    int depth_delta = 0;
    std::function<void(R *, const Set &)> extra;  // checked on every state reached
};
inline uint64_t state_fp(const R *r, int64_t bytes) {
    mc::Hash h;
    std::string b(roaring_bitmap_portable_size_in_bytes(r), '\0');
    roaring_bitmap_portable_serialize(r, &b[0]);
    h.bytes(b.data(), b.size());
    roaring_statistics_t st;
    roaring_bitmap_statistics(r, &st);
    h.u64((uint64_t)st.n_array_containers << 40 | (uint64_t)st.n_run_containers << 20 | st.n_bitset_containers);
    h.u64((uint64_t)bytes);  // spare capacity is part of the state
    return h.h | 1;
}
inline std::string hist_str(const Ops &ops, const mc::Engine::Hist &h) {
    std::string s;
    for (auto o : h) s += (s.empty() ? "" : " ") + ops[o].name;
    return s;
}
inline void run_hist_families(const HistOpts &o) {
    auto &e = mc::E();
    for (auto &t : themes32()) {
        if (!e.want("hist-" + t.name)) continue;
        int depth = (e.thorough ? t.dt : t.dq) + o.depth_delta;
        const Ops &ops = t.ops;
        e.samples.push_back(t.name + ": " + ops[0].name + " " + ops[ops.size() / 2].name + " " + ops.back().name);
        e.bfs("hist-" + t.name, (int)ops.size(), depth, [&](const mc::Engine::Hist &h) -> uint64_t {
            e.detail("%s", hist_str(ops, h).c_str());
            uint64_t fp;
            LeakScope ls;
            {
                int64_t b0 = hk::S.live_bytes;
                RP r(roaring_bitmap_create());
                Set s;
                for (size_t i = 0; i < h.size(); i++) {
                    ops[h[i]].f(r.get(), s);
                    e.eval();
                }
                if (o.valid) expect_valid(r.get(), h.empty() ? "initial" : ops[h.back()].name.c_str());
                if (o.values) expect_set(r.get(), s, h.empty() ? "initial" : ops[h.back()].name.c_str());
                fp = state_fp(r.get(), hk::S.live_bytes - b0);
                if (o.extra) o.extra(r.get(), s);  // may change the bitmap
            }
            if (o.leaks) {
                ls.check("history");
                MC_CHECK(hk::S.foreign == 0, "library bypassed the memory hooks");
            }
            return fp;
        });
        if (e.over_budget()) break;
    }
}
