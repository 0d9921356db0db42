// C23: range construction, complement and offset compute the exact image.
#include "queries32.hpp"
#include "onerun.hpp"
#include "rows.hpp"
#include "lib64.hpp"
static Set prog(uint64_t min, uint64_t max, uint64_t step) {  // [min,max) every step
    if (step == 0 || max <= min) return Set();
    if (step == 1) return Set::range(min, max - 1);
    Set s;
    for (uint64_t x = min;; x += step) {
        s.v.push_back({x, x});
        if (max - 1 - x < step) break;
    }
    return s;
}
int main(int argc, char **argv) {
    auto &e = mc::E();
    e.init(argc, argv, "C23");
    hk::install();
    typedef unsigned long long ull;
    const uint64_t E32 = 1ull << 32;
    std::vector<uint64_t> bounds = {0, 1, 5, 4096, 65534, 65535, 65536, 65537, 131071, 131072, 200000, E32 / 2, E32 - 196608, E32 - 65537,
                                    E32 - 65536, E32 - 65535, E32 - 4097, E32 - 5, E32 - 1, E32, E32 + 1, E32 + 65536, U64M};
    std::vector<uint64_t> steps = {0, 1, 2, 3, 7, 15, 16, 17, 31, 64, 100, 4095, 4096, 5000, 32768, 65534, 65535, 65536, 65537, 100000,
                                   131072, 1u << 24, 1u << 31, 0xFFFFFFFFu};
    if (e.thorough)
        for (uint64_t s : {5, 6, 8, 9, 10, 11, 12, 13, 14, 18, 21, 32, 33, 63, 65, 127, 128, 255, 256, 1000, 16383, 21845, 40000, 65533, 65538, 98304, 1000003})
            steps.push_back(s);
    std::sort(steps.begin(), steps.end());
    uint64_t nb = bounds.size(), ns = steps.size();
    e.parallel("from_range", nb * nb * ns, [&](uint64_t i) {
        uint64_t a = bounds[i / ns / nb], b = bounds[i / ns % nb], st = steps[i % ns];
        uint64_t m = std::min(b, E32);
        if (st > 1 && a < m && (m - a) / st > 300000) return;
        e.detail("from_range(%llu,%llu,%llu)", (ull)a, (ull)b, (ull)st);
        RP r(roaring_bitmap_from_range(a, b, (uint32_t)st));
        e.eval();
        if (st == 0 || m <= a) {
            MC_CHECK(!r, "from_range on an empty range or zero step returned a bitmap");
            return;
        }
        Set s = prog(a, m, st);
        expect_set(r.get(), s, "from_range");
        e.outcome(mc::hash64(i));
    }, nullptr, 4);
    // every range inside small windows around the chunk boundaries and the end of the universe, small steps
    e.parallel("from_range-window", 4 * 10 * 10, [&](uint64_t i) {
        static const uint64_t centre[4] = {5, 65536, 0x80000000ull, 1ull << 32};
        uint64_t c = centre[i / 100], a = c - 5 + i / 10 % 10;
        for (uint64_t len = 1; len <= 12; len++)
            for (uint64_t st = 1; st <= 6; st++)
                for (uint64_t far = 0; far < 2; far++) {
                    uint64_t b = a + len + (i % 10) * (far ? 6551 : 1);
                    uint64_t m = std::min(b, E32);
                    e.detail("from_range(%llu,%llu,%llu)", (ull)a, (ull)b, (ull)st);
                    RP r(roaring_bitmap_from_range(a, b, (uint32_t)st));
                    e.eval();
                    if (m <= a) MC_CHECK(!r, "from_range on an empty range returned a bitmap");
                    else expect_set(r.get(), prog(a, m, st), "from_range");
                }
    });
    // 64-bit
    std::vector<uint64_t> b64 = {0, 1, 65535, 65536, 70000, E32 - 65536, E32 - 1, E32, E32 + 1, E32 + 70000, 1ull << 48, (1ull << 48) + 65537,
                                 (1ull << 63) - 1, 1ull << 63, U64M - 200000, U64M - 131072, U64M - 65536, U64M - 65535, U64M - 5, U64M - 1, U64M};
    std::vector<uint64_t> s64 = {0, 1, 2, 3, 16, 17, 100, 4096, 65535, 65536, 65537, 100000, E32 - 1, E32, E32 + 1, 1ull << 48, 1ull << 62, 1ull << 63, U64M};
    nb = b64.size();
    ns = s64.size();
    e.parallel("from_range64", nb * nb * ns, [&](uint64_t i) {
        uint64_t a = b64[i / ns / nb], b = b64[i / ns % nb], st = s64[i % ns];
        if (a < b && st && (b - a) / st > (st == 1 ? 1ull << 33 : 300000)) return;
        if (a < b && st && st < 65536 && (b - a) >> 16 > 66000) return;
        e.detail("roaring64 from_range(%llu,%llu,%llu)", (ull)a, (ull)b, (ull)st);
        RP64 r(roaring64_bitmap_from_range(a, b, st));
        e.eval();
        if (st == 0 || b <= a) {
            MC_CHECK(!r, "64-bit from_range on an empty range or zero step returned a bitmap");
            return;
        }
        expect_set64(r.get(), prog(a, b, st), "64-bit from_range");
        e.outcome(mc::hash64(i + 77777));
    }, nullptr, 4);
    // complement of every range between boundary points, from every catalogue state
    int level = e.thorough ? 2 : 1;
    auto cs = contents(level);
    auto its = items(cs);
    e.parallel("flip", its.size() * 4, [&](uint64_t i) {
        auto &it = its[i / 4];
        uint16_t key = i % 4 < 2 ? 0 : i % 4 == 2 ? 2 : 0xFFFF;
        bool cow = i % 2;
        uint64_t base = (uint64_t)key << 16;
        Set S = it.s->shift(base);
        RP r(build(*it.s, key, it.rep)), sh;
        if (cow) {
            roaring_bitmap_set_copy_on_write(r.get(), true);
            sh.reset(roaring_bitmap_copy(r.get()));
        }
        auto pts = query_points(S, e.thorough ? 5 : 3, true);
        for (auto a : pts)
            for (auto b : pts) {
                if (a < E32 && b < E32 + 2 && a < b && b - a > (1u << 21) && !(a == 0 && b == E32)) continue;  // whole-universe flips once
                if (a == 0 && b == E32 && i % 16 != 3) continue;
                uint64_t m = std::min(b, E32);
                Set W = a < m ? S.flip(a, m - 1) : S;
                e.detail("%s key %u cow %d flip [%llu,%llu)", it.name.c_str(), key, cow, (ull)a, (ull)b);
                {
                    RP f(roaring_bitmap_flip(r.get(), a, b));
                    expect_set(f.get(), W, "flip");
                }
                {
                    RP c(roaring_bitmap_copy(r.get()));
                    roaring_bitmap_flip_inplace(c.get(), a, b);
                    expect_set(c.get(), W, "flip_inplace");
                }
                if (a < E32 && b < E32) {
                    Set V = a <= b ? S.flip(a, b) : S;
                    RP f(roaring_bitmap_flip_closed(r.get(), (uint32_t)a, (uint32_t)b));
                    expect_set(f.get(), V, "flip_closed");
                    RP c(roaring_bitmap_copy(r.get()));
                    roaring_bitmap_flip_inplace_closed(c.get(), (uint32_t)a, (uint32_t)b);
                    expect_set(c.get(), V, "flip_inplace_closed");
                }
                e.eval(4);
            }
        expect_set(r.get(), S, "source of the flips");
    }, nullptr, 1);
    // complement over several chunks: each of four chunks absent or one of three contents, every chunk-edge range
    struct K { Set s; Rep r; };
    static const std::vector<K> ks = {{Set(), R_AUTO}, {Set{0, 7, 65535}, R_ARRAY}, {full16(), R_RUN}, {Set::step(0, 65535, 13), R_BITSET}};
    e.parallel("flip-layouts", 256 * 2, [&](uint64_t i) {
        Chunks ch;
        uint64_t c = i / 2;
        for (int j = 0; j < 4; j++, c /= 4)
            if (c % 4) ch.push_back({(uint16_t)(i % 2 ? 0xFFFC + j : j + (j == 3)), ks[c % 4].s, ks[c % 4].r});
        Set S = chunks_set(ch);
        uint64_t o = i % 2 ? 0xFFFC0000ull : 0;
        std::vector<uint64_t> pts = {o, o + 8, o + 65535, o + 65536, o + 65537, o + 131072, o + 150000, o + 196607, o + 196608, o + 262143, o + 262144};
        R *base = ch.empty() ? roaring_bitmap_create() : build_chunks(ch);
        RP hold(base);
        for (auto a : pts)
            for (auto b : pts) {
                if (a >= b) continue;
                e.detail("layout %llu flip [%llu,%llu)", (ull)i, (ull)a, (ull)b);
                Set W = S.flip(a, b - 1);
                if (i % 2 && b > E32) continue;
                RP f(roaring_bitmap_flip(base, a, b));
                expect_set(f.get(), W, "flip");
                RP cp(roaring_bitmap_copy(base));
                roaring_bitmap_flip_inplace(cp.get(), a, b);
                expect_set(cp.get(), W, "flip_inplace");
                e.eval(2);
            }
    }, nullptr, 2);
    // 64-bit complement
    e.parallel("flip64", its.size() * 3, [&](uint64_t i) {
        auto &it = its[i / 3];
        static const uint64_t bases[3] = {0, 0x1234567ABCull << 16, U64M - 65535};
        uint64_t base = bases[i % 3];
        Set S = it.s->shift(base);
        if (i % 3 == 1) S.add(base + 65536 * 3);
        RP64 r(build64(S, it.rep == R_RUN ? rep_run : rep_natural));
        std::vector<uint64_t> pts = {base, base + 1, base + 63, base + 64, base + 4096, base + 32768, base + 65534, base + 65535};
        for (auto x : {S.min(), S.max(), S.v[S.v.size() / 2].a, S.v[S.v.size() / 2].b}) pts.push_back(x);
        if (i % 3 < 2) for (uint64_t d : {65536, 65537, 131071, 131072, 196608, 262144}) pts.push_back(base + d);
        if (i % 3 > 0) for (uint64_t d : {1, 65536, 65537, 131072}) pts.push_back(base - d);
        std::sort(pts.begin(), pts.end());
        pts.erase(std::unique(pts.begin(), pts.end()), pts.end());
        for (auto a : pts)
            for (auto b : pts) {
                Set V = S.flip(a, b), W = a < b ? S.flip(a, b - 1) : S;
                e.detail("%s base %llu flip64 %llu..%llu", it.name.c_str(), (ull)base, (ull)a, (ull)b);
                RP64 f(roaring64_bitmap_flip_closed(r.get(), a, b));
                expect_set64(f.get(), V, "roaring64 flip_closed");
                RP64 g(roaring64_bitmap_flip(r.get(), a, b));
                expect_set64(g.get(), W, "roaring64 flip");
                RP64 c(roaring64_bitmap_copy(r.get())), d(roaring64_bitmap_copy(r.get()));
                roaring64_bitmap_flip_closed_inplace(c.get(), a, b);
                expect_set64(c.get(), V, "roaring64 flip_closed_inplace");
                roaring64_bitmap_flip_inplace(d.get(), a, b);
                expect_set64(d.get(), W, "roaring64 flip_inplace");
                e.eval(4);
            }
        expect_set64(r.get(), S, "source of the 64-bit flips");
    }, nullptr, 1);
    // offsets: contents x representation x key x sharing, every boundary offset
    std::vector<int64_t> offs = {0};
    for (int64_t b : {(int64_t)1, (int64_t)2, (int64_t)31, (int64_t)63, (int64_t)64, (int64_t)65, (int64_t)127, (int64_t)128, (int64_t)4096, (int64_t)32767, (int64_t)32768, (int64_t)65535, (int64_t)65536,
                      (int64_t)65537, (int64_t)131071, (int64_t)131072, (int64_t)(E32 / 2), (int64_t)E32 - 65536, (int64_t)E32 - 65535, (int64_t)E32 - 1, (int64_t)E32,
                      (int64_t)E32 + 1, (int64_t)E32 + 65536, (int64_t)1 << 47, INT64_MAX}) {
        offs.push_back(b);
        offs.push_back(-b);
    }
    offs.push_back(INT64_MIN);
    auto shifted = [&](const Set &S, int64_t o) {
        Set r;
        for (auto &i : S.v) {
            __int128 a = (__int128)i.a + o, b = (__int128)i.b + o;
            if (b < 0 || a >= (__int128)E32) continue;
            if (a < 0) a = 0;
            if (b >= (__int128)E32) b = E32 - 1;
            r.v.push_back({(uint64_t)a, (uint64_t)b});
        }
        return r;
    };
    // flips of an interval of every length, as a new bitmap, in chunks that avoid it, meet it in one value or lack one value of it
    e.parallel("one interval", onerun::count(), [&](uint64_t i) {
        int a, z;
        if (!onerun::get(i, a, z)) return;
        auto bs = onerun::partners(a, z);
        for (size_t k = 0; k < bs.size(); k++) {
            uint64_t key = (i + k) % 3 == 0 ? 0 : (i + k) % 3 == 1 ? 7 : 0xFFFF, x = key << 16 | (uint64_t)a, y = key << 16 | (uint64_t)z;
            Set s = bs[k].first.shift(key << 16), f = s.flip(x, y);
            e.detail("%s as %s at key %u, flip [%d,%d]", bs[k].first.str().substr(0, 60).c_str(), rep_name(bs[k].second), (unsigned)key, a, z);
            RP r(build(bs[k].first, (uint16_t)key, bs[k].second)), g(roaring_bitmap_flip(r.get(), x, y + 1));
            expect_set(g.get(), f, "flip");
            expect_valid(g.get(), "flip");
            expect_set(r.get(), s, "argument of flip");
            if ((i + k) % 2 || e.thorough) {
                std::vector<Bucket> b = {{(uint32_t)(k % 2 ? 9 : 0), {{(uint16_t)key, bs[k].first, bs[k].second}}}};
                RP64 r6(build64_buckets(b));
                uint64_t h = (uint64_t)b[0].high << 32;
                RP64 g6(roaring64_bitmap_flip_closed(r6.get(), h + x, h + y));
                expect_set64(g6.get(), f.shift(h), "64-bit flip");
                expect_valid64(g6.get(), "64-bit flip");
                roaring64_bitmap_flip_closed_inplace(r6.get(), h + x, h + y);
                expect_set64(r6.get(), f.shift(h), "64-bit flip in place");
                expect_valid64(r6.get(), "64-bit flip in place");
            }
            e.eval(3);
        }
    }, nullptr, 2);
    e.parallel("offset", its.size() * 6, [&](uint64_t i) {
        auto &it = its[i / 6];
        uint16_t key = i / 2 % 3 == 0 ? 0 : i / 2 % 3 == 1 ? 3 : 0xFFFF;
        bool cow = i % 2;
        Set S = it.s->shift((uint64_t)key << 16);
        RP r(build(*it.s, key, it.rep)), sh;
        if (cow) {
            roaring_bitmap_set_copy_on_write(r.get(), true);
            sh.reset(roaring_bitmap_copy(r.get()));
        }
        auto all = offs;
        // offsets that put the extremes exactly at the universe ends and at word/chunk edges
        for (int64_t t : {(int64_t)0, (int64_t)-1, (int64_t)65535, (int64_t)65536, (int64_t)E32 - 1, (int64_t)E32, (int64_t)E32 - 65536}) {
            all.push_back(t - (int64_t)S.min());
            all.push_back(t - (int64_t)S.max());
        }
        for (auto o : all) {
            e.detail("%s key %u cow %d add_offset(%lld)", it.name.c_str(), key, cow, (long long)o);
            RP f(roaring_bitmap_add_offset(r.get(), o));
            expect_set(f.get(), shifted(S, o), "add_offset");
            e.eval();
        }
        expect_set(r.get(), S, "source of add_offset");
    }, nullptr, 1);
    // neighbouring chunks: carry from one chunk into the next, every pair/triple of contents
    static const std::vector<K> os = {{Set(), R_AUTO}, {Set{0, 7, 65535}, R_ARRAY}, {full16(), R_RUN}, {Set::step(0, 65535, 2), R_BITSET},
                                      {Set::range(60000, 65535), R_RUN}, {Set::range(0, 5000), R_BITSET}, {Set::step(3, 65535, 17), R_ARRAY}};
    e.parallel("offset-layouts", 343 * 2, [&](uint64_t i) {
        Chunks ch;
        uint64_t c = i / 2;
        for (int j = 0; j < 3; j++, c /= 7)
            if (c % 7) ch.push_back({(uint16_t)(i % 2 ? 0xFFFD + j : j * (1 + (i / 2 % 2))), os[c % 7].s, os[c % 7].r});
        Set S = chunks_set(ch);
        RP r(ch.empty() ? roaring_bitmap_create() : build_chunks(ch));
        for (int64_t o : {1, -1, 64, -64, 100, -100, 5000, -5000, 32768, -32768, 65535, -65535, 65536, -65536, 65537, -65537, 131071, -131071}) {
            e.detail("offset layout %llu add_offset(%lld)", (ull)i, (long long)o);
            RP f(roaring_bitmap_add_offset(r.get(), o));
            expect_set(f.get(), shifted(S, o), "add_offset");
            e.eval();
        }
    }, nullptr, 2);
    // a row of 24 chunks of every kind: complements over every interval of it, and offsets that move, cut or split it
    for (const rows::Rows rw : {rows::Rows{false}, rows::Rows{true}})
        e.parallel(rw.name(), rw.intervals() * 3, [&, rw](uint64_t q) {
        int i, j, v = (int)(q % 3);
        rw.interval(q / 3, i, j);
        const int st = v == 0 ? 1 : v == 1 ? 2 : 3;
        const uint64_t k0 = v == 0 ? 0 : v == 1 ? 0x10000 - 2 * rw.n() : 50;
        Chunks ch = rw.row(v, k0, st);
        Set S = chunks_set(ch);
        RP r(build_chunks(ch));
        uint64_t a = (k0 + (uint64_t)i * st) << 16, b = ((k0 + (uint64_t)j * st) << 16) + 65535;
        for (uint64_t da : {0, 7})
            for (uint64_t db : {0, 7}) {
                e.detail("row variant %d, flip [%llu,%llu]", v, (ull)(a + da), (ull)(b - db));
                Set W = S.flip(a + da, b - db);
                RP f(roaring_bitmap_flip(r.get(), a + da, b - db + 1));
                expect_set(f.get(), W, "flip");
                RP c(roaring_bitmap_copy(r.get()));
                roaring_bitmap_flip_inplace(c.get(), a + da, b - db + 1);
                expect_set(c.get(), W, "flip_inplace");
                e.eval(2);
            }
        // the part of the row from chunk i to chunk j, moved
        RP s(build_chunks(rw.row(v, k0, st, i, j)));
        Set P = chunks_set(rw.row(v, k0, st, i, j));
        for (int64_t o : {(int64_t)65536, (int64_t)-65536 * 9, (int64_t)1, (int64_t)-40000, (int64_t)65536 * 11 + 300, -(int64_t)(a + 65536), (int64_t)(E32 - 1 - b) + 65536 * 2 + 10}) {
            e.detail("row variant %d, chunks %d to %d, add_offset(%lld)", v, i, j, (long long)o);
            RP f(roaring_bitmap_add_offset(s.get(), o));
            expect_set(f.get(), shifted(P, o), "add_offset");
            e.eval();
        }
        expect_set(r.get(), S, "source of the flips");
        expect_set(s.get(), P, "source of the offsets");
        e.outcome(mc::hash64(q + 77000));
    }, nullptr, 2);
    // the same complements for 64 bits
    for (const rows::Rows rw : {rows::Rows{false}, rows::Rows{true}})
        e.parallel(rw.wide ? "wide rows64" : "rows64", rw.intervals() * 3, [&, rw](uint64_t q) {
            int i, j, v = (int)(q % 3);
            rw.interval(q / 3, i, j);
            const uint64_t st = v + 1, k0 = v == 0 ? 0 : v == 1 ? 0x1000000000000ull - 2 * rw.n() : 0x5FFFFFFF0ull;
            Chunks c = rw.row(v, 0, 1);
            std::vector<Bucket> bs;
            for (auto &x : c) {
                uint64_t key = k0 + x.key * st;
                if (bs.empty() || bs.back().high != (uint32_t)(key >> 16)) bs.push_back({(uint32_t)(key >> 16), {}});
                bs.back().cs.push_back({(uint16_t)key, x.s, x.rep});
            }
            Set S = buckets_set(bs);
            RP64 r(build64_buckets(bs));
            uint64_t a = (k0 + (uint64_t)i * st) << 16, b = ((k0 + (uint64_t)j * st) << 16) + 65535;
            for (uint64_t da : {0, 7})
                for (uint64_t db : {0, 7}) {
                    e.detail("64-bit %s variant %d, flip [%llu,%llu]", rw.name(), v, (ull)(a + da), (ull)(b - db));
                    Set W = S.flip(a + da, b - db);
                    RP64 f(roaring64_bitmap_flip_closed(r.get(), a + da, b - db));
                    expect_set64(f.get(), W, "flip_closed");
                    expect_valid64(f.get(), "flip_closed");
                    RP64 d(roaring64_bitmap_copy(r.get()));
                    roaring64_bitmap_flip_closed_inplace(d.get(), a + da, b - db);
                    expect_set64(d.get(), W, "flip_closed_inplace");
                    if (b - db != UINT64_MAX) {
                        RP64 g(roaring64_bitmap_flip(r.get(), a + da, b - db + 1));
                        expect_set64(g.get(), W, "flip");
                    }
                    e.eval(3);
                }
            expect_set64(r.get(), S, "source of the flips");
            e.outcome(mc::hash64(q + 88000));
        }, nullptr, 2);
    e.rule = "each case is a source bitmap (or none) with one range, step or offset; the produced bitmap is compared with the image computed on intervals";
    e.samples.push_back("from_range(4294901760, 4294967295, 65537)");
    e.samples.push_back("offset: " + its[7].name + " at key 3 shared, add_offset(-65537)");
    return e.finish();
}
