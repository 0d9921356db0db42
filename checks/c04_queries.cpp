// C04: every query against the set model for every catalogue content, representation, sharing state and layout.
#include "queries32.hpp"
#include "onerun.hpp"
#include "rows.hpp"
#include "spans.hpp"
int main(int argc, char **argv) {
    auto &e = mc::E();
    e.init(argc, argv, "C04");
    hk::install();
    int level = e.thorough ? 2 : 1;
    auto cs = contents(level);
    auto its = items(cs);
    uint64_t n = its.size();
    QOpts q;
    q.points = e.thorough ? 12 : 7;
    // single chunk: every item at three keys, plain or sharing storage with a copy
    e.parallel("single", n * 3 * 2, [&](uint64_t i) {
        auto &it = its[i / 6];
        bool shared = i % 2;
        uint16_t key = i / 2 % 3 == 0 ? 0 : i / 2 % 3 == 1 ? 9 : 0xFFFF;
        Set S = it.s->shift((uint64_t)key << 16);
        e.detail("%s at key %u%s", it.name.c_str(), key, shared ? ", shared" : "");
        RP r(build(*it.s, key, it.rep)), c;
        if (shared) {
            roaring_bitmap_set_copy_on_write(r.get(), true);
            c.reset(roaring_bitmap_copy(r.get()));
        }
        check_queries(r.get(), S, q);
        check_to_bitset(r.get(), S);
        if (shared) {
            check_queries(c.get(), S, QOpts{3, true, true, false});
            expect_set(r.get(), S, "after queries on the copy");
        }
        e.outcome(mc::hash64(i));
    }, nullptr, 1);
    // every argument in the chunk
    e.parallel("sweep", n, [&](uint64_t i) {
        auto &it = its[i];
        for (uint16_t key : {(uint16_t)0, (uint16_t)3}) {
            uint64_t base = (uint64_t)key << 16;
            RP r(build(*it.s, key, it.rep));
            e.detail("%s, every argument", it.name.c_str());
            uint64_t rank = 0;
            std::vector<uint32_t> args;
            std::vector<uint64_t> want;
            size_t iv = 0;
            for (uint32_t x = 0; x < 65536; x++) {
                while (iv < it.s->v.size() && it.s->v[iv].b < x) iv++;
                bool h = iv < it.s->v.size() && it.s->v[iv].a <= x;
                rank += h;
                uint32_t y = (uint32_t)base + x;
                args.push_back(y);
                want.push_back(rank);
                if (roaring_bitmap_contains(r.get(), y) != h) mc::fail("contains(%u)", y);
                if (key && !e.thorough) continue;
                if (roaring_bitmap_rank(r.get(), y) != rank) mc::fail("rank(%u): expected %llu", y, (unsigned long long)rank);
                if (roaring_bitmap_get_index(r.get(), y) != (h ? (int64_t)rank - 1 : -1)) mc::fail("get_index(%u)", y);
                if (h) {
                    uint32_t el = 0;
                    if (!roaring_bitmap_select(r.get(), (uint32_t)rank - 1, &el) || el != y)
                        mc::fail("select(%llu): got %u, expected %u", (unsigned long long)rank - 1, el, y);
                }
                if (roaring_bitmap_range_cardinality(r.get(), base, (uint64_t)y + 1) != rank) mc::fail("range_cardinality(base,%u]", y);
                e.eval(5);
            }
            std::vector<uint64_t> got(65537, 1);
            roaring_bitmap_rank_many(r.get(), args.data(), args.data() + args.size(), got.data());
            for (uint32_t x = 0; x < 65536; x++)
                if (got[x] != want[x]) mc::fail("rank_many at %u: got %llu expected %llu", x, (unsigned long long)got[x], (unsigned long long)want[x]);
            e.eval(65536);
        }
    }, nullptr, 1);
    // layouts of up to 5 chunks at adjacent and distant keys: each absent or one of several contents
    struct K { Set s; Rep r; };
    static const std::vector<K> ks = {{Set(), R_AUTO}, {Set{0, 65535}, R_ARRAY}, {full16(), R_RUN}, {Set::range(0, 9), R_RUN},
                                      {Set::step(0, 65535, 2), R_BITSET}, {Set::range(65530, 65535), R_RUN}, {full16(), R_BITSET}};
    static const uint16_t keys[5] = {0, 1, 2, 9, 0xFFFF};
    int nk = e.thorough ? 5 : 4, off = e.thorough ? 0 : 1;
    uint64_t per = 1;
    for (int j = 0; j < nk; j++) per *= ks.size();
    e.parallel("layouts", per * 2, [&](uint64_t i) {
        uint64_t c = i / 2;
        Chunks ch;
        std::string nm;
        for (int j = 0; j < nk; j++, c /= ks.size())
            if (c % ks.size()) {
                ch.push_back({keys[j + off], ks[c % ks.size()].s, ks[c % ks.size()].r});
                nm += mc::strf("%u:%s/%s ", ch.back().key, ch.back().s.str(2).c_str(), rep_name(ch.back().rep));
            }
        e.detail("layout %s%s", nm.c_str(), i % 2 ? "shared" : "");
        Set S = chunks_set(ch);
        RP r(ch.empty() ? roaring_bitmap_create() : build_chunks(ch)), cp;
        if (i % 2) {
            roaring_bitmap_set_copy_on_write(r.get(), true);
            cp.reset(roaring_bitmap_copy(r.get()));
        }
        QOpts o;
        o.points = 5;
        o.extraction = i % 2 || e.thorough;
        o.iterate = e.thorough;
        check_queries(r.get(), S, o);
        if (cp) expect_set(cp.get(), S, "the sharing copy after queries");
        e.outcome(mc::hash64(i + 1000000));
    }, nullptr, 2);
    // four consecutive chunks, every combination of kinds, every pair of boundary positions
    e.parallel("spans", span_count() * (e.thorough ? 3 : 1), [&](uint64_t i) {
        static const uint16_t base[3] = {0, 0x00FE, 0xFFFC};
        if (!e.thorough) i = i * 3 + (i + i / 9 + i / 81) % 3;  // quick: the base rotates over the combinations
        uint16_t key = base[i % 3];
        Chunks ch = span_chunks(i / 3, key);
        Set S = chunks_set(ch);
        e.detail("span %llu at key %u", (unsigned long long)(i / 3), key);
        RP r(ch.empty() ? roaring_bitmap_create() : build_chunks(ch));
        auto bad = [](const char *q, uint64_t a, uint64_t b, uint64_t g, uint64_t w) {
            if (g != w) mc::fail("%s over [%llu,%llu]: got %llu, expected %llu", q, (unsigned long long)a, (unsigned long long)b, (unsigned long long)g, (unsigned long long)w);
        };
        std::vector<uint32_t> pts;
        std::vector<uint64_t> want, got;
        span_pairs(S, (uint64_t)key << 16, e.thorough, [&](uint64_t a, uint64_t b, uint64_t n) {
            bad("contains_range_closed", a, b, roaring_bitmap_contains_range_closed(r.get(), (uint32_t)a, (uint32_t)b), n == b - a + 1);
            bad("contains_range", a, b, roaring_bitmap_contains_range(r.get(), a, b + 1), n == b - a + 1);
            bad("range_cardinality", a, b, roaring_bitmap_range_cardinality(r.get(), a, b + 1), n);
            bad("range_cardinality_closed", a, b, roaring_bitmap_range_cardinality_closed(r.get(), (uint32_t)a, (uint32_t)b), n);
            bad("intersect_with_range", a, b, roaring_bitmap_intersect_with_range(r.get(), a, b + 1), n > 0);
            e.eval(5);
            if (a == b) {
                pts.push_back((uint32_t)a);
                want.push_back(S.rank(a));
            }
        });
        got.assign(pts.size() + 1, 7);
        roaring_bitmap_rank_many(r.get(), pts.data(), pts.data() + pts.size(), got.data());
        for (size_t k = 0; k < pts.size(); k++) bad("rank_many", pts[k], k, got[k], want[k]);
        e.outcome(mc::hash64(i + 3000000));
    }, nullptr, 8);
    // intervals of every length asked of chunks that avoid them, meet them in one value or lack one value of them
    e.parallel("one interval", onerun::count(), [&](uint64_t i) {
        int a0, z0;
        if (!onerun::get(i, a0, z0)) return;
        auto bs = onerun::partners(a0, z0);
        for (size_t k = 0; k < bs.size(); k++) {
            uint64_t base = (i + k) % 3 == 0 ? 0 : (i + k) % 3 == 1 ? 7u << 16 : 0xFFFF0000ull;
            const Set &S = bs[k].first;
            RP r(build(S, (uint16_t)(base >> 16), bs[k].second));
            for (int da = -1; da <= 1; da++)
                for (int dz = -1; dz <= 1; dz++) {
                    int a = a0 + da, z = z0 + dz;
                    if (a < 0 || z > 65535 || a > z) continue;
                    e.detail("%s as %s, [%d,%d] of chunk %u", S.str().substr(0, 60).c_str(), rep_name(bs[k].second), a, z, (unsigned)(base >> 16));
                    uint64_t n = S.range_card((uint64_t)a, (uint64_t)z), x = base + (uint64_t)a, y = base + (uint64_t)z + 1;
                    MC_CHECK(roaring_bitmap_contains_range(r.get(), x, y) == (n == (uint64_t)(z - a + 1)), "contains_range");
                    MC_CHECK(roaring_bitmap_intersect_with_range(r.get(), x, y) == (n > 0), "intersect_with_range");
                    uint64_t g = roaring_bitmap_range_cardinality(r.get(), x, y);
                    MC_CHECK(g == n, "range_cardinality: got %llu, expected %llu", (unsigned long long)g, (unsigned long long)n);
                    g = roaring_bitmap_rank(r.get(), (uint32_t)(y - 1));
                    MC_CHECK(g == S.rank((uint64_t)z), "rank: got %llu, expected %llu", (unsigned long long)g, (unsigned long long)S.rank((uint64_t)z));
                    e.eval(4);
                }
        }
    }, nullptr, 2);
    // rows of 24 and of 300 chunks: every query at every interval of the row; and full chunks with a hole in one of them
    for (const rows::Rows rw : {rows::Rows{false}, rows::Rows{true}})
        e.parallel(rw.name(), rw.points().size() * 4, [&, rw](uint64_t q) {
            const auto pts = rw.points();
            int hole = pts[q % pts.size()], v = (int)(q / pts.size());
            const int st = v == 1 ? 2 : 1;
            const uint64_t k0 = v == 1 ? 0x10000 - 2 * rw.n() : v == 2 ? 0xF0 : 0;
            Chunks ch;
            if (v < 2) ch = rw.row((hole + v) % 5, k0, st);
            else
                for (int k = 0; k < rw.n(); k++) {
                    Set s = full16();
                    if (k == hole) s = v == 2 ? s.minus(Set{40000}) : s.minus(Set::range(65535, 65535));
                    ch.push_back({(uint16_t)(k0 + k), s, R_RUN});
                }
            Set S = chunks_set(ch);
            RP r(build_chunks(ch));
            e.detail("%s: position %d variant %d", rw.name(), hole, v);
            if (v < 2) {
                QOpts o;
                o.points = 12;
                o.ranges = false;
                check_queries(r.get(), S, o);
            }
            for (int i : pts)
                for (int j : pts)
                    for (int d = 0; d < 4; d++) {
                        uint64_t a = ((k0 + (uint64_t)i * st) << 16) + (d & 1 ? 777 : 0), b = ((k0 + (uint64_t)j * st) << 16) + (d & 2 ? 9 : 65535);
                        if (a > b) continue;
                        uint64_t n = S.range_card(a, b);
                        auto bad = [&](const char *w, uint64_t g, uint64_t x) {
                            if (g != x) mc::fail("%s over [%llu,%llu]: got %llu, expected %llu", w, (unsigned long long)a, (unsigned long long)b, (unsigned long long)g, (unsigned long long)x);
                        };
                        bad("contains_range", roaring_bitmap_contains_range(r.get(), a, b + 1), n == b - a + 1);
                        bad("range_cardinality", roaring_bitmap_range_cardinality(r.get(), a, b + 1), n);
                        bad("intersect_with_range", roaring_bitmap_intersect_with_range(r.get(), a, b + 1), n > 0);
                        bad("rank", roaring_bitmap_rank(r.get(), (uint32_t)b), S.rank(b));
                        e.eval(4);
                    }
        }, nullptr, 1);
    // batched rank over chunks whose keys agree in one byte: every subset of nine keys, every representation
    e.parallel("rank-keys", 512 * 3, [&](uint64_t i) {
        static const uint16_t K[9] = {0, 1, 0x00FF, 0x0100, 0x0101, 0x0200, 0x01FF, 0xFF00, 0xFFFF};
        static const Rep reps[3] = {R_ARRAY, R_RUN, R_BITSET};
        std::vector<uint16_t> ks(K, K + 9);
        std::sort(ks.begin(), ks.end());
        Chunks ch;
        for (int j = 0; j < 9; j++)
            if (i / 3 >> j & 1) {
                Rep rp = reps[(i + j) % 3];
                ch.push_back({ks[j], rp == R_BITSET ? Set::step(5, 65000, 9) : rp == R_RUN ? Set::range(7, 40).uni(Set::range(100, 60000)) : Set::step(3, 60000, 1000), rp});
            }
        Set S = chunks_set(ch);
        RP r(ch.empty() ? roaring_bitmap_create() : build_chunks(ch));
        e.detail("rank_many over key subset %llx, rotation %llu", (unsigned long long)(i / 3), (unsigned long long)(i % 3));
        // one, two or three arguments per chunk, and every pair of chunks directly following each other
        std::vector<std::vector<uint32_t>> qs;
        static const uint32_t lows[4] = {0, 50, 3003, 65535};
        for (int per = 1; per <= 4; per++)
            for (int st = 0; st + per <= 4; st++) {
                std::vector<uint32_t> q;
                for (auto k : ks)
                    for (int t = st; t < st + per; t++) q.push_back((uint32_t)k << 16 | lows[t]);
                qs.push_back(q);
            }
        for (auto k1 : ks)
            for (auto k2 : ks)
                if (k1 < k2)
                    for (uint32_t l1 : lows)
                        for (uint32_t l2 : lows) qs.push_back({(uint32_t)k1 << 16 | l1, (uint32_t)k2 << 16 | l2});
        std::map<uint32_t, uint64_t> rk;
        for (auto k : ks)
            for (uint32_t l : lows) rk[(uint32_t)k << 16 | l] = S.rank((uint32_t)k << 16 | l);
        for (auto &q : qs) {
            std::vector<uint64_t> got(q.size(), 7);
            roaring_bitmap_rank_many(r.get(), q.data(), q.data() + q.size(), got.data());
            for (size_t k = 0; k < q.size(); k++)
                if (got[k] != rk[q[k]]) mc::fail("rank_many at %u (position %zu of %zu): got %llu, expected %llu", q[k], k, q.size(), (unsigned long long)got[k], (unsigned long long)rk[q[k]]);
            e.eval(q.size());
        }
        e.outcome(mc::hash64(i + 4000000));
    }, nullptr, 4);
    // sets built by updates (bitmaps with spare capacity), wide key sets with 64-bit totals
    e.parallel("large", 6, [&](uint64_t i) {
        RP r(roaring_bitmap_create());
        Set s;
        if (i == 0) { roaring_bitmap_add_range(r.get(), 0, UEND); s = Set::range(0, UEND - 1); }
        if (i == 1) { roaring_bitmap_add_range(r.get(), 1, UEND); s = Set::range(1, UEND - 1); }
        if (i == 2) { roaring_bitmap_add_range(r.get(), 65536, UEND - 65536); s = Set::range(65536, UEND - 65537); }
        if (i == 3) for (uint64_t k = 0; k < 65536; k++) { uint64_t x = k << 16 | (k * 40503 & 65535); roaring_bitmap_add(r.get(), (uint32_t)x); s.v.push_back({x, x}); }
        if (i == 4) for (uint64_t k = 0; k < 600; k++) { uint64_t x = k * 109u << 16; roaring_bitmap_add_range(r.get(), x, x + 1 + k * 100); s = s.uni(Set::range(x, x + k * 100)); }
        if (i == 5) { roaring_bitmap_add_range(r.get(), 0, UEND); roaring_bitmap_remove(r.get(), 0x80000000u); s = Set::range(0, UEND - 1).minus(Set{0x80000000u}); }
        e.detail("large %llu", (unsigned long long)i);
        QOpts o;
        o.extraction = i == 3 || i == 4;
        check_queries(r.get(), s, o);
    }, nullptr, 1);
    e.rule = "each case is a bitmap (contents, representation, key layout, sharing state) with every query on every boundary argument and argument pair";
    e.samples.push_back("single: " + its[5].name + " at key 9, shared with a copy");
    return e.finish();
}
