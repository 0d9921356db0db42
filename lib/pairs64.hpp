// All binary operations on pairs of 64-bit bitmaps; shared by several checks with different oracles.
#pragma once
#include "lib64.hpp"
#include "pairs.hpp"
namespace p64 {
typedef unsigned long long ull;
template <class MakeA, class MakeB>
inline void all_ops(const PairOpts &o, const MakeA &mka, const MakeB &mkb, const Set &A, const Set &B, const PairModel &m) {
    auto &e = mc::E();
    LeakScope ls;
    {
        RP64 a(mka()), b(mkb());
        std::string sa, sb;
        if (o.operands) sa = ser_bytes64(a.get()), sb = ser_bytes64(b.get());
        auto disturb = [&](R64 *r) {
            roaring64_bitmap_flip_closed_inplace(r, 0, 1 << 17);
            roaring64_bitmap_remove_range_closed(r, 3, 70000);
            roaring64_bitmap_flip_closed_inplace(r, U64M - 70000, U64M);
            if (!A.empty()) roaring64_bitmap_flip_closed_inplace(r, A.max() & ~65535ull, A.max() | 65535);
            if (!B.empty()) roaring64_bitmap_flip_closed_inplace(r, B.min() & ~65535ull, B.min() | 65535);
        };
        auto res = [&](const char *op, R64 *r, const Set &want) {
            RP64 h(r);
            if (o.values) expect_set64(r, want, op);
            if (o.valid) expect_valid64(r, op);
            if (o.operands) {
                MC_CHECK(ser_bytes64(a.get()) == sa, "%s changed its first operand", op);
                MC_CHECK(ser_bytes64(b.get()) == sb, "%s changed its second operand", op);
                disturb(r);
                MC_CHECK(ser_bytes64(a.get()) == sa, "updating the result of %s changed its first operand", op);
                MC_CHECK(ser_bytes64(b.get()) == sb, "updating the result of %s changed its second operand", op);
            }
            e.eval();
        };
        res("and", roaring64_bitmap_and(a.get(), b.get()), m.i);
        res("or", roaring64_bitmap_or(a.get(), b.get()), m.u);
        res("xor", roaring64_bitmap_xor(a.get(), b.get()), m.x);
        res("andnot", roaring64_bitmap_andnot(a.get(), b.get()), m.d);
        auto inp = [&](const char *op, void (*f)(R64 *, const R64 *), const Set &want) {
            RP64 c(mka());
            f(c.get(), b.get());
            if (o.values) expect_set64(c.get(), want, op);
            if (o.valid) expect_valid64(c.get(), op);
            if (o.operands) {
                MC_CHECK(ser_bytes64(b.get()) == sb, "%s changed its second operand", op);
                disturb(c.get());
                MC_CHECK(ser_bytes64(b.get()) == sb, "updating the result of %s changed its second operand", op);
            } else if (o.values) {  // the result stays usable
                uint64_t y = A.empty() ? 77 : A.min() ^ 1;
                bool w = !want.has(y);
                MC_CHECK(roaring64_bitmap_add_checked(c.get(), y) == w, "add_checked after %s", op);
                MC_CHECK(roaring64_bitmap_get_cardinality(c.get()) == want.card() + w, "cardinality after %s and an addition", op);
            }
            e.eval();
        };
        inp("and_inplace", roaring64_bitmap_and_inplace, m.i);
        inp("or_inplace", roaring64_bitmap_or_inplace, m.u);
        inp("xor_inplace", roaring64_bitmap_xor_inplace, m.x);
        inp("andnot_inplace", roaring64_bitmap_andnot_inplace, m.d);
        auto num = [&](const char *op, uint64_t got, uint64_t want) {
            if (o.values) MC_CHECK(got == want, "%s: got %llu, expected %llu", op, (ull)got, (ull)want);
            e.eval();
        };
        num("and_cardinality", roaring64_bitmap_and_cardinality(a.get(), b.get()), m.i.card());
        num("or_cardinality", roaring64_bitmap_or_cardinality(a.get(), b.get()), m.u.card());
        num("xor_cardinality", roaring64_bitmap_xor_cardinality(a.get(), b.get()), m.x.card());
        num("andnot_cardinality", roaring64_bitmap_andnot_cardinality(a.get(), b.get()), m.d.card());
        num("intersect", roaring64_bitmap_intersect(a.get(), b.get()), !m.i.empty());
        num("equals", roaring64_bitmap_equals(a.get(), b.get()), m.x.empty());
        num("is_subset", roaring64_bitmap_is_subset(a.get(), b.get()), m.d.empty());
        num("is_strict_subset", roaring64_bitmap_is_strict_subset(a.get(), b.get()), m.d.empty() && !m.x.empty());
        if (o.values && !m.u.empty()) {
            double j = roaring64_bitmap_jaccard_index(a.get(), b.get()), w = (double)m.i.card() / (double)m.u.card();
            MC_CHECK(j - w < 1e-12 && w - j < 1e-12, "jaccard_index: got %.17g, expected %.17g", j, w);
            e.eval();
        }
        if (o.operands) {
            MC_CHECK(ser_bytes64(a.get()) == sa, "a predicate or count changed its first operand");
            MC_CHECK(ser_bytes64(b.get()) == sb, "a predicate or count changed its second operand");
        }
    }
    if (o.leaks) {
        ls.check("64-bit pair operations");
        MC_CHECK(hk::S.foreign == 0, "library bypassed the memory hooks");
    }
    mc::Hash h;
    for (auto *s : {&A, &B, &m.i, &m.u})
        for (auto &i : s->v) {
            h.u64(i.a);
            h.u64(i.b);
        }
    e.outcome(h.h);
}
// high parts chosen so that key paths share 0..5 bytes and cover both ends
static const uint64_t HK[10] = {0, 1, 2, 0x100, 0x10000, 0x7FFFFFFFFFFFull, 0x800000000000ull, 0xFFFFFF000000ull, 0xFFFFFFFFFF00ull, 0xFFFFFFFFFFFFull};
inline void families(const PairOpts &o) {
    auto &e = mc::E();
    int level = o.level >= 0 ? o.level : e.thorough ? 2 : 1;
    if (o.shapes) {
        auto cs = contents(level);
        auto its = items(cs);
        uint64_t n = its.size();
        e.parallel("shapes64", n * n, [&](uint64_t i) {
            const Item &a = its[i / n], &b = its[i % n];
            uint64_t base = HK[i % 10] << 16;
            Set A = a.s->shift(base), B = b.s->shift(base);
            // and a chunk on one side only
            uint64_t ob = HK[(i + 3) % 10] << 16;
            if (i % 4 == 1) A = A.uni(Set{ob + 5, ob + 9});
            if (i % 4 == 2) B = B.uni(Set{ob + 5, ob + 9});
            PairModel m = model_pair(A, B);
            e.detail("%s with %s at %llx", a.name.c_str(), b.name.c_str(), (ull)base);
            auto ba = split64(A, a.rep == R_RUN ? rep_run : rep_natural), bb = split64(B, b.rep == R_RUN ? rep_run : rep_natural);
            all_ops(o, [&] { return build64_buckets(ba); }, [&] { return build64_buckets(bb); }, A, B, m);
        });
    }
    if (o.keys) {
        // every pair of subsets of a pool of high parts (single values)
        int nk = e.thorough ? 7 : 6;
        for (int pool = 0; pool < 3; pool++) {
            static const int pick[3][7] = {{0, 1, 3, 4, 6, 9, 5}, {1, 2, 3, 7, 8, 9, 0}, {0, 2, 5, 6, 7, 9, 4}};
            uint64_t pn = 1ull << nk;
            auto kset = [&](uint64_t mask, uint64_t low) {
                Set s;
                for (int j = 0; j < nk; j++)
                    if (mask >> j & 1) s.add(HK[pick[pool][j]] << 16 | low);
                return s;
            };
            auto kb = [&](const Set &s) {
                RP64 r(roaring64_bitmap_create());
                s.each([&](uint64_t v) { roaring64_bitmap_add(r.get(), v); });
                return r.release();
            };
            e.parallel(mc::strf("keypatterns64-%d", pool), pn * pn, [&](uint64_t i) {
                uint64_t x = i / pn, y = i % pn;
                // same or different low parts in common keys
                Set A = kset(x, 5), B = i % 3 ? kset(y, 5) : kset(y & 0x15, 5).uni(kset(y & ~0x15ull, 6));
                e.detail("key masks %llx with %llx pool %d", (ull)x, (ull)y, pool);
                all_ops(o, [&] { return kb(A); }, [&] { return kb(B); }, A, B, model_pair(A, B));
            }, nullptr, 8);
        }
        // per key one of four chunks on either side, three keys
        struct K { Set s; Rep r; };
        std::vector<K> ks = {{Set(), R_AUTO}, {Set{0, 65535}, R_ARRAY}, {full16(), R_RUN}, {Set::range(1000, 6000).uni(Set{9, 65535}), R_BITSET}};
        uint64_t q = ks.size(), per = q * q * q;
        static const uint64_t keys[3] = {0, 0x100000000ull, 0xFFFFFFFFFFFFull};
        auto mk = [&](uint64_t c) {
            std::vector<Bucket> b;
            for (int j = 0; j < 3; j++, c /= q)
                if (c % q) b.push_back({(uint32_t)(keys[j] >> 16), {{(uint16_t)keys[j], ks[c % q].s, ks[c % q].r}}});
            return b;
        };
        std::vector<std::vector<Bucket>> all;
        std::vector<Set> sets;
        for (uint64_t c = 0; c < per; c++) {
            all.push_back(mk(c));
            sets.push_back(buckets_set(all.back()));
        }
        e.parallel("keys64", per * per, [&](uint64_t i) {
            uint64_t x = i / per, y = i % per;
            e.detail("key layouts %llu with %llu", (ull)x, (ull)y);
            all_ops(o, [&] { return build64_buckets(all[x]); }, [&] { return build64_buckets(all[y]); }, sets[x], sets[y], model_pair(sets[x], sets[y]));
        });
        // a row of 24 chunks of every kind with every interval of keys, everything outside it, or keys beside it
        static const std::vector<K> rk = {{Set{3, 9, 65535}, R_ARRAY}, {Set::range(5, 600), R_RUN}, {Set::range(60000, 64500).uni(Set{9}), R_BITSET},
                                          {Set{777}, R_ARRAY}, {Set::range(0, 40), R_RUN}, {Set{0, 65535}, R_RUN}, {full16(), R_RUN}};
        auto row = [&](int v, int i, int j, int mode, uint64_t k0) {
            std::vector<Bucket> b;
            for (int k = 0; k < 24; k++) {
                bool in = k >= i && k < j;
                if (mode == 1 ? in : !in) continue;  // mode 1: the keys outside the interval
                auto &t = rk[k == 11 ? 6 : (k * 5 + k / 6 + v) % 6];
                uint64_t key = k0 + 2 * k + (mode == 2);  // mode 2: the keys in between
                if (b.empty() || b.back().high != (uint32_t)(key >> 16)) b.push_back({(uint32_t)(key >> 16), {}});
                b.back().cs.push_back({(uint16_t)key, t.s, t.r});
            }
            return b;
        };
        e.parallel("rows64", 3 * 300 * 2 * (e.thorough ? 3 : 1), [&](uint64_t x) {
            int side = (int)(x & 1), mode = (int)(x / 2 % 3), pos = (int)(x / 6 % 300), v = e.thorough ? (int)(x / 1800) : pos % 3, i = 0, j;
            for (j = pos; j >= 24 - i; j -= 24 - i, i++) {}
            j += i + 1;
            uint64_t k0 = v == 0 ? 0 : v == 1 ? 0x1234FFFFFFE1ull : 0xFFFFFFFFFFFFull - 47;
            auto ba = row(0, 0, 24, 0, k0), bb = row(v * 2, i, j, mode, k0);
            if (side) std::swap(ba, bb);
            Set A = buckets_set(ba), B = buckets_set(bb);
            e.detail("64-bit row with interval [%d,%d) mode %d variant %d side %d", i, j, mode, v, side);
            all_ops(o, [&] { return build64_buckets(ba); }, [&] { return build64_buckets(bb); }, A, B, model_pair(A, B));
        }, nullptr, 4);
        // rows of 300 chunks with intervals of such rows, with what is outside the interval, and with keys beside it
        e.parallel("wide rows64", rows::WINTERVALS * 6, [&](uint64_t q) {
            int side = (int)(q & 1), mode = (int)(q / 2 % 3), v = (int)(q / 6 % 3), i, j;
            rows::winterval(q / 6, i, j);
            const uint64_t k0 = v == 0 ? 0 : v == 1 ? 0x1234FFFFFF10ull : 0x1000000000000ull - 2 * rows::W;
            auto ba = rows::wrow64(0, k0, 2, 0, rows::W - 1, 0), bb = rows::wrow64(v, k0, 2, i, j, mode);
            if (side) std::swap(ba, bb);
            Set A = buckets_set(ba), B = buckets_set(bb);
            e.detail("64-bit row of 300 chunks with chunks %d to %d, mode %d variant %d side %d", i, j, mode, v, side);
            all_ops(o, [&] { return build64_buckets(ba); }, [&] { return build64_buckets(bb); }, A, B, model_pair(A, B));
        }, nullptr, 2);
        for (const rows::Rows rw : {rows::Rows{false}, rows::Rows{true}})
            e.parallel(rw.wide ? "wide row twins64" : "row twins64", rw.points().size() * rows::TWINS * 2, [&, rw](uint64_t q) {
                int side = (int)(q & 1), how = (int)(q / 2 % rows::TWINS), p = rw.points()[q / 2 / rows::TWINS];
                Chunks c0 = rw.row(0, 0, 2), c1 = rows::twin(c0, p, how);
                const uint64_t k0 = p % 2 ? 0x1234FFFFFFE1ull : 0x7FFFFFFFFF00ull;
                auto wide_keys = [&](const Chunks &c) {
                    std::vector<Bucket> b;
                    for (auto &x : c) {
                        uint64_t key = k0 + x.key;
                        if (b.empty() || b.back().high != (uint32_t)(key >> 16)) b.push_back({(uint32_t)(key >> 16), {}});
                        b.back().cs.push_back({(uint16_t)key, x.s, x.rep});
                    }
                    return b;
                };
                auto ba = wide_keys(c0), bb = wide_keys(c1);
                if (side) std::swap(ba, bb);
                Set A = buckets_set(ba), B = buckets_set(bb);
                e.detail("64-bit %s: twin %d at chunk %d side %d", rw.name(), how, p, side);
                all_ops(o, [&] { return build64_buckets(ba); }, [&] { return build64_buckets(bb); }, A, B, model_pair(A, B));
            }, nullptr, 2);
        // index nodes of every size on either side
        static const int sizes[] = {0, 1, 4, 5, 16, 17, 48, 49, 256, 300};
        e.parallel("nodes64", 10 * 10 * 6, [&](uint64_t i) {
            int n = sizes[i % 10], mm = sizes[i / 10 % 10], v = (int)(i / 100);
            int shift = v & 1 ? 40 : 16, stepb = v / 2 == 0 ? 1 : v / 2 == 1 ? 2 : 3;
            Set A, B;
            for (int k = 0; k < n; k++) A.add((uint64_t)k << shift);
            for (int k = 0; k < mm; k++) B.add(((uint64_t)(k * stepb) << shift) + (k % 5 == 0));
            auto kb = [&](const Set &s) {
                RP64 r(roaring64_bitmap_create());
                s.each([&](uint64_t x) { roaring64_bitmap_add(r.get(), x); });
                return r.release();
            };
            e.detail("%d keys with %d keys, variant %d", n, mm, v);
            all_ops(o, [&] { return kb(A); }, [&] { return kb(B); }, A, B, model_pair(A, B));
        });
    }
}
}  // namespace p64
