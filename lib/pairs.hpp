// All binary operations on pairs of bitmaps; shared by several checks with different oracles switched on.
#pragma once
#include "lib32.hpp"
#include "near.hpp"
#include "onerun.hpp"
#include "rows.hpp"
struct PairOpts {
    bool values = true;    // contents, counts, predicates
    bool valid = false;    // internal validation of every result
    bool leaks = false;    // allocation balance per case
    bool operands = false; // read-only operands keep their bytes; results independent
    bool isa = true;       // all instruction-set levels
    int level = -1;        // catalogue level override
    bool merges = true, keys = true, shapes = true, algebra = true, near = true;
};
struct PairModel {
    Set i, u, x, d;
};
inline std::string ser_bytes(const R *r) {
    std::string b(roaring_bitmap_portable_size_in_bytes(r), '\0');
    roaring_bitmap_portable_serialize(r, &b[0]);
    return b;
}
// run every binary operation on (a,b); A,B model contents, m the four results
template <class MakeA, class MakeB>
inline void all_pair_ops(const PairOpts &o, const MakeA &mka, const MakeB &mkb, const Set &A, const Set &B,
                         const PairModel &m) {
    auto &e = mc::E();
    LeakScope ls;
    {
        RP a(mka()), b(mkb());
        std::string sa, sb;
        if (o.operands) sa = ser_bytes(a.get()), sb = ser_bytes(b.get());
        auto res = [&](const char *op, R *r, const Set &want) {
            RP h(r);
            if (o.values) expect_set(r, want, op);
            if (o.valid) {
                MC_CHECK(r, "%s returned NULL", op);
                expect_valid(r, op);
            }
            if (o.operands) {
                MC_CHECK(ser_bytes(a.get()) == sa, "%s changed its first operand", op);
                MC_CHECK(ser_bytes(b.get()) == sb, "%s changed its second operand", op);
                // result independent of the operands: overwrite the result, operands stay
                roaring_bitmap_flip_inplace(r, 0, 1ull << 20);
                roaring_bitmap_flip_inplace(r, 0xFFF00000ull, 1ull << 32);
                roaring_bitmap_remove_range(r, 3, 70000);
                MC_CHECK(ser_bytes(a.get()) == sa, "updating the result of %s changed its first operand", op);
                MC_CHECK(ser_bytes(b.get()) == sb, "updating the result of %s changed its second operand", op);
            }
            e.eval();
        };
        res("and", roaring_bitmap_and(a.get(), b.get()), m.i);
        res("or", roaring_bitmap_or(a.get(), b.get()), m.u);
        res("xor", roaring_bitmap_xor(a.get(), b.get()), m.x);
        res("andnot", roaring_bitmap_andnot(a.get(), b.get()), m.d);
        auto inp = [&](const char *op, void (*f)(R *, const R *), const Set &want) {
            RP c(mka());
            f(c.get(), b.get());
            if (o.values) expect_set(c.get(), want, op);
            if (o.valid) expect_valid(c.get(), op);
            if (o.operands) {
                MC_CHECK(ser_bytes(b.get()) == sb, "%s changed its second operand", op);
                roaring_bitmap_flip_inplace(c.get(), 0, 1ull << 20);
                roaring_bitmap_flip_inplace(c.get(), 0xFFF00000ull, 1ull << 32);
                roaring_bitmap_remove_range(c.get(), 3, 70000);
                MC_CHECK(ser_bytes(b.get()) == sb, "updating the result of %s changed its second operand", op);
            }
            e.eval();
        };
        inp("and_inplace", roaring_bitmap_and_inplace, m.i);
        inp("or_inplace", roaring_bitmap_or_inplace, m.u);
        inp("xor_inplace", roaring_bitmap_xor_inplace, m.x);
        inp("andnot_inplace", roaring_bitmap_andnot_inplace, m.d);
        auto num = [&](const char *op, uint64_t got, uint64_t want) {
            if (o.values)
                MC_CHECK(got == want, "%s: got %llu, expected %llu", op, (unsigned long long)got,
                         (unsigned long long)want);
            e.eval();
        };
        num("and_cardinality", roaring_bitmap_and_cardinality(a.get(), b.get()), m.i.card());
        num("or_cardinality", roaring_bitmap_or_cardinality(a.get(), b.get()), m.u.card());
        num("xor_cardinality", roaring_bitmap_xor_cardinality(a.get(), b.get()), m.x.card());
        num("andnot_cardinality", roaring_bitmap_andnot_cardinality(a.get(), b.get()), m.d.card());
        num("intersect", roaring_bitmap_intersect(a.get(), b.get()), !m.i.empty());
        num("equals", roaring_bitmap_equals(a.get(), b.get()), m.x.empty());
        num("is_subset", roaring_bitmap_is_subset(a.get(), b.get()), m.d.empty());
        num("is_strict_subset", roaring_bitmap_is_strict_subset(a.get(), b.get()), m.d.empty() && !m.x.empty());
        if (o.values && !m.u.empty()) {
            double j = roaring_bitmap_jaccard_index(a.get(), b.get());
            double w = (double)m.i.card() / (double)m.u.card();
            MC_CHECK(j - w < 1e-12 && w - j < 1e-12, "jaccard_index: got %.17g, expected %.17g", j, w);
            e.eval();
        }
        if (o.operands) {
            MC_CHECK(ser_bytes(a.get()) == sa, "a predicate or count changed its first operand");
            MC_CHECK(ser_bytes(b.get()) == sb, "a predicate or count changed its second operand");
        }
    }
    if (o.leaks) {
        ls.check("pair operations");
        MC_CHECK(hk::S.foreign == 0, "library bypassed the memory hooks");
    }
    mc::Hash h;
    for (auto *s : {&A, &B, &m.i, &m.u})
        for (auto &i : s->v) h.u64(i.a << 20 ^ i.b);
    e.outcome(h.h);
}
inline PairModel model_pair(const Set &A, const Set &B) { return {A.inter(B), A.uni(B), A.xr(B), A.minus(B)}; }

inline void run_pair_families(const PairOpts &o) {
    auto &e = mc::E();
    int level = o.level >= 0 ? o.level : e.thorough ? 2 : 1;
    int nisa = o.isa ? 3 : 1;
    // 1. every ordered pair of catalogue chunks in every representation
    if (o.shapes) {
        auto cs = contents(level);
        auto its = items(cs);
        uint64_t n = its.size();
        e.samples.push_back("shapes: " + its[3].name + " op " + its[n - 1].name);
        e.parallel("shapes", n * n, [&](uint64_t i) {
            const Item &a = its[i / n], &b = its[i % n];
            uint16_t key = (uint16_t)((i % 3) * 7);  // chunk key does not matter here; vary it
            Set A = a.s->shift((uint64_t)key << 16), B = b.s->shift((uint64_t)key << 16);
            PairModel m = model_pair(A, B);
            for (int k = 0; k < nisa; k++) {
                IsaScope is(o.isa ? ISA_LEVELS[k] : -1);
                e.detail("%s with %s, %s", a.name.c_str(), b.name.c_str(), o.isa ? isa_name(ISA_LEVELS[k]) : "native");
                all_pair_ops(o, [&] { return build(*a.s, key, a.rep); }, [&] { return build(*b.s, key, b.rep); }, A, B, m);
                if (e.thorough || level == 0)
                    all_pair_ops(o, [&] { return build_slack(*a.s, key, a.rep); },
                                 [&] { return build_slack(*b.s, key, b.rep); }, A, B, m);
            }
        });
    }
    // 2. key layouts: per key each side is absent or one of a few chunks; three keys, all combinations
    if (o.keys) {
        struct K { Set s; Rep r; };
        std::vector<K> ks = {{Set(), R_AUTO}, {Set{0, 65535}, R_ARRAY}, {full16(), R_RUN},
                             {Set::range(1000, 6000).uni(Set{9, 65535}), R_BITSET}};
        if (e.thorough) ks.push_back({Set::range(5000, 60000).uni(Set{8}), R_BITSET});
        int nkeys = e.thorough ? 4 : 3;
        uint64_t q = ks.size(), per = 1;
        for (int j = 0; j < nkeys; j++) per *= q;
        static const uint16_t keys[4] = {0, 0x8000, 0xFFFF, 5};
        static const uint16_t order[4] = {0, 3, 1, 2};
        auto mk = [&](uint64_t c) {
            Chunks ch;
            for (int j = 0; j < 4; j++) {
                if (nkeys == 3 && j == 1) continue;
                if (c % q) ch.push_back({keys[order[j]], ks[c % q].s, ks[c % q].r});
                c /= q;
            }
            return ch;
        };
        std::vector<Chunks> all;
        std::vector<Set> sets;
        for (uint64_t c = 0; c < per; c++) {
            all.push_back(mk(c));
            sets.push_back(chunks_set(all.back()));
        }
        auto b1 = [](const Chunks &c) { return c.empty() ? roaring_bitmap_create() : build_chunks(c); };
        e.samples.push_back("keys: three chunk keys 0,0x8000,0xffff, each absent/array/run/bitset on either side");
        e.parallel("keys", per * per, [&](uint64_t i) {
            uint64_t x = i / per, y = i % per;
            e.detail("key layouts %llu with %llu", (unsigned long long)x, (unsigned long long)y);
            PairModel m = model_pair(sets[x], sets[y]);
            all_pair_ops(o, [&] { return b1(all[x]); }, [&] { return b1(all[y]); }, sets[x], sets[y], m);
        });
        // longer key sequences of single-value chunks: every presence pattern of 6 keys on either side
        int nk = e.thorough ? 7 : 6;
        uint64_t pn = 1ull << nk;
        auto kset = [&](uint64_t mask) {
            Set s;
            for (int j = 0; j < nk; j++)
                if (mask >> j & 1) s.add((uint64_t)(j == nk - 1 ? 0xFFFF : j * 3) << 16 | 5);
            return s;
        };
        auto kb = [&](uint64_t mask) {
            R *r = roaring_bitmap_create();
            Set s = kset(mask);
            s.each([&](uint64_t v) { roaring_bitmap_add(r, (uint32_t)v); });
            return r;
        };
        e.parallel("keypatterns", pn * pn, [&](uint64_t i) {
            uint64_t x = i / pn, y = i % pn;
            Set A = kset(x), B = kset(y);
            e.detail("key masks %llx with %llx", (unsigned long long)x, (unsigned long long)y);
            all_pair_ops(o, [&] { return kb(x); }, [&] { return kb(y); }, A, B, model_pair(A, B));
        }, nullptr, 8);
        // a row of 24 chunks of every kind with every interval of keys, everything outside it, or keys beside it
        static const std::vector<K> rk = {{Set{3, 9, 65535}, R_ARRAY}, {Set::range(5, 600), R_RUN}, {Set::range(60000, 64500).uni(Set{9}), R_BITSET},
                                          {Set{777}, R_ARRAY}, {Set::range(0, 40), R_RUN}, {Set{0, 65535}, R_RUN}, {full16(), R_RUN}};
        auto row = [&](int v, int i, int j, int mode) {
            Chunks c;
            for (int k = 0; k < 24; k++) {
                bool in = k >= i && k < j;
                if (mode == 1 ? in : !in) continue;  // mode 1: the keys outside the interval
                int t = k == 11 ? 6 : (k * 5 + k / 6 + v) % 6;
                c.push_back({(uint16_t)(7 + 2 * k + (mode == 2)), rk[t].s, rk[t].r});  // mode 2: the keys in between
            }
            return c;
        };
        e.samples.push_back("rows: 24 chunks of six kinds with the keys of positions 5..17 only");
        e.parallel("rows", 3 * 300 * 2 * (e.thorough ? 3 : 1), [&](uint64_t q) {
            int side = (int)(q & 1), mode = (int)(q / 2 % 3), pos = (int)(q / 6 % 300), v = e.thorough ? (int)(q / 1800) : pos % 3, i = 0, j;
            for (j = pos; j >= 24 - i; j -= 24 - i, i++) {}
            j += i + 1;
            Chunks ca = row(0, 0, 24, 0), cb = row(v * 2, i, j, mode);
            if (side) std::swap(ca, cb);
            Set A = chunks_set(ca), B = chunks_set(cb);
            e.detail("row with interval [%d,%d) mode %d variant %d side %d", i, j, mode, v, side);
            all_pair_ops(o, [&] { return b1(ca); }, [&] { return b1(cb); }, A, B, model_pair(A, B));
        }, nullptr, 4);
    }
    if (o.keys) {
        // rows of 300 chunks with intervals of such rows, with what is outside the interval, and with keys beside it
        e.parallel("wide rows", rows::WINTERVALS * 6, [&](uint64_t q) {
            int side = (int)(q & 1), mode = (int)(q / 2 % 3), v = (int)(q / 6 % 2), i, j;
            rows::winterval(q / 6, i, j);
            const uint64_t k0 = v ? 0x10000 - 2 * rows::W : 0;
            Chunks ca = rows::wrow(0, k0, 2), cb = rows::wrow(v, k0, 2, i, j, mode);
            if (side) std::swap(ca, cb);
            Set A = chunks_set(ca), B = chunks_set(cb);
            e.detail("row of 300 chunks with chunks %d to %d, mode %d variant %d side %d", i, j, mode, v, side);
            all_pair_ops(o, [&] { return ca.empty() ? roaring_bitmap_create() : build_chunks(ca); }, [&] { return cb.empty() ? roaring_bitmap_create() : build_chunks(cb); }, A, B, model_pair(A, B));
        }, nullptr, 2);
    }
    if (o.keys)
        for (const rows::Rows rw : {rows::Rows{false}, rows::Rows{true}})
            e.parallel(rw.wide ? "wide row twins" : "row twins", rw.points().size() * rows::TWINS * 2, [&, rw](uint64_t q) {
                int side = (int)(q & 1), how = (int)(q / 2 % rows::TWINS), p = rw.points()[q / 2 / rows::TWINS];
                Chunks ca = rw.row(0, 3, 2), cb = rows::twin(ca, p, how);
                if (side) std::swap(ca, cb);
                Set A = chunks_set(ca), B = chunks_set(cb);
                e.detail("%s: twin %d at chunk %d side %d", rw.name(), how, p, side);
                all_pair_ops(o, [&] { return build_chunks(ca); }, [&] { return build_chunks(cb); }, A, B, model_pair(A, B));
            }, nullptr, 2);
    // 3. subset algebra over boundary atoms in all representations
    if (o.algebra) {
        static const std::vector<Set> atoms = {Set{0}, Set::range(1, 63), Set{64}, Set::range(4000, 8100), Set{32768},
                                               Set::range(65000, 65534), Set{65535}};
        int na = e.thorough ? 7 : 6;
        uint64_t per = (1ull << na);
        auto mset = [&](uint64_t mask) {
            Set s;
            for (int j = 0; j < na; j++)
                if (mask >> j & 1) s = s.uni(atoms[j]);
            return s;
        };
        std::vector<std::pair<Set, Rep>> v;
        for (uint64_t k = 1; k < per; k++) {
            Set s = mset(k);
            v.push_back({s, natural(s)});
            v.push_back({s, R_RUN});
        }
        uint64_t n = v.size();
        e.parallel("algebra", n * n, [&](uint64_t i) {
            auto &a = v[i / n];
            auto &b = v[i % n];
            e.detail("%s/%s with %s/%s", a.first.str().c_str(), rep_name(a.second), b.first.str().c_str(), rep_name(b.second));
            PairModel m = model_pair(a.first, b.first);
            all_pair_ops(o, [&] { return build(a.first, 0, a.second); }, [&] { return build(b.first, 0, b.second); },
                         a.first, b.first, m);
        });
    }
    // 4. every merge order of two sorted arrays: each position belongs to the left, the right or both
    if (o.merges) {
        int L = e.thorough ? 9 : 7;
        uint64_t pw = 1;
        for (int j = 0; j < L; j++) pw *= 3;
        static const int pre[4] = {0, 3, 8, 13}, post[4] = {0, 5, 8, 24};
        uint64_t ctx = 4 * 4 * 3;
        e.samples.push_back("merges: ternary word of length 7 between filler blocks, e.g. 0120212 (left/right/both)");
        e.parallel("merges", ctx * pw, [&](uint64_t i) {
            uint64_t c = i / pw, w = i % pw;
            int p = pre[c % 4], q = post[c / 4 % 4], kind = (int)(c / 16);
            std::vector<uint32_t> a, b;
            uint32_t x = 10;
            auto put = [&](int t) {
                if (t != 1) a.push_back(x);
                if (t != 0) b.push_back(x);
                x += 1 + (x % 3 == 0);
            };
            for (int j = 0; j < p; j++) put(kind == 0 ? 2 : kind == 1 ? j & 1 : (j % 3));
            for (int j = 0; j < L; j++, w /= 3) put((int)(w % 3));
            for (int j = 0; j < q; j++) put(kind == 0 ? (j & 1) : kind == 1 ? 2 : 2 - j % 3);
            Set A, B;
            for (auto y : a) A.add(y);
            for (auto y : b) B.add(y);
            PairModel m = model_pair(A, B);
            auto mk = [](const std::vector<uint32_t> &v) {
                R *r = roaring_bitmap_create();
                roaring_bitmap_add_many(r, v.size(), v.data());
                return r;
            };
            for (int k = 0; k < nisa; k++) {
                if (o.isa && k == 2 && !e.thorough) continue;  // arrays have no 512-bit merge path of their own
                IsaScope is(o.isa ? ISA_LEVELS[k] : -1);
                e.detail("merge pattern %llu context %llu, isa %d", (unsigned long long)(i % pw), (unsigned long long)c, k);
                all_pair_ops(o, [&] { return mk(a); }, [&] { return mk(b); }, A, B, m);
            }
        }, nullptr, 8);
        // one run of every length against a chunk that avoids it, meets it in one value or has all of it but one value
        if (o.values) e.parallel("one run", onerun::count(), [&](uint64_t i) {
            int a, z;
            if (!onerun::get(i, a, z)) return;
            Set A = Set::range((uint64_t)a, (uint64_t)z), more = A;
            if (a > 5000) more.add(77);
            auto bs = onerun::partners(a, z);
            for (size_t k = 0; k < bs.size(); k++) {
                Set &L = k % 3 == 2 ? more : A;
                auto &b = bs[k];
                for (int l = 0; l < nisa; l++) {
                    if (!e.thorough && (uint64_t)l != (i + k) % nisa) continue;
                    IsaScope is(o.isa ? ISA_LEVELS[l] : -1);
                    e.detail("run %d..%d with %s as %s, isa %d", a, z, b.first.str().substr(0, 60).c_str(), rep_name(b.second), l);
                    all_pair_ops(o, [&] { return build(L, 0, R_RUN); }, [&] { return build(b.first, 0, b.second); }, L, b.first, model_pair(L, b.first));
                    if ((i + k) % 2 || e.thorough)
                        all_pair_ops(o, [&] { return build(b.first, 0, b.second); }, [&] { return build(L, 0, R_RUN); }, b.first, L, model_pair(b.first, L));
                }
            }
        }, nullptr, 2);
        // skewed sizes: the galloping paths.  small array positions over every offset pattern
        e.parallel("skewed", 64 * 6 * 2, [&](uint64_t i) {
            uint64_t mask = i % 64, big = i / 64 % 6, side = i / 384;
            static const int bigs[6] = {64, 65, 130, 257, 700, 4000};
            std::vector<uint32_t> L2, S2;
            int n = bigs[big];
            for (int j = 0; j < n; j++) L2.push_back(20 + j * 3);
            uint32_t cand[6] = {0, 20, 21, (uint32_t)(20 + (n / 2) * 3), (uint32_t)(20 + (n - 1) * 3), 60000};
            for (int j = 0; j < 6; j++)
                if (mask >> j & 1) S2.push_back(cand[j]);
            std::sort(S2.begin(), S2.end());
            auto &a = side ? L2 : S2;
            auto &b = side ? S2 : L2;
            Set A, B;
            for (auto y : a) A.add(y);
            for (auto y : b) B.add(y);
            auto mk = [](const std::vector<uint32_t> &v) {
                R *r = roaring_bitmap_create();
                roaring_bitmap_add_many(r, v.size(), v.data());
                return r;
            };
            PairModel m = model_pair(A, B);
            for (int k = 0; k < nisa; k++) {
                IsaScope is(o.isa ? ISA_LEVELS[k] : -1);
                e.detail("skewed mask %llu big %d side %llu", (unsigned long long)mask, n, (unsigned long long)side);
                all_pair_ops(o, [&] { return mk(a); }, [&] { return mk(b); }, A, B, m);
            }
        });
        // galloping intersections step by four, two and one: every word of (near or far) x (hit or miss just before)
        const int GL = e.thorough ? 8 : 7;
        uint64_t words = 0;
        for (int l = 1; l <= GL; l++) words += 1ull << 2 * l;
        const int GN = e.thorough ? 4000 : 1300, FAR = GN / (GL + 1);
        e.samples.push_back("gallop: far-hit near-miss near-hit far-miss ... against an array of 1300");
        e.parallel("gallop", words, [&](uint64_t i) {
            uint64_t w = i;
            int len = 1;
            while (w >= 1ull << 2 * len) w -= 1ull << 2 * len++;
            std::vector<uint32_t> big, few;
            for (int j = 0; j < GN; j++) big.push_back(40 + 3 * j);
            int at = -1;
            bool missed = false;
            for (int j = 0; j < len; j++, w >>= 2) {
                // a near hit right after a miss is the very element the search stopped at
                at += w & 1 ? FAR : missed && !(w & 2) ? 0 : 1;
                missed = w & 2;
                few.push_back(40 + 3 * at - (w & 2 ? 1 : 0));
            }
            auto &a = i & 1 ? big : few;
            auto &b = i & 1 ? few : big;
            Set A, B;
            for (auto y : a) A.v.push_back({y, y});
            for (auto y : b) B.v.push_back({y, y});
            for (Set *t : {&A, &B})
                for (size_t k = 0; k + 1 < t->v.size(); k++)
                    if (t->v[k].b + 1 == t->v[k + 1].a) t->v[k].b = t->v[k + 1].b, t->v.erase(t->v.begin() + k + 1), k--;
            auto mk = [](const std::vector<uint32_t> &v) {
                R *r = roaring_bitmap_create();
                roaring_bitmap_add_many(r, v.size(), v.data());
                return r;
            };
            PairModel m = model_pair(A, B);
            for (int k = 0; k < nisa; k++) {
                if (!e.thorough && len > 6 && k != (int)(i / 2 % nisa)) continue;  // quick: words of seven at one level each
                IsaScope is(o.isa ? ISA_LEVELS[k] : -1);
                e.detail("gallop word %llu of length %d, isa %d", (unsigned long long)(i), len, k);
                all_pair_ops(o, [&] { return mk(a); }, [&] { return mk(b); }, A, B, m);
            }
        }, nullptr, 8);
    }
    // 5. contents that differ in one place, at every place
    if (o.near) {
        e.samples.push_back("near: bitsets that differ in one bit of word 1023 and have the same cardinality");
        e.parallel("near", near_::count(), [&](uint64_t i) {
            near_::Pair q = near_::get(i);
            uint16_t key = (uint16_t)(i % 5);
            Set A = q.a.shift((uint64_t)key << 16), B = q.b.shift((uint64_t)key << 16);
            PairModel m = model_pair(A, B);
            for (int k = 0; k < nisa; k++) {
                IsaScope is(o.isa ? ISA_LEVELS[k] : -1);
                e.detail("%s, isa %d", q.name.c_str(), k);
                all_pair_ops(o, [&] { return build(q.a, key, q.ra); }, [&] { return build(q.b, key, q.rb); }, A, B, m);
            }
        }, nullptr, 8);
    }
}
