// C11: everything the library produces passes its own validation; malformed contents do not.
#include "hist32.hpp"
#include "hist64.hpp"
#include "pairs.hpp"
#include "pairs64.hpp"
#include "rows.hpp"
#include "zoo.hpp"
#include "zoo64.hpp"
// ---- streams with arbitrary, possibly malformed, chunk contents -------------------------------------
struct Raw {
    uint32_t key;
    int kind;  // R_ARRAY, R_BITSET, R_RUN
    uint32_t card;
    std::string payload;
    bool ok;
};
static Raw raw_array(uint32_t key, const std::vector<uint32_t> &v) {
    Raw r{key, R_ARRAY, (uint32_t)v.size(), "", true};
    for (size_t i = 0; i < v.size(); i++) {
        put16(r.payload, v[i]);
        if (i && v[i] <= v[i - 1]) r.ok = false;
    }
    return r;
}
// -1: accept either way (touching runs)
static Raw raw_runs(uint32_t key, const std::vector<std::pair<uint32_t, uint32_t>> &v, int *verdict) {
    Raw r{key, R_RUN, 1, "", true};
    put16(r.payload, (uint32_t)v.size());
    uint32_t card = 0;
    *verdict = v.empty() ? 0 : 1;
    for (size_t i = 0; i < v.size(); i++) {
        put16(r.payload, v[i].first);
        put16(r.payload, v[i].second);
        card += v[i].second + 1;
        if (v[i].first + v[i].second > 65535) *verdict = 0;
        if (i) {
            uint32_t end = v[i - 1].first + v[i - 1].second + 1;
            if (v[i].first < end) *verdict = 0;
            else if (v[i].first == end && *verdict == 1) *verdict = -1;
        }
    }
    r.card = card ? (card > 65536 ? 65536 : card) : 1;
    r.ok = *verdict != 0;
    return r;
}
static std::string frame(const std::vector<Raw> &cs) {
    std::string o;
    size_t n = cs.size();
    bool hasrun = false;
    for (auto &c : cs) hasrun |= c.kind == R_RUN;
    if (hasrun) {
        put32(o, 12347 | (uint32_t)(n - 1) << 16);
        std::string f((n + 7) / 8, '\0');
        for (size_t i = 0; i < n; i++)
            if (cs[i].kind == R_RUN) f[i / 8] |= (char)(1 << (i % 8));
        o += f;
    } else {
        put32(o, 12346);
        put32(o, (uint32_t)n);
    }
    for (auto &c : cs) {
        put16(o, c.key);
        put16(o, c.card - 1);
    }
    if (!hasrun || n >= 4) {
        size_t at = o.size() + 4 * n;
        for (auto &c : cs) {
            put32(o, (uint32_t)at);
            at += c.payload.size();
        }
    }
    for (auto &c : cs) o += c.payload;
    return o;
}
// verdict 1: must be accepted and valid, 0: must be refused or fail validation, -1: either
static void judge32(const std::string &b, int verdict) {
    auto &e = mc::E();
    for (int native = 0; native < 2; native++) {
        std::string x = native ? std::string(1, 2) + b : b;
        std::vector<char> exact(x.begin(), x.end());
        RP r(native ? roaring_bitmap_deserialize_safe(exact.data(), exact.size()) : roaring_bitmap_portable_deserialize_safe(exact.data(), exact.size()));
        const char *why = nullptr;
        bool v = r && roaring_bitmap_internal_validate(r.get(), &why);
        if (verdict == 1) MC_CHECK(v, "a well-formed %s stream is %s%s", native ? "native" : "portable", r ? "judged invalid: " : "refused", r && why ? why : "");
        if (verdict == 0) MC_CHECK(!v, "a malformed %s stream reads as a bitmap that passes validation", native ? "native" : "portable");
        if (r && !v) MC_CHECK(why != nullptr, "validation fails without giving a reason");
        e.eval();
    }
    // the same chunks inside a 64-bit stream
    for (uint32_t high : {0u, 7u}) {
        std::string x;
        put64(x, 1);
        put32(x, high);
        x += b;
        RP64 r(roaring64_bitmap_portable_deserialize_safe(x.data(), x.size()));
        const char *why = nullptr;
        bool v = r && roaring64_bitmap_internal_validate(r.get(), &why);
        if (verdict == 1) MC_CHECK(v, "a well-formed 64-bit stream is %s%s", r ? "judged invalid: " : "refused", r && why ? why : "");
        if (verdict == 0) MC_CHECK(!v, "a malformed 64-bit stream reads as a bitmap that passes validation");
        e.eval();
    }
}
static void contexts(const Raw &bad, int verdict) {
    judge32(frame({bad}), verdict);
    Raw a = raw_array(0, {5}), z = raw_array(0, {9, 10});
    int dummy;
    Raw rn = raw_runs(0, {{3, 4}, {100, 5}}, &dummy);
    auto at = [](Raw r, uint32_t k) {
        r.key = k;
        return r;
    };
    judge32(frame({at(a, 0), at(bad, 3), at(z, 9)}), verdict);
    judge32(frame({at(rn, 0), at(a, 1), at(z, 2), at(rn, 5), at(bad, 6)}), verdict);
}
static void reject_families() {
    auto &e = mc::E();
    // all short arrays over a few values
    static const uint32_t av[4] = {0, 1, 2, 65535};
    e.parallel("arrays", 4 + 16 + 64 + 256 + 1024, [&](uint64_t i) {
        std::vector<uint32_t> v;
        uint64_t len = 1, c = i;
        for (uint64_t p = 4; c >= p; p *= 4) {
            c -= p;
            len++;
        }
        for (uint64_t k = 0; k < len; k++, c /= 4) v.push_back(av[c % 4]);
        Raw r = raw_array(0, v);
        e.detail("array chunk of %llu values, code %llu", (unsigned long long)len, (unsigned long long)i);
        contexts(r, r.ok);
        e.outcome(i);
    }, nullptr, 16);
    // one defect at every position of longer arrays
    static const int lens[] = {5, 8, 9, 15, 16, 17, 31, 32, 33, 64, 100};
    e.parallel("array-positions", 11 * 100 * 4, [&](uint64_t i) {
        int len = lens[i % 11], pos = (int)(i / 11 % 100), how = (int)(i / 1100);
        if (pos + 1 >= len) return;
        std::vector<uint32_t> v;
        for (int k = 0; k < len; k++) v.push_back((uint32_t)(k * 600 + 7));
        if (how == 0) std::swap(v[pos], v[pos + 1]);
        if (how == 1) v[pos + 1] = v[pos];
        if (how == 2) v[pos] = 65535;
        if (how == 3) v[pos + 1] = 0;
        e.detail("array of %d values, defect %d at %d", len, how, pos);
        contexts(raw_array(0, v), 0);
        e.outcome(100000 + i);
    }, nullptr, 16);
    // all lists of up to three runs
    static const uint32_t rs[7] = {0, 1, 2, 3, 10, 65534, 65535}, rl[4] = {0, 1, 2, 65535};
    e.parallel("runs", 1 + 28 + 28 * 28 + 28 * 28 * 28, [&](uint64_t i) {
        std::vector<std::pair<uint32_t, uint32_t>> v;
        uint64_t len = 0, c = i;
        for (uint64_t p = 1; c >= p; p *= 28) {
            c -= p;
            len++;
        }
        for (uint64_t k = 0; k < len; k++, c /= 28) v.push_back({rs[c % 28 / 4], rl[c % 4]});
        int verdict;
        Raw r = raw_runs(0, v, &verdict);
        e.detail("run chunk of %llu runs, code %llu", (unsigned long long)len, (unsigned long long)i);
        if (len < 3) contexts(r, verdict);
        else judge32(frame({r}), verdict);
        e.outcome(200000 + i);
    }, nullptr, 16);
    // key sequences
    static const uint32_t ks[4] = {0, 1, 2, 65535};
    e.parallel("keys-order", 4 + 16 + 64 + 256 + 1024, [&](uint64_t i) {
        uint64_t len = 1, c = i;
        for (uint64_t p = 4; c >= p; p *= 4) {
            c -= p;
            len++;
        }
        for (int run = 0; run < 2; run++) {
            std::vector<Raw> v;
            bool ok = true;
            uint64_t cc = c;
            int d;
            for (uint64_t k = 0; k < len; k++, cc /= 4) {
                v.push_back(run ? raw_runs(ks[cc % 4], {{5, 1}}, &d) : raw_array(ks[cc % 4], {5}));
                if (k && v[k].key <= v[k - 1].key) ok = false;
            }
            e.detail("key sequence code %llu%s", (unsigned long long)i, run ? ", run chunks" : "");
            judge32(frame(v), ok);
        }
        e.outcome(300000 + i);
    }, nullptr, 16);
    // bitset chunks whose count is wrong
    static const uint32_t pc[] = {1, 4095, 4096, 4097, 4098, 5000, 65535, 65536}, cl[] = {4097, 4098, 5000, 65535, 65536};
    e.parallel("bitset-counts", 8 * 5 * 3, [&](uint64_t i) {
        uint32_t p = pc[i % 8], c = cl[i / 8 % 5];
        int shape = (int)(i / 40);
        std::string w(8192, '\0');
        for (uint32_t k = 0; k < p; k++) {
            uint32_t x = shape == 0 ? k : shape == 1 ? 65535 - k : (k * 40503u) & 65535;
            w[x / 8] |= (char)(1 << (x % 8));
        }
        uint32_t real = 0;
        for (unsigned char ch : w) real += (uint32_t)__builtin_popcount(ch);
        Raw r{0, R_BITSET, c, w, real == c};
        e.detail("bitset chunk with %u bits announced as %u", real, c);
        for (int isa : {-1, 0, 1}) {
            IsaScope is(isa);
            contexts(r, r.ok);
        }
        e.outcome(400000 + i);
    });
    // 64-bit bucket sequences
    static const uint32_t hs[4] = {0, 1, 0x80000000u, 0xFFFFFFFFu};
    e.parallel("buckets", 4 + 16 + 64 + 256, [&](uint64_t i) {
        uint64_t len = 1, c = i;
        for (uint64_t p = 4; c >= p; p *= 4) {
            c -= p;
            len++;
        }
        std::string x;
        put64(x, len);
        bool ok = true;
        uint64_t last = 0;
        for (uint64_t k = 0; k < len; k++, c /= 4) {
            uint32_t h = hs[c % 4];
            if (k && h <= last) ok = false;
            last = h;
            put32(x, h);
            x += frame({raw_array(3, {4, 9}), raw_array(70, {1})});
        }
        e.detail("bucket sequence code %llu", (unsigned long long)i);
        RP64 r(roaring64_bitmap_portable_deserialize_safe(x.data(), x.size()));
        const char *why = nullptr;
        bool v = r && roaring64_bitmap_internal_validate(r.get(), &why);
        if (ok) MC_CHECK(v, "a well-formed bucket sequence is %s", r ? "judged invalid" : "refused");
        else if (v) {  // accepted although out of order: only fine if it is a proper set all the same
            const char *w2 = nullptr;
            RP64 cp(roaring64_bitmap_copy(r.get()));
            MC_CHECK(roaring64_bitmap_internal_validate(cp.get(), &w2) && roaring64_bitmap_equals(cp.get(), r.get()), "unsorted buckets pass validation");
            Set s = to_set64(r.get());
            MC_CHECK(s.card() == roaring64_bitmap_get_cardinality(r.get()), "unsorted or repeated buckets pass validation");
            mc::fail("out-of-order or repeated buckets pass validation");
        }
        e.eval();
        e.outcome(500000 + i);
    }, nullptr, 8);
    // one defect at every position of rows of 24 and of 300 chunks
    for (int w = 0; w < 2; w++) {
        rows::Rows rw{w == 1};
        auto pts = rw.points();
        e.parallel(std::string("defects in ") + rw.name(), pts.size() * 10 * 2, [=](uint64_t i) {
            int how = (int)(i % 10), v = (int)(i / 10 % 2), p = pts[i / 20], d;
            std::vector<Raw> c;
            for (int k = 0; k < rw.n(); k++) {
                uint32_t key = (uint32_t)(5 + 3 * k);
                if (k % 40 == 8) {
                    Raw b{key, R_BITSET, 5000, std::string(8192, '\0'), true};
                    for (uint32_t x = 0; x < 5000; x++) b.payload[(100 + x * 3) / 8] |= (char)(1 << ((100 + x * 3) % 8));
                    c.push_back(b);
                } else if (v == 0 && k % 3 == 1) c.push_back(raw_runs(key, {{3, 4}, {100, 5}}, &d));
                else c.push_back(raw_array(key, {5, 9, (uint32_t)(100 + k)}));
            }
            uint32_t key = c[p].key;
            if (how == 1) c[p] = raw_array(key, {5, 4, 9});
            if (how == 2) c[p] = raw_array(key, {5, 9, 9});
            if (how == 3) c[p] = raw_runs(key, {{3, 9}, {7, 5}}, &d);
            if (how == 4) c[p] = raw_runs(key, {{3, 9}, {65000, 5000}}, &d);
            if (how == 5) c[p] = raw_runs(key, {}, &d);
            if (how == 6) c[p] = Raw{key, R_BITSET, 4099, std::string(8192, '\x11'), false};  // 16384 bits
            if (how == 7 && p) c[p].key = c[p - 1].key;
            if (how == 8 && p) std::swap(c[p].key, c[p - 1].key);
            if (how == 9 && p) c[p].key = c[0].key;
            mc::E().detail("%d chunks, defect %d at %d", (int)c.size(), how, p);
            judge32(frame(c), how == 0 || (how >= 7 && !p));
            // the same chunks one per bucket
            if (how >= 7) return;
            std::string x;
            put64(x, c.size());
            for (auto &r : c) {
                put32(x, r.key * 7);
                x += frame({r});
            }
            RP64 r(roaring64_bitmap_portable_deserialize_safe(x.data(), x.size()));
            const char *why = nullptr;
            bool g = r && roaring64_bitmap_internal_validate(r.get(), &why);
            MC_CHECK(g == (how == 0), "a %s stream of %d buckets is %s", how ? "malformed" : "well-formed", (int)c.size(), g ? "judged valid" : r ? "judged invalid" : "refused");
            mc::E().outcome(700000 + i);
            mc::E().eval();
        }, nullptr, 1);
    }
    // frozen bytes with malformed contents viewed in place
    e.parallel("frozen", 3 * 256 + 64, [&](uint64_t i) {
        // chunks: array(4 values) run(2 runs) bitset; layout: bitset words, runs, array, keys, counts, typecodes, header
        uint32_t kv[3] = {1, 5, 9};
        std::vector<uint32_t> arr{3, 8, 20, 300};
        std::vector<std::pair<uint32_t, uint32_t>> rn{{10, 5}, {100, 7}};
        uint32_t bcard = 5000;
        bool ok = true;
        int mode = (int)(i / 256), c = (int)(i % 256);
        if (mode == 0) {
            for (int k = 0; k < 4; k++, c /= 4) arr[k] = av[c % 4];
            for (int k = 1; k < 4; k++) ok &= arr[k] > arr[k - 1];
        } else if (mode == 1) {
            static const uint32_t st[4] = {0, 3, 10, 65530};
            for (int k = 0; k < 2; k++) {
                rn[k].first = st[c % 4];
                c /= 4;
                rn[k].second = rl[c % 4];
                c /= 4;
            }
            int v;
            raw_runs(0, rn, &v);
            if (v == -1) return;
            ok = v;
        } else if (mode == 2) {
            if (c >= 64) {
                bcard = (uint32_t)(4990 + c % 20);
                ok = bcard == 5000;
            } else {
                for (int k = 0; k < 3; k++, c /= 4) kv[k] = ks[c % 4];
                ok = kv[0] < kv[1] && kv[1] < kv[2];
            }
        } else
            return;
        std::string o(8192, '\0');
        for (uint32_t k = 0; k < 5000; k++) {
            uint32_t x = 100 + k * 3;
            o[x / 8] |= (char)(1 << (x % 8));
        }
        for (auto &r : rn) {
            put16(o, r.first);
            put16(o, r.second);
        }
        for (auto v : arr) put16(o, v);
        for (auto k : kv) put16(o, k);
        put16(o, 3);          // array: cardinality - 1
        put16(o, 2);          // runs
        put16(o, bcard - 1);  // bitset: cardinality - 1
        o += (char)2;         // array
        o += (char)3;         // run
        o += (char)1;         // bitset
        put32(o, 13766 | 3u << 15);
        std::unique_ptr<char, void (*)(void *)> m((char *)aligned_alloc(32, (o.size() + 31) / 32 * 32), free);
        memcpy(m.get(), o.data(), o.size());
        const R *r = roaring_bitmap_frozen_view(m.get(), o.size());
        const char *why = nullptr;
        bool v = r && roaring_bitmap_internal_validate(r, &why);
        if (r) roaring_bitmap_free(r);
        e.detail("frozen image, defect mode %d code %d", mode, (int)(i % 256));
        if (ok) MC_CHECK(v, "a well-formed frozen image is %s%s", r ? "judged invalid: " : "refused", why ? why : "");
        else MC_CHECK(!v, "a malformed frozen image passes validation");
        e.eval();
        e.outcome(600000 + i);
    });
}
// ---- every producer over the catalogue -----------------------------------------------------------
static void producers() {
    auto &e = mc::E();
    auto z = zoo(e.thorough ? 2 : 1);
    e.parallel("producers", z.size(), [&](uint64_t i) {
        RP sh;
        RP r(zoo_build(z[i], sh));
        e.detail("%s", z[i].name.c_str());
        Set S = chunks_set(z[i].cs);
        auto ok = [&](R *x, const char *w) {
            RP h(x);
            MC_CHECK(x, "%s returned NULL", w);
            expect_valid(x, w);
            e.eval();
        };
        expect_valid(r.get(), "builder");
        ok(roaring_bitmap_copy(r.get()), "copy");
        static const uint64_t fr[][2] = {{0, 65536}, {3, 70000}, {65535, 65537}, {100, 4296}, {65536 * 6, 65536 * 7}, {0xFFFF0000u, 1ull << 32}, {0, 4097}, {60000, 460000}};
        for (auto &p : fr) {
            ok(roaring_bitmap_flip(r.get(), p[0], p[1]), "flip");
            R *c = roaring_bitmap_copy(r.get());
            roaring_bitmap_flip_inplace(c, p[0], p[1]);
            ok(c, "flip_inplace");
            c = roaring_bitmap_copy(r.get());
            roaring_bitmap_add_range(c, p[0], p[1]);
            ok(c, "add_range");
            c = roaring_bitmap_copy(r.get());
            roaring_bitmap_remove_range(c, p[0], p[1]);
            ok(c, "remove_range");
        }
        for (int64_t off : {1ll, -1ll, 65536ll, -65536ll, 32768ll, 65535ll, -40000ll, 5000000000ll, -5000000000ll, 4294901760ll}) ok(roaring_bitmap_add_offset(r.get(), off), "add_offset");
        for (int k = 0; k < 6; k++) {
            R *c = roaring_bitmap_copy(r.get());
            if (k & 1) roaring_bitmap_run_optimize(c);
            if (k & 2) roaring_bitmap_remove_run_compression(c);
            if (k == 4) roaring_bitmap_shrink_to_fit(c);
            if (k == 5) roaring_bitmap_clear(c);
            ok(c, "re-encoding");
        }
        // readers
        {
            std::string b = ser_bytes(r.get());
            ok(roaring_bitmap_portable_deserialize_safe(b.data(), b.size()), "portable_deserialize_safe");
            ok(roaring_bitmap_portable_deserialize(b.data()), "portable_deserialize");
            std::string n(roaring_bitmap_size_in_bytes(r.get()), '\0');
            roaring_bitmap_serialize(r.get(), &n[0]);
            ok(roaring_bitmap_deserialize(n.data()), "deserialize");
            ok(roaring_bitmap_deserialize_safe(n.data(), n.size()), "deserialize_safe");
            size_t fs = roaring_bitmap_frozen_size_in_bytes(r.get());
            std::unique_ptr<char, void (*)(void *)> m((char *)aligned_alloc(32, (fs + 31) / 32 * 32 + 32), free);
            roaring_bitmap_frozen_serialize(r.get(), m.get());
            ok((R *)roaring_bitmap_frozen_view(m.get(), fs), "frozen_view");
            ok(roaring_bitmap_portable_deserialize_frozen(b.data()), "portable_deserialize_frozen");
        }
        // lazily combined and repaired, many-way
        for (size_t j : {i, (i + 1) % z.size(), (i * 7 + 3) % z.size(), (i + 13) % z.size()}) {
            RP sh2;
            RP q(zoo_build(z[j], sh2));
            if (z[i].shared != z[j].shared) {  // copy-on-write must be on for both or for none
                if (z[i].shared) roaring_bitmap_set_copy_on_write(q.get(), true);
                else continue;
            }
            for (int k = 0; k < 6; k++) {
                R *c;
                if (k < 2) c = roaring_bitmap_lazy_or(r.get(), q.get(), k);
                else if (k == 2) c = roaring_bitmap_lazy_xor(r.get(), q.get());
                else {
                    c = roaring_bitmap_copy(r.get());
                    if (k < 5) roaring_bitmap_lazy_or_inplace(c, q.get(), k == 4);
                    else roaring_bitmap_lazy_xor_inplace(c, q.get());
                }
                roaring_bitmap_repair_after_lazy(c);
                ok(c, "lazy operation and repair");
            }
            const R *l[] = {r.get(), q.get(), r.get(), q.get()};
            for (size_t k = 0; k <= 4; k++) {
                ok(roaring_bitmap_or_many(k, l), "or_many");
                ok(roaring_bitmap_or_many_heap((uint32_t)k, l), "or_many_heap");
                ok(roaring_bitmap_xor_many(k, l), "xor_many");
            }
        }
        // into a 64-bit bitmap
        {
            RP64 q(roaring64_bitmap_move_from_roaring32(r.get()));
            expect_valid64(q.get(), "move_from_roaring32");
            expect_valid(r.get(), "source of move_from_roaring32");
            e.eval(2);
        }
        e.outcome(700000 + i);
    }, nullptr, 2);
    auto z6 = zoo64(e.thorough ? 2 : 1);
    e.parallel("producers64", z6.size(), [&](uint64_t i) {
        e.detail("%s", z6[i].name.c_str());
        RP64 r(zoo64_build(z6[i]));
        auto ok = [&](R64 *x, const char *w) {
            RP64 h(x);
            MC_CHECK(x, "%s returned NULL", w);
            expect_valid64(x, w);
            e.eval();
        };
        expect_valid64(r.get(), "builder");
        ok(roaring64_bitmap_copy(r.get()), "copy");
        uint64_t lo = roaring64_bitmap_is_empty(r.get()) ? 5 : roaring64_bitmap_minimum(r.get()), hi = roaring64_bitmap_is_empty(r.get()) ? 9 : roaring64_bitmap_maximum(r.get());
        uint64_t fr[][2] = {{lo, lo}, {lo, lo | 65535}, {hi & ~65535ull, hi}, {lo > 70000 ? lo - 70000 : 0, lo}, {hi, hi < U64M - 70000 ? hi + 70000 : U64M}, {0, 70000}, {U64M - 70000, U64M}};
        for (auto &p : fr) {
            ok(roaring64_bitmap_flip_closed(r.get(), p[0], p[1]), "flip_closed");
            R64 *c = roaring64_bitmap_copy(r.get());
            roaring64_bitmap_flip_closed_inplace(c, p[0], p[1]);
            ok(c, "flip_closed_inplace");
            c = roaring64_bitmap_copy(r.get());
            roaring64_bitmap_add_range_closed(c, p[0], p[1]);
            ok(c, "add_range_closed");
            c = roaring64_bitmap_copy(r.get());
            roaring64_bitmap_remove_range_closed(c, p[0], p[1]);
            ok(c, "remove_range_closed");
        }
        for (int k = 0; k < 4; k++) {
            R64 *c = roaring64_bitmap_copy(r.get());
            if (k & 1) roaring64_bitmap_run_optimize(c);
            if (k & 2) roaring64_bitmap_shrink_to_fit(c);
            ok(c, "re-encoding");
        }
        std::string b = ser_bytes64(r.get());
        ok(roaring64_bitmap_portable_deserialize_safe(b.data(), b.size()), "portable_deserialize_safe");
        roaring64_bitmap_shrink_to_fit(r.get());
        size_t fs = roaring64_bitmap_frozen_size_in_bytes(r.get());
        if (fs) {
            std::unique_ptr<char, void (*)(void *)> m((char *)aligned_alloc(64, (fs + 63) / 64 * 64), free);
            roaring64_bitmap_frozen_serialize(r.get(), m.get());
            ok(roaring64_bitmap_frozen_view(m.get(), fs), "frozen_view");
        }
        e.outcome(800000 + i);
    }, nullptr, 2);
}
int main(int argc, char **argv) {
    auto &e = mc::E();
    e.init(argc, argv, "C11");
    hk::install();
    reject_families();
    producers();
    PairOpts o;
    o.values = false;
    o.valid = true;
    o.isa = false;
    if (!e.thorough) o.level = 1;
    run_pair_families(o);
    p64::families(o);
    HistOpts h;
    h.values = false;
    h.valid = true;
    h.depth_delta = e.thorough ? 0 : -1;
    run_hist_families(h);
    h64::HistOpts h6;
    h6.values = false;
    h6.valid = true;
    h6.depth_delta = e.thorough ? 0 : -1;
    h64::run_hist_families(h6);
    e.rule = "internal validation of every result of the pair, history and per-bitmap explorations, and its verdict on every "
             "stream from exhaustive families of well-framed bytes with arbitrary array, run, bitset-count, key and bucket "
             "contents, against the definition of a proper chunk";
    return e.finish();
}
