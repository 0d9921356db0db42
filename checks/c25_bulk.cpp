// C25: every history of bulk calls through one context, every short list of values, and orderings that cross the
// representation thresholds, compared with handling the values one at a time.
#include <algorithm>
#include "hist32.hpp"
#include "lib64.hpp"
#include "hist64.hpp"
#include "rows.hpp"

// ---------------------------------------------------------------- 32-bit start states
struct Start {
    std::string name;
    Chunks cs;
    int how;  // 0 from bytes, 1 copy-on-write with a second owner alive, 2 copy-on-write whose second owner is gone, 3 through updates
};
static std::vector<Start> starts() {
    std::vector<Start> v;
    v.push_back({"empty", {}, 0});
    auto add = [&](std::string n, Chunks c) {
        for (int how = 0; how < 3; how++) v.push_back({n + (how == 0 ? "" : how == 1 ? " shared" : " shared once"), c, how});
    };
    Set s16 = Set::step(2, 65535, 16);  // 4096 values, none at 0,1,65535
    add("array", {{0, Set{0, 5}, R_ARRAY}, {1, Set{65535}, R_ARRAY}, {7, Set{3}, R_ARRAY}});
    add("array4096", {{0, s16, R_ARRAY}, {1, s16, R_ARRAY}});
    add("array4095", {{1, s16.minus(Set{2}), R_ARRAY}});
    add("bitset", {{0, Set::step(1, 65535, 13), R_BITSET}, {7, Set::step(0, 65535, 10), R_BITSET}});
    add("bitset4097", {{0, s16.uni(Set{4}), R_BITSET}});
    add("runs", {{0, Set::range(1, 65534), R_RUN}, {1, Set::range(0, 10).uni(Set::range(12, 65535)), R_RUN}});
    add("full", {{0, full16(), R_RUN}, {65535, full16(), R_RUN}});
    add("many runs", {{0, Set::step(1, 65534, 32, 30), R_RUN}});
    v.push_back({"slack", {{0, Set::range(100, 200), R_RUN}}, 3});
    return v;
}
struct World {
    RP other, r;
    Set m, om;
    roaring_bulk_context_t ctx;
    explicit World(const Start &st) {
        memset(&ctx, 0, sizeof ctx);
        if (st.how == 3) r.reset(build_slack(st.cs[0].s, st.cs[0].key, st.cs[0].rep));
        else r.reset(st.cs.empty() ? roaring_bitmap_create() : build_chunks(st.cs));
        m = om = chunks_set(st.cs);
        if (st.how == 1 || st.how == 2) {
            roaring_bitmap_set_copy_on_write(r.get(), true);
            other.reset(roaring_bitmap_copy(r.get()));
            if (st.how == 2) other.reset();
        }
    }
    uint64_t fp() {
        mc::Hash h;
        h.u64(state_fp(r.get(), 0));
        const roaring_array_t &ra = r->high_low_container;
        h.u64(ra.allocation_size);
        for (int i = 0; i < ra.size; i++) h.u64(ra.typecodes[i]);
        h.u64(ctx.container == nullptr ? 1 : 2 + (uint64_t)ctx.key * 4 + (ctx.idx < ra.size && ra.containers[ctx.idx] == ctx.container ? 1 : 0));
        h.u64((uint64_t)ctx.idx << 8 | ctx.typecode);
        if (other) h.u64(state_fp(other.get(), 0));
        return h.h | 1;
    }
    void check(const char *what) {
        expect_set(r.get(), m, what);
        expect_valid(r.get(), what);
        if (other) expect_set(other.get(), om, "the other owner of the shared storage");
    }
};
static const uint32_t POOL[] = {0, 1, 65535, 65536, 65536 + 11, 131071, 7 * 65536 + 3, 300 * 65536, 0xFFFFFFFFu, 0xFFFF0000u};
static const int NP = 10;

static void bulk32() {
    auto &e = mc::E();
    auto sts = starts();
    for (size_t si = 0; si < sts.size(); si++) {
        const Start &st = sts[si];
        int depth = e.thorough ? 7 : si == 0 ? 6 : st.name.find("array4096") == 0 ? 3 : 4;
        e.bfs("bulk32-" + std::to_string(si), NP * 2, depth, [&](const mc::Engine::Hist &h) -> uint64_t {
            std::string d = st.name + ":";
            for (auto o : h) d += mc::strf(" %s(%u)", o % 2 ? "contains_bulk" : "add_bulk", POOL[o / 2]);
            e.detail("%s", d.c_str());
            LeakScope ls;
            uint64_t fp;
            {
                World w(st);
                for (auto o : h) {
                    uint32_t x = POOL[o / 2];
                    if (o % 2) {
                        bool g = roaring_bitmap_contains_bulk(w.r.get(), &w.ctx, x);
                        MC_CHECK(g == w.m.has(x), "contains_bulk(%u) returned %d", x, g);
                    } else {
                        roaring_bitmap_add_bulk(w.r.get(), &w.ctx, x);
                        w.m.add(x);
                    }
                    e.eval();
                }
                w.check("after bulk calls");
                fp = w.fp();
            }
            ls.check("bulk history");
            return fp;
        });
    }
}
// every list of up to len values over a pool
static void lists32() {
    auto &e = mc::E();
    auto sts = starts();
    static const uint32_t P[] = {0, 1, 65535, 65536, 7 * 65536 + 3, 0xFFFFFFFFu, 4};
    int np = e.thorough ? 7 : 6, len = e.thorough ? 5 : 4;
    uint64_t n = 0, pw = 1;
    for (int l = 0; l <= len; l++, pw *= np) n += pw;
    std::vector<Set> sets;
    e.parallel("lists32", n * sts.size(), [&](uint64_t i) {
        const Start &st = sts[i % sts.size()];
        uint64_t c = i / sts.size(), p = 1;
        int l = 0;
        while (c >= p) { c -= p; p *= np; l++; }
        std::vector<uint32_t> v;
        for (int j = 0; j < l; j++, c /= np) v.push_back(P[c % np]);
        std::string d = st.name + " list";
        for (auto x : v) d += mc::strf(" %u", x);
        e.detail("%s", d.c_str());
        LeakScope ls;
        {
            World w(st);
            // an exact-size, library-visible copy of the list: reads beyond it are caught
            uint32_t *q = (uint32_t *)malloc(v.size() * 4 + 1);
            std::copy(v.begin(), v.end(), q);
            roaring_bitmap_add_many(w.r.get(), v.size(), q);
            for (auto x : v) w.m.add(x);
            w.check("add_many");
            e.outcome(w.fp());
            roaring_bitmap_remove_many(w.r.get(), v.size(), q);
            for (auto x : v) w.m.remove(x);
            w.check("remove_many after add_many");
            {
                World w2(st);
                roaring_bitmap_remove_many(w2.r.get(), v.size(), q);
                for (auto x : v) w2.m.remove(x);
                w2.check("remove_many");
            }
            if (i % sts.size() == 0) {
                RP o(roaring_bitmap_of_ptr(v.size(), q));
                Set s;
                for (auto x : v) s.add(x);
                expect_set(o.get(), s, "of_ptr");
                expect_valid(o.get(), "of_ptr");
                RP o2(v.size() == 0 ? roaring_bitmap_of(0) : v.size() == 1 ? roaring_bitmap_of(1, v[0]) : v.size() == 2 ? roaring_bitmap_of(2, v[0], v[1])
                      : v.size() == 3 ? roaring_bitmap_of(3, v[0], v[1], v[2]) : v.size() == 4 ? roaring_bitmap_of(4, v[0], v[1], v[2], v[3])
                      : roaring_bitmap_of(5, v[0], v[1], v[2], v[3], v[4]));
                expect_set(o2.get(), s, "of");
                if (v.size() == 3) {
                    RP o3(roaring_bitmap_from(v[0], v[1], v[2]));
                    expect_set(o3.get(), s, "from");
                }
            }
            free(q);
            e.eval(3);
        }
        ls.check("list operations");
    }, nullptr, 32);
}
// n values of a pattern in an order
static std::vector<uint64_t> ordered(int pat, int ord, uint64_t n) {
    std::vector<uint64_t> v;
    for (uint64_t i = 0; i < n; i++) {
        uint64_t x;
        switch (pat) {
            case 0: x = i; break;                                       // dense
            case 1: x = (i * 15) % 65536 + (i * 15 / 65536) * 65536; break;  // spread
            case 2: x = (i % 2) * 65536 + i / 2; break;                 // two chunks alternating
            default: x = (i % 3) * 0x1000000 + (i / 3) * 2;             // three far chunks alternating
        }
        v.push_back(x);
    }
    switch (ord) {
        case 1: std::reverse(v.begin(), v.end()); break;
        case 2: {  // alternate ends
            std::vector<uint64_t> w;
            for (size_t a = 0, b = v.size(); a < b;) {
                w.push_back(v[a++]);
                if (a < b) w.push_back(v[--b]);
            }
            v = w;
            break;
        }
        case 3: {  // fixed permutation with repetitions
            std::vector<uint64_t> w = v;
            for (size_t i = 0; i < v.size(); i++) w[i] = v[(i * 7919) % v.size()];
            w.insert(w.end(), v.begin(), v.begin() + std::min<size_t>(v.size(), 100));
            v = w;
            break;
        }
    }
    return v;
}
static const uint64_t NS[] = {4094, 4095, 4096, 4097, 4098, 8191, 8192, 8193, 8195, 12289, 70000};
static void order32() {
    auto &e = mc::E();
    e.parallel("orders32", 4 * 4 * 11 * 3, [&](uint64_t i) {
        int pat = i % 4, ord = i / 4 % 4, mode = i / 176;
        uint64_t n = NS[i / 16 % 11];
        e.detail("pattern %d order %d n %llu mode %d", pat, ord, (unsigned long long)n, mode);
        auto v = ordered(pat, ord, n);
        std::vector<uint32_t> v32(v.begin(), v.end());
        auto sv = v;
        std::sort(sv.begin(), sv.end());
        Set s;
        for (auto x : sv) s.add(x);
        LeakScope ls;
        {
            RP r(roaring_bitmap_create());
            if (mode == 0) roaring_bitmap_add_many(r.get(), v32.size(), v32.data());
            else {
                roaring_bulk_context_t c;
                memset(&c, 0, sizeof c);
                std::vector<bool> seen;
                for (auto x : v32) {
                    if (mode == 2 && x % 5 == 0) roaring_bitmap_contains_bulk(r.get(), &c, x + 65536);
                    roaring_bitmap_add_bulk(r.get(), &c, x);
                    MC_CHECK(roaring_bitmap_contains_bulk(r.get(), &c, x), "contains_bulk(%u) right after adding it", x);
                }
            }
            expect_set(r.get(), s, "after adding");
            expect_valid(r.get(), "after adding");
            // run-encode, then remove all but 10 in the same order; contains_bulk for everything on the way
            if (mode == 1 && (n < 20000 || ord < 2)) roaring_bitmap_run_optimize(r.get());
            roaring_bulk_context_t c;
            memset(&c, 0, sizeof c);
            for (auto x : v32) MC_CHECK(roaring_bitmap_contains_bulk(r.get(), &c, x), "contains_bulk(%u)", x);
            size_t half = v32.size() / 2, k = v32.size() - 10;
            roaring_bitmap_remove_many(r.get(), half, v32.data());
            Set rem;
            std::vector<uint64_t> gone(v.begin(), v.begin() + half);
            std::sort(gone.begin(), gone.end());
            for (auto x : gone) rem.add(x);
            expect_set(r.get(), s.minus(rem), "after removing half");
            expect_valid(r.get(), "after removing half");
            roaring_bitmap_remove_many(r.get(), k - half, v32.data() + half);
            gone.assign(v.begin(), v.begin() + k);
            std::sort(gone.begin(), gone.end());
            rem = Set();
            for (auto x : gone) rem.add(x);
            expect_set(r.get(), s.minus(rem), "after removing all but 10");
            expect_valid(r.get(), "after removing all but 10");
            roaring_bitmap_add_many(r.get(), v32.size(), v32.data());
            expect_set(r.get(), s, "after adding again");
            e.outcome(state_fp(r.get(), 0) ^ i);
            e.eval(v32.size() * 3);
        }
        ls.check("orders");
    }, nullptr, 1);
}
// ---------------------------------------------------------------- 64-bit
static const uint64_t P64[] = {0, 65535, 65536, 5ull << 16, 0x1000000ull, 0x1000000ull + 70000, 1ull << 32, (1ull << 40) + 1, 0xFFFFFFFFFFFF0000ull, UINT64_MAX};
static std::vector<std::pair<std::string, Set>> starts64() {
    std::vector<std::pair<std::string, Set>> v;
    v.push_back({"empty", Set()});
    v.push_back({"few keys", Set{0, 65536, 0x1000000, 1ull << 32, UINT64_MAX}});
    Set k4, k16;
    for (uint64_t k = 1; k <= 4; k++) k4.add(k << 16);
    for (uint64_t k = 1; k <= 16; k++) k16.add(k << 16);
    v.push_back({"4 keys", k4});
    v.push_back({"16 keys", k16});
    v.push_back({"array4096", Set::step(2, 65535, 16).uni(Set::step(2, 65535, 16).shift(1ull << 32))});
    v.push_back({"bitset4097", Set::step(2, 65535, 16).uni(Set{0})});
    v.push_back({"runs", Set::range(1, 65534).uni(Set::range(0, 10).uni(Set::range(12, 65535)).shift(65536))});
    v.push_back({"full", full16().uni(Set::range(0xFFFFFFFFFFFF0000ull, UINT64_MAX))});
    v.push_back({"singles", Set{0, 65535 + 65536, 5ull << 16}});
    return v;
}
static void bulk64() {
    auto &e = mc::E();
    auto sts = starts64();
    for (size_t si = 0; si < sts.size(); si++) {
        auto &st = sts[si];
        int depth = e.thorough ? 6 : (si < 2 ? 5 : 3);
        std::string bytes = encode64(split64(st.second, rep_best));
        e.bfs("bulk64-" + std::to_string(si), 30, depth, [&](const mc::Engine::Hist &h) -> uint64_t {
            std::string d = st.first + ":";
            static const char *nm[] = {"add_bulk", "contains_bulk", "remove_bulk"};
            for (auto o : h) d += mc::strf(" %s(%llx)", nm[o % 3], (unsigned long long)P64[o / 3]);
            e.detail("%s", d.c_str());
            LeakScope ls;
            uint64_t fp;
            {
                int64_t b0 = hk::S.live_bytes;
                RP64 r(roaring64_bitmap_portable_deserialize_safe(bytes.data(), bytes.size()));
                Set m = st.second;
                roaring64_bulk_context_t c;
                memset(&c, 0, sizeof c);
                for (auto o : h) {
                    uint64_t x = P64[o / 3];
                    if (o % 3 == 0) {
                        roaring64_bitmap_add_bulk(r.get(), &c, x);
                        m.add(x);
                    } else if (o % 3 == 1) {
                        bool g = roaring64_bitmap_contains_bulk(r.get(), &c, x);
                        MC_CHECK(g == m.has(x), "contains_bulk(%llx) returned %d", (unsigned long long)x, g);
                    } else {
                        roaring64_bitmap_remove_bulk(r.get(), &c, x);
                        m.remove(x);
                    }
                    e.eval();
                }
                expect_set64(r.get(), m, "after bulk calls");
                expect_valid64(r.get(), "after bulk calls");
                mc::Hash hh;
                std::string b = ser_bytes64(r.get());
                hh.bytes(b.data(), b.size());
                hh.u64((uint64_t)(hk::S.live_bytes - b0));
                hh.bytes(c.high_bytes, 6);
                hh.u64(c.leaf ? 1 + (*c.leaf & 0xffffffffffff) : 0);  // slot and type of the container the context points at
                fp = hh.h | 1;
            }
            ls.check("bulk history");
            return fp;
        });
    }
}
static void lists64() {
    auto &e = mc::E();
    auto sts = starts64();
    static const uint64_t P[] = {0, 65535, 65536, 5ull << 16, 0x1000000ull, (1ull << 40) + 1, UINT64_MAX};
    int np = 7, len = e.thorough ? 5 : 4;
    uint64_t n = 0, pw = 1;
    for (int l = 0; l <= len; l++, pw *= np) n += pw;
    e.parallel("lists64", n * sts.size(), [&](uint64_t i) {
        auto &st = sts[i % sts.size()];
        uint64_t c = i / sts.size(), p = 1;
        int l = 0;
        while (c >= p) { c -= p; p *= np; l++; }
        std::vector<uint64_t> v;
        for (int j = 0; j < l; j++, c /= np) v.push_back(P[c % np]);
        std::string d = st.first + " list";
        for (auto x : v) d += mc::strf(" %llx", (unsigned long long)x);
        e.detail("%s", d.c_str());
        LeakScope ls;
        {
            uint64_t *q = (uint64_t *)malloc(v.size() * 8 + 1);
            std::copy(v.begin(), v.end(), q);
            for (int first = 0; first < 2; first++) {  // add then remove, remove then add
                RP64 r(build64(st.second));
                Set m = st.second;
                for (int k = 0; k < 2; k++) {
                    if ((k ^ first) == 0) {
                        roaring64_bitmap_add_many(r.get(), v.size(), q);
                        for (auto x : v) m.add(x);
                    } else {
                        roaring64_bitmap_remove_many(r.get(), v.size(), q);
                        for (auto x : v) m.remove(x);
                    }
                    expect_set64(r.get(), m, (k ^ first) == 0 ? "add_many" : "remove_many");
                    expect_valid64(r.get(), "list operation");
                    e.eval();
                }
                std::string b = ser_bytes64(r.get());
                mc::Hash hh;
                hh.bytes(b.data(), b.size());
                e.outcome(hh.h);
            }
            if (i % sts.size() == 0) {
                RP64 o(roaring64_bitmap_of_ptr(v.size(), q));
                Set s;
                for (auto x : v) s.add(x);
                expect_set64(o.get(), s, "of_ptr");
                if (v.size() == 4) {
                    RP64 o4(roaring64_bitmap_from(v[0], v[1], v[2], v[3]));
                    expect_set64(o4.get(), s, "from");
                }
            }
            free(q);
        }
        ls.check("list operations");
    }, nullptr, 32);
}
static void order64() {
    auto &e = mc::E();
    e.parallel("orders64", 4 * 4 * 11 * 3, [&](uint64_t i) {
        int pat = i % 4, ord = i / 4 % 4, mode = i / 176;
        uint64_t n = NS[i / 16 % 11];
        e.detail("pattern %d order %d n %llu mode %d", pat, ord, (unsigned long long)n, mode);
        auto v = ordered(pat, ord, n);
        for (auto &x : v) x = (x & 0xffff) | (x >> 16) << (pat == 3 ? 30 : 16);
        auto sv = v;
        std::sort(sv.begin(), sv.end());
        Set s;
        for (auto x : sv) s.add(x);
        LeakScope ls;
        {
            RP64 r(roaring64_bitmap_create());
            roaring64_bulk_context_t c;
            memset(&c, 0, sizeof c);
            if (mode == 0) roaring64_bitmap_add_many(r.get(), v.size(), v.data());
            else
                for (auto x : v) {
                    if (mode == 2 && x % 5 == 0) roaring64_bitmap_contains_bulk(r.get(), &c, x + 65536);
                    roaring64_bitmap_add_bulk(r.get(), &c, x);
                    MC_CHECK(roaring64_bitmap_contains_bulk(r.get(), &c, x), "contains_bulk(%llx) right after adding it", (unsigned long long)x);
                }
            expect_set64(r.get(), s, "after adding");
            expect_valid64(r.get(), "after adding");
            if (mode == 1) roaring64_bitmap_run_optimize(r.get());
            memset(&c, 0, sizeof c);
            for (auto x : v) MC_CHECK(roaring64_bitmap_contains_bulk(r.get(), &c, x), "contains_bulk(%llx)", (unsigned long long)x);
            size_t k = v.size() - 10;
            if (mode == 0) roaring64_bitmap_remove_many(r.get(), k, v.data());
            else {
                memset(&c, 0, sizeof c);
                for (size_t j = 0; j < k; j++) {
                    roaring64_bitmap_remove_bulk(r.get(), &c, v[j]);
                    MC_CHECK(!roaring64_bitmap_contains_bulk(r.get(), &c, v[j]), "contains_bulk(%llx) right after removing it", (unsigned long long)v[j]);
                }
            }
            Set rem;
            std::vector<uint64_t> gone(v.begin(), v.begin() + k);
            std::sort(gone.begin(), gone.end());
            for (auto x : gone) rem.add(x);
            expect_set64(r.get(), s.minus(rem), "after removing all but 10");
            expect_valid64(r.get(), "after removing all but 10");
            roaring64_bitmap_add_many(r.get(), v.size(), v.data());
            expect_set64(r.get(), s, "after adding again");
            std::string b = ser_bytes64(r.get());
            mc::Hash hh;
            hh.bytes(b.data(), b.size());
            e.outcome(hh.h ^ i);
            e.eval(v.size() * 3);
        }
        ls.check("orders");
    }, nullptr, 1);
}
// three bulk calls through one context at every pair of positions of rows of 24 and of 300 chunks
static void rows_bulk() {
    auto &e = mc::E();
    for (int w = 0; w < 2; w++) {
        rows::Rows rw{w == 1};
        auto pts = rw.points();
        size_t n = pts.size();
        e.parallel(rw.name(), n * n * 4, [=](uint64_t i) {
            auto &e = mc::E();
            int p = pts[i / 4 % n], q = pts[i / 4 / n], kind = (int)(i % 4);
            Chunks cs = rw.row(0, 5, 3);
            Set s0 = chunks_set(cs);
            // kind 0,1: a value of an existing chunk (add, contains) then of another; 2,3: of a new chunk before it
            uint32_t a = (uint32_t)(cs[p].key - (kind >= 2)) << 16 | 50001, b = (uint32_t)cs[q].key << 16 | (cs[q].s.has(50001) ? 7 : 50001);
            e.detail("chunks %d and %d of %d, kind %d", p, q, rw.n(), kind);
            LeakScope ls;
            for (int share = 0; share < 2; share++) {
                RP other, r(build_chunks(cs));
                if (share) {
                    roaring_bitmap_set_copy_on_write(r.get(), true);
                    other.reset(roaring_bitmap_copy(r.get()));
                }
                Set m = s0;
                roaring_bulk_context_t c;
                memset(&c, 0, sizeof c);
                auto has = [&](uint32_t x) { MC_CHECK(roaring_bitmap_contains_bulk(r.get(), &c, x) == m.has(x), "contains_bulk(%u)", x); };
                auto add = [&](uint32_t x) {
                    roaring_bitmap_add_bulk(r.get(), &c, x);
                    m.add(x);
                };
                has(b);
                if (kind % 2) has(a);
                else add(a);
                add(b);
                has(a + 1);
                add(a + 2);
                has(b);
                add((uint32_t)cs[q].key << 16 | 60007);
                expect_set(r.get(), m, "bulk calls on a row");
                expect_valid(r.get(), "bulk calls on a row");
                uint32_t l[5] = {b, a, a + 2, (uint32_t)cs[p].key << 16 | 3, a + 65536};
                roaring_bitmap_remove_many(r.get(), 5, l);
                for (auto x : l) m.remove(x);
                expect_set(r.get(), m, "remove_many on a row");
                roaring_bitmap_add_many(r.get(), 5, l);
                for (auto x : l) m.add(x);
                expect_set(r.get(), m, "add_many on a row");
                expect_valid(r.get(), "add_many on a row");
                if (other) expect_set(other.get(), s0, "the other owner of the shared storage");
                e.eval(9);
            }
            if (p % 2 == q % 2 || e.thorough) {
                auto up = [](uint64_t x) { return (x >> 16) * 0x61 << 16 | (x & 0xffff); };
                std::vector<Bucket> bs;
                for (auto &k : cs) {
                    uint64_t key = (uint64_t)k.key * 0x61;
                    if (bs.empty() || bs.back().high != (uint32_t)(key >> 16)) bs.push_back({(uint32_t)(key >> 16), {}});
                    bs.back().cs.push_back({(uint16_t)key, k.s, k.rep});
                }
                RP64 r(build64_buckets(bs));
                Set m = buckets_set(bs);
                roaring64_bulk_context_t c;
                memset(&c, 0, sizeof c);
                auto has = [&](uint64_t x) { MC_CHECK(roaring64_bitmap_contains_bulk(r.get(), &c, x) == m.has(x), "64-bit contains_bulk"); };
                auto add = [&](uint64_t x) {
                    roaring64_bitmap_add_bulk(r.get(), &c, x);
                    m.add(x);
                };
                auto rem = [&](uint64_t x) {
                    roaring64_bitmap_remove_bulk(r.get(), &c, x);
                    m.remove(x);
                };
                has(up(b));
                if (kind % 2) rem(up(a));
                else add(up(a));
                add(up(b));
                has(up(a) + 1);
                add(up(a) + 2);
                rem(up(b));
                has(up(b));
                rem(up(a) + 2);
                rem(up(a));
                add(up(a) + 9);
                expect_set64(r.get(), m, "64-bit bulk calls on a row");
                expect_valid64(r.get(), "64-bit bulk calls on a row");
                e.eval(8);
            }
            ls.check("bulk calls on a row");
        }, nullptr, 1);
    }
}
int main(int argc, char **argv) {
    hk::install();
    auto &e = mc::E();
    e.init(argc, argv, "C25");
    e.rule = "a distinct state is a different serialized content, set of storage kinds, capacity and context position";
    bulk32();
    lists32();
    order32();
    bulk64();
    lists64();
    order64();
    rows_bulk();
    return e.finish();
}
