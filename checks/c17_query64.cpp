// C17: 64-bit queries and the 64-bit iterator as a cursor over the sorted set.
#include "queries64.hpp"
#include "spans.hpp"
#include "onerun.hpp"
#include "rows.hpp"
typedef roaring64_iterator_t It;
typedef unsigned long long ull;
struct Cur {  // model: index into the sorted list, -1 before the first, n past the end
    const std::vector<uint64_t> *v;
    int64_t p;
    bool has() const { return p >= 0 && p < (int64_t)v->size(); }
};
static void cmp(const It *it, const Cur &c, const char *after) {
    if (roaring64_iterator_has_value(it) != c.has()) mc::fail("%s: has_value %d, expected %d", after, roaring64_iterator_has_value(it), c.has());
    if (c.has() && roaring64_iterator_value(it) != (*c.v)[c.p])
        mc::fail("%s: at %llu, expected %llu", after, (ull)roaring64_iterator_value(it), (ull)(*c.v)[c.p]);
    mc::E().eval();
}
enum { ADV, PREV, COPY, READ, SEEK };
struct Act { int k; uint64_t a; };
static std::string act_str(const Act &a) {
    static const char *n[] = {"advance", "previous", "copy", "read", "seek"};
    return a.k >= READ ? mc::strf("%s(%llu)", n[a.k], (ull)a.a) : n[a.k];
}
// returns false when the interface does not allow the action in this state
static bool step(It *&it, Cur &c, const Act &a, bool heap) {
    const auto &v = *c.v;
    int64_t n = (int64_t)v.size();
    switch (a.k) {
        case ADV: {
            if (c.p >= n) return false;
            bool r = roaring64_iterator_advance(it);
            c.p++;
            if (r != c.has()) mc::fail("advance returned %d", r);
            break;
        }
        case PREV: {
            if (c.p < 0) return false;
            bool r = roaring64_iterator_previous(it);
            c.p--;
            if (r != c.has()) mc::fail("previous returned %d", r);
            break;
        }
        case COPY: {
            It *o = roaring64_iterator_copy(it);
            MC_CHECK(o, "iterator copy failed");
            // moving the original must not move the copy
            if (c.has()) roaring64_iterator_advance(it);
            else if (n) roaring64_iterator_move_equalorlarger(it, v[0]);
            roaring64_iterator_free(it);
            it = o;
            break;
        }
        case READ: {
            if (c.p < 0 && n) return false;
            uint64_t want = c.p < 0 ? 0 : std::min<uint64_t>(a.a, (uint64_t)(n - c.p));
            uint64_t cap = std::min<uint64_t>(a.a, (uint64_t)n + 8);
            uint64_t *buf = (uint64_t *)malloc(cap * 8 + 8);
            memset(buf, 0x6B, cap * 8 + 8);
            uint64_t got = roaring64_iterator_read(it, buf, a.a);
            std::string why;
            if (got != want) why = mc::strf("read(%llu) returned %llu, expected %llu", (ull)a.a, (ull)got, (ull)want);
            for (uint64_t i = 0; i < want && why.empty(); i++)
                if (buf[i] != v[c.p + i]) why = mc::strf("read(%llu)[%llu] = %llu, expected %llu", (ull)a.a, (ull)i, (ull)buf[i], (ull)v[c.p + i]);
            if (why.empty() && want < cap && buf[want] != 0x6B6B6B6B6B6B6B6Bull) why = "read wrote past the values it returned";
            free(buf);
            if (!why.empty()) mc::fail("%s", why.c_str());
            c.p += (int64_t)want;
            break;
        }
        case SEEK: {
            int64_t q = std::lower_bound(v.begin(), v.end(), a.a) - v.begin();
            bool r = roaring64_iterator_move_equalorlarger(it, a.a);
            c.p = q;
            if (r != c.has()) mc::fail("move_equalorlarger(%llu) returned %d", (ull)a.a, r);
            break;
        }
    }
    (void)heap;
    return true;
}
struct Start { It *it; Cur c; };
static It *start(const R64 *r, int how, Cur &c) {
    It *it = how == 3 ? roaring64_iterator_create_last(r) : roaring64_iterator_create(r);
    MC_CHECK(it, "iterator_create failed");
    int64_t n = (int64_t)c.v->size();
    c.p = 0;
    if (how == 3) c.p = n - 1;
    if (how == 1) {
        roaring64_iterator_reinit_last(r, it);
        c.p = n - 1;
    }
    if (how == 2) {  // re-initialised after use
        if (n) roaring64_iterator_advance(it);
        roaring64_iterator_reinit(r, it);
    }
    if (n == 0) c.p = how == 1 || how == 3 ? -1 : 0;
    return it;
}
static void free_it(It *it) { roaring64_iterator_free(it); }
struct ItFree { void operator()(It *i) const { free_it(i); } };
// every action sequence of length L after (start, optional seek)
static void sequences(const R64 *r, const std::vector<uint64_t> &v, const std::vector<uint64_t> &targets, const std::vector<Act> &acts, int L,
                      const char *name, uint64_t part = 0, uint64_t parts = 1) {
    auto &e = mc::E();
    uint64_t total = 1;
    for (int i = 0; i < L; i++) total *= acts.size();
    for (int how = 0; how < 4; how++)
        for (size_t t = 0; t <= targets.size(); t++) {
            if (how >= 2 && t) continue;
            for (uint64_t q = part; q < total; q += parts) {
                Cur c{&v, 0};
                It *it = start(r, how, c);
                std::unique_ptr<It, ItFree> guard(it);
                auto run = [&](const Act &a, const char *lbl) {
                    guard.release();
                    bool ok;
                    try {
                        ok = step(it, c, a, true);
                    } catch (...) {
                        guard.reset(it);
                        throw;
                    }
                    guard.reset(it);
                    if (ok) cmp(it, c, lbl);
                    return ok;
                };
                auto describe = [&](int upto) {
                    std::string s = std::string(name) + (how == 1 ? ": from last" : how == 2 ? ": reinit" : how == 3 ? ": created at last" : ": from first");
                    if (t < targets.size()) s += mc::strf(", seek(%llu)", (ull)targets[t]);
                    uint64_t x = q;
                    for (int j = 0; j <= upto && j < L; j++, x /= acts.size()) s += ", " + act_str(acts[x % acts.size()]);
                    return s;
                };
                try {
                    cmp(it, c, "start");
                    if (t < targets.size()) run({SEEK, targets[t]}, "seek");
                    uint64_t x = q;
                    for (int j = 0; j < L; j++, x /= acts.size())
                        if (!run(acts[x % acts.size()], "step")) break;
                } catch (mc::Violation &) {
                    e.detail("%s", describe(L).c_str());
                    throw;
                }
                if ((q / parts & 63) == 0) e.detail("%s", describe(L).c_str());
            }
        }
}
static void sweeps(const R64 *r, const std::vector<uint64_t> &v) {
    Cur c{&v, 0};
    It *it = start(r, 0, c);
    std::unique_ptr<It, ItFree> g(it);
    cmp(it, c, "first");
    for (size_t i = 0; i < v.size(); i++) step(it, c, {ADV, 0}, false), cmp(it, c, "forward sweep");
    for (size_t i = 0; i <= v.size(); i++) {
        if (c.p < 0) break;
        step(it, c, {PREV, 0}, false), cmp(it, c, "backward sweep");
    }
    if (c.p < 0 && !v.empty()) step(it, c, {ADV, 0}, false), cmp(it, c, "forward again");
    for (uint64_t k : {1, 2, 3, 7, 64, 100, 1023, 4096, 65536, 100000}) {
        if (v.size() / k > 40000) continue;
        roaring64_iterator_reinit(r, it);
        c.p = 0;
        for (int guard = 0; guard < 70000; guard++) {
            step(it, c, {READ, k}, false);
            cmp(it, c, "paged read");
            if (!c.has()) break;
        }
    }
    // seeks to every value and to every gap, from the front and jumping about
    roaring64_iterator_reinit(r, it);
    c.p = 0;
    size_t st = v.size() > 3000 ? v.size() / 1500 : 1;
    for (size_t i = 0; i < v.size(); i += st) {
        step(it, c, {SEEK, v[i]}, false);
        cmp(it, c, "seek to member");
        if (v[i] < U64M) step(it, c, {SEEK, v[i] + 1}, false), cmp(it, c, "seek after member");
    }
    for (size_t i = v.size(); i-- > 0;) {
        if (i % st) continue;
        step(it, c, {SEEK, v[i]}, false);
        cmp(it, c, "backward seek to member");
        if (v[i]) step(it, c, {SEEK, v[i] - 1}, false), cmp(it, c, "backward seek before member");
    }
}
int main(int argc, char **argv) {
    auto &e = mc::E();
    e.init(argc, argv, "C17");
    hk::install();
    int level = e.thorough ? 2 : 1;
    auto cs = contents(level);
    auto its = items(cs);
    uint64_t n = its.size();
    auto acts_for = [&](const Set &S, bool many) {
        std::vector<Act> a = {{ADV, 0}, {PREV, 0}, {COPY, 0}, {READ, 1}, {READ, 3}, {READ, 70}, {READ, 5000}};
        if (many) {
            a.push_back({READ, 0});
            a.push_back({READ, 64});
            a.push_back({READ, U64M});
        }
        if (!S.empty()) {
            a.push_back({SEEK, S.v[S.v.size() / 2].b});
            if (S.max() < U64M) a.push_back({SEEK, S.max() + 1});
        } else a.push_back({SEEK, 5});
        a.push_back({SEEK, 0});
        return a;
    };
    static const uint64_t bases[4] = {0, 1ull << 16, 0x1234567890ull << 16, 0xFFFFFFFFFFFFull << 16};
    e.parallel("single", n * 4, [&](uint64_t i) {
        auto &it = its[i / 4];
        Set S = it.s->shift(bases[i % 4]);
        auto v = S.list();
        RP64 r(build64(S, it.rep == R_RUN ? rep_run : rep_natural));
        e.detail("%s base %llx sweeps", it.name.c_str(), (ull)bases[i % 4]);
        if (i % 4 != 2 || e.thorough) sweeps(r.get(), v);
        e.detail("%s base %llx queries", it.name.c_str(), (ull)bases[i % 4]);
        check_queries64(r.get(), S, e.thorough ? 10 : 4);
        if (i % 4 == 1 && !e.thorough) return;
        auto t = points64(S, 2);
        sequences(r.get(), v, t, acts_for(S, e.thorough), e.thorough ? 4 : 3, it.name.c_str());
        e.outcome(mc::hash64(i));
    }, nullptr, 1);
    // chunks at chosen high parts, every combination
    struct K { Set s; Rep r; };
    static const std::vector<K> ks = {{Set(), R_AUTO}, {Set{0, 65535}, R_ARRAY}, {full16(), R_RUN}, {Set::range(62, 4200), R_BITSET},
                                      {Set::range(0, 9).uni(Set::range(65530, 65535)), R_RUN}};
    static const uint64_t pools[4][4] = {{0, 1, 2, 3}, {0xFFFFFFFFFFFCull, 0xFFFFFFFFFFFDull, 0xFFFFFFFFFFFEull, 0xFFFFFFFFFFFFull}, {0, 0xFF, 0x10000, 0xFFFFFFFFFFFFull}, {5, 6, 0x100000005ull, 0x100000006ull}};
    uint64_t per = 625;
    e.parallel("layouts", per * 4, [&](uint64_t i) {
        uint64_t c = i / 4;
        Set S;
        std::vector<Bucket> bs;
        for (int j = 0; j < 4; j++, c /= 5)
            if (c % 5) {
                uint64_t hk48 = pools[i % 4][j];
                uint32_t hi = (uint32_t)(hk48 >> 16);
                if (bs.empty() || bs.back().high != hi) bs.push_back({hi, {}});
                bs.back().cs.push_back({(uint16_t)hk48, ks[c % 5].s, ks[c % 5].r});
                S = S.uni(ks[c % 5].s.shift(hk48 << 16));
            }
        RP64 r(build64_buckets(bs));
        e.detail("layout %llu pool %llu: %s", (ull)(i / 4), (ull)(i % 4), S.str(6).c_str());
        check_queries64(r.get(), S, e.thorough ? 12 : 8);
        auto v = S.list();
        if (!e.thorough && i % 3) return;
        auto t = points64(S, 4);
        sequences(r.get(), v, t, acts_for(S, false), 2, mc::strf("layout %llu", (ull)i).c_str());
        if (v.size() < 5000) sweeps(r.get(), v);
        e.outcome(mc::hash64(i + 5000));
    }, nullptr, 1);
    // four consecutive chunks, every combination of kinds, every pair of boundary positions; the chunk sequence
    // starts a universe, ends it, or crosses a boundary of the key tree's low byte or its upper bytes
    e.parallel("spans", span_count() * (e.thorough ? 4 : 1), [&](uint64_t i) {
        static const uint64_t base[4] = {0, 0x00FEull << 16, 0xFFFCull << 16, 0xFFFFFFFFFFFCull << 16};
        static const uint64_t cross = 0x1234FFFFFFFEull << 16;
        if (!e.thorough) i = i * 4 + (i + i / 9 + i / 81) % 4;  // quick: the base rotates over the combinations
        uint64_t b0 = i % 4 == 2 ? cross : base[i % 4];
        Chunks ch = span_chunks(i / 4, 0);
        Set S;
        std::vector<Bucket> bs;
        for (auto &c : ch) {
            uint64_t x = b0 + ((uint64_t)c.key << 16);
            uint32_t hi = (uint32_t)(x >> 32);
            if (bs.empty() || bs.back().high != hi) bs.push_back({hi, {}});
            bs.back().cs.push_back({(uint16_t)(x >> 16), c.s, c.rep});
            for (auto &v : c.s.v) {
                uint64_t lo = v.a + x, up = v.b + x;
                if (!S.v.empty() && S.v.back().b + 1 == lo) S.v.back().b = up;
                else S.v.push_back({lo, up});
            }
        }
        e.detail("span %llu at base %llx", (ull)(i / 4), (ull)b0);
        RP64 r(build64_buckets(bs));
        span_pairs(S, b0, e.thorough, [&](uint64_t a, uint64_t b, uint64_t n) {
            if (b != U64M) {
                eq64("contains_range", a, b + 1, roaring64_bitmap_contains_range(r.get(), a, b + 1), n == b - a + 1);
                eq64("range_cardinality", a, b + 1, roaring64_bitmap_range_cardinality(r.get(), a, b + 1), n);
                eq64("intersect_with_range", a, b + 1, roaring64_bitmap_intersect_with_range(r.get(), a, b + 1), n > 0);
            }
            eq64("range_closed_cardinality", a, b, roaring64_bitmap_range_closed_cardinality(r.get(), a, b), n);
        });
        e.outcome(mc::hash64(i + 3000000));
    }, nullptr, 8);
    // full chunks with a hole in one of them: ranges between all positions
    for (const rows::Rows rw : {rows::Rows{false}, rows::Rows{true}})
        e.parallel(rw.wide ? "wide holes" : "holes", rw.points().size() * 4, [&, rw](uint64_t q) {
            const auto pts = rw.points();
            int hole = pts[q % pts.size()], v = (int)(q / pts.size());
            const uint64_t k0 = v == 0 ? 0 : v == 1 ? 0x1000000000000ull - rw.n() : v == 2 ? 0x123456FFFFF4ull : 0xF0;
            Set S;
            std::vector<Bucket> bs;
            for (int k = 0; k < rw.n(); k++) {
                Set s = full16();
                if (k == hole) s = v % 2 ? s.minus(Set{40000}) : s.minus(Set{65535});
                uint64_t key = k0 + k;
                if (bs.empty() || bs.back().high != (uint32_t)(key >> 16)) bs.push_back({(uint32_t)(key >> 16), {}});
                bs.back().cs.push_back({(uint16_t)key, s, R_RUN});
                S = S.uni(s.shift(key << 16));
            }
            RP64 r(build64_buckets(bs));
            e.detail("%s: position %d variant %d", rw.name(), hole, v);
            for (int i : pts)
                for (int j : pts)
                    for (int d = 0; d < 4; d++) {
                        uint64_t a = ((k0 + i) << 16) + (d & 1 ? 777 : 0), b = ((k0 + j) << 16) + (d & 2 ? 9 : 65535);
                        if (a > b) continue;
                        uint64_t n = S.range_card(a, b);
                        auto bad = [&](const char *w, uint64_t g, uint64_t x) {
                            if (g != x) mc::fail("%s over [%llu,%llu]: got %llu, expected %llu", w, (ull)a, (ull)b, (ull)g, (ull)x);
                        };
                        if (b != U64M) bad("contains_range", roaring64_bitmap_contains_range(r.get(), a, b + 1), n == b - a + 1);
                        bad("range_closed_cardinality", roaring64_bitmap_range_closed_cardinality(r.get(), a, b), n);
                        if (b != U64M) bad("intersect_with_range", roaring64_bitmap_intersect_with_range(r.get(), a, b + 1), n > 0);
                        bad("rank", roaring64_bitmap_rank(r.get(), b), S.rank(b));
                        e.eval(4);
                    }
        }, nullptr, 1);
    // rows of 24 chunks: from every chunk a seek to every chunk, then one step, read or step back; reads across many chunks
    for (const rows::Rows rw : {rows::Rows{false}, rows::Rows{true}})
        e.parallel(rw.name(), rw.points().size() * (rw.wide ? 3 : 6), [&, rw](uint64_t q) {
        const auto pts = rw.points();
        int from = pts[q % pts.size()], v = (int)(q / pts.size());
        const uint64_t k0 = v % 2 ? 0x1000000000000ull - 2 * rw.n() : v % 3 == 0 ? 3 : 0x12FFFFFFF4ull;
        const uint64_t st = v % 2 ? 2 : 1;
        Chunks ch = rw.row(v % 3, 0, 1);
        for (auto &c : ch)
            if (c.s.card() > 60000) c.s = Set::range(0, 2).uni(Set::range(65000, 65535));  // one chunk would dominate every list
        Set S;
        std::vector<Bucket> bs;
        for (int k = 0; k < rw.n(); k++) {
            uint64_t key = k0 + k * st;
            if (bs.empty() || bs.back().high != (uint32_t)(key >> 16)) bs.push_back({(uint32_t)(key >> 16), {}});
            bs.back().cs.push_back({(uint16_t)key, ch[k].s, ch[k].rep});
            S = S.uni(ch[k].s.shift(key << 16));
        }
        RP64 r(build64_buckets(bs));
        if (from == 1) check_queries64(r.get(), S, 30);
        auto vals = S.list();
        if (from == 0) {
            e.detail("row %d sweeps", v);
            sweeps(r.get(), vals);
        }
        std::vector<std::vector<uint64_t>> tg;
        for (int k = 0; k < rw.n(); k++) {
            Set c = ch[k].s.shift((k0 + (uint64_t)k * st) << 16);
            std::vector<uint64_t> t = {c.min(), c.max(), c.v[c.v.size() / 2].a};
            for (uint64_t x : {c.min() - 1, c.max() + 1, c.v[c.v.size() / 2].b + 1})
                if (x <= U64M - 1) t.push_back(x);
            tg.push_back(t);
        }
        static const std::vector<Act> acts = {{ADV, 0}, {PREV, 0}, {READ, 1}, {READ, 7000}, {READ, 15000}, {COPY, 0}};
        for (auto x : tg[from])
            for (int to : pts)
                for (auto y : tg[to])
                    for (size_t k = 0; k < acts.size(); k++) {
                        if (acts[k].k == READ && acts[k].a > 1 && y != tg[to][2]) continue;
                        Cur c{&vals, 0};
                        It *it = start(r.get(), (int)(k % 2), c);
                        std::unique_ptr<It, ItFree> g(it);
                        e.detail("row %d: seek(%llu), seek(%llu), %s", v, (ull)x, (ull)y, act_str(acts[k]).c_str());
                        step(it, c, {SEEK, x}, true);
                        cmp(it, c, "first seek");
                        step(it, c, {SEEK, y}, true);
                        cmp(it, c, "second seek");
                        g.release();
                        if (step(it, c, acts[k], true)) cmp(it, c, "step after seek");
                        g.reset(it);
                    }
        e.outcome(mc::hash64(q + 99000));
    }, nullptr, 1);
    // subsets of scattered high parts: seeks and range queries between keys
    static const uint64_t HK[12] = {0, 1, 2, 0xFF, 0x100, 0x10000, 0x1000000, 0x7FFFFFFFFFFFull, 0x800000000000ull, 0xFFFFFF000000ull, 0xFFFFFFFFFF00ull, 0xFFFFFFFFFFFFull};
    e.parallel("keysets", 4096, [&](uint64_t i) {
        RP64 r(roaring64_bitmap_create());
        Set S;
        for (int j = 0; j < 12; j++)
            if (i >> j & 1) {
                uint64_t x = HK[j] << 16 | (j * 7);
                roaring64_bitmap_add(r.get(), x);
                S.add(x);
            }
        auto v = S.list();
        e.detail("key subset %llx", (ull)i);
        std::vector<uint64_t> q = {0, U64M};
        for (int j = 0; j < 12; j++)
            for (uint64_t x : {HK[j] << 16, HK[j] << 16 | (j * 7), HK[j] << 16 | 0xFFFF}) q.push_back(x);
        std::sort(q.begin(), q.end());
        q.erase(std::unique(q.begin(), q.end()), q.end());
        // every ordered pair of seek targets, then a step either way
        for (size_t a = 0; a < q.size(); a += 1 + (i % 3))
            for (size_t b = 0; b < q.size(); b++)
                for (int dir = 0; dir < 2; dir++) {
                    Cur c{&v, 0};
                    It *it = start(r.get(), dir ? 3 : 0, c);
                    std::unique_ptr<It, ItFree> g(it);
                    step(it, c, {SEEK, q[a]}, true);
                    cmp(it, c, "first seek");
                    step(it, c, {SEEK, q[b]}, true);
                    cmp(it, c, "second seek");
                    if (step(it, c, {dir ? PREV : ADV, 0}, true)) cmp(it, c, "step after seek");
                }
        for (auto a : q)
            for (auto b : q) range_queries64(r.get(), S, a, b);
    }, nullptr, 4);
    // intervals of every length asked of chunks that avoid them, meet them in one value or lack one value of them
    e.parallel("one interval", onerun::count(), [&](uint64_t i) {
        int a0, z0;
        if (!onerun::get(i, a0, z0)) return;
        auto bs = onerun::partners(a0, z0);
        for (size_t k = 0; k < bs.size(); k++) {
            uint32_t high = (i + k) % 3 == 0 ? 0 : (i + k) % 3 == 1 ? 7 : 0xFFFFFFFFu;
            uint64_t base = (uint64_t)high << 32 | 5u << 16;
            Set S = bs[k].first.shift(base);
            RP64 r(build64_buckets({{high, {{5, bs[k].first, bs[k].second}}}}));
            e.detail("%s as %s, around [%d,%d]", bs[k].first.str().substr(0, 60).c_str(), rep_name(bs[k].second), a0, z0);
            for (int da = -1; da <= 1; da++)
                for (int dz = -1; dz <= 1; dz++)
                    if (a0 + da <= z0 + dz) range_queries64(r.get(), S, base + (uint64_t)(a0 + da), base + (uint64_t)(z0 + dz));
        }
    }, nullptr, 2);
    // a run or a gap of every length: seeks to its ends and inside, reads up to, across and beyond its end, then a step either way
    e.parallel("one interval cursors", onerun::count(), [&](uint64_t i) {
        int a, z;
        if (!onerun::get(i, a, z)) return;
        Set A = Set::range((uint64_t)a, (uint64_t)z), far, gap = Set::step(0, 65535, 5).minus(A);
        for (int d : {1, 2, 3, 70, 300}) {
            if (a - d >= 0 && d != 1) far.add((uint64_t)(a - d));
            if (z + d <= 65535 && d != 1) far.add((uint64_t)(z + d));
        }
        if (a) gap.add((uint64_t)a - 1);
        if (z < 65535) gap.add((uint64_t)z + 1);
        Set both = A.uni(far);
        std::vector<std::pair<Set, Rep>> cs = {{both, R_RUN}, {both, natural(both)}};
        if (gap.card() > 4096) cs.push_back({gap, R_BITSET});
        else if (!gap.empty()) cs.push_back({gap, R_ARRAY});
        for (size_t k = 0; k < cs.size(); k++) {
            const uint32_t high = (i + k) % 3 == 0 ? 0 : (i + k) % 3 == 1 ? 7 : 0xFFFFFFFFu;
            const uint64_t base = (uint64_t)high << 32 | 0xFFFF0000u;
            Set S = cs[k].first.shift(base);
            RP64 r(build64_buckets({{high, {{0xFFFF, cs[k].first, cs[k].second}}}}));
            auto vals = S.list();
            std::set<int> pts = {a, z, a + (z - a) / 2, std::max(a - 1, 0), std::min(a + 1, 65535), std::min(z + 1, 65535), std::max(z - 1, 0)};
            for (int x : pts) {
                std::set<uint64_t> ns = {(uint64_t)std::max(z - x, 0), (uint64_t)(z - x + 2), (uint64_t)(z - x + 3), 1};
                if (x <= z) ns.insert((uint64_t)(z - x + 1));
                for (int act = 0; act < 2; act++)
                    for (int how = 0; how < 2; how++) {
                        Cur c{&vals, 0};
                        It *it = start(r.get(), how, c);
                        std::unique_ptr<It, ItFree> g(it);
                        e.detail("%s around [%d,%d]: seek(%d), %s", rep_name(cs[k].second), a, z, x, act ? "previous" : "advance");
                        step(it, c, {SEEK, base + (uint64_t)x}, false);
                        cmp(it, c, "seek");
                        if (step(it, c, {act ? PREV : ADV, 0}, false)) cmp(it, c, "step after seek");
                    }
                for (uint64_t m : ns) {
                    Cur c{&vals, 0};
                    It *it = start(r.get(), 0, c);
                    std::unique_ptr<It, ItFree> g(it);
                    e.detail("%s around [%d,%d]: seek(%d), read(%llu)", rep_name(cs[k].second), a, z, x, (ull)m);
                    step(it, c, {SEEK, base + (uint64_t)x}, false);
                    if (!step(it, c, {READ, m}, false)) continue;
                    cmp(it, c, "read");
                    if (step(it, c, {PREV, 0}, false)) cmp(it, c, "previous after read");
                }
            }
        }
    }, nullptr, 2);
    static const std::vector<std::vector<uint64_t>> tiny = {{}, {0}, {U64M}, {5, 6}, {65535, 65536}, {0, 1ull << 40, U64M}, {3, 64, 65, 1ull << 32, (1ull << 32) + 1}};
    const uint64_t PARTS = e.thorough ? 64 : 16;
    e.parallel("tiny", tiny.size() * 2 * PARTS, [&](uint64_t x) {
        uint64_t i = x / PARTS;
        RP64 r(roaring64_bitmap_of_ptr(tiny[i / 2].size(), tiny[i / 2].data()));
        Set S = to_set64(r.get());
        if (i % 2) r.reset(build64(S, rep_run));
        auto v = S.list();
        if (x % PARTS == 0) check_queries64(r.get(), S, 20);
        std::vector<Act> a = {{ADV, 0}, {PREV, 0}, {COPY, 0}, {READ, 1}, {READ, 2}, {READ, 9}, {SEEK, 0}, {SEEK, 65536}, {SEEK, U64M}};
        e.detail("tiny %llu", (ull)i);
        sequences(r.get(), v, {6, 1ull << 41}, a, e.thorough ? 7 : 6, mc::strf("tiny %llu", (ull)i).c_str(), x % PARTS, PARTS);
    }, nullptr, 1);
    e.rule = "each case is a 64-bit bitmap; every query at all boundary arguments and every cursor action sequence up to a length are compared with the sorted set";
    e.samples.push_back("tiny: created at last, seek(1<<41), previous, read(2), copy, previous, seek(65536)");
    return e.finish();
}
