// C05: the 32-bit iterator as a cursor over the sorted set.
#include "queries32.hpp"
#include "onerun.hpp"
#include "rows.hpp"
typedef roaring_uint32_iterator_t It;
typedef unsigned long long ull;
// the interface under its present and under its deprecated names (same semantics)
struct Names {
    void (*init)(const R *, It *), (*init_last)(const R *, It *), (*free_)(It *);
    It *(*create)(const R *), *(*copy)(const It *);
    bool (*advance)(It *), (*previous)(It *), (*seek)(It *, uint32_t);
    uint32_t (*read)(It *, uint32_t *, uint32_t);
};
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
static const Names present = {roaring_iterator_init, roaring_iterator_init_last, roaring_uint32_iterator_free, roaring_iterator_create,
                              roaring_uint32_iterator_copy, roaring_uint32_iterator_advance, roaring_uint32_iterator_previous,
                              roaring_uint32_iterator_move_equalorlarger, roaring_uint32_iterator_read},
                   deprecated = {roaring_init_iterator, roaring_init_iterator_last, roaring_free_uint32_iterator, roaring_create_iterator,
                                 roaring_copy_uint32_iterator, roaring_advance_uint32_iterator, roaring_previous_uint32_iterator,
                                 roaring_move_uint32_iterator_equalorlarger, roaring_read_uint32_iterator};
#pragma GCC diagnostic pop
static const Names *names = &present;
struct Cur {  // model: index into the sorted list, -1 before the first, n past the end
    const std::vector<uint64_t> *v;
    int64_t p;
    bool has() const { return p >= 0 && p < (int64_t)v->size(); }
};
static void cmp(const It *it, const Cur &c, const char *after) {
    if (it->has_value != c.has()) mc::fail("%s: has_value %d, expected %d", after, it->has_value, c.has());
    if (c.has() && it->current_value != (*c.v)[c.p])
        mc::fail("%s: at %u, expected %llu", after, it->current_value, (ull)(*c.v)[c.p]);
    mc::E().eval();
}
enum { ADV, PREV, COPY, READ, SEEK };
struct Act { int k; uint64_t a; };
static std::string act_str(const Act &a) {
    static const char *n[] = {"advance", "previous", "copy", "read", "seek"};
    return a.k >= READ ? mc::strf("%s(%llu)", n[a.k], (ull)a.a) : n[a.k];
}
// returns false when the interface does not allow the action in this state
static bool step(It *&it, Cur &c, const Act &a, bool heap) {
    const auto &v = *c.v;
    int64_t n = (int64_t)v.size();
    switch (a.k) {
        case ADV: {
            if (c.p >= n) return false;
            bool r = names->advance(it);
            c.p++;
            if (r != c.has()) mc::fail("advance returned %d", r);
            break;
        }
        case PREV: {
            if (c.p < 0) return false;
            bool r = names->previous(it);
            c.p--;
            if (r != c.has()) mc::fail("previous returned %d", r);
            break;
        }
        case COPY: {
            It *o = names->copy(it);
            MC_CHECK(o, "iterator copy failed");
            // moving the original must not move the copy
            if (c.has()) names->advance(it);
            else if (n) names->seek(it, (uint32_t)v[0]);
            names->free_(it);
            it = o;
            break;
        }
        case READ: {
            if (c.p < 0 && n) return false;
            uint64_t want = c.p < 0 ? 0 : std::min<uint64_t>(a.a, (uint64_t)(n - c.p));
            uint64_t cap = std::min<uint64_t>(a.a, (uint64_t)n + 8);
            uint32_t *buf = (uint32_t *)malloc(cap * 4 + 4);
            memset(buf, 0x6B, cap * 4 + 4);
            uint32_t got = names->read(it, buf, (uint32_t)a.a);
            std::string why;
            if (got != want) why = mc::strf("read(%llu) returned %u, expected %llu", (ull)a.a, got, (ull)want);
            for (uint64_t i = 0; i < want && why.empty(); i++)
                if (buf[i] != v[c.p + i]) why = mc::strf("read(%llu)[%llu] = %u, expected %llu", (ull)a.a, (ull)i, buf[i], (ull)v[c.p + i]);
            if (why.empty() && want < cap && buf[want] != 0x6B6B6B6Bu) why = "read wrote past the values it returned";
            free(buf);
            if (!why.empty()) mc::fail("%s", why.c_str());
            c.p += (int64_t)want;
            break;
        }
        case SEEK: {
            int64_t q = std::lower_bound(v.begin(), v.end(), a.a) - v.begin();
            bool r = names->seek(it, (uint32_t)a.a);
            c.p = q;
            if (r != c.has()) mc::fail("move_equalorlarger(%llu) returned %d", (ull)a.a, r);
            break;
        }
    }
    (void)heap;
    return true;
}
struct Start { It *it; Cur c; };
static It *start(const R *r, int how, Cur &c) {
    It *it = names->create(r);
    MC_CHECK(it, "iterator_create failed");
    int64_t n = (int64_t)c.v->size();
    c.p = 0;
    if (how == 1) {
        names->init_last(r, it);
        c.p = n - 1;
    }
    if (how == 2) {  // re-initialised after use
        if (n) names->advance(it);
        names->init(r, it);
    }
    if (n == 0) c.p = how == 1 ? -1 : 0;
    return it;
}
static void free_it(It *it) { names->free_(it); }
struct ItFree { void operator()(It *i) const { free_it(i); } };
// every action sequence of length L after (start, optional seek)
static void sequences(const R *r, const std::vector<uint64_t> &v, const std::vector<uint64_t> &targets, const std::vector<Act> &acts, int L,
                      const char *name) {
    auto &e = mc::E();
    uint64_t total = 1;
    for (int i = 0; i < L; i++) total *= acts.size();
    for (int how = 0; how < 3; how++)
        for (size_t t = 0; t <= targets.size(); t++) {
            if (how == 2 && t) continue;
            for (uint64_t q = 0; q < total; q++) {
                Cur c{&v, 0};
                It *it = start(r, how, c);
                std::unique_ptr<It, ItFree> guard(it);
                auto run = [&](const Act &a, const char *lbl) {
                    guard.release();
                    bool ok;
                    try {
                        ok = step(it, c, a, true);
                    } catch (...) {
                        guard.reset(it);
                        throw;
                    }
                    guard.reset(it);
                    if (ok) cmp(it, c, lbl);
                    return ok;
                };
                auto describe = [&](int upto) {
                    std::string s = std::string(name) + (how == 1 ? ": from last" : how == 2 ? ": reinit" : ": from first");
                    if (t < targets.size()) s += mc::strf(", seek(%llu)", (ull)targets[t]);
                    uint64_t x = q;
                    for (int j = 0; j <= upto && j < L; j++, x /= acts.size()) s += ", " + act_str(acts[x % acts.size()]);
                    return s;
                };
                try {
                    cmp(it, c, "start");
                    if (t < targets.size()) run({SEEK, targets[t]}, "seek");
                    uint64_t x = q;
                    for (int j = 0; j < L; j++, x /= acts.size())
                        if (!run(acts[x % acts.size()], "step")) break;
                } catch (mc::Violation &) {
                    e.detail("%s", describe(L).c_str());
                    throw;
                }
                if ((q & 63) == 0) e.detail("%s", describe(L).c_str());
            }
        }
}
static void sweeps(const R *r, const std::vector<uint64_t> &v) {
    Cur c{&v, 0};
    It *it = start(r, 0, c);
    std::unique_ptr<It, ItFree> g(it);
    cmp(it, c, "first");
    for (size_t i = 0; i < v.size(); i++) step(it, c, {ADV, 0}, false), cmp(it, c, "forward sweep");
    for (size_t i = 0; i <= v.size(); i++) {
        if (c.p < 0) break;
        step(it, c, {PREV, 0}, false), cmp(it, c, "backward sweep");
    }
    if (c.p < 0 && !v.empty()) step(it, c, {ADV, 0}, false), cmp(it, c, "forward again");
    for (uint64_t k : {1, 2, 3, 7, 64, 100, 1023, 4096, 65536, 100000}) {
        if (v.size() / k > 40000) continue;
        names->init(r, it);
        c.p = 0;
        for (int guard = 0; guard < 70000; guard++) {
            step(it, c, {READ, k}, false);
            cmp(it, c, "paged read");
            if (!c.has()) break;
        }
    }
    // seeks to every value and to every gap, from the front and jumping about
    names->init(r, it);
    c.p = 0;
    size_t st = v.size() > 3000 ? v.size() / 1500 : 1;
    for (size_t i = 0; i < v.size(); i += st) {
        step(it, c, {SEEK, v[i]}, false);
        cmp(it, c, "seek to member");
        if (v[i] < UEND - 1) step(it, c, {SEEK, v[i] + 1}, false), cmp(it, c, "seek after member");
    }
    for (size_t i = v.size(); i-- > 0;) {
        if (i % st) continue;
        step(it, c, {SEEK, v[i]}, false);
        cmp(it, c, "backward seek to member");
        if (v[i]) step(it, c, {SEEK, v[i] - 1}, false), cmp(it, c, "backward seek before member");
    }
}
int main(int argc, char **argv) {
    auto &e = mc::E();
    e.init(argc, argv, "C05");
    hk::install();
    int level = e.thorough ? 2 : 1;
    auto cs = contents(level);
    auto its = items(cs);
    uint64_t n = its.size();
    auto acts_for = [&](const Set &S, bool many) {
        std::vector<Act> a = {{ADV, 0}, {PREV, 0}, {COPY, 0}, {READ, 1}, {READ, 3}, {READ, 70}, {READ, 5000}};
        if (many) {
            a.push_back({READ, 0});
            a.push_back({READ, 64});
            a.push_back({READ, 0xFFFFFFFFull});
        }
        if (!S.empty()) {
            a.push_back({SEEK, S.v[S.v.size() / 2].b});
            if (S.max() < UEND - 1) a.push_back({SEEK, S.max() + 1});
        } else a.push_back({SEEK, 5});
        a.push_back({SEEK, 0});
        return a;
    };
    e.parallel("single", n * 3, [&](uint64_t i) {
        auto &it = its[i / 3];
        uint16_t key = i % 3 == 0 ? 0 : i % 3 == 1 ? 5 : 0xFFFF;
        Set S = it.s->shift((uint64_t)key << 16);
        auto v = S.list();
        RP r(build(*it.s, key, it.rep));
        e.detail("%s key %u sweeps", it.name.c_str(), key);
        sweeps(r.get(), v);
        auto t = query_points(S, 3, false);
        sequences(r.get(), v, t, acts_for(S, e.thorough), e.thorough ? 4 : 3, it.name.c_str());
        e.outcome(mc::hash64(i));
    }, nullptr, 1);
    struct K { Set s; Rep r; };
    static const std::vector<K> ks = {{Set(), R_AUTO}, {Set{0, 65535}, R_ARRAY}, {Set::range(0, 9).uni(Set::range(65530, 65535)), R_RUN},
                                      {Set::range(62, 4200), R_BITSET}, {Set{77}, R_RUN}, {Set::range(61300, 65535).uni(Set{0}), R_BITSET}};
    static const uint16_t keys[4] = {0, 1, 6, 0xFFFF};
    int nk = 3;  // keys 0, 1 and 6 or 0xFFFF
    uint64_t per = 1;
    for (int j = 0; j < nk; j++) per *= ks.size();
    e.parallel("layouts", per * 2, [&](uint64_t i) {
        uint64_t c = i / 2;
        Chunks ch;
        std::string nm;
        for (int j = 0; j < nk; j++, c /= ks.size())
            if (c % ks.size()) {
                ch.push_back({keys[j == 2 ? 2 + i / 2 % 2 : j], ks[c % ks.size()].s, ks[c % ks.size()].r});
                nm += mc::strf("%u:%s/%s ", ch.back().key, ch.back().s.str(2).c_str(), rep_name(ch.back().rep));
            }
        Set S = chunks_set(ch);
        auto v = S.list();
        RP r(ch.empty() ? roaring_bitmap_create() : build_chunks(ch)), cp;
        if (i % 2) {
            roaring_bitmap_set_copy_on_write(r.get(), true);
            cp.reset(roaring_bitmap_copy(r.get()));
            nm += "shared";
        }
        e.detail("layout %s", nm.c_str());
        if (i % 2 == 0) sweeps(r.get(), v);
        auto t = query_points(S, 6, false);
        sequences(r.get(), v, t, acts_for(S, false), e.thorough ? 3 : 2, nm.c_str());
        e.outcome(mc::hash64(i + 5000));
    }, nullptr, 1);
    // tiny bitmaps, long action sequences
    static const std::vector<std::vector<uint32_t>> tiny = {{}, {0}, {0xFFFFFFFFu}, {5, 6}, {65535, 65536}, {0, 131072, 0xFFFFFFFFu}, {3, 64, 65, 70000, 70001}};
    e.parallel("tiny", tiny.size() * 3, [&](uint64_t i0) {
        const bool old = i0 >= tiny.size() * 2;
        const uint64_t i = old ? (i0 - tiny.size() * 2) * 2 : i0;
        names = old ? &deprecated : &present;
        R *r0 = roaring_bitmap_of_ptr(tiny[i / 2].size(), tiny[i / 2].data());
        RP r(r0);
        if (i % 2) {
            Chunks ch;
            to_set_ser(r0, &ch);
            for (auto &c : ch) c.rep = R_RUN;
            if (!ch.empty()) r.reset(build_chunks(ch));
        }
        Set S = to_set(r.get());
        auto v = S.list();
        std::vector<Act> a = {{ADV, 0}, {PREV, 0}, {COPY, 0}, {READ, 1}, {READ, 2}, {READ, 9}, {SEEK, 0}, {SEEK, 65536}, {SEEK, 0xFFFFFFFFu}};
        e.detail("tiny %llu", (ull)i0);
        sequences(r.get(), v, {6, 70000}, a, old ? 3 : e.thorough ? 6 : 5, mc::strf("tiny %llu", (ull)i).c_str());
    }, nullptr, 1);
    // rows of 24 chunks: from every chunk a seek to every chunk, then one step, read or step back; reads across many chunks
    for (const rows::Rows rw : {rows::Rows{false}, rows::Rows{true}})
        e.parallel(rw.name(), rw.points().size() * (rw.wide ? 3 : 6), [&, rw](uint64_t q) {
        const auto pts = rw.points();
        int from = pts[q % pts.size()], v = (int)(q / pts.size());
        const uint64_t k0 = v % 2 ? 0x10000 - 2 * rw.n() : 3;
        const int st = v % 2 ? 2 : 1;
        Chunks ch = rw.row(v % 3, 0, 1);
        for (auto &c : ch)
            if (c.s.card() > 60000) c.s = Set::range(0, 2).uni(Set::range(65000, 65535));  // one chunk would dominate every list
        for (int k = 0; k < rw.n(); k++) ch[k].key = (uint16_t)(k0 + k * st);
        Set S = chunks_set(ch);
        RP r(build_chunks(ch));
        auto vals = S.list();
        if (from == 0) {
            e.detail("row %d sweeps", v);
            sweeps(r.get(), vals);
        }
        std::vector<std::vector<uint64_t>> tg;
        for (int k = 0; k < rw.n(); k++) {
            Set c = ch[k].s.shift((k0 + (uint64_t)k * st) << 16);
            std::vector<uint64_t> t = {c.min(), c.max(), c.v[c.v.size() / 2].a};
            for (uint64_t x : {c.min() - 1, c.max() + 1, c.v[c.v.size() / 2].b + 1})
                if (x <= UEND - 1) t.push_back(x);
            tg.push_back(t);
        }
        static const std::vector<Act> acts = {{ADV, 0}, {PREV, 0}, {READ, 1}, {READ, 7000}, {READ, 15000}, {COPY, 0}};
        for (auto x : tg[from])
            for (int to : pts)
                for (auto y : tg[to])
                    for (size_t k = 0; k < acts.size(); k++) {
                        if (acts[k].k == READ && acts[k].a > 1 && y != tg[to][2]) continue;
                        Cur c{&vals, 0};
                        It *it = start(r.get(), (int)(k % 2), c);
                        std::unique_ptr<It, ItFree> g(it);
                        e.detail("row %d: seek(%llu), seek(%llu), %s", v, (ull)x, (ull)y, act_str(acts[k]).c_str());
                        step(it, c, {SEEK, x}, true);
                        cmp(it, c, "first seek");
                        step(it, c, {SEEK, y}, true);
                        cmp(it, c, "second seek");
                        g.release();
                        if (step(it, c, acts[k], true)) cmp(it, c, "step after seek");
                        g.reset(it);
                    }
        e.outcome(mc::hash64(q + 99000));
    }, nullptr, 1);
    // a run or a gap of every length: seeks to its ends and inside, reads up to, across and beyond its end, then a step either way
    e.parallel("one interval", onerun::count(), [&](uint64_t i) {
        int a, z;
        if (!onerun::get(i, a, z)) return;
        Set A = Set::range((uint64_t)a, (uint64_t)z), far, gap = Set::step(0, 65535, 5).minus(A);
        for (int d : {1, 2, 3, 70, 300}) {
            if (a - d >= 0 && d != 1) far.add((uint64_t)(a - d));
            if (z + d <= 65535 && d != 1) far.add((uint64_t)(z + d));
        }
        if (a) gap.add((uint64_t)a - 1);
        if (z < 65535) gap.add((uint64_t)z + 1);
        Set both = A.uni(far);
        std::vector<std::pair<Set, Rep>> cs = {{both, R_RUN}, {both, natural(both)}};
        if (gap.card() > 4096) cs.push_back({gap, R_BITSET});
        else if (!gap.empty()) cs.push_back({gap, R_ARRAY});
        for (size_t k = 0; k < cs.size(); k++) {
            const uint64_t base = (i + k) % 3 == 0 ? 0 : (i + k) % 3 == 1 ? 7u << 16 : 0xFFFF0000ull;
            Set S = cs[k].first.shift(base);
            RP r(build(cs[k].first, (uint16_t)(base >> 16), cs[k].second));
            auto vals = S.list();
            std::set<int> pts = {a, z, a + (z - a) / 2, std::max(a - 1, 0), std::min(a + 1, 65535), std::min(z + 1, 65535), std::max(z - 1, 0)};
            for (int x : pts) {
                std::set<uint64_t> ns = {(uint64_t)std::max(z - x, 0), (uint64_t)(z - x + 2), (uint64_t)(z - x + 3), 1};
                if (x <= z) ns.insert((uint64_t)(z - x + 1));
                for (int act = 0; act < 2; act++)
                    for (int how = 0; how < 2; how++) {
                        Cur c{&vals, 0};
                        It *it = start(r.get(), how, c);
                        std::unique_ptr<It, ItFree> g(it);
                        e.detail("%s around [%d,%d]: seek(%d), %s", rep_name(cs[k].second), a, z, x, act ? "previous" : "advance");
                        step(it, c, {SEEK, base + (uint64_t)x}, false);
                        cmp(it, c, "seek");
                        if (step(it, c, {act ? PREV : ADV, 0}, false)) cmp(it, c, "step after seek");
                    }
                for (uint64_t m : ns) {
                    Cur c{&vals, 0};
                    It *it = start(r.get(), 0, c);
                    std::unique_ptr<It, ItFree> g(it);
                    e.detail("%s around [%d,%d]: seek(%d), read(%llu)", rep_name(cs[k].second), a, z, x, (ull)m);
                    step(it, c, {SEEK, base + (uint64_t)x}, false);
                    if (!step(it, c, {READ, m}, false)) continue;
                    cmp(it, c, "read");
                    if (step(it, c, {PREV, 0}, false)) cmp(it, c, "previous after read");
                }
            }
        }
    }, nullptr, 2);
    // callback iteration
    e.parallel("callbacks", n, [&](uint64_t i) {
        auto &it = its[i];
        Set S = it.s->shift(7 << 16);
        S.add(5);
        Chunks ch = {{0, Set{5}, R_ARRAY}, {7, *it.s, it.rep}};
        RP r(build_chunks(ch));
        e.detail("%s callbacks", it.name.c_str());
        QOpts o;
        o.points = 2;
        o.ranges = o.extraction = false;
        check_queries(r.get(), S, o);
        auto v = S.list();
        for (uint64_t stop = 1; stop <= v.size() + 1; stop += 1 + v.size() / 50) {
            IterRec a;
            a.stop_after = stop;
            bool ret = roaring_iterate(r.get(), rec32, &a);
            MC_CHECK(a.calls == std::min<uint64_t>(stop, v.size()), "iterate made %llu calls, asked to stop after %llu", (ull)a.calls, (ull)stop);
            MC_CHECK(ret == (stop > v.size()), "iterate returned %d", ret);
            for (size_t k = 0; k < a.got.size(); k++) MC_CHECK(a.got[k] == v[k], "iterate[%zu]", k);
            e.eval();
        }
    }, nullptr, 1);
    e.rule = "each case is a bitmap; all action sequences (step, step back, seek, bulk read, copy) up to a length from every start and seek target are run and compared with an index into the sorted list";
    e.samples.push_back("tiny: from last, seek(70000), previous, read(2), copy, previous, seek(65536)");
    return e.finish();
}
