// C27: conversions between bitmap kinds, bitsets, arrays and text keep the set, whatever the representation and sharing.
#include <algorithm>
#include <sys/mman.h>
#include <unistd.h>
#include <roaring/roaring.h>
#include <roaring/roaring64.h>
#include "roaring.hh"
#include "roaring64map.hh"
#include "hist64.hpp"
#include "queries32.hpp"
#include "queries64.hpp"
#include "rows.hpp"
#include "zoo.hpp"
#include "zoo64.hpp"
typedef unsigned long long ull;
typedef roaring::Roaring RR;
typedef roaring::Roaring64Map RM;
static std::string text(const Set &s) {
    std::string t = "{";
    s.each([&](uint64_t x) {
        if (t.size() > 1) t += ',';
        t += std::to_string(x);
    });
    return t + "}";
}
// what f prints on standard output
template <class F>
static std::string printed(F f) {
    fflush(stdout);
    int old = dup(1), fd = memfd_create("out", 0);
    MC_CHECK(old >= 0 && fd >= 0, "harness: no file to print into");
    dup2(fd, 1);
    f();
    fflush(stdout);
    dup2(old, 1);
    close(old);
    off_t n = lseek(fd, 0, SEEK_END);
    std::string s((size_t)n, '\0');
    ssize_t g = pread(fd, &s[0], (size_t)n, 0);
    close(fd);
    MC_CHECK(g == n, "harness: cannot read what was printed");
    return s;
}
static std::string around(const std::string &g, const std::string &w) {
    size_t i = 0;
    while (i < g.size() && i < w.size() && g[i] == w[i]) i++;
    i = i > 20 ? i - 20 : 0;
    return "got ..." + g.substr(i, 40) + " expected ..." + w.substr(i, 40);
}
static void text_is(const std::string &g, const std::string &w, const char *what) {
    if (g != w) mc::fail("%s: %s", what, around(g, w).c_str());
    mc::E().eval();
}
// ---- the ways a bitmap's chunks may be owned
enum { PLAIN, FLAG, SHARED, SHARED_ALONE, COPY, THREE, PARTLY, OWNERS };
static const char *owner_name[] = {"", "copy-on-write", "copied", "copied, copy freed", "the copy", "copied twice", "copied, one chunk changed"};
struct Src {
    R *r = nullptr;
    std::vector<RP> others;
    Set s, so;
    Src(const Chunks &cs, int how, bool slack = false) {
        s = chunks_set(cs);
        r = cs.empty() ? roaring_bitmap_create() : slack && cs.size() == 1 ? build_slack(cs[0].s, cs[0].key, cs[0].rep) : build_chunks(cs);
        so = s;
        if (how == PLAIN) return;
        roaring_bitmap_set_copy_on_write(r, true);
        if (how == FLAG) return;
        others.emplace_back(roaring_bitmap_copy(r));
        if (how == THREE) others.emplace_back(roaring_bitmap_copy(others[0].get()));
        if (how == SHARED_ALONE) others.clear();
        if (how == COPY) {
            R *t = others[0].release();
            others[0].reset(r);
            r = t;
        }
        if (how == PARTLY) {
            uint32_t x = s.empty() ? 7u : ((uint32_t)s.min() | 65535u);
            roaring_bitmap_flip_inplace(r, x, (uint64_t)x + 1);
            s = s.xr(Set{x});
        }
    }
    ~Src() { roaring_bitmap_free(r); }
    void others_same(const char *what) {
        for (auto &o : others) {
            expect_set(o.get(), so, what);
            expect_valid(o.get(), what);
        }
    }
    void others_usable(const char *what) {
        for (auto &o : others) {
            Set t = so;
            roaring_bitmap_add(o.get(), 9);
            t.add(9);
            roaring_bitmap_remove_range(o.get(), 10, 70000);
            t.remove_range(10, 69999);
            expect_set(o.get(), t, what);
            expect_valid(o.get(), what);
            so = t;
            if (others.size() > 1) break;  // the other one must then keep its values
        }
        if (others.size() > 1) {
            RP rest = std::move(others[1]);
            others.pop_back();
            Set t = s;
            (void)t;
            expect_valid(rest.get(), what);
        }
    }
};
static std::vector<Zoo> small_zoo(int level, size_t maxchunks) {
    std::vector<Zoo> z;
    size_t i = 0;
    for (auto &x : zoo(level, false))  // in the quick tier every 9th of the layouts over several keys
        if (x.cs.size() <= maxchunks && (level >= 2 || x.cs.size() < 2 || x.cs.size() > 4 || i++ % 9 == 0)) z.push_back(x);
    return z;
}
// ---- updates of the moved bitmap and of the emptied source
struct M {
    R64 *r;
    Set s;
};
static h64::Ops ops_for(const Set &s) {
    using namespace h64;
    uint64_t a = s.empty() ? 65536 : s.min(), b = s.empty() ? 65536 : s.max();
    uint64_t ca = a & ~65535ull, cb = b & ~65535ull, cw = std::min(cb, ca + (3u << 16));  // wide ranges end in the chunk at cw
    Ops o = {addc(a | 1), addc(ca + 40001), addc(cb + 65534), remc(a), remc(b), rem(ca + 40001), addrc(ca, ca + 65535), remrc(ca, ca + 65535), remrc(cb, cb + 65535),
             addrc(ca + 65000, cw + 65536 + 500), remrc(ca + 100, cw + 60000), flipc(ca, cw + 65535), flipc(b, b), flipc(ca + 5, ca + 9000), runopt(), shrink(), clear(),
             addm("around", {a, a + 1, cb + 3, cb + 65536, 1ull << 40, ca + 12345}), remm("around", {b, a, a + 1, cb + 3, ca + 12345}), add(5ull << 32),
             addm("every 16th", Set::step(ca, ca + 65535, 16).list()), remm("every 16th", Set::step(ca, ca + 65535, 16).list())};
    Set o1 = Set::range(ca, ca + 9).uni(Set{ca + 30000, cb + 65535, 1ull << 50}), o2 = Set::step(ca, ca + 65535, 3).uni(Set::range(cb + 2, cb + 5000)), o3 = Set::range(ca, cw + 65535);
    for (const char *w : {"or", "and", "xor", "andnot"}) {
        o.push_back(inpl(w, "few", o1, false));
        o.push_back(inpl(w, "many", o2, false));
        o.push_back(inpl(w, "all", o3, true));
    }
    auto bulk = [&](bool rem) {
        return Op{rem ? "remove_bulk" : "add_bulk", [=](R64 *r, Set &t) {
                      roaring64_bulk_context_t c = {};
                      for (uint64_t x : {a, a + 2, ca + 7, ca + 600, cb + 8, cb + 9, ca + 11, b}) {
                          if (rem) roaring64_bitmap_remove_bulk(r, &c, x), t.remove(x);
                          else roaring64_bitmap_add_bulk(r, &c, x), t.add(x);
                      }
                  }};
    };
    o.push_back(bulk(false));
    o.push_back(bulk(true));
    return o;
}
// results made from the moved bitmap, and read-only uses of it
static void derived(R64 *m, const Set &s) {
    auto &e = mc::E();
    RP64 c(roaring64_bitmap_copy(m));
    expect_set64(c.get(), s, "copy of the moved bitmap");
    expect_valid64(c.get(), "copy of the moved bitmap");
    Set o = s.empty() ? Set{1, 2, 70000} : Set::range(s.min() + 1, s.min() + 70000).uni(Set{s.max(), s.max() + (1ull << 32)});
    RP64 b(build64(o));
    struct {
        const char *n;
        R64 *(*f)(const R64 *, const R64 *);
        Set w, w2;
    } q[] = {{"or", roaring64_bitmap_or, s.uni(o), s.uni(o)},
             {"and", roaring64_bitmap_and, s.inter(o), s.inter(o)},
             {"xor", roaring64_bitmap_xor, s.xr(o), s.xr(o)},
             {"andnot", roaring64_bitmap_andnot, s.minus(o), o.minus(s)}};
    for (auto &x : q) {
        RP64 r(x.f(m, b.get())), r2(x.f(b.get(), m));
        expect_set64(r.get(), x.w, x.n);
        expect_valid64(r.get(), x.n);
        expect_set64(r2.get(), x.w2, x.n);
        expect_valid64(r2.get(), x.n);
        e.eval(2);
    }
    RP64 f(roaring64_bitmap_flip(m, 0, 1ull << 17));
    expect_set64(f.get(), s.xr(Set::range(0, (1ull << 17) - 1)), "flip");
    MC_CHECK(roaring64_bitmap_equals(m, c.get()) && roaring64_bitmap_is_subset(m, c.get()) && !roaring64_bitmap_is_strict_subset(m, c.get()), "equals");
    MC_CHECK(roaring64_bitmap_and_cardinality(m, b.get()) == s.inter(o).card() && roaring64_bitmap_intersect(b.get(), m) == !s.inter(o).empty(), "and_cardinality");
    // reading and writing
    std::string pb = ser_bytes64(m);
    RP64 p(roaring64_bitmap_portable_deserialize_safe(pb.data(), pb.size()));
    MC_CHECK(p && roaring64_bitmap_equals(p.get(), m), "serialized and read back");
    roaring64_bitmap_shrink_to_fit(m);
    size_t fs = roaring64_bitmap_frozen_size_in_bytes(m);
    char *w = nullptr;
    if (posix_memalign((void **)&w, 64, fs + 64)) abort();
    MC_CHECK(roaring64_bitmap_frozen_serialize(m, w) == fs, "frozen_serialize");
    RP64 v(roaring64_bitmap_frozen_view(w, fs));
    MC_CHECK(v && roaring64_bitmap_equals(v.get(), m), "frozen view");
    v.reset();
    free(w);
    e.eval(3);
    roaring64_iterator_t *it = roaring64_iterator_create(m);
    uint64_t n = 0, prev = 0;
    while (roaring64_iterator_has_value(it) && n < 300000) {
        uint64_t x = roaring64_iterator_value(it);
        MC_CHECK(s.has(x) && (!n || x > prev), "iterator at %llu", (ull)x);
        prev = x;
        n++;
        roaring64_iterator_advance(it);
    }
    MC_CHECK(n == s.card() || n == 300000, "iterator gave %llu values", (ull)n);
    roaring64_iterator_free(it);
    expect_set64(m, s, "moved bitmap after uses");
}
static void source_usable(R *r, const char *what) {
    expect_set(r, Set(), what);
    expect_valid(r, what);
    MC_CHECK(roaring_bitmap_is_empty(r) && !roaring_bitmap_contains(r, 0) && roaring_bitmap_portable_size_in_bytes(r) == 8, "%s: not empty", what);
    RP c(roaring_bitmap_copy(r));
    expect_set(c.get(), Set(), what);
    Set t;
    for (uint32_t x : {0u, 65536u, 70000u, 0xFFFFFFFFu, 1u, 70000u}) {
        MC_CHECK(roaring_bitmap_add_checked(r, x) == !t.has(x), "%s: add_checked", what);
        t.add(x);
    }
    roaring_bitmap_add_range(r, 3u << 16, 5u << 16);
    t = t.uni(Set::range(3u << 16, (5u << 16) - 1));
    expect_set(r, t, what);
    expect_valid(r, what);
    roaring_bitmap_remove_range(r, 0, 70000);
    t.remove_range(0, 69999);
    RP d(roaring_bitmap_copy(r));
    expect_set(d.get(), t, what);
    roaring_bitmap_or_inplace(c.get(), r);
    expect_set(c.get(), t, what);
    mc::E().eval(6);
}
static void moves() {
    auto &e = mc::E();
    static auto z = small_zoo(e.thorough ? 2 : 1, 100);
    e.parallel("move", z.size() * OWNERS, [&](uint64_t q) {
        const Zoo &zz = z[q / OWNERS];
        int how = (int)(q % OWNERS);
        if (!e.thorough && zz.cs.size() > 1 && (q / OWNERS + (uint64_t)how) % 2) return;
        for (int when = 0; when < (e.thorough ? 2 : 1); when++) {
            LeakScope ls;
            {
                std::string nm = zz.name + " " + owner_name[how];
                e.detail("%s", nm.c_str());
                Src a(zz.cs, how, zz.slack);
                RP64 m(roaring64_bitmap_move_from_roaring32(a.r));
                expect_set64(m.get(), a.s, "moved bitmap");
                expect_valid64(m.get(), "moved bitmap");
                a.others_same("bitmap sharing chunks with the moved one");
                source_usable(a.r, "source of a move");
                if (when) a.others.clear();
                bool big = a.s.v.size() > 3000;
                check_queries64(m.get(), a.s, e.thorough ? 5 : big ? 1 : 2, !big);
                derived(m.get(), a.s);
                a.others_same("bitmap sharing chunks with the moved one");
                // and back once more: the source can be moved again
                Set again = to_set(a.r);
                RP64 m2(roaring64_bitmap_move_from_roaring32(a.r));
                expect_set64(m2.get(), again, "second move");
                expect_set(a.r, Set(), "source of a second move");
                roaring64_bitmap_or_inplace(m.get(), m2.get());
                expect_set64(m.get(), a.s.uni(again), "union of two moved bitmaps");
                m2.reset();
                m.reset();
                a.others_same("bitmap sharing chunks with the freed one");
                a.others_usable("bitmap sharing chunks with the freed one");
            }
            ls.check("move");
        }
    });
    e.parallel("move-update", z.size() * OWNERS, [&](uint64_t q) {
        const Zoo &zz = z[q / OWNERS];
        int how = (int)(q % OWNERS);
        if (!e.thorough && (zz.cs.size() > 1 ? (q / OWNERS + (uint64_t)how) % 3 : how == COPY || how == THREE)) return;
        Set s0;
        {
            Src a(zz.cs, how, zz.slack);
            s0 = a.s;
        }
        if (!e.thorough && s0.v.size() > 1000 && how != PLAIN && how != SHARED && how != SHARED_ALONE) return;
        auto ops = ops_for(s0);
        for (size_t i = 0; i < ops.size(); i++) {
            if (!e.thorough && (i + q) % (s0.v.size() > 1500 ? 6 : s0.v.size() > 100 ? 3 : 1)) continue;
            LeakScope ls;
            {
                e.detail("%s %s: %s", zz.name.c_str(), owner_name[how], ops[i].name.c_str());
                Src a(zz.cs, how, zz.slack);
                RP64 m(roaring64_bitmap_move_from_roaring32(a.r));
                bool late = i % 2;
                if (!late) roaring_bitmap_free(a.r), a.r = nullptr;
                Set s = a.s;
                ops[i].f(m.get(), s);
                expect_set64(m.get(), s, ops[i].name.c_str());
                expect_valid64(m.get(), ops[i].name.c_str());
                a.others_same("bitmap sharing chunks with the moved and updated one");
                if (late) expect_set(a.r, Set(), "source of the moved and updated bitmap");
                if (i % 3 == 0) a.others.clear();
                else a.others_usable("bitmap sharing chunks with the moved and updated one");
                expect_set64(m.get(), s, "after updating the bitmap that shared chunks");
                e.eval();
                e.outcome(mc::hash64(s.card() * 31 + i));
            }
            ls.check(ops[i].name.c_str());
        }
    });
    // two updates in a row
    static std::vector<size_t> pick;
    for (size_t i = 0; i < z.size(); i++)
        if (i % (e.thorough ? 9 : 37) == 1 && chunks_set(z[i].cs).v.size() < (e.thorough ? 1500u : 300u)) pick.push_back(i);
    e.parallel("move-update-twice", pick.size() * OWNERS * 40, [&](uint64_t q) {
        const Zoo &zz = z[pick[q / 40 / OWNERS]];
        int how = (int)(q / 40 % OWNERS);
        size_t i = (size_t)(q % 40);
        Set s0;
        {
            Src a(zz.cs, how, zz.slack);
            s0 = a.s;
        }
        auto ops = ops_for(s0);
        if (i >= ops.size()) return;
        for (size_t j = 0; j < ops.size(); j++) {
            if (!e.thorough && (i + j) % (how == SHARED || how == SHARED_ALONE ? 2 : 8)) continue;
            LeakScope ls;
            {
                e.detail("%s %s: %s %s", zz.name.c_str(), owner_name[how], ops[i].name.c_str(), ops[j].name.c_str());
                Src a(zz.cs, how, zz.slack);
                RP64 m(roaring64_bitmap_move_from_roaring32(a.r));
                Set s = a.s;
                ops[i].f(m.get(), s);
                ops[j].f(m.get(), s);
                expect_set64(m.get(), s, ops[j].name.c_str());
                expect_valid64(m.get(), ops[j].name.c_str());
                a.others_same("bitmap sharing chunks with the moved and updated one");
                m.reset();
                a.others_usable("bitmap sharing chunks with the freed one");
                e.eval();
            }
            ls.check("two updates");
        }
    });
}
// ---- the C++ classes
static Set map_set(const RM &m, const char *what) {
    uint64_t n = m.cardinality();
    std::vector<uint64_t> v(n + 1, 77);
    m.toUint64Array(v.data());
    MC_CHECK(v[n] == 77, "%s: toUint64Array wrote too much", what);
    Set s;
    for (uint64_t i = 0; i < n; i++) {
        MC_CHECK(!i || v[i] > v[i - 1], "%s: toUint64Array not increasing", what);
        if (!s.v.empty() && s.v.back().b + 1 == v[i]) s.v.back().b = v[i];
        else s.v.push_back({v[i], v[i]});
    }
    return s;
}
static void map_is(const RM &m, const Set &w, const char *what) {
    MC_CHECK(m.cardinality() == w.card(), "%s: cardinality %llu, expected %llu", what, (ull)m.cardinality(), (ull)w.card());
    Set g = map_set(m, what);
    if (g != w) mc::fail("%s: %s", what, diff_str(g, w).c_str());
    mc::E().eval();
}
static void rr_is(const RR &r, const Set &w, const char *what) {
    expect_set(&r.roaring, w, what);
    expect_valid(&r.roaring, what);
    mc::E().eval();
}
static void classes() {
    auto &e = mc::E();
    static auto z = small_zoo(e.thorough ? 2 : 1, 20);
    e.parallel("classes", z.size() * OWNERS, [&](uint64_t q) {
        const Zoo &zz = z[q / OWNERS];
        int how = (int)(q % OWNERS);
        if (!e.thorough && (q / OWNERS + (uint64_t)how) % (zz.cs.size() > 1 ? 7 : 2)) return;
        LeakScope ls;
        {
            e.detail("%s %s", zz.name.c_str(), owner_name[how]);
            Src a(zz.cs, how, zz.slack);
            Set s = a.s, extra = Set{3, 65536 * 2 + 5, 0xFFFFFFFF};
            bool cow = roaring_bitmap_get_copy_on_write(a.r);
            auto change = [&](auto &x, Set w, const char *what, auto is) {
                extra.each([&](uint64_t y) { x.add((uint32_t)y); });
                x.remove((uint32_t)(s.empty() ? 9 : s.min()));
                w = w.uni(extra).minus(Set{s.empty() ? 9 : s.min()});
                x.runOptimize();
                x.shrinkToFit();
                is(x, w, what);
                a.others_same(what);
            };
            RR r(a.r);
            a.r = nullptr;
            rr_is(r, s, "Roaring taking over a bitmap");
            a.others_same("Roaring taking over a bitmap");
            RM viacopy(r);
            map_is(viacopy, s, "Roaring64Map from a Roaring");
            rr_is(r, s, "Roaring a Roaring64Map was made from");
            RR copy(r);
            rr_is(copy, s, "Roaring copy");
            MC_CHECK(copy.getCopyOnWrite() == cow, "copy-on-write setting of a copy");
            change(viacopy, s, "Roaring64Map made from a Roaring, changed", map_is);
            rr_is(r, s, "Roaring after changing the Roaring64Map made from it");
            change(copy, s, "Roaring copy, changed", rr_is);
            rr_is(r, s, "Roaring after changing its copy");
            RR moved(std::move(copy));
            rr_is(copy, Set(), "moved-from Roaring");
            RR keep(r);
            RM viamove(std::move(r));
            map_is(viamove, s, "Roaring64Map moved from a Roaring");
            rr_is(r, Set(), "Roaring moved into a Roaring64Map");
            r.add(5u);
            rr_is(r, Set{5}, "Roaring moved into a Roaring64Map, used again");
            change(viamove, s, "Roaring64Map moved from a Roaring, changed", map_is);
            rr_is(keep, s, "Roaring after changing a moved copy");
            RM taken(roaring_bitmap_copy(&keep.roaring));
            map_is(taken, s, "Roaring64Map taking over a bitmap");
            change(taken, s, "Roaring64Map taking over a bitmap, changed", map_is);
            rr_is(keep, s, "Roaring after changing a map of its copy");
            a.others_usable("bitmap sharing chunks");
            rr_is(keep, s, "Roaring after changing a bitmap it shared with");
        }
        ls.check("classes");
    });
}
// ---- text
static void texts() {
    auto &e = mc::E();
    static auto z = small_zoo(e.thorough ? 2 : 1, 20);
    e.parallel("text", z.size() * 3, [&](uint64_t q) {
        static const int hows[3] = {PLAIN, SHARED, PARTLY};
        const Zoo &zz = z[q / 3];
        int how = hows[q % 3];
        if (!e.thorough && q % 3 && (q / 3) % 2) return;
        LeakScope ls;
        {
            e.detail("%s %s", zz.name.c_str(), owner_name[how]);
            Src a(zz.cs, how, zz.slack);
            if (a.s.card() > (e.thorough ? 100000u : 20000u) && q % 5) return;
            std::string w = text(a.s);
            text_is(printed([&] { roaring_bitmap_printf(a.r); }), w, "roaring_bitmap_printf");
            RR r(roaring_bitmap_copy(a.r));
            text_is(r.toString(), w, "Roaring::toString");
            text_is(printed([&] { r.printf(); }), w, "Roaring::printf");
            RM m(r);
            text_is(m.toString(), w, "Roaring64Map::toString");
            text_is(printed([&] { m.printf(); }), w + "\n", "Roaring64Map::printf");
            // the description names every chunk with its key and cardinality
            std::string d = printed([&] { roaring_bitmap_printf_describe(a.r); });
            size_t at = 0;
            for (auto &c : split32(a.s, rep_natural)) {
                std::string k = std::to_string(c.key) + ": ", n = "(" + std::to_string(c.s.card()) + ")";
                size_t i = d.find(k, at), j = i == std::string::npos ? i : d.find(n, i);
                MC_CHECK(j != std::string::npos, "printf_describe: chunk %u of %llu values missing in %s", c.key, (ull)c.s.card(), d.substr(0, 200).c_str());
                at = j;
            }
            a.others_same("printing");
            expect_set(a.r, a.s, "printing");
            e.eval();
        }
        ls.check("text");
    });
    static auto z6 = zoo64(1);
    e.parallel("text64", z6.size(), [&](uint64_t q) {
        if (z6[q].s.card() > 3000 || (!e.thorough && q % 3)) return;
        e.detail("%s", z6[q].name.c_str());
        auto v = z6[q].s.list();
        RM m(v.size(), v.data());
        std::string w = text(z6[q].s);
        text_is(m.toString(), w, "Roaring64Map::toString");
        text_is(printed([&] { m.printf(); }), w + "\n", "Roaring64Map::printf");
    });
}
// ---- arrays, lists, bitsets
// orders in which the values of a set are given
enum { UP, DOWN, TWICE, AGAIN, CHUNKS, ZIGZAG, ORDERS };
static const char *order_name[] = {"ascending", "descending", "every value twice", "all values twice over", "one chunk after the other in turn", "from both ends"};
template <class T>
static std::vector<T> ordered(const std::vector<uint64_t> &v, int o) {
    std::vector<T> w;
    size_t n = v.size();
    if (o == UP || o == AGAIN) w.assign(v.begin(), v.end());
    if (o == AGAIN) w.insert(w.end(), v.begin(), v.end());
    if (o == DOWN) w.assign(v.rbegin(), v.rend());
    if (o == TWICE)
        for (auto x : v) w.push_back((T)x), w.push_back((T)x);
    if (o == CHUNKS) {
        std::vector<std::pair<size_t, size_t>> g;  // positions of the chunks
        for (size_t i = 0; i < n; i++)
            if (!i || v[i] >> 16 != v[i - 1] >> 16) g.push_back({i, i + 1});
            else g.back().second = i + 1;
        for (bool any = true; any;) {
            any = false;
            for (auto &x : g)
                if (x.first < x.second) w.push_back((T)v[x.first++]), any = true;
        }
    }
    if (o == ZIGZAG)
        for (size_t i = 0; i < n; i++) w.push_back((T)v[i % 2 ? n - 1 - i / 2 : i / 2]);
    return w;
}
static void lists() {
    auto &e = mc::E();
    static auto z = small_zoo(e.thorough ? 2 : 1, 20);
    e.parallel("lists", z.size() * ORDERS, [&](uint64_t q) {
        const Zoo &zz = z[q / ORDERS];
        int o = (int)(q % ORDERS);
        if (zz.slack || (!e.thorough && o != UP && (q / ORDERS + (uint64_t)o) % 4)) return;
        Set s = chunks_set(zz.cs);
        if (s.card() > 70000 && !e.thorough) return;
        e.detail("%s %s", zz.name.c_str(), order_name[o]);
        LeakScope ls;
        {
            auto v = ordered<uint32_t>(s.list(), o);
            std::unique_ptr<uint32_t[]> x(new uint32_t[v.size()]);  // exactly as long as the list
            std::copy(v.begin(), v.end(), x.get());
            RP r(roaring_bitmap_of_ptr(v.size(), x.get()));
            expect_set(r.get(), s, "roaring_bitmap_of_ptr");
            expect_valid(r.get(), "roaring_bitmap_of_ptr");
            rr_is(RR(v.size(), x.get()), s, "Roaring(n, values)");
            map_is(RM(v.size(), x.get()), s, "Roaring64Map(n, 32-bit values)");
            auto v6 = ordered<uint64_t>(s.list(), o);
            RP64 r6(roaring64_bitmap_of_ptr(v6.size(), v6.data()));
            expect_set64(r6.get(), s, "roaring64_bitmap_of_ptr");
            expect_valid64(r6.get(), "roaring64_bitmap_of_ptr");
            // there and back
            std::unique_ptr<uint32_t[]> y(new uint32_t[s.card()]);
            roaring_bitmap_to_uint32_array(r.get(), y.get());
            MC_CHECK(std::vector<uint64_t>(y.get(), y.get() + s.card()) == s.list(), "to_uint32_array");
            std::unique_ptr<uint64_t[]> y6(new uint64_t[s.card()]);
            roaring64_bitmap_to_uint64_array(r6.get(), y6.get());
            MC_CHECK(std::vector<uint64_t>(y6.get(), y6.get() + s.card()) == s.list(), "to_uint64_array");
            e.eval(4);
        }
        ls.check("lists");
    });
    static auto z6 = zoo64(e.thorough ? 2 : 1);
    e.parallel("lists64", z6.size() * ORDERS, [&](uint64_t q) {
        const Zoo64 &zz = z6[q / ORDERS];
        int o = (int)(q % ORDERS);
        if (!e.thorough && o != UP && (q / ORDERS + (uint64_t)o) % 5) return;
        if (zz.s.card() > 70000 && !(e.thorough && zz.s.card() < 300000)) return;
        e.detail("%s %s", zz.name.c_str(), order_name[o]);
        LeakScope ls;
        {
            auto v = ordered<uint64_t>(zz.s.list(), o);
            std::unique_ptr<uint64_t[]> x(new uint64_t[v.size()]);
            std::copy(v.begin(), v.end(), x.get());
            RP64 r(roaring64_bitmap_of_ptr(v.size(), x.get()));
            expect_set64(r.get(), zz.s, "roaring64_bitmap_of_ptr");
            expect_valid64(r.get(), "roaring64_bitmap_of_ptr");
            map_is(RM(v.size(), x.get()), zz.s, "Roaring64Map(n, values)");
            RP64 r2(zoo64_build(zz));
            std::unique_ptr<uint64_t[]> y(new uint64_t[zz.s.card()]);
            roaring64_bitmap_to_uint64_array(r2.get(), y.get());
            MC_CHECK(std::vector<uint64_t>(y.get(), y.get() + zz.s.card()) == zz.s.list(), "to_uint64_array");
            e.eval(3);
        }
        ls.check("lists64");
    });
    // argument lists: every one over few values and up to four places
    static const uint64_t P[] = {0, 1, 65535, 65536, 0x7FFFFFFF, 0xFFFFFFFF};
    e.parallel("arguments", 6 * 6 * 6 * 6, [&](uint64_t q) {
        uint32_t v[4];
        uint64_t w[4];
        static const uint64_t hi[6] = {0, 1ull << 32, 0, 0xFFFFFFFFull << 32, 0x7FFFFFFFull << 32, 0};
        uint64_t c = q;
        Set all, all6;
        for (int j = 0; j < 4; j++, c /= 6) {
            v[j] = (uint32_t)P[c % 6];
            w[j] = P[c % 6] | hi[(c + j) % 6];
            all.add(v[j]);
            all6.add(w[j]);
        }
        e.detail("%u %u %u %u", v[0], v[1], v[2], v[3]);
        LeakScope ls;
        {
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
            Set s1{v[0]}, s2{v[0], v[1]}, s3{v[0], v[1], v[2]};
            auto is = [&](R *r, const Set &s, const char *what) {
                RP h(r);
                expect_set(r, s, what);
                expect_valid(r, what);
                e.eval();
            };
            is(roaring_bitmap_of(1, v[0]), s1, "roaring_bitmap_of");
            is(roaring_bitmap_of(2, v[0], v[1]), s2, "roaring_bitmap_of");
            is(roaring_bitmap_of(3, v[0], v[1], v[2]), s3, "roaring_bitmap_of");
            is(roaring_bitmap_of(4, v[0], v[1], v[2], v[3]), all, "roaring_bitmap_of");
            is(roaring_bitmap_from(v[0]), s1, "roaring_bitmap_from");
            is(roaring_bitmap_from(v[0], v[1], v[2], v[3]), all, "roaring_bitmap_from");
            auto is6 = [&](R64 *r, const Set &s, const char *what) {
                RP64 h(r);
                expect_set64(r, s, what);
                expect_valid64(r, what);
                e.eval();
            };
            Set t1{w[0]}, t2{w[0], w[1]}, t3{w[0], w[1], w[2]};
            is6(roaring64_bitmap_from(w[0]), t1, "roaring64_bitmap_from");
            is6(roaring64_bitmap_from(w[0], w[1], w[2], w[3]), all6, "roaring64_bitmap_from");
            rr_is(RR::bitmapOf(4, v[0], v[1], v[2], v[3]), all, "Roaring::bitmapOf");
            rr_is(RR::bitmapOf(0), Set(), "Roaring::bitmapOf");
            rr_is(RR{v[0], v[1], v[2]}, s3, "Roaring from an initializer list");
            rr_is(RR::bitmapOfList({v[0], v[1], v[2], v[3]}), all, "Roaring::bitmapOfList");
            RR a{7u, 70000u};
            a = {v[0], v[1]};
            rr_is(a, s2, "Roaring = list");
            map_is(RM::bitmapOf(4, w[0], w[1], w[2], w[3]), all6, "Roaring64Map::bitmapOf");
            map_is(RM{w[0], w[1], w[2]}, t3, "Roaring64Map from an initializer list");
            map_is(RM::bitmapOfList({w[0], w[1], w[2], w[3]}), all6, "Roaring64Map::bitmapOfList");
            RM b{7ull, 1ull << 50};
            b = {w[0], w[1]};
            map_is(b, t2, "Roaring64Map = list");
#pragma GCC diagnostic pop
        }
        ls.check("arguments");
    });
    e.parallel("bitset", z.size() * OWNERS, [&](uint64_t q) {
        const Zoo &zz = z[q / OWNERS];
        int how = (int)(q % OWNERS);
        if (!zz.cs.empty() && zz.cs.back().key > 1000 && !(zz.cs.size() == 1 && q / OWNERS % 20 == 1 && how == PLAIN)) return;
        if (!e.thorough && (q / OWNERS + (uint64_t)how) % 2) return;
        LeakScope ls;
        {
            e.detail("%s %s", zz.name.c_str(), owner_name[how]);
            Src a(zz.cs, how, zz.slack);
            size_t need = a.s.empty() ? 0 : a.s.max() / 64 + 1;
            for (int pre = 0; pre < (need > 100000 ? 1 : 5); pre++) {
                bitset_t *b = pre ? bitset_create_with_capacity(pre == 1 ? 64 : pre == 2 ? need * 64 : pre == 3 ? need * 64 + 6400 : 200000) : bitset_create();
                if (pre == 4) {  // had contents, then cleared
                    for (size_t i = 0; i < 200000; i += 3) bitset_set(b, i);
                    bitset_clear(b);
                }
                MC_CHECK(roaring_bitmap_to_bitset(a.r, b), "to_bitset failed");
                size_t n = bitset_size_in_words(b);
                MC_CHECK(n >= need, "to_bitset: %zu words, %zu are needed", n, need);
                Set g;
                for (size_t i = 0; i < n; i++) {
                    uint64_t x = b->array[i];
                    while (x) {
                        uint64_t k = i * 64 + (uint64_t)__builtin_ctzll(x);
                        if (!g.v.empty() && g.v.back().b + 1 == k) g.v.back().b = k;
                        else g.v.push_back({k, k});
                        x &= x - 1;
                    }
                }
                if (g != a.s) mc::fail("to_bitset (target %d): %s", pre, diff_str(g, a.s).c_str());
                MC_CHECK(bitset_count(b) == a.s.card(), "to_bitset: count");
                bitset_free(b);
                e.eval();
            }
            expect_set(a.r, a.s, "to_bitset");
            a.others_same("to_bitset");
        }
        ls.check("to_bitset");
    });
}
// rows of 24 and of 300 chunks: moved to 64 bits, to a bitset, to and from lists, in every ownership state
static void row_conversions() {
    auto &e = mc::E();
    for (int w = 0; w < 2; w++) {
        rows::Rows rw{w == 1};
        auto pts = rw.points();
        e.parallel(rw.name(), pts.size() * OWNERS * 2, [=](uint64_t q) {
            auto &e = mc::E();
            int how = (int)(q % OWNERS), v = (int)(q / OWNERS % 2), p = pts[q / OWNERS / 2];
            if (!e.thorough && rw.wide && how > SHARED) return;
            Chunks cs = rw.row(v, v ? 0 : 5, v ? 1 : 3);
            if (p) cs.erase(cs.begin() + p);
            e.detail("%d chunks without number %d, %s", (int)cs.size(), p, owner_name[how]);
            LeakScope ls;
            {
                Src a(cs, how);
                bitset_t *b = bitset_create();
                MC_CHECK(roaring_bitmap_to_bitset(a.r, b), "to_bitset failed");
                Set g;
                for (size_t i = 0; i < bitset_size_in_words(b); i++)
                    for (uint64_t x = b->array[i]; x; x &= x - 1) {
                        uint64_t k = i * 64 + (uint64_t)__builtin_ctzll(x);
                        if (!g.v.empty() && g.v.back().b + 1 == k) g.v.back().b = k;
                        else g.v.push_back({k, k});
                    }
                bitset_free(b);
                if (g != a.s) mc::fail("to_bitset: %s", diff_str(g, a.s).c_str());
                if (how < SHARED) {
                    std::unique_ptr<uint32_t[]> y(new uint32_t[a.s.card()]);
                    roaring_bitmap_to_uint32_array(a.r, y.get());
                    std::vector<uint64_t> l = a.s.list();
                    MC_CHECK(std::equal(l.begin(), l.end(), y.get()), "to_uint32_array");
                    if (how == PLAIN) {
                        RP o(roaring_bitmap_of_ptr(l.size(), y.get()));
                        expect_set(o.get(), a.s, "roaring_bitmap_of_ptr");
                        RR cc(roaring_bitmap_copy(a.r));
                        map_is(RM(cc), a.s, "Roaring64Map of a row");
                        rr_is(cc, a.s, "Roaring of a row");
                    }
                }
                RP64 m(roaring64_bitmap_move_from_roaring32(a.r));
                expect_set64(m.get(), a.s, "moved row");
                expect_valid64(m.get(), "moved row");
                if (how == PLAIN) {
                    std::unique_ptr<uint64_t[]> y(new uint64_t[a.s.card()]);
                    roaring64_bitmap_to_uint64_array(m.get(), y.get());
                    std::vector<uint64_t> l = a.s.list();
                    MC_CHECK(std::equal(l.begin(), l.end(), y.get()), "to_uint64_array");
                }
                a.others_same("bitmap sharing chunks with the moved one");
                source_usable(a.r, "source of a move");
                Set s = a.s;
                uint64_t x = (uint64_t)cs[cs.size() / 2].key << 16;
                roaring64_bitmap_flip_closed_inplace(m.get(), x + 100, x + (5u << 16));
                s = s.flip(x + 100, x + (5u << 16));
                expect_set64(m.get(), s, "moved row after a flip");
                expect_valid64(m.get(), "moved row after a flip");
                a.others_same("bitmap sharing chunks with the moved one");
                m.reset();
                a.others_usable("bitmap sharing chunks with the freed one");
                e.eval(6);
            }
            ls.check("conversions of a row");
        }, nullptr, 1);
    }
}
int main(int argc, char **argv) {
    auto &e = mc::E();
    e.init(argc, argv, "C27");
    hk::install();
    moves();
    classes();
    texts();
    lists();
    row_conversions();
    e.rule = "every catalogue bitmap in every ownership state is converted every way; both ends are then read completely, updated with every "
             "listed operation (and pairs of them for some) and freed, while bitmaps that shared chunks are watched";
    return e.finish();
}
