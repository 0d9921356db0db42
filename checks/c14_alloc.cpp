// C14: every allocation of a call fails, once or from there on; the call reports it and nothing is broken.
#include "queries32.hpp"
#include "zoo.hpp"
extern "C" {
#include <roaring/bitset/bitset.h>
}
typedef unsigned long long ull;
static std::string bytes(const R *r) {
    std::string b(roaring_bitmap_portable_size_in_bytes(r), '\0');
    roaring_bitmap_portable_serialize(r, &b[0]);
    return b;
}
// calls run(k, forever) for "no failure" (k = -1), then for every allocation point of the call
template <class F>
static void every_point(const char *what, F run) {
    uint64_t n = 0;
    {
        LeakScope ls;
        n = run((int64_t)-1, false);
        ls.check(what);
    }
    for (uint64_t k = 0; k < n; k++)
        for (int fe = 0; fe < 2; fe++) {
            if (fe && k + 1 == n) break;  // the same as failing once
            mc::E().detail("%s, allocation %llu of %llu fails%s", what, (ull)(k + 1), (ull)n, fe ? " and so does every later one" : "");
            LeakScope ls;
            run((int64_t)k, fe != 0);
            MC_CHECK(!hk::S.armed, "harness: still armed");
            ls.check(what);
            mc::E().eval();
            mc::E().outcome(mc::hash64(k * 2 + fe + n * 1000));
        }
}
// the number of allocations made and whether one failed
struct Point {
    uint64_t calls = 0, failed = 0;
    template <class F>
    void during(int64_t k, bool forever, F f) {
        hk::arm(k, forever);
        f();
        calls = hk::S.calls;
        failed = hk::S.failed;
        hk::disarm();
    }
};
// the bitmap may be used like any other: S are its present contents
static void usable(R *r, Set s, const char *what) {
    const char *why = nullptr;
    MC_CHECK(roaring_bitmap_internal_validate(r, &why), "%s: internal validation fails: %s", what, why ? why : "?");
    expect_set(r, s, what);
    for (uint32_t x : {3u, 70000u, 0xFFFFFFFFu}) {
        MC_CHECK(roaring_bitmap_add_checked(r, x) == !s.has(x), "%s: add_checked(%u)", what, x);
        s.add(x);
    }
    roaring_bitmap_remove_range(r, 5, 300);
    s.remove_range(5, 299);
    expect_set(r, s, what);
    roaring_bitmap_run_optimize(r);
    RP c(roaring_bitmap_copy(r));
    expect_set(c.get(), s, what);
}
struct In {
    RP r, sharer;
    Set s;
    std::string b;
    In(const Zoo &z) {
        r.reset(zoo_build(z, sharer));
        s = chunks_set(z.cs);
        b = bytes(r.get());
    }
    void same(const char *what) {
        if (bytes(r.get()) != b) mc::fail("%s changed its input: %s", what, diff_str(to_set(r.get()), s).c_str());
        if (sharer) MC_CHECK(bytes(sharer.get()) == b, "%s changed the bitmap sharing storage with its input", what);
    }
    void end(const char *what) {
        same(what);
        usable(r.get(), s, what);
        if (sharer) usable(sharer.get(), s, what);
    }
};
static void bitmaps() {
    auto &e = mc::E();
    static std::vector<Zoo> z;
    {
        auto all = zoo(e.thorough ? 2 : 1);
        for (size_t i = 0; i < all.size(); i++) {
            size_t n = all[i].cs.size();
            if (n > 20 || (all[i].slack && !e.thorough && i % 3)) continue;
            if (e.thorough || n <= 1 || i % 4 == 0) z.push_back(all[i]);
        }
    }
    e.parallel("create", 12, [&](uint64_t i) {
        static const uint32_t caps[] = {0, 1, 2, 4, 5, 100, 1000, 65535, 65536, 65537, 1u << 20, 0xFFFFFFFFu};
        std::string n = mc::strf("create_with_capacity(%u)", caps[i]);
        every_point(n.c_str(), [&](int64_t k, bool fe) {
            R *r = nullptr;
            Point p;
            p.during(k, fe, [&] { r = caps[i] ? roaring_bitmap_create_with_capacity(caps[i]) : roaring_bitmap_create(); });
            MC_CHECK(!!r == !p.failed, "%s", p.failed ? "succeeded although an allocation failed" : "failed");
            if (r) usable(r, Set(), n.c_str());
            roaring_bitmap_free(r);
            return p.calls;
        });
        if (caps[i]) {
            R r;
            bool ok = true;
            Point p;
            p.during(0, true, [&] { ok = roaring_bitmap_init_with_capacity(&r, caps[i]); });
            MC_CHECK(!ok && p.failed, "init_with_capacity reports success without memory");
            usable(&r, Set(), "a bitmap whose initialization failed");
            roaring_bitmap_clear(&r);
        }
    });
    e.parallel("copy", z.size() * 3, [&](uint64_t q) {
        const Zoo &zz = z[q / 3];
        int how = (int)(q % 3);  // plain or as the catalogue says; copy-on-write set but not shared; the copy's copy
        std::string n = zz.name + (how == 0 ? ": copy" : how == 1 ? ": copy-on-write, copy" : ": copy-on-write, copied, copy");
        every_point(n.c_str(), [&](int64_t k, bool fe) {
            In a(zz);
            RP c0;
            if (how) roaring_bitmap_set_copy_on_write(a.r.get(), true);
            if (how == 2) {
                c0.reset(roaring_bitmap_copy(a.r.get()));
                std::swap(a.r, c0);
            }
            R *c = nullptr;
            Point p;
            p.during(k, fe, [&] { c = roaring_bitmap_copy(a.r.get()); });
            if (!p.failed) MC_CHECK(c, "copy returned NULL although nothing failed");
            RP h(c);
            a.same("copy");
            if (c) {
                MC_CHECK(roaring_bitmap_equals(c, a.r.get()), "copy differs");
                usable(c, a.s, "copy");
            }
            a.same("using the copy");
            a.end("copy");
            return p.calls;
        });
    });
    // every pair of a source and a destination
    static std::vector<size_t> ds;
    for (size_t i = 0; i < z.size(); i++)
        if (z[i].cs.empty() || (z[i].cs.size() > 1 && ds.size() < (e.thorough ? 16 : 7) && i % 5 == 0) || i % (e.thorough ? 29 : 61) == 0) ds.push_back(i);
    static const size_t D = e.thorough ? ds.size() : 3;  // destinations per source
    e.parallel("overwrite", z.size() * D, [&](uint64_t q) {
        const Zoo &zs = z[q / D], &zd = z[ds[(q / D * 7 + q % D * 5) % ds.size()]];
        for (int how = 0; how < 3; how++) {
            if (how && (q + how) % 2 && !e.thorough) continue;
            std::string n = zs.name + " over " + zd.name + (how ? mc::strf(" copy-on-write %d", how) : "");
            every_point(n.c_str(), [&](int64_t k, bool fe) {
                In a(zs), d(zd);
                RP c0;
                if (how) roaring_bitmap_set_copy_on_write(a.r.get(), true);
                if (how == 2) c0.reset(roaring_bitmap_copy(a.r.get()));
                bool ok = false;
                Point p;
                p.during(k, fe, [&] { ok = roaring_bitmap_overwrite(d.r.get(), a.r.get()); });
                if (!p.failed) MC_CHECK(ok, "overwrite failed although every allocation succeeded");
                a.same("overwrite");
                if (d.sharer) MC_CHECK(bytes(d.sharer.get()) == d.b, "overwrite changed the bitmap sharing storage with the destination");
                const char *why = nullptr;
                MC_CHECK(roaring_bitmap_internal_validate(d.r.get(), &why), "destination of %s overwrite: internal validation fails: %s", ok ? "an" : "a failed", why ? why : "?");
                if (ok) usable(d.r.get(), a.s, "overwritten bitmap");
                else usable(d.r.get(), to_set(d.r.get()), "destination of a failed overwrite");
                // and it can be overwritten again
                MC_CHECK(roaring_bitmap_overwrite(d.r.get(), a.r.get()), "second overwrite");
                usable(d.r.get(), a.s, "second overwrite");
                a.end("overwrite");
                return p.calls;
            });
        }
    });
    e.parallel("readers", z.size(), [&](uint64_t q) {
        const Zoo &zz = z[q];
        Set S = chunks_set(zz.cs);
        std::string pb, nb, fb;
        {
            In a(zz);
            pb = a.b;
            nb.resize(roaring_bitmap_size_in_bytes(a.r.get()));
            roaring_bitmap_serialize(a.r.get(), &nb[0]);
            fb.resize(roaring_bitmap_frozen_size_in_bytes(a.r.get()));
            char *w = nullptr;
            if (posix_memalign((void **)&w, 32, fb.size() + 1)) abort();
            roaring_bitmap_frozen_serialize(a.r.get(), w);
            memcpy(&fb[0], w, fb.size());
            free(w);
        }
        std::vector<std::pair<const char *, std::function<R *(const char *)>>> rd = {
            {"portable_deserialize", [&](const char *) { return roaring_bitmap_portable_deserialize(pb.data()); }},
            {"portable_deserialize_safe", [&](const char *) { return roaring_bitmap_portable_deserialize_safe(pb.data(), pb.size()); }},
            {"portable_deserialize_frozen", [&](const char *w) { return roaring_bitmap_portable_deserialize_frozen(w); }},
            {"frozen_view", [&](const char *w) { return const_cast<R *>(roaring_bitmap_frozen_view(w, fb.size())); }},
        };
        if (nb[0] == 2) {
            rd.push_back({"deserialize", [&](const char *) { return roaring_bitmap_deserialize(nb.data()); }});
            rd.push_back({"deserialize_safe", [&](const char *) { return roaring_bitmap_deserialize_safe(nb.data(), nb.size()); }});
        }
        for (size_t i = 0; i < rd.size(); i++) {
            std::string n = zz.name + ": " + rd[i].first;
            const std::string &src = i == 2 ? pb : fb;
            char *w = nullptr;
            if (posix_memalign((void **)&w, 32, src.size() + 1)) abort();
            memcpy(w, src.data(), src.size());
            every_point(n.c_str(), [&](int64_t k, bool fe) {
                R *c = nullptr;
                Point p;
                p.during(k, fe, [&] { c = rd[i].second(w); });
                if (!p.failed) MC_CHECK(c, "%s refused the library's own bytes", rd[i].first);
                RP h(c);
                if (c) {
                    if (i == 2 || i == 3) {
                        expect_set(c, S, rd[i].first);
                        RP d(roaring_bitmap_copy(c));
                        usable(d.get(), S, rd[i].first);
                    } else
                        usable(c, S, rd[i].first);
                }
                return p.calls;
            });
            free(w);
        }
        every_point("iterators", [&](int64_t k, bool fe) {
            In a(zz);
            Point p;
            roaring_uint32_iterator_t *it = nullptr, *c = nullptr;
            p.during(k, fe, [&] {
                it = roaring_iterator_create(a.r.get());
                if (it) c = roaring_uint32_iterator_copy(it);
            });
            MC_CHECK((it && c) == !p.failed, "iterator creation: %d %d", !!it, !!c);
            for (auto *x : {it, c})
                if (x) {
                    MC_CHECK(x->has_value == !a.s.empty() && (a.s.empty() || x->current_value == a.s.min()), "iterator start");
                    roaring_uint32_iterator_free(x);
                }
            a.end("iterator creation");
            return p.calls;
        });
    });
}
// the native format's list form: it inserts value by value
static void native_list() {
    auto &e = mc::E();
    static const std::vector<std::pair<const char *, Set>> ls = {{"one value", Set{5}}, {"two chunks", Set{5, 65536}}, {"forty values", Set::step(0, 390, 10)}};
    e.parallel("native-list", ls.size() * 2 * 2 * 12, [&](uint64_t q) {
        auto &l = ls[q % 3];
        bool safe = q / 3 % 2, fe = q / 6 % 2;
        int64_t k = (int64_t)(q / 12);
        std::string b(1 + 4, '\1');
        uint32_t n = (uint32_t)l.second.card();
        memcpy(&b[1], &n, 4);
        l.second.each([&](uint64_t x) { put32(b, (uint32_t)x); });
        LeakScope sc;
        auto read = [&] { return safe ? roaring_bitmap_deserialize_safe(b.data(), b.size()) : roaring_bitmap_deserialize(b.data()); };
        if (!k && !fe) {
            R *c = read();
            MC_CHECK(c, "refused");
            usable(c, l.second, "list form");
            roaring_bitmap_free(c);
        }
        e.detail("native list of %s, %s, allocation %d fails%s", l.first, safe ? "deserialize_safe" : "deserialize", (int)k + 1, fe ? " and so does every later one" : "");
        R *c = nullptr;
        Point p;
        p.during(k, fe, [&] { c = read(); });
        e.detail("list form of %s was read, %s", l.first, p.failed ? "an allocation failed" : "no allocation failed");  // not the known crash
        if (!p.failed) MC_CHECK(c, "refused");
        if (c) usable(c, l.second, "native list");
        roaring_bitmap_free(c);
        sc.check("reading a native list");
        e.eval();
    });
}
// ---- bitsets
struct BS {
    bitset_t *b;
    std::vector<bool> m;
    BS(int v) {
        static const size_t cap[] = {0, 64, 130, 1000, 4096, 0, 320, 64};
        b = v == 5 ? bitset_create() : bitset_create_with_capacity(cap[v]);
        MC_CHECK(b, "bitset_create");
        if (v == 6) bitset_resize(b, 0, true);      // emptied, capacity left
        if (v == 7) bitset_resize(b, 3, true);      // grown
        for (size_t i = 0; i < bitset_size_in_bits(b); i++)
            if (i % 3 == 0 || i % 7 == 1) bitset_set(b, i);
        read();
    }
    ~BS() { bitset_free(b); }
    void read() {
        m.assign(bitset_size_in_bits(b), false);
        for (size_t i = 0; i < m.size(); i++) m[i] = bitset_get(b, i);
    }
    // same bits; an extension may add zero bits
    void same(const char *what, size_t bits) {
        MC_CHECK(bitset_size_in_bits(b) == bits, "%s: %zu bits, expected %zu", what, bitset_size_in_bits(b), bits);
        size_t n = 0;
        for (size_t i = 0; i < std::max(bits, m.size()); i++) {
            bool w = i < m.size() && i < bits && m[i];
            n += w;
            MC_CHECK(bitset_get(b, i) == w, "%s: bit %zu", what, i);
        }
        MC_CHECK(bitset_count(b) == n, "%s: count", what);
    }
    void usable(const char *what) {
        bitset_set(b, 7777);
        MC_CHECK(bitset_get(b, 7777), "%s: cannot be used", what);
        bitset_set_to_value(b, 7777, false);
        bitset_t *c = bitset_copy(b);
        MC_CHECK(c && bitset_count(c) == bitset_count(b), "%s: cannot be copied", what);
        bitset_free(c);
    }
};
static void bitsets() {
    auto &e = mc::E();
    e.parallel("bitset", 8, [&](uint64_t i) {
        int v = (int)i;
        size_t n0 = BS(v).m.size();
        for (size_t size : {(size_t)0, (size_t)1, (size_t)64, (size_t)65, (size_t)4096, (size_t)100000})
            every_point("bitset_create_with_capacity", [&](int64_t k, bool fe) {
                Point p;
                bitset_t *b = nullptr;
                p.during(k, fe, [&] { b = size ? bitset_create_with_capacity(size) : bitset_create(); });
                MC_CHECK(!!b == !p.failed, "bitset_create_with_capacity(%zu)", size);
                if (b) {
                    MC_CHECK(bitset_size_in_bits(b) == (size + 63) / 64 * 64 && bitset_empty(b), "bitset_create_with_capacity(%zu): contents", size);
                    bitset_free(b);
                }
                return p.calls;
            });
        every_point("bitset_copy", [&](int64_t k, bool fe) {
            BS a(v);
            Point p;
            bitset_t *c = nullptr;
            p.during(k, fe, [&] { c = bitset_copy(a.b); });
            MC_CHECK(!!c == !p.failed, "bitset_copy");
            if (c) {
                MC_CHECK(bitset_size_in_bits(c) == a.m.size(), "bitset_copy: size");
                for (size_t j = 0; j < a.m.size(); j++) MC_CHECK(bitset_get(c, j) == a.m[j], "bitset_copy: bit %zu", j);
                bitset_free(c);
            }
            a.same("bitset_copy", n0);
            a.usable("bitset_copy");
            return p.calls;
        });
        for (size_t words : {0, 1, 2, 3, 5, 16, 17, 40, 64, 65, 1000})
            for (int op = 0; op < 2; op++)
                every_point(op ? "bitset_grow" : "bitset_resize", [&](int64_t k, bool fe) {
                    BS a(v);
                    Point p;
                    bool ok = false;
                    p.during(k, fe, [&] { ok = op ? bitset_grow(a.b, words) : bitset_resize(a.b, words, true); });
                    bool want = !p.failed && (!op || words * 64 >= n0);
                    MC_CHECK(ok == want, "%s(%zu) returned %d", op ? "bitset_grow" : "bitset_resize", words, ok);
                    a.same(op ? "bitset_grow" : "bitset_resize", ok ? words * 64 : n0);
                    a.usable(op ? "bitset_grow" : "bitset_resize");
                    return p.calls;
                });
        for (int tail : {0, 1, 70, 1000})  // zero words at the end to recover
            every_point("bitset_trim", [&](int64_t k, bool fe) {
                BS a(v);
                if (tail) MC_CHECK(bitset_grow(a.b, bitset_size_in_words(a.b) + tail), "bitset_grow");
                size_t before = bitset_size_in_bits(a.b), last = 0;
                for (size_t j = 0; j < a.m.size(); j++)
                    if (a.m[j]) last = j / 64 + 1;
                Point p;
                bool ok = false;
                p.during(k, fe, [&] { ok = bitset_trim(a.b); });
                MC_CHECK(ok == !p.failed, "bitset_trim returned %d", ok);
                MC_CHECK(!ok || a.b->capacity == last, "bitset_trim left %zu words, %zu are needed", a.b->capacity, last);
                MC_CHECK(ok || bitset_size_in_bits(a.b) == before, "a failed bitset_trim changed the size");
                a.same("bitset_trim", bitset_size_in_bits(a.b));
                a.usable("bitset_trim");
                return p.calls;
            });
        for (size_t at : {5, 64, 200, 5000, 100000})
            for (int op = 0; op < 2; op++)
                every_point("bitset_set", [&](int64_t k, bool fe) {
                    BS a(v);
                    Point p;
                    p.during(k, fe, [&] {
                        if (op) bitset_set_to_value(a.b, at, true);
                        else bitset_set(a.b, at);
                    });
                    MC_CHECK(bitset_get(a.b, at) == (!p.failed || (at < n0 && a.m[at])), "bitset_set(%zu)", at);
                    if (!p.failed) {
                        if (a.m.size() <= at) a.m.resize(at + 1);
                        a.m[at] = true;
                    }
                    a.same("bitset_set", p.failed ? n0 : std::max(n0, (at / 64 + 1) * 64));
                    a.usable("bitset_set");
                    return p.calls;
                });
        for (size_t s : {0, 1, 63, 64, 65, 128, 1000})
            every_point("bitset_shift_left", [&](int64_t k, bool fe) {
                BS a(v);
                Point p;
                p.during(k, fe, [&] { bitset_shift_left(a.b, s); });
                if (!p.failed) {
                    std::vector<bool> w(bitset_size_in_bits(a.b));
                    for (size_t j = 0; j < a.m.size(); j++)
                        if (a.m[j]) w[j + s] = true;
                    a.m = w;
                    a.same("bitset_shift_left", w.size());
                } else
                    a.same("bitset_shift_left without memory", n0);
                a.usable("bitset_shift_left");
                return p.calls;
            });
        for (int u = 0; u < 8; u++)
            for (int op = 0; op < 2; op++)
                every_point(op ? "bitset_inplace_symmetric_difference" : "bitset_inplace_union", [&](int64_t k, bool fe) {
                    BS a(v), b(u);
                    bitset_set(b.b, 3);
                    b.read();
                    Point p;
                    bool ok = false;
                    p.during(k, fe, [&] { ok = op ? bitset_inplace_symmetric_difference(a.b, b.b) : bitset_inplace_union(a.b, b.b); });
                    MC_CHECK(ok == !p.failed, "returned %d", ok);
                    b.same("in-place operation: operand", b.m.size());
                    if (ok) {
                        a.m.resize(std::max(a.m.size(), b.m.size()));
                        for (size_t j = 0; j < b.m.size(); j++) a.m[j] = op ? a.m[j] != b.m[j] : a.m[j] || b.m[j];
                        a.same("in-place operation", a.m.size());
                    }
                    a.usable("in-place operation");
                    return p.calls;
                });
    });
}
int main(int argc, char **argv) {
    auto &e = mc::E();
    e.init(argc, argv, "C14");
    e.level = "fault_enumeration";
    hk::install();
    bitmaps();
    bitsets();
    native_list();
    e.rule = "each call is run once to count its allocations, then again for every one of them failing, alone and together with all later "
             "ones; result, inputs, destinations and allocation balance are judged after each";
    return e.finish();
}
