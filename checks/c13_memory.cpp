// C13: every block comes from and returns to the installed hooks, and nothing is left when all objects are gone.
#include <algorithm>
#include "allops.hpp"
#include "hist32.hpp"
#include "hist64.hpp"
#include "pairs.hpp"
#include "pairs64.hpp"
#include "queries32.hpp"
#include "untrusted.hpp"
#include "zoo.hpp"
#include "zoo64.hpp"
#include <roaring/roaring_array.h>
extern "C" {
#include <roaring/bitset/bitset.h>
}
static void done(LeakScope &ls, const char *what) {
    ls.check(what);
    MC_CHECK(hk::S.foreign == 0, "%s: the library allocated or released memory without the hooks", what);
}
static void ev() { mc::E().eval(); }
// ---- 32-bit: every operation once
typedef std::pair<std::string, std::function<void(R *)>> U32;
static bool it_stop(uint32_t, void *p) { return ++*(int *)p < 3; }
static bool it_all(uint32_t, void *p) { return ++*(int *)p < 100000; }
static bool it64_stop(uint64_t, void *p) { return ++*(int *)p < 3; }
static void use_bitset(bitset_t *b) {
    MC_CHECK(b, "bitset_create");
    bitset_free(b);
}
static std::vector<U32> mutators() {
    std::vector<U32> v;
    auto m = [&](std::string n, std::function<void(R *)> f) { v.push_back({n, f}); };
    for (uint32_t x : {0u, 1u, 63u, 64u, 4095u, 4096u, 32768u, 65535u, 65536u, 6u << 16, (6u << 16) + 5, 0xFFFF0000u, 0xFFFFFFFFu}) {
        m(mc::strf("add(%u)", x), [x](R *r) { roaring_bitmap_add(r, x); });
        m(mc::strf("add_checked(%u)", x), [x](R *r) { roaring_bitmap_add_checked(r, x); });
        m(mc::strf("remove(%u)", x), [x](R *r) { roaring_bitmap_remove(r, x); });
        m(mc::strf("remove_checked(%u)", x), [x](R *r) { roaring_bitmap_remove_checked(r, x); });
        m(mc::strf("add_bulk(%u..)", x), [x](R *r) {
            roaring_bulk_context_t c = {};
            for (uint32_t k : {0u, 1u, 65536u, 5u}) roaring_bitmap_add_bulk(r, &c, x + k);
            roaring_bulk_context_t d = {};
            roaring_bitmap_contains_bulk(r, &d, x);
        });
    }
    static const std::pair<uint64_t, uint64_t> rg[] = {{0, 1}, {0, 65536}, {3, 4000}, {0, 8192}, {65000, 70000}, {1, 131071}, {0, 6ull << 16},
                                                       {6ull << 16, 7ull << 16}, {(6ull << 16) + 1, (6ull << 16) + 9000}, {300000, 600000},
                                                       {0xFFFF0000ull, 1ull << 32}, {0xFFFE0005ull, 0xFFFF0005ull}, {5, 5}, {1ull << 32, 1ull << 33}};
    for (auto p : rg) {
        uint64_t a = p.first, b = p.second;
        std::string s = mc::strf("(%llu,%llu)", (ull)a, (ull)b);
        m("add_range" + s, [=](R *r) { roaring_bitmap_add_range(r, a, b); });
        m("remove_range" + s, [=](R *r) { roaring_bitmap_remove_range(r, a, b); });
        m("flip_inplace" + s, [=](R *r) { roaring_bitmap_flip_inplace(r, a, b); });
        m("flip" + s, [=](R *r) { RP x(roaring_bitmap_flip(r, a, b)); });
        m("from_range" + s, [=](R *) {
            if (b - a < 10000000) RP x(roaring_bitmap_from_range(a, b, 1));
            RP y(roaring_bitmap_from_range(a, b, 17)), z(roaring_bitmap_from_range(a, b, 70000));
            RP w(b <= a + 100000 ? roaring_bitmap_from_range(a, b, 0) : nullptr);
        });
        m("queries" + s, [=](R *r) {
            roaring_bitmap_range_cardinality(r, a, b);
            roaring_bitmap_contains_range(r, a, b);
            roaring_bitmap_intersect_with_range(r, a, b);
            uint32_t e;
            roaring_bitmap_select(r, (uint32_t)a, &e);
            roaring_bitmap_rank(r, (uint32_t)a);
            roaring_bitmap_get_index(r, (uint32_t)b);
            roaring_bitmap_minimum(r);
            roaring_bitmap_maximum(r);
        });
    }
    static const std::vector<uint32_t> l1 = {5, 3, 5, 70000, 65535, 0xFFFFFFFFu, 0, 6 << 16}, l2 = [] {
        std::vector<uint32_t> x;
        for (uint32_t i = 0; i < 9000; i++) x.push_back(i * 7919u % 131072);
        return x;
    }();
    for (auto *l : {&l1, &l2}) {
        m("add_many", [l](R *r) { roaring_bitmap_add_many(r, l->size(), l->data()); });
        m("remove_many", [l](R *r) { roaring_bitmap_remove_many(r, l->size(), l->data()); });
        m("of_ptr", [l](R *) { RP x(roaring_bitmap_of_ptr(l->size(), l->data())); });
        m("rank_many", [l](R *r) {
            auto v = *l;
            std::sort(v.begin(), v.end());
            std::vector<uint64_t> o(v.size());
            roaring_bitmap_rank_many(r, v.data(), v.data() + v.size(), o.data());
        });
    }
    m("of", [](R *) { RP x(roaring_bitmap_of(3, 1, 70000, 5)); });
    m("from", [](R *) { RP x(roaring_bitmap_from(1, 2, 200000)); });
    m("create_with_capacity", [](R *) {
        for (uint32_t c : {0u, 1u, 4u, 1000u}) RP x(roaring_bitmap_create_with_capacity(c));
    });
    m("init_with_capacity", [](R *) {
        for (uint32_t c : {0u, 1u, 5u}) {
            R x;
            MC_CHECK(roaring_bitmap_init_with_capacity(&x, c), "init");
            roaring_bitmap_add(&x, 70000);
            roaring_bitmap_add(&x, 3);
            roaring_bitmap_clear(&x);
            roaring::internal::ra_clear(&x.high_low_container);
        }
    });
    m("run_optimize", [](R *r) { roaring_bitmap_run_optimize(r); });
    m("remove_run_compression", [](R *r) { roaring_bitmap_remove_run_compression(r); });
    m("shrink_to_fit", [](R *r) { roaring_bitmap_shrink_to_fit(r); });
    m("clear", [](R *r) { roaring_bitmap_clear(r); });
    m("copy", [](R *r) { RP c(roaring_bitmap_copy(r)), d(roaring_bitmap_copy(c.get())); });
    m("copy, original changed", [](R *r) {
        RP c(roaring_bitmap_copy(r));
        roaring_bitmap_add_range(r, 0, 200000);
        roaring_bitmap_remove_range(c.get(), 3, 100000);
    });
    m("overwrite a large one", [](R *r) {
        RP c(roaring_bitmap_from_range(0, 500000, 3));
        MC_CHECK(roaring_bitmap_overwrite(c.get(), r), "overwrite");
    });
    m("overwritten by a large one", [](R *r) {
        RP c(roaring_bitmap_from_range(0, 500000, 3));
        MC_CHECK(roaring_bitmap_overwrite(r, c.get()), "overwrite");
    });
    m("overwritten by an empty one", [](R *r) {
        RP c(roaring_bitmap_create());
        MC_CHECK(roaring_bitmap_overwrite(r, c.get()), "overwrite");
    });
    for (int64_t off : {(int64_t)0, (int64_t)1, (int64_t)-1, (int64_t)65536, (int64_t)-65536, (int64_t)40000, (int64_t)-40000, (int64_t)1 << 32, -((int64_t)1 << 32),
                        (int64_t)0xFFFF0000, -(int64_t)0xFFFF0000, (int64_t)1 << 40, ((int64_t)1 << 32) - 65536 * 6 - 3})
        m(mc::strf("add_offset(%lld)", (long long)off), [off](R *r) { RP x(roaring_bitmap_add_offset(r, off)); });
    m("iterate", [](R *r) {
        int k = 0;
        roaring_iterate(r, it_stop, &k);
        k = 0;
        roaring_iterate(r, it_all, &k);
        k = 0;
        roaring_iterate64(r, it64_stop, 1ull << 40, &k);
    });
    m("iterator", [](R *r) {
        auto *it = roaring_iterator_create(r);
        auto *c0 = roaring_uint32_iterator_copy(it);
        for (int i = 0; i < 5000 && it->has_value; i++) roaring_uint32_iterator_advance(it);
        auto *c1 = roaring_uint32_iterator_copy(it);
        roaring_uint32_iterator_free(it);
        roaring_uint32_iterator_move_equalorlarger(c0, 65000);
        roaring_uint32_iterator_previous(c0);
        uint32_t buf[300];
        roaring_uint32_iterator_read(c0, buf, 300);
        roaring_uint32_iterator_previous(c1);
        roaring_uint32_iterator_free(c0);
        roaring_uint32_iterator_free(c1);
    });
    m("to arrays", [](R *r) {
        uint64_t n = roaring_bitmap_get_cardinality(r);
        if (n > 300000) return;
        std::vector<uint32_t> v(n + 10);
        roaring_bitmap_to_uint32_array(r, v.data());
        roaring_bitmap_range_uint32_array(r, 1, 5, v.data());
    });
    m("to_bitset", [](R *r) {
        if (roaring_bitmap_maximum(r) > (8u << 16)) return;
        auto *b = bitset_create(), *c = bitset_create_with_capacity(10000);
        roaring_bitmap_to_bitset(r, b);
        roaring_bitmap_to_bitset(r, c);
        bitset_free(b);
        bitset_free(c);
    });
    m("serialize", [](R *r) {
        std::string n(roaring_bitmap_size_in_bytes(r), '\0');
        roaring_bitmap_serialize(r, &n[0]);
        std::string p(roaring_bitmap_portable_size_in_bytes(r), '\0');
        roaring_bitmap_portable_serialize(r, &p[0]);
        RP a(roaring_bitmap_deserialize(n.data())), b(roaring_bitmap_deserialize_safe(n.data(), n.size())), c(roaring_bitmap_portable_deserialize(p.data())),
            d(roaring_bitmap_portable_deserialize_safe(p.data(), p.size()));
        MC_CHECK(a && b && c && d, "a reader refused the library's bytes");
        roaring_bitmap_add_range(a.get(), 5, 70000);
        roaring_bitmap_remove_range(b.get(), 5, 70000);
        roaring_bitmap_flip_inplace(c.get(), 5, 70000);
        roaring_bitmap_xor_inplace(d.get(), r);
    });
    m("truncated", [](R *r) {
        std::string n(roaring_bitmap_size_in_bytes(r), '\0');
        roaring_bitmap_serialize(r, &n[0]);
        std::string p(roaring_bitmap_portable_size_in_bytes(r), '\0');
        roaring_bitmap_portable_serialize(r, &p[0]);
        auto cut = [](size_t s) {
            std::vector<size_t> v;
            for (size_t i = 0; i < s; i += i < 70 || s - i < 20 ? 1 : std::max<size_t>(1, s / 23)) v.push_back(i);
            return v;
        };
        for (size_t k : cut(n.size())) RP x(roaring_bitmap_deserialize_safe(n.data(), k));
        for (size_t k : cut(p.size())) {
            RP x(roaring_bitmap_portable_deserialize_safe(p.data(), k));
            MC_CHECK(!x, "a truncated stream was accepted");
        }
    });
    m("frozen", [](R *r) {
        size_t n = roaring_bitmap_frozen_size_in_bytes(r);
        char *b = nullptr;
        if (posix_memalign((void **)&b, 32, n + 32)) abort();
        roaring_bitmap_frozen_serialize(r, b);
        bool ok = true;
        for (size_t k = 0; k <= n; k += k < 40 || n - k < 20 ? 1 : std::max<size_t>(1, n / 13)) {
            R *x = const_cast<R *>(roaring_bitmap_frozen_view(b, k));
            if (k == n) ok = x != nullptr;
            if (x) {
                RP u(roaring_bitmap_or(x, x)), c(roaring_bitmap_copy(x));
                roaring_bitmap_add(c.get(), 17);
            }
            roaring_bitmap_free(x);
        }
        std::string p(roaring_bitmap_portable_size_in_bytes(r) + 64, '\0');
        free(b);
        if (posix_memalign((void **)&b, 64, p.size())) abort();
        roaring_bitmap_portable_serialize(r, b);
        {
            RP x(roaring_bitmap_portable_deserialize_frozen(b));
            ok &= !!x;
            if (x) {
                RP u(roaring_bitmap_andnot(x.get(), r)), c(roaring_bitmap_copy(x.get()));
                roaring_bitmap_remove(c.get(), 17);
            }
        }
        free(b);
        MC_CHECK(ok, "a frozen view was refused");
    });
    m("move to 64 bits", [](R *r) {
        RP64 x(roaring64_bitmap_move_from_roaring32(r));
        roaring64_bitmap_add(x.get(), 1ull << 40);
        roaring_bitmap_add(r, 77);
    });
    m("validate+statistics", [](R *r) {
        const char *w;
        roaring_bitmap_internal_validate(r, &w);
        roaring_statistics_t s;
        roaring_bitmap_statistics(r, &s);
    });
    m("compare", [](R *r) {
        RP c(roaring_bitmap_copy(r));
        roaring_bitmap_add(c.get(), 100);
        roaring_bitmap_equals(r, c.get());
        roaring_bitmap_is_subset(r, c.get());
        roaring_bitmap_is_strict_subset(c.get(), r);
        roaring_bitmap_intersect(r, c.get());
        roaring_bitmap_jaccard_index(r, c.get());
        roaring_bitmap_xor_cardinality(r, c.get());
    });
    return v;
}
static void single32() {
    auto &e = mc::E();
    static const auto z = zoo(e.thorough ? 2 : 1);
    static const auto ms = mutators();
    std::vector<size_t> pick;
    for (size_t i = 0; i < z.size(); i++)
        if (e.thorough || i < 400 || i % 3 == 0) pick.push_back(i);
    auto levels = std::vector<int>{3, 0};
    const int J = 4;
    e.parallel("single", pick.size() * J, [&](uint64_t q) {
        for (size_t k = q % J; k < ms.size(); k += J)
            for (int isa : levels) {
                if (isa == 0 && !e.thorough && (k + q) % 5) continue;
                const Zoo &zz = z[pick[q / J]];
                e.detail("%s: %s (level %d)", zz.name.c_str(), ms[k].first.c_str(), isa);
                LeakScope ls;
                {
                    g_isa = -1;
                    RP sh;
                    RP r(zoo_build(zz, sh));
                    g_isa = isa;
                    ms[k].second(r.get());
                    if (sh && k % 2) sh.reset();  // the other owner leaves first or last
                    ev();
                }
                g_isa = -1;
                done(ls, ms[k].first.c_str());
            }
    }, nullptr, 4);
    // two operations in a row on few bitmaps
    std::vector<size_t> few;
    for (size_t i = 0; i < z.size(); i++)
        if (e.thorough ? i % 9 == 0 : i % 97 == 0) few.push_back(i);
    e.parallel("two in a row", few.size() * ms.size(), [&](uint64_t q) {
        const Zoo &zz = z[few[q / ms.size()]];
        auto &a = ms[q % ms.size()];
        for (size_t k = 0; k < ms.size(); k += 1) {
            if (!e.thorough && (k + q) % 3) continue;
            e.detail("%s: %s then %s", zz.name.c_str(), a.first.c_str(), ms[k].first.c_str());
            LeakScope ls;
            {
                RP sh;
                RP r(zoo_build(zz, sh));
                a.second(r.get());
                ms[k].second(r.get());
                ev();
            }
            done(ls, ms[k].first.c_str());
        }
    }, nullptr, 4);
}
// ---- 32-bit: two operands in every sharing state
static void sharing() {
    auto &e = mc::E();
    struct K { const char *n; Set s; Rep r; };
    static const std::vector<K> ks = {{"array", Set{0, 7, 65535}, R_ARRAY},
                                      {"array4096", Set::range(100, 4195), R_ARRAY},
                                      {"bitset", Set::range(0, 2999).uni(Set::range(5000, 8999)), R_BITSET},
                                      {"bitset4097", Set::range(61000, 65096), R_BITSET},
                                      {"run", Set::range(0, 20).uni(Set::range(290, 450)), R_RUN},
                                      {"full", full16(), R_RUN}};
    static const auto ops = ops26();
    uint64_t n = ks.size() + 1;
    auto chunks = [&](uint64_t code) {
        Chunks c;
        if (code % n) c.push_back({4, ks[code % n - 1].s, ks[code % n - 1].r});
        if (code / n % n) c.push_back({5, ks[code / n % n - 1].s, ks[code / n % n - 1].r});
        c.push_back({9, Set{3}, R_ARRAY});
        return c;
    };
    static const std::vector<uint64_t> codes = [&] {
        std::vector<uint64_t> v;
        for (uint64_t c = 0; c < n * n; c++)
            if (e.thorough || c < n || c % 5 == 0) v.push_back(c);
        return v;
    }();
    // 0 plain, 1 copy-on-write alone, 2 shared, 3 the sharer gone again, 4 shared with the other operand
    e.parallel("sharing", codes.size() * codes.size(), [&](uint64_t q) {
        Chunks ca = chunks(codes[q / codes.size()]), cb = chunks(codes[q % codes.size()]);
        for (int sa = 0; sa < 5; sa++)
            for (int sb = 0; sb < 4; sb++) {
                if (!sa != !sb && !(sa == 0 && sb == 0)) continue;  // both or neither
                if (sa == 4 && sb != 2) continue;
                for (size_t k = 0; k < ops.size(); k++) {
                    if (!e.thorough && (q + k) % 2) continue;
                    e.detail("codes %llu sharing %d,%d: %s", (ull)q, sa, sb, ops[k].name.c_str());
                    LeakScope ls;
                    {
                        RP a(build_chunks(ca)), b(build_chunks(cb)), oa, ob;
                        if (sa) roaring_bitmap_set_copy_on_write(a.get(), true), roaring_bitmap_set_copy_on_write(b.get(), true);
                        if (sa == 4) a.reset(roaring_bitmap_copy(b.get()));
                        if (sa == 2 || sa == 3) oa.reset(roaring_bitmap_copy(a.get()));
                        if (sb >= 2) ob.reset(roaring_bitmap_copy(b.get()));
                        if (sa == 3) oa.reset();
                        if (sb == 3) ob.reset();
                        R *x = ops[k].f(a.get(), b.get());
                        if (!ops[k].inplace) {
                            RP h(x);
                            if (k % 2) a.reset();
                            roaring_bitmap_add_range(x, 4 << 16, 5 << 16);
                        } else if (k % 2)
                            b.reset();
                        ev();
                    }
                    done(ls, ops[k].name.c_str());
                }
            }
    }, nullptr, 4);
}
// many-way operations and lazy chains: every list of up to six inputs of several sizes, so that inputs and temporaries
// meet in every order
static void lists() {
    auto &e = mc::E();
    static const std::vector<Chunks> ls = {{{0, Set{1}, R_ARRAY}},
                                           {{0, Set{2, 3}, R_ARRAY}, {1, Set{1, 5}, R_ARRAY}},
                                           {{1, Set::range(0, 40), R_RUN}, {2, Set::range(1, 60), R_ARRAY}},
                                           {{0, Set::range(100, 5200), R_BITSET}, {2, Set::range(0, 65535), R_RUN}},
                                           {}};
    uint64_t n = ls.size();
    for (int L = 1; L <= (e.thorough ? 7 : 6); L++) {
        uint64_t cnt = 1;
        for (int j = 0; j < L; j++) cnt *= n;
        e.parallel(mc::strf("lists of %d", L), cnt * 4, [&, L](uint64_t q) {
            bool cow = q & 1, shared = q & 2;
            if (shared && !cow) return;
            std::string nm;
            std::vector<uint64_t> idx;
            uint64_t c = q / 4;
            for (int j = 0; j < L; j++, c /= n) {
                idx.push_back(c % n);
                nm += mc::strf(" %llu", (ull)(c % n));
            }
            for (int k = 0; k < 6; k++) {
                static const char *kn[6] = {"or_many", "or_many_heap", "xor_many", "lazy_or_inplace chain", "lazy_xor_inplace chain", "lazy_or chain of new bitmaps"};
                e.detail("%s of%s%s%s", kn[k], nm.c_str(), cow ? ", copy-on-write" : "", shared ? ", with sharers" : "");
                LeakScope sc;
                {
                    std::vector<RP> in, extra;
                    std::vector<const R *> l;
                    for (auto x : idx) {
                        in.emplace_back(ls[x].empty() ? roaring_bitmap_create() : build_chunks(ls[x]));
                        roaring_bitmap_set_copy_on_write(in.back().get(), cow);
                        if (shared) extra.emplace_back(roaring_bitmap_copy(in.back().get()));
                        l.push_back(in.back().get());
                    }
                    RP r;
                    if (k == 0) r.reset(roaring_bitmap_or_many(l.size(), l.data()));
                    else if (k == 1) r.reset(roaring_bitmap_or_many_heap((uint32_t)l.size(), l.data()));
                    else if (k == 2) r.reset(roaring_bitmap_xor_many(l.size(), l.data()));
                    else {
                        r.reset(roaring_bitmap_create());
                        roaring_bitmap_set_copy_on_write(r.get(), cow);
                        for (size_t j = 0; j < l.size(); j++) {
                            if (k == 3) roaring_bitmap_lazy_or_inplace(r.get(), l[j], j % 2);
                            else if (k == 4) roaring_bitmap_lazy_xor_inplace(r.get(), l[j]);
                            else r.reset(roaring_bitmap_lazy_or(r.get(), l[j], j % 2));
                        }
                        roaring_bitmap_repair_after_lazy(r.get());
                    }
                    MC_CHECK(r, "%s returned NULL", kn[k]);
                    if (q % 3 == 0) in.clear();
                    roaring_bitmap_remove_range(r.get(), 2, 65540);
                    if (q % 3 == 1) r.reset();
                    ev();
                }
                done(sc, kn[k]);
            }
        }, nullptr, 16);
    }
}
// ---- 64-bit
typedef std::pair<std::string, std::function<void(R64 *)>> U64;
static std::vector<U64> mutators64() {
    std::vector<U64> v;
    auto m = [&](std::string n, std::function<void(R64 *)> f) { v.push_back({n, f}); };
    for (uint64_t x : {(uint64_t)0, (uint64_t)65535, (uint64_t)65536, (uint64_t)5 << 16, (uint64_t)1 << 32, (uint64_t)0x1234567890 << 16, (uint64_t)255 << 56, U64M}) {
        m(mc::strf("add64(%llu)", (ull)x), [x](R64 *r) { roaring64_bitmap_add(r, x); roaring64_bitmap_add_checked(r, x ^ 9); });
        m(mc::strf("remove64(%llu)", (ull)x), [x](R64 *r) { roaring64_bitmap_remove(r, x); roaring64_bitmap_remove_checked(r, x ^ 1); });
        m(mc::strf("bulk64(%llu)", (ull)x), [x](R64 *r) {
            roaring64_bulk_context_t c = {};
            for (uint64_t k : {(uint64_t)0, (uint64_t)1, (uint64_t)65536, (uint64_t)1 << 33}) roaring64_bitmap_add_bulk(r, &c, x + k);
            roaring64_bulk_context_t d = {};
            for (uint64_t k : {(uint64_t)0, (uint64_t)1, (uint64_t)65536, (uint64_t)1 << 33}) roaring64_bitmap_remove_bulk(r, &d, x + k);
            roaring64_bulk_context_t f = {};
            roaring64_bitmap_contains_bulk(r, &f, x);
        });
    }
    static const std::pair<uint64_t, uint64_t> rg[] = {{0, 0}, {0, 65535}, {3, 4000}, {65000, 140000}, {0, 1 << 20}, {(1ull << 32) - 5, (1ull << 32) + 70000},
                                                       {U64M - 70000, U64M}, {U64M, U64M}, {7, 3}, {0x1234567890ull << 16, (0x1234567890ull << 16) + 65535}};
    for (auto p : rg) {
        uint64_t a = p.first, b = p.second;
        std::string s = mc::strf("(%llu,%llu)", (ull)a, (ull)b);
        m("add_range_closed64" + s, [=](R64 *r) { roaring64_bitmap_add_range_closed(r, a, b); });
        m("remove_range_closed64" + s, [=](R64 *r) { roaring64_bitmap_remove_range_closed(r, a, b); });
        m("flip_closed_inplace64" + s, [=](R64 *r) { roaring64_bitmap_flip_closed_inplace(r, a, b); });
        m("flip_closed64" + s, [=](R64 *r) { RP64 x(roaring64_bitmap_flip_closed(r, a, b)); });
        m("from_range64" + s, [=](R64 *) {
            RP64 x(roaring64_bitmap_from_range(a, b, 1)), y(roaring64_bitmap_from_range(a, b, 100000)), z(roaring64_bitmap_from_range(a, b, 0));
        });
        m("queries64" + s, [=](R64 *r) {
            roaring64_bitmap_range_closed_cardinality(r, a, b);
            roaring64_bitmap_contains_range(r, a, b);
            roaring64_bitmap_intersect_with_range(r, a, b);
            uint64_t o;
            roaring64_bitmap_select(r, a, &o);
            roaring64_bitmap_rank(r, b);
            roaring64_bitmap_get_index(r, b, &o);
        });
    }
    m("remove everything", [](R64 *r) { roaring64_bitmap_remove_range_closed(r, 0, U64M); });
    m("remove the upper half", [](R64 *r) { roaring64_bitmap_remove_range_closed(r, 1ull << 63, U64M); });
    static const std::vector<uint64_t> l1 = {5, 3, 5, 70000, U64M, 0, 6ull << 40, 6ull << 40 | 1, 7}, l2 = [] {
        std::vector<uint64_t> x;
        for (uint64_t i = 0; i < 600; i++) x.push_back(i * 0x9E3779B97F4A7C15ull);
        return x;
    }();
    for (auto *l : {&l1, &l2}) {
        m("add_many64", [l](R64 *r) { roaring64_bitmap_add_many(r, l->size(), l->data()); });
        m("remove_many64", [l](R64 *r) { roaring64_bitmap_remove_many(r, l->size(), l->data()); });
        m("of_ptr64", [l](R64 *) { RP64 x(roaring64_bitmap_of_ptr(l->size(), l->data())); });
        m("added and removed64", [l](R64 *r) {
            roaring64_bitmap_add_many(r, l->size(), l->data());
            roaring64_bitmap_remove_many(r, l->size(), l->data());
        });
    }
    m("from64", [](R64 *) { RP64 x(roaring64_bitmap_from(1, 2, 1ull << 40)); });
    m("run_optimize64", [](R64 *r) { roaring64_bitmap_run_optimize(r); });
    m("shrink_to_fit64", [](R64 *r) { roaring64_bitmap_shrink_to_fit(r); roaring64_bitmap_shrink_to_fit(r); });
    m("shrink and grow64", [](R64 *r) { roaring64_bitmap_shrink_to_fit(r); roaring64_bitmap_add(r, 0x77ull << 48); roaring64_bitmap_remove(r, 0x77ull << 48); });
    m("clear64", [](R64 *r) { roaring64_bitmap_clear(r); roaring64_bitmap_add(r, 3); });
    m("copy64", [](R64 *r) { RP64 c(roaring64_bitmap_copy(r)); roaring64_bitmap_add_range(c.get(), 0, 200000); });
    m("iterators64", [](R64 *r) {
        auto *a = roaring64_iterator_create(r), *b = roaring64_iterator_create_last(r), *c = roaring64_iterator_copy(a);
        for (int i = 0; i < 3000 && roaring64_iterator_has_value(a); i++) roaring64_iterator_advance(a);
        auto *d = roaring64_iterator_copy(a);
        roaring64_iterator_reinit(r, b);
        roaring64_iterator_reinit_last(r, a);
        roaring64_iterator_move_equalorlarger(c, 1ull << 40);
        uint64_t buf[100];
        roaring64_iterator_read(b, buf, 100);
        for (auto *x : {a, b, c, d}) roaring64_iterator_free(x);
        int k = 0;
        roaring64_bitmap_iterate(r, it64_stop, &k);
    });
    m("serialize64", [](R64 *r) {
        std::string p(roaring64_bitmap_portable_size_in_bytes(r), '\0');
        roaring64_bitmap_portable_serialize(r, &p[0]);
        for (size_t k = 0; k <= p.size(); k += k < 60 || p.size() - k < 20 ? 1 : std::max<size_t>(1, p.size() / 19)) {
            RP64 x(roaring64_bitmap_portable_deserialize_safe(p.data(), k));
            MC_CHECK(!!x == (k == p.size()), "limit %zu of %zu", k, p.size());
            if (x) roaring64_bitmap_flip_inplace(x.get(), 5, 70000);
        }
    });
    m("frozen64", [](R64 *r) {
        roaring64_bitmap_shrink_to_fit(r);
        size_t n = roaring64_bitmap_frozen_size_in_bytes(r);
        char *b = nullptr;
        if (posix_memalign((void **)&b, 64, n + 64)) abort();
        roaring64_bitmap_frozen_serialize(r, b);
        bool ok = true;
        for (size_t k = 0; k <= n; k += k < 40 || n - k < 20 ? 1 : std::max<size_t>(1, n / 13)) {
            R64 *x = roaring64_bitmap_frozen_view(b, k);
            if (k == n) ok = x != nullptr;
            if (x) {
                RP64 c(roaring64_bitmap_copy(x)), u(roaring64_bitmap_or(x, r));
                roaring64_bitmap_add(c.get(), 17);
            }
            roaring64_bitmap_free(x);
        }
        free(b);
        MC_CHECK(ok, "a frozen view was refused");
    });
    m("validate64", [](R64 *r) {
        const char *w;
        roaring64_bitmap_internal_validate(r, &w);
        roaring64_statistics_t s;
        roaring64_bitmap_statistics(r, &s);
    });
    for (auto &o : ops64()) {
        auto f = o;
        m(o.name + " with a neighbour", [f](R64 *r) {
            RP64 b(roaring64_bitmap_copy(r));
            roaring64_bitmap_flip_inplace(b.get(), 5, 70000);
            roaring64_bitmap_add(b.get(), 1ull << 50);
            R64 *x = f.f(r, b.get());
            if (!f.inplace) roaring64_bitmap_free(x);
        });
        m(o.name + " with an empty one", [f](R64 *r) {
            RP64 b(roaring64_bitmap_create());
            R64 *x = f.f(r, b.get());
            if (!f.inplace) roaring64_bitmap_free(x);
        });
        m(o.name + " from an empty one", [f](R64 *r) {
            RP64 b(roaring64_bitmap_create());
            R64 *x = f.f(b.get(), r);
            if (!f.inplace) roaring64_bitmap_free(x);
        });
    }
    return v;
}
static void single64() {
    auto &e = mc::E();
    static const auto z = zoo64(e.thorough ? 2 : 1);
    static const auto ms = mutators64();
    const int J = 4;
    uint64_t stride = e.thorough ? 1 : 3;
    e.parallel("single64", z.size() / stride * J, [&](uint64_t q) {
        const Zoo64 &zz = z[q / J * stride];
        for (size_t k = q % J; k < ms.size(); k += J) {
            e.detail("%s: %s", zz.name.c_str(), ms[k].first.c_str());
            LeakScope ls;
            {
                RP64 r(zoo64_build(zz));
                ms[k].second(r.get());
                ev();
            }
            done(ls, ms[k].first.c_str());
        }
    }, nullptr, 4);
    std::vector<size_t> few;
    for (size_t i = 0; i < z.size(); i++)
        if (e.thorough ? i % 23 == 0 : i % 211 == 0) few.push_back(i);
    e.parallel("two in a row64", few.size() * ms.size(), [&](uint64_t q) {
        const Zoo64 &zz = z[few[q / ms.size()]];
        auto &a = ms[q % ms.size()];
        for (auto &b : ms) {
            e.detail("%s: %s then %s", zz.name.c_str(), a.first.c_str(), b.first.c_str());
            LeakScope ls;
            {
                RP64 r(zoo64_build(zz));
                a.second(r.get());
                b.second(r.get());
                ev();
            }
            done(ls, b.first.c_str());
        }
    }, nullptr, 4);
}
// ---- bitsets: every sequence of calls
static void bitsets() {
    auto &e = mc::E();
    typedef std::function<void(bitset_t *, bitset_t *)> F;
    static std::vector<std::pair<const char *, F>> ops;
    auto m = [&](const char *n, F f) { ops.push_back({n, f}); };
    m("set 5", [](bitset_t *a, bitset_t *) { bitset_set(a, 5); });
    m("set 700", [](bitset_t *a, bitset_t *) { bitset_set(a, 700); });
    m("set 70000 false", [](bitset_t *a, bitset_t *) { bitset_set_to_value(a, 70000, false); });
    m("resize 3", [](bitset_t *a, bitset_t *) { bitset_resize(a, 3, true); });
    m("resize 40", [](bitset_t *a, bitset_t *) { bitset_resize(a, 40, true); });
    m("resize 0", [](bitset_t *a, bitset_t *) { bitset_resize(a, 0, true); });
    m("grow 9", [](bitset_t *a, bitset_t *) { bitset_grow(a, a->arraysize + 9); });
    m("trim", [](bitset_t *a, bitset_t *) { bitset_trim(a); });
    m("fill", [](bitset_t *a, bitset_t *) { bitset_fill(a); });
    m("clear", [](bitset_t *a, bitset_t *) { bitset_clear(a); });
    m("union", [](bitset_t *a, bitset_t *b) { bitset_inplace_union(a, b); });
    m("intersection", [](bitset_t *a, bitset_t *b) { bitset_inplace_intersection(a, b); });
    m("difference", [](bitset_t *a, bitset_t *b) { bitset_inplace_difference(a, b); });
    m("symmetric difference", [](bitset_t *a, bitset_t *b) { bitset_inplace_symmetric_difference(a, b); });
    m("shift_left 1", [](bitset_t *a, bitset_t *) { bitset_shift_left(a, 1); });
    m("shift_left 64", [](bitset_t *a, bitset_t *) { bitset_shift_left(a, 64); });
    m("shift_left 200", [](bitset_t *a, bitset_t *) { bitset_shift_left(a, 200); });
    m("shift_right 1", [](bitset_t *a, bitset_t *) { bitset_shift_right(a, 1); });
    m("shift_right 130", [](bitset_t *a, bitset_t *) { bitset_shift_right(a, 130); });
    m("copy and free", [](bitset_t *a, bitset_t *b) {
        use_bitset(bitset_copy(a));
        use_bitset(bitset_copy(b));
    });
    m("counts", [](bitset_t *a, bitset_t *b) {
        bitset_union_count(a, b);
        bitset_intersection_count(a, b);
        bitset_difference_count(a, b);
        bitset_symmetric_difference_count(a, b);
        bitsets_disjoint(a, b);
        bitsets_intersect(a, b);
        bitset_contains_all(a, b);
        bitset_minimum(a);
        bitset_maximum(a);
        bitset_empty(a);
        size_t buf[8], s = 0;
        bitset_next_set_bits(a, buf, 8, &s);
    });
    e.bfs("bitset", (int)ops.size() * 2, e.thorough ? 5 : 3, [&](const mc::Engine::Hist &h) -> uint64_t {
        std::string d;
        for (auto o : h) d += mc::strf("%s%s; ", o % 2 ? "b." : "a.", ops[o / 2].first);
        e.detail("%s", d.c_str());
        LeakScope ls;
        uint64_t fp;
        {
            bitset_t *a = bitset_create(), *b = bitset_create_with_capacity(130);
            for (auto o : h) {
                ops[o / 2].second(o % 2 ? b : a, o % 2 ? a : b);
                ev();
            }
            mc::Hash hh;
            for (bitset_t *x : {a, b}) {
                hh.u64(x->arraysize);
                hh.u64(x->capacity);
                hh.bytes(x->array, x->arraysize * 8);
            }
            fp = hh.h | 1;
            bitset_free(a);
            bitset_free(b);
        }
        done(ls, "bitset calls");
        return fp;
    });
}
int main(int argc, char **argv) {
    auto &e = mc::E();
    e.init(argc, argv, "C13");
    hk::install();
    single32();
    sharing();
    lists();
    single64();
    bitsets();
    PairOpts po;
    po.values = false;
    po.leaks = true;
    po.isa = false;
    po.level = e.thorough ? -1 : 0;
    po.near = po.algebra = false;
    run_pair_families(po);
    PairOpts p6;
    p6.values = false;
    p6.leaks = true;
    p6.isa = false;
    p64::families(p6);
    HistOpts ho;
    ho.values = false;
    ho.leaks = true;
    ho.depth_delta = -1;
    run_hist_families(ho);
    h64::HistOpts h6;
    h6.values = false;
    h6.leaks = true;
    h6.depth_delta = -1;
    h64::run_hist_families(h6);
    e.rule = "each case builds objects, calls the listed operations and releases everything; a counting allocator installed through the "
             "hooks aborts on a block released twice, by the wrong family or not its own, and must hold nothing afterwards; library code "
             "runs under address sanitizer with its libc allocation calls renamed, so that any allocation outside the hooks is seen";
    return e.finish();
}
