// C26: read-only operands keep their values and bytes, results are independent of them, aliasing works where allowed.
#include "allops.hpp"
#include "pairs64.hpp"
#include "queries32.hpp"
#include "queries64.hpp"
#include "rows.hpp"
#include "zoo.hpp"
#include "zoo64.hpp"
// one bitmap with its expected contents and the bytes it must keep until it is changed itself
struct Obj {
    const char *name;
    RP r;
    Set s;
    std::string bytes;
    void note() { bytes = ser_bytes(r.get()); }
    void same(const char *after) const {
        if (!r) return;
        if (ser_bytes(r.get()) != bytes) {
            Set g = to_set_ser(r.get());
            mc::fail("%s changed %s: %s", after, name, g == s ? "same values, other bytes" : diff_str(g, s).c_str());
        }
    }
};
typedef std::pair<const char *, std::function<void(R *, Set &)>> Mut;
static std::vector<Mut> mutations() {
    return {
        {"add(299)", [](R *r, Set &s) { roaring_bitmap_add(r, 299); s.add(299); }},
        {"remove(0)", [](R *r, Set &s) { roaring_bitmap_remove(r, 0); s.remove(0); }},
        {"remove(65535)", [](R *r, Set &s) { roaring_bitmap_remove(r, 65535); s.remove(65535); }},
        {"add_range(40000,40100)", [](R *r, Set &s) { roaring_bitmap_add_range(r, 40000, 40100); s = s.uni(Set::range(40000, 40099)); }},
        {"flip(65530,140000)", [](R *r, Set &s) { roaring_bitmap_flip_inplace(r, 65530, 140000); s = s.xr(Set::range(65530, 139999)); }},
        {"run_optimize", [](R *r, Set &) { roaring_bitmap_run_optimize(r); }},
        {"remove_run_compression", [](R *r, Set &) { roaring_bitmap_remove_run_compression(r); }},
        {"shrink_to_fit", [](R *r, Set &) { roaring_bitmap_shrink_to_fit(r); }},
        {"remove_range(10,66000)", [](R *r, Set &s) { roaring_bitmap_remove_range(r, 10, 66000); s = s.minus(Set::range(10, 65999)); }},
        {"flip(0,5<<16)", [](R *r, Set &s) { roaring_bitmap_flip_inplace(r, 0, 6 << 16); s = s.xr(Set::range(0, (6 << 16) - 1)); }},
        {"remove_range(0,6<<16)", [](R *r, Set &s) { roaring_bitmap_remove_range(r, 0, 6 << 16); s = s.minus(Set::range(0, (6 << 16) - 1)); }},
        {"clear", [](R *r, Set &s) { roaring_bitmap_clear(r); s = Set(); }},
    };
}
struct K26 { const char *n; Set s; Rep r; };
static const std::vector<K26> &kinds() {
    static const std::vector<K26> v = {{"array", Set{0, 7, 65535}, R_ARRAY},
                                       {"array4096", Set::range(100, 4195), R_ARRAY},
                                       {"bitset", Set::range(0, 2999).uni(Set::range(5000, 8999)).uni(Set{20000}).uni(Set::range(64000, 65535)), R_BITSET},
                                       {"bitset4097", Set::range(61000, 65096), R_BITSET},
                                       {"run", Set::range(0, 20).uni(Set::range(290, 450)).uni(Set::range(65000, 65535)), R_RUN},
                                       {"full", full16(), R_RUN}};
    return v;
}
// 0 plain; 1 copy-on-write, alone; 2 copy-on-write, copied; 3 copy-on-write, copied and the copy gone
struct Made {
    RP r, other;
};
static Made make(const Chunks &cs, int sharing) {
    Made m;
    m.r.reset(cs.empty() ? roaring_bitmap_create() : build_chunks(cs));
    if (sharing) roaring_bitmap_set_copy_on_write(m.r.get(), true);
    if (sharing >= 2) m.other.reset(roaring_bitmap_copy(m.r.get()));
    if (sharing == 3) m.other.reset();
    return m;
}
static const char *SH[4] = {"plain", "cow", "cow+copy", "cow, copy released"};

static void fate(const Op26 &op, const Chunks &ca, const Chunks &cb, int sa, int sb, int scen, const std::vector<Mut> &muts) {
    LeakScope ls;
    {
        Made ma = make(ca, sa), mb = make(cb, sb);
        Obj a{"the first operand", std::move(ma.r), chunks_set(ca), ""}, b{"the second operand", std::move(mb.r), chunks_set(cb), ""};
        Obj ao{"a copy of the first operand", std::move(ma.other), a.s, ""}, bo{"a copy of the second operand", std::move(mb.other), b.s, ""};
        a.note();
        b.note();
        if (ao.r) ao.note();
        if (bo.r) bo.note();
        Obj res{"the result", nullptr, op.m(a.s, b.s), ""};
        R *x = op.f(a.r.get(), b.r.get());
        MC_CHECK(x, "%s returned NULL", op.name.c_str());
        if (op.inplace) a.r.release();
        res.r.reset(x);
        expect_set(res.r.get(), res.s, op.name.c_str());
        res.note();
        std::vector<Obj *> all = {&a, &b, &ao, &bo, &res};
        for (auto *o : all) o->same(op.name.c_str());
        auto mutate = [&](Obj &o, bool only_some) {
            if (!o.r) return;
            for (size_t k = 0; k < muts.size(); k += only_some ? 3 : 1) {
                muts[k].second(o.r.get(), o.s);
                std::string w = mc::strf("%s, then %s on %s", op.name.c_str(), muts[k].first, o.name);
                o.note();
                for (auto *p : all)
                    if (p != &o) p->same(w.c_str());
                mc::E().eval();
            }
            expect_set(o.r.get(), o.s, "after the changes");
        };
        auto drop = [&](Obj &o) {
            if (!o.r) return;
            o.r.reset();
            std::string w = mc::strf("%s, then releasing %s", op.name.c_str(), o.name);
            for (auto *p : all) p->same(w.c_str());
            mc::E().eval();
        };
        switch (scen) {
            case 0: mutate(res, false); mutate(b, true); break;
            case 1: mutate(a, false); mutate(res, true); break;
            case 2: mutate(b, false); mutate(res, true); break;
            case 3: drop(a); drop(ao); mutate(res, false); drop(b); drop(bo); mutate(res, true); break;
            case 4: drop(b); mutate(bo, false); mutate(res, false); break;
            case 5: drop(res); mutate(a, false); mutate(b, false); mutate(ao, false); mutate(bo, true); break;
            case 6: mutate(ao, false); drop(a); mutate(bo, true); drop(b); mutate(res, false); break;
        }
        for (auto *p : all)
            if (p->r) {
                p->same("the end");
                expect_set(p->r.get(), p->s, p->name);
                expect_valid(p->r.get(), p->name);
            }
    }
    ls.check(op.name.c_str());
}
static void fates() {
    auto &e = mc::E();
    auto ops = ops26();
    auto muts = mutations();
    auto &K = kinds();
    // contents: key 0 on both sides (every pair of kinds), key 1 only left, key 2 only right, key 5 on both sides
    size_t nk = K.size();
    struct P { Chunks a, b; std::string n; };
    std::vector<P> ps;
    for (size_t i = 0; i < nk; i++)
        for (size_t j = 0; j < nk; j++)
            for (int lay = 0; lay < 4; lay++) {
                if (!e.thorough && lay % 2 != (int)((i + j) % 2)) continue;
                P p;
                auto &y = K[(i + 1 + lay) % nk], &z = K[(j + 2 + lay) % nk];
                p.a.push_back({0, K[i].s, K[i].r});
                p.b.push_back({0, K[j].s, K[j].r});
                if (lay != 1) p.a.push_back({1, y.s, y.r});
                if (lay != 2) p.b.push_back({2, z.s, z.r});
                if (lay % 2) {
                    p.a.push_back({5, z.s, z.r});
                    p.b.push_back({5, y.s, y.r});
                } else {
                    p.a.push_back({6, z.s, z.r});
                    p.a.push_back({7, y.s, y.r});
                    p.b.push_back({7, y.s, y.r});
                }
                p.n = mc::strf("%s with %s, layout %d", K[i].n, K[j].n, lay);
                ps.push_back(p);
            }
    ps.push_back({{}, {{0, K[0].s, K[0].r}, {3, K[2].s, K[2].r}}, "empty with two chunks"});
    ps.push_back({{{0, K[0].s, K[0].r}, {3, K[2].s, K[2].r}}, {}, "two chunks with empty"});
    ps.push_back({{}, {}, "empty with empty"});
    // every pair of sharing states with the same copy-on-write setting on both sides
    static const int SS[10][2] = {{0, 0}, {1, 1}, {1, 2}, {1, 3}, {2, 1}, {2, 2}, {2, 3}, {3, 1}, {3, 2}, {3, 3}};
    std::vector<int> ss = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9};
    uint64_t no = ops.size(), np = ps.size(), ns = ss.size();
    e.parallel("fates", no * np * ns, [&](uint64_t i) {
        auto &op = ops[i % no];
        auto &p = ps[i / no % np];
        auto *sh = SS[ss[i / no / np]];
        for (int sc = 0; sc < 7; sc++) {
            e.detail("%s on %s, %s/%s, scenario %d", op.name.c_str(), p.n.c_str(), SH[sh[0]], SH[sh[1]], sc);
            fate(op, p.a, p.b, sh[0], sh[1], sc, muts);
        }
        mc::Hash h;
        h.u64(i % (no * np));
        e.outcome(h.h);
    });
}
// rows of 24 and of 300 chunks in two sharing states: every chunk of the result (or of an operand) is then changed
static void shared_rows() {
    auto &e = mc::E();
    static const auto ops = ops26();
    auto touch = [](R *r, Set &s) {
        Set keys;
        for (auto &i : s.v)
            for (uint64_t k = i.a >> 16; k <= i.b >> 16; k++) keys.add(k);
        keys.each([&](uint64_t k) {
            uint32_t x = (uint32_t)(k << 16);
            roaring_bitmap_add(r, x + 50003);
            roaring_bitmap_remove(r, x + 5);
            s.add(x + 50003);
            s.remove(x + 5);
        });
    };
    for (int w = 0; w < 2; w++) {
        rows::Rows rw{w == 1};
        auto pts = rw.points();
        e.parallel(std::string("shared ") + rw.name(), pts.size() * rows::TWINS * 2, [=](uint64_t q) {
            auto &e = mc::E();
            int sh = (int)(q % 2) * 2, how = (int)(q / 2 % rows::TWINS), p = pts[q / 2 / rows::TWINS];
            Chunks ca = rw.row(0, 5, 3), cb = rows::twin(ca, p, how);
            for (size_t k = 0; k < ops.size(); k++) {
                if (!e.thorough && (k + q / 2) % 3) continue;
                auto &op = ops[k];
                e.detail("%s, %d chunks, partner differs in %d by %d, %s", op.name.c_str(), (int)ca.size(), p, how, SH[sh]);
                LeakScope ls;
                for (int who = 0; who < 2; who++) {  // change the result, or the second operand
                    if (!e.thorough && (k + q) % 2 != (uint64_t)who) continue;
                    Made ma = make(ca, sh), mb = make(cb, sh);
                    Obj a{"the first operand", std::move(ma.r), chunks_set(ca), ""}, b{"the second operand", std::move(mb.r), chunks_set(cb), ""};
                    Obj ao{"a copy of the first operand", std::move(ma.other), a.s, ""}, bo{"a copy of the second operand", std::move(mb.other), b.s, ""};
                    for (Obj *o : {&a, &b, &ao, &bo})
                        if (o->r) o->note();
                    Obj res{"the result", nullptr, op.m(a.s, b.s), ""};
                    R *x = op.f(a.r.get(), b.r.get());
                    MC_CHECK(x, "%s returned NULL", op.name.c_str());
                    if (op.inplace) a.r.release();
                    res.r.reset(x);
                    expect_set(x, res.s, op.name.c_str());
                    res.note();
                    std::vector<Obj *> all = {&a, &b, &ao, &bo, &res};
                    for (auto *o : all) o->same(op.name.c_str());
                    Obj &t = who ? b : res;
                    touch(t.r.get(), t.s);
                    t.note();
                    for (auto *o : all) o->same(who ? "changing the second operand" : "changing the result");
                    expect_set(t.r.get(), t.s, "after the changes");
                    e.eval(3);
                }
                ls.check(op.name.c_str());
            }
        }, nullptr, 1);
    }
}
// the same bitmap as both operands
static void alias(int level) {
    auto &e = mc::E();
    auto z = zoo(level);
    auto ops = ops26();
    std::vector<Op26> al;
    for (auto &o : ops) {
        // the header requires different bitmaps here
        if (o.name == "xor_inplace" || o.name == "andnot_inplace" || o.name == "lazy_xor_inplace") continue;
        al.push_back(o);
    }
    e.parallel("alias", z.size(), [&](uint64_t i) {
        Set s = chunks_set(z[i].cs);
        for (auto &op : al) {
            LeakScope ls;
            {
                RP sharer;
                RP a(zoo_build(z[i], sharer));
                std::string before = ser_bytes(a.get());
                e.detail("%s of %s with itself", op.name.c_str(), z[i].name.c_str());
                R *r = op.f(a.get(), a.get());
                Set want = op.m(s, s);
                if (op.name == "xor_many(a,b,b)") want = s;
                if (op.inplace) {
                    expect_set(a.get(), want, op.name.c_str());
                    expect_valid(a.get(), op.name.c_str());
                    roaring_bitmap_flip_inplace(a.get(), 3, 70000);
                    expect_set(a.get(), want.xr(Set::range(3, 69999)), "flip afterwards");
                } else {
                    RP h(r);
                    expect_set(r, want, op.name.c_str());
                    MC_CHECK(ser_bytes(a.get()) == before, "%s with itself changed its operand", op.name.c_str());
                    roaring_bitmap_flip_inplace(r, 3, 70000);
                    expect_set(r, want.xr(Set::range(3, 69999)), "flip of the result");
                    MC_CHECK(ser_bytes(a.get()) == before, "updating the result of %s with itself changed its operand", op.name.c_str());
                }
                if (sharer) MC_CHECK(ser_bytes(sharer.get()) == before, "%s with itself changed a copy", op.name.c_str());
                e.eval();
            }
            ls.check(op.name.c_str());
        }
        RP sharer;
        RP a(zoo_build(z[i], sharer));
        std::string before = ser_bytes(a.get());
        uint64_t c = s.card();
        e.detail("predicates of %s with itself", z[i].name.c_str());
        MC_CHECK(roaring_bitmap_and_cardinality(a.get(), a.get()) == c, "and_cardinality(a,a)");
        MC_CHECK(roaring_bitmap_or_cardinality(a.get(), a.get()) == c, "or_cardinality(a,a)");
        MC_CHECK(roaring_bitmap_xor_cardinality(a.get(), a.get()) == 0, "xor_cardinality(a,a)");
        MC_CHECK(roaring_bitmap_andnot_cardinality(a.get(), a.get()) == 0, "andnot_cardinality(a,a)");
        MC_CHECK(roaring_bitmap_intersect(a.get(), a.get()) == (c > 0), "intersect(a,a)");
        MC_CHECK(roaring_bitmap_equals(a.get(), a.get()), "equals(a,a)");
        MC_CHECK(roaring_bitmap_is_subset(a.get(), a.get()), "is_subset(a,a)");
        MC_CHECK(!roaring_bitmap_is_strict_subset(a.get(), a.get()), "is_strict_subset(a,a)");
        if (c) MC_CHECK(roaring_bitmap_jaccard_index(a.get(), a.get()) == 1.0, "jaccard_index(a,a)");
        MC_CHECK(ser_bytes(a.get()) == before, "a predicate changed its operand");
        e.eval();
        mc::Hash h;
        h.u64(i);
        e.outcome(h.h);
    });
}
static std::string frozen(const R *r) {
    size_t n = roaring_bitmap_frozen_size_in_bytes(r);
    void *p = nullptr;
    if (posix_memalign(&p, 32, n ? n : 32)) abort();
    roaring_bitmap_frozen_serialize(r, (char *)p);
    std::string s((char *)p, n);
    free(p);
    return s;
}
// read-only calls on one bitmap
static void readonly(int level) {
    auto &e = mc::E();
    auto z = zoo(level);
    e.parallel("readonly", z.size(), [&](uint64_t i) {
        RP sharer;
        RP a(zoo_build(z[i], sharer));
        Set s = chunks_set(z[i].cs);
        std::string pb = ser_bytes(a.get()), fb = frozen(a.get());
        auto same = [&](const char *w) {
            MC_CHECK(ser_bytes(a.get()) == pb, "%s changed the bitmap's serialized bytes", w);
            MC_CHECK(frozen(a.get()) == fb, "%s changed the bitmap's chunks", w);
            if (sharer) MC_CHECK(ser_bytes(sharer.get()) == pb && frozen(sharer.get()) == fb, "%s changed a copy", w);
            e.eval();
        };
        e.detail("read-only calls on %s", z[i].name.c_str());
        QOpts q;
        q.points = 6;
        check_queries(a.get(), s, q);
        same("a query");
        check_to_bitset(a.get(), s);
        same("to_bitset");
        roaring_statistics_t st;
        roaring_bitmap_statistics(a.get(), &st);
        same("statistics");
        for (int last = 0; last < 2; last++) {
            roaring_uint32_iterator_t it;
            if (last) roaring_iterator_init_last(a.get(), &it);
            else roaring_iterator_init(a.get(), &it);
            for (int k = 0; k < 50 && it.has_value; k++) last ? roaring_uint32_iterator_previous(&it) : roaring_uint32_iterator_advance(&it);
            roaring_uint32_iterator_move_equalorlarger(&it, 70000);
            uint32_t buf[100];
            roaring_uint32_iterator_read(&it, buf, 100);
        }
        same("iteration");
        std::string nb(roaring_bitmap_size_in_bytes(a.get()) + 8, '\0');
        roaring_bitmap_serialize(a.get(), &nb[0]);
        same("serialize");
        roaring_bulk_context_t ctx = {};
        for (uint32_t v : {5u, 6u, 70000u, 0u, 4000000000u, 65535u})
            MC_CHECK(roaring_bitmap_contains_bulk(a.get(), &ctx, v) == s.has(v), "contains_bulk(%u)", v);
        same("contains_bulk");
        mc::Hash h;
        h.u64(i);
        e.outcome(h.h);
    });
}
// ---- 64 bit ----
static void disturb64(R64 *r, Set &s) {
    roaring64_bitmap_remove(r, 0); s.remove(0);
    roaring64_bitmap_add(r, 299); s.add(299);
    roaring64_bitmap_add_range(r, 40000, 40100); s = s.uni(Set::range(40000, 40099));
    roaring64_bitmap_run_optimize(r);
    roaring64_bitmap_flip_closed_inplace(r, 65530, 140000); s = s.xr(Set::range(65530, 140000));
    roaring64_bitmap_flip_closed_inplace(r, (1ull << 48) - 5, (1ull << 48) + 65540); s = s.xr(Set::range((1ull << 48) - 5, (1ull << 48) + 65540));
    roaring64_bitmap_remove_range_closed(r, U64M - 70000, U64M); s = s.minus(Set::range(U64M - 70000, U64M));
    roaring64_bitmap_shrink_to_fit(r);
}
static void check64(int level) {
    auto &e = mc::E();
    auto z = zoo64(level);
    auto ops = ops64();
    uint64_t n = z.size();
    e.parallel("alias64", n, [&](uint64_t i) {
        for (auto &op : ops) {
            if (!op.selfok) continue;
            LeakScope ls;
            {
                RP64 a(zoo64_build(z[i]));
                std::string before = ser_bytes64(a.get());
                e.detail("%s of %s with itself", op.name.c_str(), z[i].name.c_str());
                Set want = op.m(z[i].s, z[i].s);
                R64 *r = op.f(a.get(), a.get());
                if (op.inplace) {
                    expect_set64(a.get(), want, op.name.c_str());
                    expect_valid64(a.get(), op.name.c_str());
                    disturb64(a.get(), want);
                    expect_set64(a.get(), want, "updates afterwards");
                } else {
                    RP64 h(r);
                    expect_set64(r, want, op.name.c_str());
                    disturb64(r, want);
                    expect_set64(r, want, "updates of the result");
                    MC_CHECK(ser_bytes64(a.get()) == before, "%s with itself: operand changed", op.name.c_str());
                    Set s2 = z[i].s;
                    disturb64(a.get(), s2);
                    expect_set64(r, want, "the result after updating the operand");
                    a.reset();
                    expect_set64(r, want, "the result after releasing the operand");
                }
                e.eval();
            }
            ls.check(op.name.c_str());
        }
        RP64 a(zoo64_build(z[i]));
        std::string before = ser_bytes64(a.get());
        uint64_t c = z[i].s.card();
        MC_CHECK(roaring64_bitmap_and_cardinality(a.get(), a.get()) == c, "and_cardinality(a,a)");
        MC_CHECK(roaring64_bitmap_or_cardinality(a.get(), a.get()) == c, "or_cardinality(a,a)");
        MC_CHECK(roaring64_bitmap_xor_cardinality(a.get(), a.get()) == 0, "xor_cardinality(a,a)");
        MC_CHECK(roaring64_bitmap_andnot_cardinality(a.get(), a.get()) == 0, "andnot_cardinality(a,a)");
        MC_CHECK(roaring64_bitmap_intersect(a.get(), a.get()) == (c > 0), "intersect(a,a)");
        MC_CHECK(roaring64_bitmap_equals(a.get(), a.get()), "equals(a,a)");
        MC_CHECK(roaring64_bitmap_is_subset(a.get(), a.get()), "is_subset(a,a)");
        MC_CHECK(!roaring64_bitmap_is_strict_subset(a.get(), a.get()), "is_strict_subset(a,a)");
        check_queries64(a.get(), z[i].s, 4);
        roaring64_statistics_t st;
        roaring64_bitmap_statistics(a.get(), &st);
        roaring64_iterator_t *it = roaring64_iterator_create(a.get());
        for (int k = 0; k < 50 && roaring64_iterator_has_value(it); k++) roaring64_iterator_advance(it);
        roaring64_iterator_move_equalorlarger(it, 1ull << 40);
        roaring64_iterator_free(it);
        MC_CHECK(ser_bytes64(a.get()) == before, "a read-only call changed its operand");
        e.eval();
        mc::Hash h;
        h.u64(i);
        e.outcome(h.h);
    });
    // operand and result after one of them is updated or released, neighbours of the list as operands
    auto &K = kinds();
    std::vector<std::vector<Bucket>> bs;
    std::vector<Set> sets;
    for (size_t i = 0; i < K.size(); i++)
        for (int lay = 0; lay < 3; lay++) {
            auto &y = K[(i + 1) % K.size()], &x = K[(i + 2) % K.size()];
            std::vector<Bucket> b = {{0, {{0, K[i].s, K[i].r}}}};
            if (lay == 1) b[0].cs.push_back({1, y.s, y.r});
            if (lay != 2) b.push_back({1u << 16, {{0, x.s, x.r}}});
            if (lay == 2) b.push_back({0xFFFFFFFFu, {{0xFFFF, y.s, y.r}}});
            bs.push_back(b);
            sets.push_back(buckets_set(b));
        }
    uint64_t m = bs.size();
    e.parallel("fates64", m * m, [&](uint64_t i) {
        auto &ba = bs[i % m], &bb = bs[i / m];
        for (auto &op : ops)
            for (int sc = 0; sc < 5; sc++) {
                LeakScope ls;
                {
                    RP64 a(build64_buckets(ba)), b(build64_buckets(bb));
                    Set A = sets[i % m], B = sets[i / m], W = op.m(A, B);
                    std::string sa = ser_bytes64(a.get()), sb = ser_bytes64(b.get());
                    e.detail("%s on 64-bit layouts %llu with %llu, scenario %d", op.name.c_str(), (ull)(i % m), (ull)(i / m), sc);
                    R64 *x = op.f(a.get(), b.get());
                    if (op.inplace) a.release();
                    RP64 r(x);
                    expect_set64(r.get(), W, op.name.c_str());
                    if (a) MC_CHECK(ser_bytes64(a.get()) == sa, "%s changed its first operand", op.name.c_str());
                    MC_CHECK(ser_bytes64(b.get()) == sb, "%s changed its second operand", op.name.c_str());
                    switch (sc) {
                        case 0: disturb64(r.get(), W); break;
                        case 1: if (a) disturb64(a.get(), A); break;
                        case 2: disturb64(b.get(), B); break;
                        case 3: a.reset(); b.reset(); disturb64(r.get(), W); break;
                        case 4: r.reset(); if (a) disturb64(a.get(), A); break;
                    }
                    if (r) expect_set64(r.get(), W, "the result");
                    if (a) expect_set64(a.get(), A, "the first operand");
                    if (b) expect_set64(b.get(), B, "the second operand");
                    e.eval();
                }
                ls.check(op.name.c_str());
            }
        mc::Hash h;
        h.u64(i);
        e.outcome(h.h);
    });
}
int main(int argc, char **argv) {
    auto &e = mc::E();
    e.init(argc, argv, "C26");
    hk::install();
    g_extract_limit = 3000;
    fates();
    shared_rows();
    alias(e.thorough ? 2 : 1);
    readonly(e.thorough ? 2 : 1);
    check64(e.thorough ? 2 : 1);
    PairOpts o;
    o.operands = true;
    o.values = false;
    o.isa = false;
    o.level = e.thorough ? 1 : 0;
    o.merges = e.thorough;
    o.algebra = e.thorough;
    run_pair_families(o);
    p64::families(o);
    e.rule = "every operation x every pair of chunk kinds in two key layouts x sharing states x seven orders of updating and releasing operands, copies and "
             "result; every operation with itself over the bitmap list where the headers allow it; every read-only call over the bitmap list; the pair "
             "families of C02/C16 with operands compared byte for byte; 64-bit likewise";
    return e.finish();
}
