// C22: the C++ class Roaring64Map as a mathematical set of 64-bit values.
#include <algorithm>
#include "untrusted.hpp"
#include "roaring64map.hh"
typedef roaring::Roaring64Map M;
typedef roaring::Roaring RR;
typedef unsigned long long ull;
static const uint64_t H = 1ull << 32;
static std::string stream(const M &m) {
    std::string b(m.getSizeInBytes(), '\0');
    MC_CHECK(m.write(&b[0]) == b.size(), "write returned another size");
    return b;
}
static Set set_ser(const M &m, std::vector<Bucket> *out = nullptr) {
    std::string b = stream(m), why;
    std::vector<Bucket> bs;
    size_t used = 0;
    MC_CHECK(decode64(b.data(), b.size(), bs, used, &why) && used == b.size(), "written bytes do not follow the format: %s", why.c_str());
    if (out) *out = bs;
    return buckets_set(bs);
}
static void same(const M &m, const Set &w, const char *what) {
    uint64_t n = m.cardinality();
    MC_CHECK(n == w.card(), "%s: cardinality %llu, expected %llu", what, (ull)n, (ull)w.card());
    Set g;
    if (n > 300000) g = set_ser(m);
    else {
        std::vector<uint64_t> v(n + 1, 0xA5A5A5A5A5A5A5A5ull);
        m.toUint64Array(v.data());
        MC_CHECK(v[n] == 0xA5A5A5A5A5A5A5A5ull, "%s: toUint64Array wrote too much", what);
        for (uint64_t i = 0; i < n; i++) {
            MC_CHECK(!i || v[i] > v[i - 1], "%s: toUint64Array not increasing", what);
            if (!g.v.empty() && g.v.back().b + 1 == v[i]) g.v.back().b = v[i];
            else g.v.push_back({v[i], v[i]});
        }
    }
    if (g != w) mc::fail("%s: wrong contents: %s", what, diff_str(g, w).c_str());
}
static void note() { mc::E().eval(); }
// ---- maps under test: for each high half, absent, an empty inner bitmap, or some contents
struct Inner {
    const char *name;
    Chunks cs;
};
static const std::vector<Inner> &inners() {
    static const std::vector<Inner> v = {
        {"-", {}},  // absent
        {"empty", {}},
        {"ends", {{0, Set{0}, R_ARRAY}, {0xFFFF, Set{65535}, R_ARRAY}}},
        {"array", {{0, Set{5, 9}, R_ARRAY}, {7, Set{1, 65535}, R_ARRAY}}},
        {"runs", {{0, Set::range(3, 200), R_RUN}, {0xFFFF, Set::range(65000, 65535), R_RUN}}},
        {"dense", {{1, Set::range(0, 4999), R_BITSET}, {0xFFFF, Set{5}, R_ARRAY}}},
    };
    return v;
}
static const uint32_t HI[4] = {0, 1, 0x80000000u, 0xFFFFFFFFu};
struct Spec {
    std::string name;
    std::vector<Bucket> bs;
};
static Spec spec(uint64_t code) {
    Spec s;
    uint64_t q = inners().size();
    for (int k = 0; k < 4; k++, code /= q)
        if (code % q) {
            s.bs.push_back({HI[k], inners()[code % q].cs});
            s.name += mc::strf("%x:%s ", HI[k], inners()[code % q].name);
        }
    return s;
}
static uint64_t nspecs() {
    uint64_t q = inners().size();
    return q * q * q * q;
}
static M make(const Spec &s, bool cow = false) {
    std::string b = encode64(s.bs);
    M m = M::readSafe(b.data(), b.size());
    if (cow) m.setCopyOnWrite(true);
    return m;
}
static std::vector<uint64_t> points(const Set &s) {
    std::vector<uint64_t> p = {0, 1, 0xFFFFFFFFull, H, 2 * H, 2 * H - 1, 1ull << 63, (1ull << 63) - 1, U64M, U64M - 1, U64M - 0xFFFFFFFFull, U64M - H, 5 * H + 7};
    for (size_t i = 0; i < s.v.size(); i++)
        for (uint64_t x : {s.v[i].a, s.v[i].b, s.v[i].a - 1, s.v[i].b + 1}) p.push_back(x);
    std::sort(p.begin(), p.end());
    p.erase(std::unique(p.begin(), p.end()), p.end());
    return p;
}
static std::string text(const Set &s) {
    std::string t = "{";
    s.each([&](uint64_t x) {
        if (t.size() > 1) t += ',';
        t += std::to_string(x);
    });
    return t + "}";
}
static void queries(const M &m, const Set &s) {
    uint64_t n = s.card();
    MC_CHECK(m.isEmpty() == s.empty(), "isEmpty");
    MC_CHECK(!m.isFull(), "isFull");
    MC_CHECK(m.minimum() == (s.empty() ? U64M : s.min()), "minimum %llu", (ull)m.minimum());
    MC_CHECK(m.maximum() == (s.empty() ? 0 : s.max()), "maximum %llu", (ull)m.maximum());
    for (auto x : points(s)) {
        MC_CHECK(m.contains(x) == s.has(x), "contains(%llu)", (ull)x);
        if (x < H) MC_CHECK(m.contains((uint32_t)x) == s.has(x), "contains(uint32 %llu)", (ull)x);
        MC_CHECK(m.rank(x) == s.rank(x), "rank(%llu) = %llu", (ull)x, (ull)m.rank(x));
        MC_CHECK(m.getIndex(x) == (s.has(x) ? (int64_t)s.rank(x) - 1 : -1), "getIndex(%llu) = %lld", (ull)x, (long long)m.getIndex(x));
        note();
    }
    for (uint64_t k : {(uint64_t)0, (uint64_t)1, n / 3, n / 2, n ? n - 1 : 0, n, n + 1, U64M}) {
        uint64_t got = 1234567, want;
        bool ok = m.select(k, &got), w = s.select(k, want);
        MC_CHECK(ok == w && (!ok || got == want), "select(%llu): %d %llu", (ull)k, ok, (ull)got);
        note();
    }
    if (n > 40000) return;
    auto all = s.list();
    MC_CHECK(m.toString() == text(s), "toString: %.100s", m.toString().c_str());
    struct It {
        std::vector<uint64_t> v;
        size_t stop;
    };
    for (size_t stop : {(size_t)1, (size_t)(n / 2 + 1), (size_t)(n + 1)}) {
        It it{{}, stop};
        m.iterate(
            [](uint64_t v, void *p) {
                It *i = (It *)p;
                i->v.push_back(v);
                return i->v.size() < i->stop;
            },
            &it);
        MC_CHECK(it.v.size() == std::min<uint64_t>(stop, n) && std::equal(it.v.begin(), it.v.end(), all.begin()), "iterate stopping after %zu", stop);
        note();
    }
    size_t k = 0;
    for (auto v : m) {
        MC_CHECK(k < n && v == all[k], "range-for at %zu: %llu", k, (ull)v);
        k++;
    }
    MC_CHECK(k == n, "range-for visited %zu of %llu", k, (ull)n);
    if (n) {
        M::const_iterator b = m.end();
        for (k = n; k-- > 0;) {
            if (k % 2) --b;
            else b--;
            MC_CHECK(*b == all[k], "backwards from end() at %zu: %llu, expected %llu", k, (ull)*b, (ull)all[k]);
        }
        MC_CHECK(b == m.begin() && !(b != m.begin()), "walking back from end() does not reach begin()");
    } else MC_CHECK(m.begin() == m.end() && !(m.begin() != m.end()), "begin and end of the empty map differ");
    note();
}
static void streams(const M &m, const Set &s) {
    for (int portable = 1; portable >= 0; portable--) {
        size_t n = m.getSizeInBytes(portable);
        std::unique_ptr<char[]> b(new char[n]);
        MC_CHECK(m.write(b.get(), portable) == n, "write returned another size");
        M q = M::read(b.get(), portable);
        same(q, s, portable ? "read(write)" : "read(write, native)");
        MC_CHECK(q == m && m == q, "read(write) differs");
        note();
        if (!portable) continue;
        M q2 = M::readSafe(b.get(), n);
        same(q2, s, "readSafe(write)");
        R64 *c = roaring64_bitmap_portable_deserialize_safe(b.get(), n);
        MC_CHECK(c, "the C interface refuses the written bytes");
        expect_set64(c, s, "C interface reading the written bytes");
        roaring64_bitmap_free(c);
        const M v = M::portableDeserializeFrozen(b.get());
        same(v, s, "portableDeserializeFrozen");
        MC_CHECK(v == m, "portableDeserializeFrozen differs");
        queries(v, s);
        M cp(v);
        cp.add((uint64_t)77);
        same(v, s, "portableDeserializeFrozen after its copy changed");
        note();
        size_t step = n > 600 ? n / 97 : 1;
        for (size_t cut = 0; cut < n; cut += step) {
            std::unique_ptr<char[]> t(new char[cut]);
            memcpy(t.get(), b.get(), cut);
            bool threw = false;
            try {
                M x = M::readSafe(t.get(), cut);
            } catch (const std::runtime_error &) {
                threw = true;
            }
            MC_CHECK(threw, "readSafe accepted %zu of %zu bytes", cut, n);
            note();
        }
    }
    size_t n = m.getFrozenSizeInBytes();
    std::unique_ptr<char[]> raw(new char[n + 64]);
    char *p = (char *)(((uintptr_t)raw.get() + 31) & ~(uintptr_t)31);
    memset(p, 0x5a, n + 16);
    m.writeFrozen(p);
    for (int i = 0; i < 16; i++) MC_CHECK(p[n + i] == 0x5a, "writeFrozen wrote past its size");
    const M v = M::frozenView(p);
    same(v, s, "frozenView");
    MC_CHECK(v == m && m == v, "frozenView differs");
    queries(v, s);
    M cp(v), as;
    as.add((uint64_t)1);
    as = v;
    cp.flip(0, 100);
    same(v, s, "frozenView after its copy changed");
    same(as, s, "assignment from a frozenView");
    note();
}
struct Mut {
    std::string name;
    std::function<void(M &, Set &)> f;
    bool big = false;
};
static bool has_runs(const M &m) {
    std::vector<Bucket> bs;
    set_ser(m, &bs);
    for (auto &b : bs)
        for (auto &c : b.cs)
            if (c.rep == R_RUN) return true;
    return false;
}
static std::vector<Mut> mutations(bool big) {
    std::vector<Mut> v;
    if (!big) {
        for (uint64_t x : {(uint64_t)0, (uint64_t)5, H - 1, H, H + 5, (H << 31) + 3, U64M}) {
            v.push_back({mc::strf("add(%llu)", (ull)x), [=](M &m, Set &s) { m.add(x); s.add(x); }});
            v.push_back({mc::strf("addChecked(%llu)", (ull)x), [=](M &m, Set &s) { bool w = !s.has(x); MC_CHECK(m.addChecked(x) == w, "addChecked"); s.add(x); }});
            v.push_back({mc::strf("remove(%llu)", (ull)x), [=](M &m, Set &s) { m.remove(x); s.remove(x); }});
            v.push_back({mc::strf("removeChecked(%llu)", (ull)x), [=](M &m, Set &s) { bool w = s.has(x); MC_CHECK(m.removeChecked(x) == w, "removeChecked"); s.remove(x); }});
            if (x < H) {
                uint32_t y = (uint32_t)x;
                v.push_back({mc::strf("add(uint32 %u)", y), [=](M &m, Set &s) { m.add(y); s.add(y); }});
                v.push_back({mc::strf("addChecked(uint32 %u)", y), [=](M &m, Set &s) { bool w = !s.has(y); MC_CHECK(m.addChecked(y) == w, "addChecked"); s.add(y); }});
                v.push_back({mc::strf("remove(uint32 %u)", y), [=](M &m, Set &s) { m.remove(y); s.remove(y); }});
                v.push_back({mc::strf("removeChecked(uint32 %u)", y), [=](M &m, Set &s) { bool w = s.has(y); MC_CHECK(m.removeChecked(y) == w, "removeChecked"); s.remove(y); }});
            }
        }
        struct P { uint64_t a, b; };  // closed
        for (P p : {P{0, 0}, P{5, 9}, P{0, 300}, P{H - 3, H - 1}, P{H - 3, H + 5}, P{H, H}, P{H + 1, H + 70000}, P{9, 4}, P{2 * H - 1, 2 * H},
                    P{U64M - 9, U64M}, P{U64M, U64M}, P{U64M - H - 2, U64M - H + 4}, P{1ull << 63, (1ull << 63) + 4000}, P{7 * H + 5, 7 * H + 6}}) {
            Set q = p.a <= p.b ? Set::range(p.a, p.b) : Set();
            v.push_back({mc::strf("addRangeClosed(%llu,%llu)", (ull)p.a, (ull)p.b), [=](M &m, Set &s) { m.addRangeClosed(p.a, p.b); s = s.uni(q); }});
            v.push_back({mc::strf("removeRangeClosed(%llu,%llu)", (ull)p.a, (ull)p.b), [=](M &m, Set &s) { m.removeRangeClosed(p.a, p.b); s = s.minus(q); }});
            v.push_back({mc::strf("flipClosed(%llu,%llu)", (ull)p.a, (ull)p.b), [=](M &m, Set &s) { m.flipClosed(p.a, p.b); s = s.xr(q); }});
            if (p.b < H) {
                uint32_t a = (uint32_t)p.a, b = (uint32_t)p.b;
                v.push_back({mc::strf("addRangeClosed(uint32 %u,%u)", a, b), [=](M &m, Set &s) { m.addRangeClosed(a, b); s = s.uni(q); }});
                v.push_back({mc::strf("removeRangeClosed(uint32 %u,%u)", a, b), [=](M &m, Set &s) { m.removeRangeClosed(a, b); s = s.minus(q); }});
                v.push_back({mc::strf("flipClosed(uint32 %u,%u)", a, b), [=](M &m, Set &s) { m.flipClosed(a, b); s = s.xr(q); }});
            }
            if (p.b == U64M) continue;
            v.push_back({mc::strf("addRange(%llu,%llu)", (ull)p.a, (ull)p.b + 1), [=](M &m, Set &s) { m.addRange(p.a, p.b + 1); s = s.uni(q); }});
            v.push_back({mc::strf("removeRange(%llu,%llu)", (ull)p.a, (ull)p.b + 1), [=](M &m, Set &s) { m.removeRange(p.a, p.b + 1); s = s.minus(q); }});
            v.push_back({mc::strf("flip(%llu,%llu)", (ull)p.a, (ull)p.b + 1), [=](M &m, Set &s) { m.flip(p.a, p.b + 1); s = s.xr(q); }});
        }
        for (P p : {P{0, U64M}, P{0, 1ull << 63}, P{5, U64M - 1}, P{H - 1, 0x80000000ull * H + 7}, P{3 * H, U64M}, P{H + 5, 3 * H}, P{H / 2, U64M - H}})
            v.push_back({mc::strf("removeRangeClosed(%llu,%llu)", (ull)p.a, (ull)p.b), [=](M &m, Set &s) { m.removeRangeClosed(p.a, p.b); s = s.minus(Set::range(p.a, p.b)); }});
        static const std::vector<uint64_t> many = {H + 5, 5, 5, U64M, H + 6, 6, 0, H - 1, H, 70000};
        static const std::vector<uint32_t> many32 = {70000, 5, 5, 0xFFFFFFFFu, 6};
        v.push_back({"addMany", [](M &m, Set &s) { m.addMany(many.size(), many.data()); for (auto x : many) s.add(x); }});
        v.push_back({"addMany(uint32)", [](M &m, Set &s) { m.addMany(many32.size(), many32.data()); for (auto x : many32) s.add(x); }});
        v.push_back({"addMany of nothing", [](M &m, Set &) { m.addMany(0, (const uint64_t *)nullptr); m.addMany(0, (const uint32_t *)nullptr); }});
        v.push_back({"runOptimize", [](M &m, Set &) { bool r = m.runOptimize(); MC_CHECK(r == has_runs(m), "runOptimize returned %d", r); }});
        v.push_back({"removeRunCompression", [](M &m, Set &) {
                         bool w = has_runs(m), r = m.removeRunCompression();
                         MC_CHECK(r == w, "removeRunCompression returned %d although the map had %s", r, w ? "run containers" : "no run container");
                         MC_CHECK(!has_runs(m), "removeRunCompression left run containers");
                     }});
        v.push_back({"shrinkToFit", [](M &m, Set &) { m.shrinkToFit(); }});
        v.push_back({"clear", [](M &m, Set &s) { m.clear(); s = Set(); }});
        v.push_back({"={1,2^32+5}", [](M &m, Set &s) { m = {1, H + 5}; s = Set{1, H + 5}; }});
        v.push_back({"self assignment", [](M &m, Set &) { M &q = m; m = q; }});
        v.push_back({"&= self", [](M &m, Set &) { M &q = m; m &= q; }});
        v.push_back({"|= self", [](M &m, Set &) { M &q = m; m |= q; }});
        v.push_back({"-= self", [](M &m, Set &s) { M &q = m; m -= q; s = Set(); }});
        v.push_back({"^= self", [](M &m, Set &s) { M &q = m; m ^= q; s = Set(); }});
        v.push_back({"swap self", [](M &m, Set &) { M &q = m; m.swap(q); }});
        v.push_back({"setCopyOnWrite(true)", [](M &m, Set &) { m.setCopyOnWrite(true); MC_CHECK(m.getCopyOnWrite(), "flag not set"); }});
        v.push_back({"move to another and back", [](M &m, Set &) {
                         M t(std::move(m));
                         m = M();
                         m.add((uint64_t)3);
                         same(m, Set{3}, "moved-from map");
                         m = std::move(t);
                     }});
    } else {
        for (int op = 0; op < 3; op++)
            for (uint64_t a : {H - 5, H, (uint64_t)0})
                for (uint64_t b : {2 * H, 2 * H - 1, 2 * H + 9}) {
                    Set q = Set::range(a, b);
                    const char *n[] = {"addRangeClosed", "removeRangeClosed", "flipClosed"};
                    v.push_back({mc::strf("%s(%llu,%llu)", n[op], (ull)a, (ull)b), [=](M &m, Set &s) {
                                     if (op == 0) m.addRangeClosed(a, b), s = s.uni(q);
                                     if (op == 1) m.removeRangeClosed(a, b), s = s.minus(q);
                                     if (op == 2) m.flipClosed(a, b), s = s.xr(q);
                                 }});
                }
        // more than one whole block in the middle: the later ones are filled differently from the first
        for (int op = 0; op < 3; op++)
            for (int n = 2; n <= 3; n++) {
                uint64_t a = op == 1 ? 7 : H - 9, b = a - a % H + (n + 1) * H + 70000;
                Set q = Set::range(a, b);
                const char *nm[] = {"addRangeClosed", "removeRangeClosed", "flipClosed"};
                v.push_back({mc::strf("%s(%llu,%llu)", nm[op], (ull)a, (ull)b), [=](M &m, Set &s) {
                                 if (op == 0) {
                                     m.addRangeClosed(a, b), s = s.uni(q);
                                     // the blocks are separate bitmaps
                                     m.remove(H + 77), s.remove(H + 77);
                                     same(m, s, "addRangeClosed over whole blocks, then remove");
                                     m.removeRange(2 * H + 5, 2 * H + 300000), s = s.minus(Set::range(2 * H + 5, 2 * H + 299999));
                                 }
                                 if (op == 1) m.removeRangeClosed(a, b), s = s.minus(q);
                                 if (op == 2) m.flipClosed(a, b), s = s.xr(q);
                             }});
            }
    }
    return v;
}
static void api() {
    auto &e = mc::E();
    e.parallel("queries", nspecs(), [&](uint64_t i) {
        LeakScope ls;
        Spec sp = spec(i);
        e.detail("%s", sp.name.c_str());
        {
            Set s = buckets_set(sp.bs);
            M m = make(sp);
            same(m, s, "read");
            queries(m, s);
            if (i % (e.thorough ? 1 : 3) == 0) streams(m, s);
            same(m, s, "after every query");
        }
        ls.check("queries");
    });
    auto muts = mutations(false), bigm = mutations(true);
    uint64_t stride = e.thorough ? 1 : 17;
    e.parallel("updates", nspecs() / stride * 4, [&](uint64_t q) {
        LeakScope ls;
        Spec sp = spec(q / 4 * stride);
        Set s0 = buckets_set(sp.bs);
        for (size_t k = q % 4; k < muts.size(); k += 4)
            for (int cow = 0; cow < 2; cow++) {
                auto &mu = muts[k];
                e.detail("%s%s, then %s", sp.name.c_str(), cow ? "copy-on-write" : "", mu.name.c_str());
                M m = make(sp, cow), c(m), d{7, 8};
                d = m;
                Set s = s0;
                mu.f(m, s);
                same(m, s, mu.name.c_str());
                if (!cow) queries(m, s);
                if (cow) m.setCopyOnWrite(true);
                same(c, s0, "a copy after the original changed");
                same(d, s0, "an assigned copy after the original changed");
                MC_CHECK((m == c) == (s == s0) && (c == m) == (s == s0), "== with the unchanged copy");
                s = s0;
                mu.f(c, s);
                same(c, s, (mu.name + " on the copy").c_str());
                same(d, s0, "an assigned copy after another copy changed");
                note();
            }
        ls.check("updates");
    });
    // ranges that cover whole 32-bit blocks
    static const std::vector<uint64_t> codes = {0, 1 * 6, 2 * 6, 4 * 6 + 3};
    e.parallel("blocks", codes.size() * bigm.size(), [&](uint64_t i) {
        LeakScope ls;
        Spec sp = spec(codes[i % codes.size()]);
        auto &mu = bigm[i / codes.size()];
        e.detail("%s then %s", sp.name.c_str(), mu.name.c_str());
        {
            Set s = buckets_set(sp.bs);
            M m = make(sp);
            mu.f(m, s);
            same(m, s, mu.name.c_str());
            for (auto x : points(s)) MC_CHECK(m.contains(x) == s.has(x) && m.rank(x) == s.rank(x), "at %llu", (ull)x);
            MC_CHECK(s.empty() || (m.minimum() == s.min() && m.maximum() == s.max()), "extremes");
            note();
        }
        ls.check("blocks");
    });
}
static void two() {
    auto &e = mc::E();
    // every map over two high halves, and a sample of the others by fixed stride
    std::vector<Spec> z;
    for (uint64_t i = 0; i < 36; i++) z.push_back(spec(i % 6 * 216 + i / 6 * 6));
    for (uint64_t i = 0; i < nspecs(); i += e.thorough ? 7 : 41) z.push_back(spec(i));
    e.parallel("pairs", z.size() * z.size(), [&](uint64_t i) {
        LeakScope ls;
        const Spec &pa = z[i / z.size()], &pb = z[i % z.size()];
        bool cow = i % 3 == 2;
        e.detail("%s with %s%s", pa.name.c_str(), pb.name.c_str(), cow ? "copy-on-write" : "");
        {
            Set x = buckets_set(pa.bs), y = buckets_set(pb.bs);
            M a = make(pa, cow), b = make(pb, cow);
            Set I = x.inter(y), U = x.uni(y), D = x.minus(y), X = x.xr(y);
            same(a & b, I, "operator&");
            same(a | b, U, "operator|");
            same(a - b, D, "operator-");
            same(a ^ b, X, "operator^");
            MC_CHECK(a.isSubset(b) == D.empty(), "isSubset");
            MC_CHECK(a.isStrictSubset(b) == (D.empty() && x.card() < y.card()), "isStrictSubset");
            MC_CHECK((a == b) == X.empty() && (b == a) == X.empty(), "operator==");
            auto inp = [&](const char *n, const Set &w, std::function<M &(M &)> f) {
                M c(a);
                if (cow) c.setCopyOnWrite(true);
                M &q = f(c);
                MC_CHECK(&q == &c, "%s does not return the object", n);
                same(c, w, n);
                MC_CHECK(c.isEmpty() == w.empty(), "isEmpty after %s", n);
                if (!w.empty()) MC_CHECK(c.minimum() == w.min() && c.maximum() == w.max(), "extremes after %s", n);
                c.add((uint64_t)12);
                c.remove((uint64_t)5);
                c.addRange(H, H + 3);
                same(b, y, "right operand");
                note();
            };
            inp("operator&=", I, [&](M &c) -> M & { return c &= b; });
            inp("operator|=", U, [&](M &c) -> M & { return c |= b; });
            inp("operator-=", D, [&](M &c) -> M & { return c -= b; });
            inp("operator^=", X, [&](M &c) -> M & { return c ^= b; });
            inp("copy assignment", y, [&](M &c) -> M & { return c = b; });
            inp("move assignment", y, [&](M &c) -> M & { M t(b); return c = std::move(t); });
            inp("swap", y, [&](M &c) -> M & { M t(b); c.swap(t); same(t, x, "other side of swap"); return c; });
            const M *l[] = {&a, &b, &a};
            for (size_t n = 0; n <= 3; n++) same(M::fastunion(n, l), n == 0 ? Set() : n == 1 ? x : U, "fastunion");
            same(a, x, "left operand at the end");
            same(b, y, "right operand at the end");
        }
        ls.check("pairs");
    });
}
// sixteen high halves of every kind, with every interval of them
static void many_blocks() {
    auto &e = mc::E();
    static const int NB = 16;
    auto row = [](int v, int i, int j, uint32_t off) {
        Spec s;
        for (int k = i; k <= j; k++) s.bs.push_back({(uint32_t)(v == 2 ? 0xFFFFFFFFu - 2 * NB + 2 + 2 * k : 3 + 2 * k) - off, inners()[2 + (k * 3 + k / 4 + v) % 4].cs});
        return s;
    };
    e.parallel("many blocks", NB * (NB + 1) / 2 * 3, [&](uint64_t q) {
        int v = (int)(q % 3), i = 0, j;
        for (j = (int)(q / 3); j >= NB - i; j -= NB - i, i++) {}
        j += i;
        LeakScope ls;
        {
            Spec pa = row(v, 0, NB - 1, 0), pb = row(v == 2 ? 2 : 1 - v, i, j, 0), pc = row(v, i, j, 1);
            Set x = buckets_set(pa.bs), y = buckets_set(pb.bs), z = buckets_set(pc.bs);
            bool cow = q % 2;
            M a = make(pa, cow), b = make(pb, cow), c = make(pc, cow);
            e.detail("16 blocks variant %d with blocks %d to %d%s", v, i, j, cow ? ", copy-on-write" : "");
            auto both = [&](const M &l, const M &r, const Set &s, const Set &t, const char *w) {
                Set I = s.inter(t), U = s.uni(t), D = s.minus(t), X = s.xr(t);
                e.detail("16 blocks variant %d with blocks %d to %d%s: %s", v, i, j, cow ? ", copy-on-write" : "", w);
                same(l & r, I, "operator&");
                same(l | r, U, "operator|");
                same(l - r, D, "operator-");
                same(l ^ r, X, "operator^");
                MC_CHECK(l.isSubset(r) == D.empty() && l.isStrictSubset(r) == (D.empty() && s.card() < t.card()), "isSubset");
                MC_CHECK((l == r) == X.empty(), "operator==");
                { M m(l); m &= r; same(m, I, "operator&="); }
                { M m(l); m |= r; same(m, U, "operator|="); }
                { M m(l); m -= r; same(m, D, "operator-="); }
                { M m(l); m ^= r; same(m, X, "operator^="); }
                note();
            };
            both(a, b, x, y, "row and interval");
            both(b, a, y, x, "interval and row");
            both(a, c, x, z, "row and blocks beside it");
            both(c, b, z, y, "blocks beside and interval");
            const M *l[] = {&a, &c, &b, &c};
            same(M::fastunion(4, l), x.uni(y).uni(z), "fastunion of four");
            std::vector<M> ones;
            std::vector<const M *> op;
            for (auto &bk : pa.bs) ones.push_back(make(Spec{"", {bk}}));
            ones.push_back(c);
            for (auto &m : ones) op.push_back(&m);
            same(M::fastunion(op.size(), op.data()), x.uni(z), "fastunion of one map per block");
            uint64_t lo = (uint64_t)pb.bs.front().high * H, hi = (uint64_t)pb.bs.back().high * H + (H - 1);
            for (uint64_t da : {(uint64_t)0, (uint64_t)6, H})
                for (uint64_t db : {(uint64_t)0, (uint64_t)3}) {
                    if (lo + da > hi - db) continue;
                    M m(a);
                    m.removeRangeClosed(lo + da, hi - db);
                    same(m, x.minus(Set::range(lo + da, hi - db)), "removeRangeClosed");
                    note();
                }
            for (uint64_t t : {lo, lo + 9, hi}) {
                M m(a);
                Set w = x;
                MC_CHECK(m.addChecked(t) == !w.has(t), "addChecked");
                w.add(t);
                m.remove(t ^ 2 * H);
                w.remove(t ^ 2 * H);
                same(m, w, "add and remove");
            }
            if (i == 0) {
                queries(b, y);
                streams(c, z);
                if (j == NB - 1) {
                    M m(a);
                    m.runOptimize();
                    same(m, x, "runOptimize");
                    m.shrinkToFit();
                    m.removeRunCompression();
                    same(m, x, "removeRunCompression");
                }
            }
            // every block as a starting point of a seek
            auto all = y.list();
            if (all.size() < 40000)
                for (auto &bk : pa.bs)
                    for (uint64_t d : {(uint64_t)0, (uint64_t)7, H - 1}) {
                        uint64_t t = (uint64_t)bk.high * H + d;
                        auto it = b.begin();
                        bool ok = it.move_equalorlarger(t);
                        auto w = std::lower_bound(all.begin(), all.end(), t);
                        MC_CHECK(ok == (w != all.end()) && (!ok || *it == *w), "move_equalorlarger(%llu)", (ull)t);
                        if (ok && w + 1 != all.end()) {
                            ++it;
                            MC_CHECK(*it == w[1], "step after move_equalorlarger(%llu)", (ull)t);
                        }
                        note();
                    }
            same(a, x, "row at the end");
            same(b, y, "interval at the end");
            same(c, z, "blocks beside at the end");
        }
        ls.check("many blocks");
        e.outcome(mc::hash64(q + 4242));
    }, nullptr, 2);
}
static void lists() {
    auto &e = mc::E();
    static const std::vector<uint64_t> pool = {0, 0xFFFFFFFFull, H, H + 1, 1ull << 63, U64M};
    const uint64_t P = pool.size();
    int maxlen = e.thorough ? 6 : 4;
    std::vector<uint64_t> start(1, 0);
    uint64_t tot = 0, q = 1;
    for (int l = 0; l <= maxlen; l++, q *= P) start.push_back(tot += q);
    e.parallel("lists", tot, [&](uint64_t i) {
        LeakScope ls;
        size_t len = 0;
        while (i >= start[len + 1]) len++;
        uint64_t c = i - start[len];
        std::vector<uint64_t> v;
        std::vector<uint32_t> v32;
        Set s, s32;
        std::string d;
        for (size_t k = 0; k < len; k++, c /= P) {
            v.push_back(pool[c % P]);
            v32.push_back((uint32_t)(v.back() + k));
            s.add(v.back());
            s32.add(v32.back());
            d += mc::strf("%llu ", (ull)v.back());
        }
        e.detail("%s", d.c_str());
        {
            same(M(len, v.data()), s, "constructor from an array");
            same(M(len, v32.data()), s32, "constructor from an array of 32-bit values");
            M m;
            m.addMany(len, v.data());
            same(m, s, "addMany");
            M a{77, 99999}, l, o, bo;
            switch (len) {
                case 0: l = M(std::initializer_list<uint64_t>{}); o = M::bitmapOfList({}); bo = M::bitmapOf(0); a = std::initializer_list<uint64_t>{}; break;
                case 1: l = M(std::initializer_list<uint64_t>{v[0]}); o = M::bitmapOfList({v[0]}); bo = M::bitmapOf(1, v[0]); a = {v[0]}; break;
                case 2: l = M{v[0], v[1]}; o = M::bitmapOfList({v[0], v[1]}); bo = M::bitmapOf(2, v[0], v[1]); a = {v[0], v[1]}; break;
                case 3: l = M{v[0], v[1], v[2]}; o = M::bitmapOfList({v[0], v[1], v[2]}); bo = M::bitmapOf(3, v[0], v[1], v[2]); a = {v[0], v[1], v[2]}; break;
                default: l = o = bo = a = m;
            }
            same(l, s, "constructor from a list");
            same(o, s, "bitmapOfList");
            same(bo, s, "bitmapOf");
            same(a, s, "assignment from a list");
            MC_CHECK(a == l && m.toString() == text(s), "text %s", m.toString().c_str());
            note();
        }
        ls.check("lists");
    });
    // from 32-bit bitmaps: copied, moved, taken over from C
    e.parallel("from32", inners().size() * 6, [&](uint64_t i) {
        LeakScope ls;
        const Chunks &cs = inners()[i / 6].cs;
        int how = i % 6 / 2;
        bool cow = i % 2;
        e.detail("%s how %d cow %d", inners()[i / 6].name, how, cow);
        {
            Set s = chunks_set(cs);
            auto mk = [&] { return cs.empty() ? roaring_bitmap_create() : build_chunks(cs); };
            R *r = mk();
            if (cow) roaring_bitmap_set_copy_on_write(r, true);
            RP sharer(cow ? roaring_bitmap_copy(r) : nullptr);
            RR x(r);
            M m = how == 0 ? M(x) : how == 1 ? M(std::move(x)) : M(roaring_bitmap_copy(&x.roaring));
            same(m, s, "constructed from a 32-bit bitmap");
            if (how == 1) MC_CHECK(x.isEmpty(), "moved-from bitmap is not empty");
            else MC_CHECK(to_set(&x.roaring) == s, "source changed");
            queries(m, s);
            Set t = s;
            m.add(H + 3);
            m.flipClosed((uint64_t)0, (uint64_t)70000);
            t.add(H + 3);
            t = t.xr(Set::range(0, 70000));
            same(m, t, "changed");
            if (sharer) expect_set(sharer.get(), s, "bitmap sharing storage");
            if (how != 1) MC_CHECK(to_set(&x.roaring) == s, "source changed later");
        }
        ls.check("from32");
    });
}
static void cursors() {
    auto &e = mc::E();
    static const std::vector<uint64_t> codes = {0, 1, 1 + 6, 2, 2 * 6, 2 * 216, 1 + 2 * 6 + 1 * 216, 2 + 1 * 36, 2 + 6 * 1 + 36 * 1 + 216 * 2, 1 * 1 + 6 * 3 + 36 * 1 + 216 * 1, 3 + 6 * 2 + 36 * 3 + 216 * 2, 1 + 6 + 36 + 216};
    static const std::vector<uint64_t> seeks = {0, 6, 0xFFFFFFFFull, H, H + 6, 2 * H, 1ull << 63, U64M - 0xFFFFFFFFull, U64M};
    const int nops = 4 + (int)seeks.size();
    for (auto code : codes)
        for (int from_end = 0; from_end < 2; from_end++)
            e.bfs(mc::strf("cursor-%llu%s", (ull)code, from_end ? "-end" : "-begin"), nops, e.thorough ? 7 : 4, [&](const mc::Engine::Hist &h) -> uint64_t {
                LeakScope ls;
                uint64_t fp = 0;
                std::string d;
                for (auto o : h) d += mc::strf("%s ", o == 0 ? "++i" : o == 1 ? "i++" : o == 2 ? "--i" : o == 3 ? "i--" : mc::strf("seek(%llu)", (ull)seeks[o - 4]).c_str());
                Spec sp = spec(code);
                e.detail("%s from %s: %s", sp.name.c_str(), from_end ? "end" : "begin", d.c_str());
                {
                    auto v = buckets_set(sp.bs).list();
                    M m = make(sp);
                    M::const_iterator it = from_end ? m.end() : m.begin();
                    size_t pos = from_end ? v.size() : 0;
                    auto rel = [&](const M::const_iterator &a, size_t pa, const M::const_iterator &b, size_t pb) {
                        MC_CHECK((a == b) == (pa == pb) && (a != b) == (pa != pb), "== or != wrong between positions %zu and %zu", pa, pb);
                        MC_CHECK((a < b) == (pa < pb) && (a <= b) == (pa <= pb) && (a > b) == (pa > pb) && (a >= b) == (pa >= pb), "order wrong between positions %zu and %zu", pa, pb);
                    };
                    for (auto o : h) {
                        auto before = it;
                        size_t bpos = pos;
                        if (o <= 1) {
                            if (pos >= v.size()) return 0;
                            pos++;
                            if (o == 0) MC_CHECK(&++it == &it, "++i does not return the iterator");
                            else MC_CHECK(it++ == before, "i++ does not return the old position");
                        } else if (o <= 3) {
                            if (pos == 0) return 0;
                            pos--;
                            if (o == 2) MC_CHECK(&--it == &it, "--i does not return the iterator");
                            else MC_CHECK(it-- == before, "i-- does not return the old position");
                        } else {
                            uint64_t x = seeks[o - 4];
                            pos = std::lower_bound(v.begin(), v.end(), x) - v.begin();
                            MC_CHECK(it.move_equalorlarger(x) == (pos < v.size()), "move_equalorlarger(%llu) result", (ull)x);
                        }
                        e.eval();
                        rel(it, pos, it, pos);
                        rel(it, pos, before, bpos);
                        rel(before, bpos, it, pos);
                        if (pos < v.size()) MC_CHECK(*it == v[pos], "value %llu, expected %llu", (ull)*it, (ull)v[pos]);
                    }
                    rel(it, pos, m.end(), v.size());
                    rel(m.end(), v.size(), it, pos);
                    rel(it, pos, m.begin(), 0);
                    rel(m.begin(), 0, it, pos);
                    mc::Hash hh;
                    hh.u64(pos);
                    hh.u64(h.empty() || h.back() >= 4 ? 1 : 0);  // a seek may leave different internals behind
                    fp = hh.h | 1;
                }
                ls.check("cursor");
                return fp;
            });
}
static void values() {
    auto &e = mc::E();
    const int N = 2;
    struct VOp {
        std::string name;
        std::function<void(std::vector<M> &, std::vector<Set> &)> f;
    };
    std::vector<VOp> v;
    auto one = [&](const char *n, std::function<void(M &, Set &)> f) {
        for (int i = 0; i < N; i++) v.push_back({mc::strf("#%d.%s", i, n), [=](std::vector<M> &o, std::vector<Set> &s) { f(o[i], s[i]); }});
    };
    one("add(5)", [](M &r, Set &s) { r.add((uint64_t)5); s.add(5); });
    one("add(2^32-1)", [](M &r, Set &s) { r.add(H - 1); s.add(H - 1); });
    one("add(2^32)", [](M &r, Set &s) { r.add(H); s.add(H); });
    one("add(max)", [](M &r, Set &s) { r.add(U64M); s.add(U64M); });
    one("remove(5)", [](M &r, Set &s) { r.remove((uint64_t)5); s.remove(5); });
    one("remove(uint32 5)", [](M &r, Set &s) { r.remove((uint32_t)5); s.remove(5); });
    one("removeChecked(2^32)", [](M &r, Set &s) { bool w = s.has(H); MC_CHECK(r.removeChecked(H) == w, "removeChecked"); s.remove(H); });
    one("removeChecked(max)", [](M &r, Set &s) { bool w = s.has(U64M); MC_CHECK(r.removeChecked(U64M) == w, "removeChecked"); s.remove(U64M); });
    one("addRange(2^32-2,2^32+2)", [](M &r, Set &s) { r.addRange(H - 2, H + 2); s = s.uni(Set::range(H - 2, H + 1)); });
    one("removeRange(6,2^32+1)", [](M &r, Set &s) { r.removeRange(6, H + 1); s = s.minus(Set::range(6, H)); });
    one("removeRangeClosed(2^32,max)", [](M &r, Set &s) { r.removeRangeClosed(H, U64M); s = s.minus(Set::range(H, U64M)); });
    one("removeRangeClosed(uint32 0,max)", [](M &r, Set &s) { r.removeRangeClosed((uint32_t)0, 0xFFFFFFFFu); s = s.minus(Set::range(0, H - 1)); });
    one("flip(2^32-1,2^32+1)", [](M &r, Set &s) { r.flip(H - 1, H + 1); s = s.xr(Set::range(H - 1, H)); });
    one("flipClosed(uint32 5,5)", [](M &r, Set &s) { r.flipClosed((uint32_t)5, (uint32_t)5); s = s.xr(Set{5}); });
    one("addMany(nothing)", [](M &r, Set &) { r.addMany(0, (const uint32_t *)nullptr); });
    one("=Roaring64Map(Roaring())", [](M &r, Set &s) { r = M(RR()); s = Set(); });
    one("={5,2^32}", [](M &r, Set &s) { r = {5, H}; s = Set{5, H}; });
    one("runOptimize+shrinkToFit", [](M &r, Set &) { r.runOptimize(); r.shrinkToFit(); });
    one("written and read", [](M &r, Set &) {
        std::vector<char> b(r.getSizeInBytes());
        r.write(b.data());
        r = M::readSafe(b.data(), b.size());
    });
    for (int i = 0; i < N; i++)
        for (int j = 0; j < N; j++) {
            if (i == j) continue;
            auto p = [&](const char *n, std::function<void(M &, M &, Set &, Set &)> f) {
                v.push_back({mc::strf("#%d %s #%d", i, n, j), [=](std::vector<M> &o, std::vector<Set> &s) { f(o[i], o[j], s[i], s[j]); }});
            };
            p("=", [](M &a, M &b, Set &x, Set &y) { a = b; x = y; });
            p("=move", [](M &a, M &b, Set &x, Set &y) { a = std::move(b); b = M(); x = y; y = Set(); });
            p("&=", [](M &a, M &b, Set &x, Set &y) { a &= b; x = x.inter(y); });
            p("|=", [](M &a, M &b, Set &x, Set &y) { a |= b; x = x.uni(y); });
            p("-=", [](M &a, M &b, Set &x, Set &y) { a -= b; x = x.minus(y); });
            p("^=", [](M &a, M &b, Set &x, Set &y) { a ^= b; x = x.xr(y); });
            p("=fastunion with", [](M &a, M &b, Set &x, Set &y) { const M *l[] = {&b, &a}; Set u = x.uni(y); a = M::fastunion(2, l); x = u; });
            if (i < j) p("swap", [](M &a, M &b, Set &x, Set &y) { a.swap(b); std::swap(x, y); });
        }
    for (int cow = 0; cow < 2; cow++)
        e.bfs(cow ? "values-cow" : "values", (int)v.size(), e.thorough ? 5 : cow ? 2 : 3, [&](const mc::Engine::Hist &h) -> uint64_t {
            LeakScope ls;
            uint64_t fp = 0;
            std::string d;
            for (auto o : h) d += v[o].name + "; ";
            e.detail("%s%s", cow ? "copy-on-write: " : "", d.c_str());
            {
                std::vector<M> o(N);
                std::vector<Set> s(N);
                int64_t b0 = hk::S.live_bytes;
                auto flags = [&] {
                    if (cow)
                        for (auto &x : o) x.setCopyOnWrite(true);
                };
                flags();
                for (auto k : h) {
                    v[k].f(o, s);
                    flags();
                    e.eval();
                }
                for (int i = 0; i < N; i++) {
                    same(o[i], s[i], mc::strf("object %d", i).c_str());
                    queries(o[i], s[i]);
                    for (int j = 0; j < N; j++) {
                        MC_CHECK((o[i] == o[j]) == (s[i] == s[j]), "#%d == #%d", i, j);
                        MC_CHECK(o[i].isSubset(o[j]) == s[i].subset_of(s[j]), "#%d subset of #%d", i, j);
                    }
                }
                mc::Hash hh;
                std::string b0s = stream(o[0]), b1s = stream(o[1]);
                if (b1s < b0s) std::swap(b0s, b1s);
                hh.bytes(b0s.data(), b0s.size());
                hh.bytes(b1s.data(), b1s.size());
                hh.u64((uint64_t)(hk::S.live_bytes - b0));
                fp = hh.h | 1;
            }
            ls.check("after destroying every object");
            return fp;
        });
}
// the reader with a limit: never past the limit, and right on every valid stream
static void hostile() {
    auto b = ut::bases64();
    std::string rc;  // a run cookie although no container is a run
    put64(rc, 2);
    for (uint32_t k : {4u, 6u}) {
        put32(rc, k);
        put32(rc, 12347u | 0u << 16);
        rc += '\0';
        put16(rc, 9);
        put16(rc, 1);
        put16(rc, 3);
        put16(rc, 65535);
    }
    b.push_back({"64 run cookie without runs", rc});
    ut::families(b, [&](const std::string &s, size_t lim) {
        LeakScope ls;
        ut::Exact x(s.data(), lim);
        std::vector<Bucket> bs;
        size_t used = 0;
        bool good = decode64(s.data(), lim, bs, used), took = false;
        try {
            M m = M::readSafe(x.p, lim);
            took = true;
            if (good) {
                Set w = buckets_set(bs);
                uint64_t n = m.cardinality();
                MC_CHECK(n == w.card(), "a valid stream was read as %llu values, not %llu", (ull)n, (ull)w.card());
                std::vector<uint64_t> v(n + 1), e;
                m.toUint64Array(v.data());
                v.pop_back();
                w.each([&](uint64_t q) { e.push_back(q); });
                MC_CHECK(v == e, "a valid stream was read as another set");
            }
        } catch (std::runtime_error &) {
        }
        if (good) MC_CHECK(took, "a valid stream of %zu bytes (limit %zu) was refused", used, lim);
        note();
    }, "readSafe-");
}
int main(int argc, char **argv) {
    auto &e = mc::E();
    e.init(argc, argv, "C22");
    hk::install();
    api();
    two();
    many_blocks();
    lists();
    cursors();
    values();
    hostile();
    e.rule = "every method, operator and constructor of the class on every map over four high halves with absent, empty or small "
             "inner bitmaps; every pair of a catalogue of maps; every iterator walk and every history of operations on two "
             "objects up to the stated depth, each step compared with an independent set model, every object destroyed under a "
             "counting allocator";
    return e.finish();
}
