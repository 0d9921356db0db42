// C21: the C++ class Roaring as a value type over a set of 32-bit values.
#include <algorithm>
#include <roaring/roaring.h>
#include "roaring.hh"
#include "queries32.hpp"
#include "untrusted.hpp"
#include "zoo.hpp"
typedef roaring::Roaring RR;
typedef unsigned long long ull;
static Set set_of(const RR &r, const char *what) {
    uint64_t n = r.cardinality();
    MC_CHECK(n <= (1u << 24), "%s: cardinality %llu", what, (ull)n);
    std::vector<uint32_t> v(n + 1, 0xA5A5A5A5u);
    r.toUint32Array(v.data());
    MC_CHECK(v[n] == 0xA5A5A5A5u, "%s: toUint32Array wrote too much", what);
    Set s;
    for (uint64_t i = 0; i < n; i++) {
        MC_CHECK(!i || v[i] > v[i - 1], "%s: toUint32Array not increasing", what);
        if (!s.v.empty() && s.v.back().b + 1 == v[i]) s.v.back().b = v[i];
        else s.v.push_back({v[i], v[i]});
    }
    return s;
}
static void same(const RR &r, const Set &w, const char *what) {
    MC_CHECK(r.cardinality() == w.card(), "%s: cardinality %llu, expected %llu", what, (ull)r.cardinality(), (ull)w.card());
    Set g = w.card() > 300000 ? to_set_ser(&r.roaring) : set_of(r, what);
    if (g != w) mc::fail("%s: wrong contents: %s", what, diff_str(g, w).c_str());
    expect_valid(&r.roaring, what);
}
static std::string text(const Set &s) {
    std::string t;
    char c = '{';
    s.each([&](uint64_t x) {
        t += c;
        t += std::to_string(x);
        c = ',';
    });
    if (s.empty()) t = "{";
    return t + "}";
}
static RR make(const Zoo &z, RP &sharer) { return RR(zoo_build(z, sharer)); }
static void note() { mc::E().eval(); }

// ---- every read-only method
static void queries(const RR &r, const Set &s, bool wide) {
    uint64_t n = s.card();
    MC_CHECK(r.isEmpty() == s.empty(), "isEmpty");
    MC_CHECK(r.isFull() == (n == 0x100000000ull), "isFull");
    MC_CHECK(r.minimum() == (s.empty() ? 0xFFFFFFFFu : (uint32_t)s.min()), "minimum %u", r.minimum());
    MC_CHECK(r.maximum() == (s.empty() ? 0u : (uint32_t)s.max()), "maximum %u", r.maximum());
    std::vector<uint64_t> pr = query_points(s, wide ? 10 : 4, false);
    std::vector<uint32_t> p32;
    for (auto x : pr) {
        uint32_t v = (uint32_t)x;
        p32.push_back(v);
        MC_CHECK(r.contains(v) == s.has(v), "contains(%u)", v);
        MC_CHECK(r.rank(v) == s.rank(v), "rank(%u) = %llu", v, (ull)r.rank(v));
        MC_CHECK(r.getIndex(v) == (s.has(v) ? (int64_t)s.rank(v) - 1 : -1), "getIndex(%u) = %lld", v, (long long)r.getIndex(v));
        note();
    }
    std::sort(p32.begin(), p32.end());
    std::vector<uint64_t> rk(p32.size() + 1, 77);
    r.rank_many(p32.data(), p32.data() + p32.size(), rk.data());
    for (size_t i = 0; i < p32.size(); i++) MC_CHECK(rk[i] == s.rank(p32[i]), "rank_many at %u: %llu", p32[i], (ull)rk[i]);
    MC_CHECK(rk.back() == 77, "rank_many wrote too much");
    roaring::BulkContext bc;
    for (auto v : p32) MC_CHECK(r.containsBulk(bc, v) == s.has(v), "containsBulk(%u)", v);
    roaring::BulkContext bc2(std::move(bc));
    for (size_t i = p32.size(); i-- > 0;) MC_CHECK(r.containsBulk(bc2, p32[i]) == s.has(p32[i]), "containsBulk(%u) going down", p32[i]);
    bc = std::move(bc2);
    for (auto v : p32) MC_CHECK(r.containsBulk(bc, v) == s.has(v), "containsBulk(%u) after moving the context", v);
    for (uint64_t k : {(uint64_t)0, (uint64_t)1, n / 2, n ? n - 1 : 0, n, n + 1, (uint64_t)0xFFFFFFFFu}) {
        uint32_t got = 1234567;
        uint64_t want;
        bool ok = r.select((uint32_t)k, &got), w = s.select(k, want);
        MC_CHECK(ok == w && (!ok || got == want), "select(%llu): %d %u", (ull)k, ok, got);
        note();
    }
    for (size_t i = 0; i < p32.size(); i += 2)
        for (size_t j = i; j < p32.size(); j += 3) {
            uint32_t a = p32[i], b = p32[j];
            MC_CHECK(r.containsRangeClosed(a, b) == s.contains_range(a, b), "containsRangeClosed(%u,%u)", a, b);
            MC_CHECK(r.containsRange(a, (uint64_t)b + 1) == s.contains_range(a, b), "containsRange(%u,%llu)", a, (ull)b + 1);
            MC_CHECK(r.containsRange(a, a), "containsRange of an empty range");
            note();
        }
    if (n && n <= 200000) {
        std::vector<uint32_t> all;
        s.each([&](uint64_t x) { all.push_back((uint32_t)x); });
        for (uint64_t off : {(uint64_t)0, (uint64_t)1, n / 3, n - 1, n, n + 3})
            for (uint64_t lim : {(uint64_t)1, (uint64_t)7, n / 2 + 1, n}) {
                std::vector<uint32_t> out(lim + 1, 0xA5A5A5A5u);
                r.rangeUint32Array(out.data(), off, lim);
                uint64_t k = off >= n ? 0 : std::min(lim, n - off);
                MC_CHECK(std::equal(out.begin(), out.begin() + k, all.begin() + (k ? off : 0)), "rangeUint32Array(%llu,%llu)", (ull)off, (ull)lim);
                MC_CHECK(out[lim] == 0xA5A5A5A5u, "rangeUint32Array wrote past limit");
                note();
            }
        if (n <= 3000) MC_CHECK(r.toString() == text(s), "toString: %.100s", r.toString().c_str());
        struct It {
            std::vector<uint32_t> v;
            size_t stop;
        } it{{}, (size_t)(n / 2 + 1)};
        r.iterate(
            [](uint32_t v, void *p) {
                It *i = (It *)p;
                i->v.push_back(v);
                return i->v.size() < i->stop;
            },
            &it);
        MC_CHECK(it.v.size() == std::min<uint64_t>(it.stop, n) && std::equal(it.v.begin(), it.v.end(), all.begin()), "iterate with early stop");
        size_t k = 0;
        for (auto v : r) {
            MC_CHECK(k < all.size() && v == all[k], "range-for at %zu: %u", k, v);
            k++;
        }
        MC_CHECK(k == all.size(), "range-for visited %zu of %zu", k, all.size());
        RR::const_bidirectional_iterator b = r.end();
        for (k = n; k-- > 0;) {
            --b;
            MC_CHECK(*b == all[k], "backwards from end() at %zu: %u, expected %u", k, *b, all[k]);
        }
        MC_CHECK(b == r.begin(), "walking back from end() does not reach begin()");
        note();
    } else if (!n) {
        MC_CHECK(r.toString() == "{}", "toString of the empty bitmap");
        MC_CHECK(r.begin() == r.end() && !(r.begin() != r.end()), "begin and end of the empty bitmap differ");
    }
}
// ---- serialization through the class
static void streams(const RR &r, const Set &s, std::vector<char> &arena) {
    for (int portable = 1; portable >= 0; portable--) {
        size_t n = r.getSizeInBytes(portable);
        MC_CHECK(n == (portable ? roaring_bitmap_portable_size_in_bytes(&r.roaring) : roaring_bitmap_size_in_bytes(&r.roaring)), "getSizeInBytes");
        std::unique_ptr<char[]> b(new char[n]);
        MC_CHECK(r.write(b.get(), portable) == n, "write returned another size");
        RR q = RR::read(b.get(), portable);
        same(q, s, portable ? "read(write)" : "read(write, native)");
        MC_CHECK(q == r, "read(write) differs");
        note();
        if (portable) {
            RR q2 = RR::readSafe(b.get(), n);
            same(q2, s, "readSafe(write)");
            for (size_t cut : {(size_t)0, (size_t)1, (size_t)4, n / 2, n - 1}) {
                if (cut >= n) continue;
                std::unique_ptr<char[]> t(new char[cut]);
                memcpy(t.get(), b.get(), cut);
                bool threw = false;
                try {
                    RR x = RR::readSafe(t.get(), cut);
                } catch (const std::runtime_error &) {
                    threw = true;
                }
                MC_CHECK(threw, "readSafe accepted %zu of %zu bytes", cut, n);
                note();
            }
            {
                const RR v = RR::portableDeserializeFrozen(b.get());
                same(v, s, "portableDeserializeFrozen");
                MC_CHECK(v == r && r == v, "portableDeserializeFrozen differs");
                RR c(v);
                same(c, s, "copy of portableDeserializeFrozen");
                c.add(12345);
                RR d;
                d.addRange(0, 100000);
                d = v;
                same(d, s, "assignment from portableDeserializeFrozen");
                d.remove(12345);
                same(v, s, "portableDeserializeFrozen after its copies changed");
                note();
            }
        }
    }
    size_t n = r.getFrozenSizeInBytes();
    arena.resize(n + 64);
    char *p = (char *)(((uintptr_t)arena.data() + 31) & ~(uintptr_t)31);
    memset(p + n, 0x5a, 16);
    r.writeFrozen(p);
    for (int i = 0; i < 16; i++) MC_CHECK(p[n + i] == 0x5a, "writeFrozen wrote past its size");
    {
        const RR v = RR::frozenView(p, n);
        same(v, s, "frozenView");
        MC_CHECK(v == r, "frozenView differs");
        RR c(v), d;
        d = v;
        c.flip(0, 70000);
        d.runOptimize();
        same(v, s, "frozenView after its copies changed");
        same(c, s.xr(Set::range(0, 69999)), "flipped copy of a view");
        same(v | c, s.uni(Set::range(0, 69999)), "union with a view");
        note();
    }
    bool threw = false;
    try {
        const RR v = RR::frozenView(p, n - 1);
    } catch (const std::runtime_error &) {
        threw = true;
    }
    MC_CHECK(threw || n < 2, "frozenView accepted a short buffer");
}
// ---- every updating method
struct Mut {
    std::string name;
    std::function<void(RR &, Set &)> f;
};
static std::vector<Mut> mutations() {
    std::vector<Mut> m;
    for (uint32_t x : {0u, 5u, 65535u, 65536u, 393226u, 0xFFFF0000u, 0xFFFFFFFFu}) {
        m.push_back({mc::strf("add(%u)", x), [=](RR &r, Set &s) { r.add(x); s.add(x); }});
        m.push_back({mc::strf("addChecked(%u)", x), [=](RR &r, Set &s) {
                         bool w = !s.has(x);
                         MC_CHECK(r.addChecked(x) == w, "addChecked");
                         s.add(x);
                     }});
        m.push_back({mc::strf("remove(%u)", x), [=](RR &r, Set &s) { r.remove(x); s.remove(x); }});
        m.push_back({mc::strf("removeChecked(%u)", x), [=](RR &r, Set &s) {
                         bool w = s.has(x);
                         MC_CHECK(r.removeChecked(x) == w, "removeChecked");
                         s.remove(x);
                     }});
    }
    struct P { uint64_t a, b; };
    for (P p : {P{0, 0}, P{0, 1}, P{5, 3}, P{100, 70000}, P{65536, 131072}, P{0xFFFFFF00ull, 0x100000000ull}, P{0xFFFFFFFFull, 0x100000000ull}, P{393216, 393300}, P{7, 0x38000ull}}) {
        bool some = p.a < p.b;
        Set q = some ? Set::range(p.a, p.b - 1) : Set();
        m.push_back({mc::strf("addRange(%llu,%llu)", (ull)p.a, (ull)p.b), [=](RR &r, Set &s) { r.addRange(p.a, p.b); s = s.uni(q); }});
        m.push_back({mc::strf("removeRange(%llu,%llu)", (ull)p.a, (ull)p.b), [=](RR &r, Set &s) { r.removeRange(p.a, p.b); s = s.minus(q); }});
        m.push_back({mc::strf("flip(%llu,%llu)", (ull)p.a, (ull)p.b), [=](RR &r, Set &s) { r.flip(p.a, p.b); s = s.xr(q); }});
        if (!some) continue;
        uint32_t a = (uint32_t)p.a, b = (uint32_t)(p.b - 1);
        m.push_back({mc::strf("addRangeClosed(%u,%u)", a, b), [=](RR &r, Set &s) { r.addRangeClosed(a, b); s = s.uni(q); }});
        m.push_back({mc::strf("removeRangeClosed(%u,%u)", a, b), [=](RR &r, Set &s) { r.removeRangeClosed(a, b); s = s.minus(q); }});
        m.push_back({mc::strf("flipClosed(%u,%u)", a, b), [=](RR &r, Set &s) { r.flipClosed(a, b); s = s.xr(q); }});
    }
    static const std::vector<uint32_t> many = {70000, 5, 5, 393220, 0xFFFFFFFFu, 6, 70001, 0};
    m.push_back({"addMany", [](RR &r, Set &s) { r.addMany(many.size(), many.data()); for (auto x : many) s.add(x); }});
    m.push_back({"addMany of nothing", [](RR &r, Set &) { r.addMany(0, nullptr); }});
    m.push_back({"addBulk", [](RR &r, Set &s) { roaring::BulkContext c; for (auto x : many) { r.addBulk(c, x); s.add(x); } }});
    m.push_back({"runOptimize", [](RR &r, Set &) { r.runOptimize(); }});
    m.push_back({"removeRunCompression", [](RR &r, Set &) { r.removeRunCompression(); }});
    m.push_back({"shrinkToFit", [](RR &r, Set &) { r.shrinkToFit(); }});
    m.push_back({"={1,2,70000}", [](RR &r, Set &s) { r = {1, 2, 70000}; s = Set{1, 2, 70000}; }});
    m.push_back({"={}", [](RR &r, Set &s) { r = RR{}; s = Set(); }});
    m.push_back({"setCopyOnWrite(true)", [](RR &r, Set &) { r.setCopyOnWrite(true); MC_CHECK(r.getCopyOnWrite(), "flag not set"); }});
    m.push_back({"self assignment", [](RR &r, Set &) { RR &q = r; r = q; }});
    m.push_back({"&= self", [](RR &r, Set &) { RR &q = r; r &= q; }});
    m.push_back({"|= self", [](RR &r, Set &) { RR &q = r; r |= q; }});
    m.push_back({"-= self", [](RR &r, Set &s) { RR &q = r; r -= q; s = Set(); }});
    m.push_back({"^= self", [](RR &r, Set &s) { RR &q = r; r ^= q; s = Set(); }});
    m.push_back({"swap self", [](RR &r, Set &) { RR &q = r; r.swap(q); }});
    m.push_back({"move to another and back", [](RR &r, Set &) {
                     RR t(std::move(r));
                     same(r, Set(), "moved-from bitmap");
                     r.add(3);
                     same(r, Set{3}, "moved-from bitmap after add");
                     r = std::move(t);
                     same(t, Set(), "source of a move assignment");
                     t.addRange(5, 70000);
                     same(t, Set::range(5, 69999), "source of a move assignment after addRange");
                 }});
    return m;
}
static const std::vector<Zoo> &cat() {
    static const std::vector<Zoo> z = zoo(mc::E().thorough ? 2 : 1);
    return z;
}
static void api() {
    auto &e = mc::E();
    auto &z = cat();
    e.parallel("queries", z.size(), [&](uint64_t i) {
        LeakScope ls;
        e.detail("%s", z[i].name.c_str());
        {
            std::vector<char> arena;
            RP sh;
            Set s = chunks_set(z[i].cs);
            RR decoy{1, 2, 3};  // another bitmap whose iterators were used first
            MC_CHECK(decoy.end() != decoy.begin(), "decoy");
            RR r = make(z[i], sh);
            queries(r, s, true);
            streams(r, s, arena);
            same(r, s, "after every query");
        }
        ls.check("queries");
    });
    auto muts = mutations();
    std::vector<size_t> pick;
    for (size_t i = 0; i < z.size(); i++)
        if (e.thorough || (z[i].cs.size() <= 1 && i % 7 == 0) || (z[i].cs.size() > 1 && z[i].cs.size() < 20 && i % 89 == 0)) pick.push_back(i);
    e.parallel("updates", pick.size() * 4, [&](uint64_t q) {
        LeakScope ls;
        const Zoo &zz = z[pick[q / 4]];
        {
            Set s0 = chunks_set(zz.cs);
            for (size_t k = q % 4; k < muts.size(); k += 4) {
                auto &m = muts[k];
                e.detail("%s then %s", zz.name.c_str(), m.name.c_str());
                RP sh;
                RR r = make(zz, sh), c(r), d;
                if (zz.shared) {
                    MC_CHECK(r.getCopyOnWrite() && c.getCopyOnWrite(), "the copy-on-write setting is not copied");
                    d.setCopyOnWrite(true);
                } else MC_CHECK(!c.getCopyOnWrite(), "copy-on-write appeared");
                d.add(99);
                d = r;
                MC_CHECK(d.getCopyOnWrite() == r.getCopyOnWrite(), "assignment does not copy the copy-on-write setting");
                Set s = s0;
                m.f(r, s);
                same(r, s, m.name.c_str());
                queries(r, s, false);
                same(c, s0, "a copy after the original changed");
                same(d, s0, "an assigned copy after the original changed");
                if (sh) expect_set(sh.get(), s0, "the C copy sharing storage");
                s = s0;
                m.f(c, s);
                same(c, s, (m.name + " on the copy").c_str());
                same(d, s0, "an assigned copy after another copy changed");
                note();
            }
        }
        ls.check("updates");
    });
}
// ---- two operands
static void two() {
    auto &e = mc::E();
    std::vector<Zoo> z;
    for (size_t i = 0; i < cat().size(); i++) {
        const Zoo &q = cat()[i];
        bool layout = q.name.find(':') != std::string::npos;
        if (q.name.compare(0, 4, "wide") == 0 && q.cs.size() > 16) continue;
        if (layout ? i % (e.thorough ? 11 : 61) == 0 : i % (e.thorough ? 2 : 9) == 0) z.push_back(q);
    }
    e.parallel("pairs", z.size() * z.size(), [&](uint64_t i) {
        LeakScope ls;
        const Zoo &za = z[i / z.size()], &zb = z[i % z.size()];
        e.detail("%s with %s", za.name.c_str(), zb.name.c_str());
        {
            RP sa, sb;
            Set x = chunks_set(za.cs), y = chunks_set(zb.cs);
            RR a = make(za, sa), b = make(zb, sb);
            if (a.getCopyOnWrite() || b.getCopyOnWrite()) {  // documented: not mixed
                a.setCopyOnWrite(true);
                b.setCopyOnWrite(true);
            }
            Set I = x.inter(y), U = x.uni(y), D = x.minus(y), X = x.xr(y);
            same(a & b, I, "operator&");
            same(a | b, U, "operator|");
            same(a - b, D, "operator-");
            same(a ^ b, X, "operator^");
            MC_CHECK(a.and_cardinality(b) == I.card() && a.or_cardinality(b) == U.card() && a.andnot_cardinality(b) == D.card() && a.xor_cardinality(b) == X.card(), "operation cardinalities");
            MC_CHECK(a.intersect(b) == !I.empty(), "intersect");
            MC_CHECK(a.isSubset(b) == D.empty(), "isSubset");
            MC_CHECK(a.isStrictSubset(b) == (D.empty() && x.card() < y.card()), "isStrictSubset");
            MC_CHECK((a == b) == X.empty() && (b == a) == X.empty(), "operator==");
            if (!U.empty()) MC_CHECK(a.jaccard_index(b) == (double)I.card() / (double)U.card(), "jaccard_index");
            auto inp = [&](const char *n, const Set &w, std::function<RR &(RR &)> f) {
                RR c(a);
                RR &q = f(c);
                MC_CHECK(&q == &c, "%s does not return the object", n);
                same(c, w, n);
                same(b, y, "right operand");
                note();
            };
            inp("operator&=", I, [&](RR &c) -> RR & { return c &= b; });
            inp("operator|=", U, [&](RR &c) -> RR & { return c |= b; });
            inp("operator-=", D, [&](RR &c) -> RR & { return c -= b; });
            inp("operator^=", X, [&](RR &c) -> RR & { return c ^= b; });
            inp("copy assignment", y, [&](RR &c) -> RR & { return c = b; });
            inp("move assignment", y, [&](RR &c) -> RR & { RR t(b); return c = std::move(t); });
            inp("swap", y, [&](RR &c) -> RR & { RR t(b); c.swap(t); same(t, x, "other side of swap"); return c; });
            const RR *l[] = {&a, &b, &a};
            for (size_t n = 0; n <= 3; n++) same(RR::fastunion(n, l), n == 0 ? Set() : n == 1 ? x : U, "fastunion");
            same(a, x, "left operand at the end");
            same(b, y, "right operand at the end");
        }
        ls.check("pairs");
    });
}
// ---- constructors from values
static void lists() {
    auto &e = mc::E();
    static const std::vector<uint32_t> pool = {0, 1, 65535, 65536, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu};
    const uint64_t P = pool.size();
    int maxlen = e.thorough ? 6 : 4;
    std::vector<uint64_t> start(1, 0);
    uint64_t tot = 0, q = 1;
    for (int l = 0; l <= maxlen; l++, q *= P) start.push_back(tot += q);
    e.parallel("lists", tot, [&](uint64_t i) {
        LeakScope ls;
        size_t len = 0;
        while (i >= start[len + 1]) len++;
        uint64_t c = i - start[len];
        std::vector<uint32_t> v;
        Set s;
        std::string d;
        for (size_t k = 0; k < len; k++, c /= P) {
            v.push_back(pool[c % P]);
            s.add(v.back());
            d += mc::strf("%u ", v.back());
        }
        e.detail("%s", d.c_str());
        {
            same(RR(len, v.data()), s, "constructor from an array");
            RR m;
            m.addMany(len, v.data());
            same(m, s, "addMany");
            RR a{77, 99999};
            RR l, o, bo;
            switch (len) {
                case 0: l = RR(std::initializer_list<uint32_t>{}); o = RR::bitmapOfList({}); bo = RR::bitmapOf(0); a = std::initializer_list<uint32_t>{}; break;
                case 1: l = RR{v[0]}; o = RR::bitmapOfList({v[0]}); bo = RR::bitmapOf(1, v[0]); a = {v[0]}; break;
                case 2: l = RR{v[0], v[1]}; o = RR::bitmapOfList({v[0], v[1]}); bo = RR::bitmapOf(2, v[0], v[1]); a = {v[0], v[1]}; break;
                case 3: l = RR{v[0], v[1], v[2]}; o = RR::bitmapOfList({v[0], v[1], v[2]}); bo = RR::bitmapOf(3, v[0], v[1], v[2]); a = {v[0], v[1], v[2]}; break;
                case 4: l = RR{v[0], v[1], v[2], v[3]}; o = RR::bitmapOfList({v[0], v[1], v[2], v[3]}); bo = RR::bitmapOf(4, v[0], v[1], v[2], v[3]); a = {v[0], v[1], v[2], v[3]}; break;
                default: l = o = bo = a = m;
            }
            same(l, s, "constructor from a list");
            same(o, s, "bitmapOfList");
            same(bo, s, "bitmapOf");
            same(a, s, "assignment from a list");
            MC_CHECK(a == l && m.toString() == text(s), "text %s", m.toString().c_str());
            note();
        }
        ls.check("lists");
    });
    e.parallel("full", 3, [&](uint64_t i) {  // the whole universe, and all but one value
        LeakScope ls;
        {
            RR r;
            if (i == 2) r.flipClosed(0, 0xFFFFFFFFu);
            else r.addRange(0, 0x100000000ull);
            MC_CHECK(r.isFull() && r.cardinality() == 0x100000000ull && r.maximum() == 0xFFFFFFFFu && r.minimum() == 0, "full bitmap");
            MC_CHECK(r.rank(0xFFFFFFFFu) == 0x100000000ull && r.contains(0xFFFFFFFFu), "full bitmap rank");
            if (i == 0) {
                RR c(r);
                c.remove(0xFFFFFFFFu);
                MC_CHECK(!c.isFull() && c.cardinality() == 0xFFFFFFFFull && r.isFull() && c.isStrictSubset(r) && !r.isSubset(c), "all but the last");
            } else if (i == 1) {
                r.remove(0);
                MC_CHECK(!r.isFull() && r.cardinality() == 0xFFFFFFFFull, "all but zero");
                r.removeRangeClosed(0, 0xFFFFFFFFu);
                MC_CHECK(r.isEmpty(), "removeRangeClosed of everything");
            } else {
                r.flip(0xFFF00000ull, 0x100000000ull);
                MC_CHECK(!r.isFull() && r.cardinality() == 0xFFF00000ull && r.maximum() == 0xFFEFFFFFu, "flip back of the end");
            }
        }
        ls.check("full");
    });
}
// ---- iterators: every walk up to a depth, with all comparisons on the way
static void cursors() {
    auto &e = mc::E();
    struct C { const char *n; Chunks cs; };
    static const std::vector<C> sets = {
        {"empty", {}},
        {"one", {{0, Set{0}, R_ARRAY}}},
        {"max", {{0xFFFF, Set{65535}, R_ARRAY}}},
        {"array", {{0, Set{0, 3, 65535}, R_ARRAY}, {7, Set{1}, R_ARRAY}}},
        {"run", {{0, Set::range(0, 2), R_RUN}, {0xFFFF, Set::range(65533, 65535), R_RUN}}},
        {"bitset", {{2, Set::step(0, 65535, 8), R_BITSET}}},
        {"mixed", {{0, Set{65535}, R_ARRAY}, {1, Set{0}, R_RUN}, {2, Set::step(3, 65535, 9), R_BITSET}, {0xFFFF, Set{0, 65535}, R_ARRAY}}},
    };
    static const std::vector<uint32_t> seeks = {0, 3, 65535, 65536, 131075, 0xFFFF0001u, 0xFFFFFFFFu};
    const int nops = 4 + (int)seeks.size();
    for (auto &c : sets)
        for (int from_end = 0; from_end < 2; from_end++)
            e.bfs(std::string("cursor-") + c.n + (from_end ? "-end" : "-begin"), nops, e.thorough ? 7 : 5, [&](const mc::Engine::Hist &h) -> uint64_t {
                LeakScope ls;
                uint64_t fp = 0;
                std::string d;
                for (auto o : h) d += mc::strf("%s ", o == 0 ? "++i" : o == 1 ? "i++" : o == 2 ? "--i" : o == 3 ? "i--" : mc::strf("seek(%u)", seeks[o - 4]).c_str());
                e.detail("%s from %s: %s", c.n, from_end ? "end" : "begin", d.c_str());
                {
                    std::vector<uint32_t> v;
                    chunks_set(c.cs).each([&](uint64_t x) { v.push_back((uint32_t)x); });
                    RR decoy{9, 10, 11};
                    auto de = decoy.end();
                    RR r(c.cs.empty() ? roaring_bitmap_create() : build_chunks(c.cs));
                    auto it = from_end ? RR::const_iterator(r.end()) : r.begin();
                    size_t pos = from_end ? v.size() : 0;
                    for (auto o : h) {
                        auto before = it;
                        size_t bpos = pos;
                        if (o <= 1) {
                            if (pos >= v.size()) return 0;  // not allowed past the end
                            pos++;
                            if (o == 0) MC_CHECK(&++it == &it, "++i does not return the iterator");
                            else MC_CHECK(it++ == before, "i++ does not return the old position");
                        } else if (o <= 3) {
                            if (pos == 0) return 0;
                            pos--;
                            if (o == 2) MC_CHECK(&--it == &it, "--i does not return the iterator");
                            else MC_CHECK(it-- == before, "i-- does not return the old position");
                        } else {
                            uint32_t x = seeks[o - 4];
                            pos = std::lower_bound(v.begin(), v.end(), x) - v.begin();
                            MC_CHECK(it.move_equalorlarger(x) == (pos < v.size()), "move_equalorlarger(%u) result", x);
                        }
                        e.eval();
                        auto rel = [&](const RR::const_iterator &a, size_t pa, const RR::const_iterator &b, size_t pb) {
                            MC_CHECK((a == b) == (pa == pb) && (a != b) == (pa != pb), "== or != wrong between positions %zu and %zu", pa, pb);
                            MC_CHECK((a < b) == (pa < pb) && (a <= b) == (pa <= pb) && (a > b) == (pa > pb) && (a >= b) == (pa >= pb), "order wrong between positions %zu and %zu", pa, pb);
                        };
                        rel(it, pos, it, pos);
                        rel(it, pos, before, bpos);
                        rel(before, bpos, it, pos);
                        rel(it, pos, r.end(), v.size());
                        rel(r.end(), v.size(), it, pos);
                        rel(it, pos, r.begin(), 0);
                        if (pos < v.size()) MC_CHECK(*it == v[pos], "value %u, expected %u", *it, v[pos]);
                    }
                    --de;
                    MC_CHECK(*de == 11, "the end of one bitmap steps back to %u", *de);
                    mc::Hash hh;
                    hh.u64(pos);
                    hh.u64(it.i.container_index);
                    hh.u64(it.i.has_value);
                    fp = hh.h | 1;
                }
                ls.check("cursor");
                return fp;
            });
}
// ---- histories of value operations on several objects
struct VOp {
    std::string name;
    std::function<void(std::vector<RR> &, std::vector<Set> &)> f;
};
static uint64_t obj_hash(const RR &o, std::map<const void *, int> &ids) {
    mc::Hash h;
    const roaring_array_t &ra = o.roaring.high_low_container;
    std::string b(o.getSizeInBytes(), '\0');
    o.write(&b[0]);
    h.bytes(b.data(), b.size());
    h.u64(ra.flags);
    h.u64(ra.allocation_size);
    for (int c = 0; c < ra.size; c++) {
        h.u64(ra.typecodes[c]);
        h.u64(ids.emplace(ra.containers[c], (int)ids.size()).first->second);
    }
    return h.h;
}
static void values() {
    auto &e = mc::E();
    const int N = 3;
    std::vector<VOp> v;
    auto one = [&](const char *n, std::function<void(RR &, Set &)> f) {
        for (int i = 0; i < N; i++) v.push_back({mc::strf("#%d.%s", i, n), [=](std::vector<RR> &o, std::vector<Set> &s) { f(o[i], s[i]); }});
    };
    one("add(7)", [](RR &r, Set &s) { r.add(7); s.add(7); });
    one("remove(5)", [](RR &r, Set &s) { r.remove(5); s.remove(5); });
    one("addRange(60000,70000)", [](RR &r, Set &s) { r.addRange(60000, 70000); s = s.uni(Set::range(60000, 69999)); });
    one("removeRange(10,131072)", [](RR &r, Set &s) { r.removeRange(10, 131072); s = s.minus(Set::range(10, 131071)); });
    one("flip(0,65536)", [](RR &r, Set &s) { r.flip(0, 65536); s = s.xr(Set::range(0, 65535)); });
    one("runOptimize+shrinkToFit", [](RR &r, Set &) { r.runOptimize(); r.shrinkToFit(); });
    one("={5,200000}", [](RR &r, Set &s) { r = {5, 200000}; s = Set{5, 200000}; });
    one("=Roaring()", [](RR &r, Set &s) { r = RR(); s = Set(); });
    one("=itself", [](RR &r, Set &) { RR &q = r; r = q; });
    one("=move(itself)", [](RR &r, Set &s) { RR &q = r; r = std::move(q); s = set_of(r, "after moving to itself"); });
    one("-=itself", [](RR &r, Set &s) { RR &q = r; r -= q; s = Set(); });
    one("^=itself", [](RR &r, Set &s) { RR &q = r; r ^= q; s = Set(); });
    one("|=itself", [](RR &r, Set &) { RR &q = r; r |= q; });
    one("&=itself", [](RR &r, Set &) { RR &q = r; r &= q; });
    one("written and read", [](RR &r, Set &) {
        std::vector<char> b(r.getSizeInBytes());
        r.write(b.data());
        r = RR::readSafe(b.data(), b.size());
    });
    for (int i = 0; i < N; i++)
        for (int j = 0; j < N; j++) {
            if (i == j) continue;
            auto p = [&](const char *n, std::function<void(RR &, RR &, Set &, Set &)> f) {
                v.push_back({mc::strf("#%d %s #%d", i, n, j), [=](std::vector<RR> &o, std::vector<Set> &s) { f(o[i], o[j], s[i], s[j]); }});
            };
            p("=", [](RR &a, RR &b, Set &x, Set &y) { a = b; x = y; });
            p("=move", [](RR &a, RR &b, Set &x, Set &y) { a = std::move(b); x = y; y = Set(); });
            p("copy-constructed from", [](RR &a, RR &b, Set &x, Set &y) { a.~RR(); new (&a) RR(b); x = y; });
            p("move-constructed from", [](RR &a, RR &b, Set &x, Set &y) { a.~RR(); new (&a) RR(std::move(b)); x = y; y = Set(); });
            p("&=", [](RR &a, RR &b, Set &x, Set &y) { a &= b; x = x.inter(y); });
            p("|=", [](RR &a, RR &b, Set &x, Set &y) { a |= b; x = x.uni(y); });
            p("-=", [](RR &a, RR &b, Set &x, Set &y) { a -= b; x = x.minus(y); });
            p("^=", [](RR &a, RR &b, Set &x, Set &y) { a ^= b; x = x.xr(y); });
            if (i < j) p("swap", [](RR &a, RR &b, Set &x, Set &y) { a.swap(b); std::swap(x, y); });
            if (i < j) p("std::swap", [](RR &a, RR &b, Set &x, Set &y) { std::swap(a, b); std::swap(x, y); });
        }
    for (int i = 0; i < N; i++)
        for (int j = 0; j < N; j++)
            for (int k = 0; k < N; k++) {
                if (i == j) continue;
                v.push_back({mc::strf("#%d=#%d&#%d", k, i, j), [=](std::vector<RR> &o, std::vector<Set> &s) { o[k] = o[i] & o[j]; s[k] = s[i].inter(s[j]); }});
                v.push_back({mc::strf("#%d=#%d|#%d", k, i, j), [=](std::vector<RR> &o, std::vector<Set> &s) { o[k] = o[i] | o[j]; s[k] = s[i].uni(s[j]); }});
                v.push_back({mc::strf("#%d=#%d-#%d", k, i, j), [=](std::vector<RR> &o, std::vector<Set> &s) { o[k] = o[i] - o[j]; s[k] = s[i].minus(s[j]); }});
                v.push_back({mc::strf("#%d=#%d^#%d", k, i, j), [=](std::vector<RR> &o, std::vector<Set> &s) { o[k] = o[i] ^ o[j]; s[k] = s[i].xr(s[j]); }});
            }
    for (int k = 0; k < N; k++)
        v.push_back({mc::strf("#%d=fastunion", k), [=](std::vector<RR> &o, std::vector<Set> &s) {
                         const RR *l[] = {&o[0], &o[1], &o[2]};
                         Set u = s[0].uni(s[1]).uni(s[2]);
                         o[k] = RR::fastunion(3, l);
                         s[k] = u;
                     }});
    for (int cow = 0; cow < 2; cow++)
        e.bfs(cow ? "values-cow" : "values", (int)v.size(), e.thorough ? 4 : 2 + !cow, [&](const mc::Engine::Hist &h) -> uint64_t {
            LeakScope ls;
            uint64_t fp = 0;
            std::string d;
            for (auto o : h) d += v[o].name + "; ";
            e.detail("%s%s", cow ? "copy-on-write: " : "", d.c_str());
            {
                std::vector<RR> o;
                std::vector<Set> s(N);
                Chunks c0 = {{0, Set{1, 5, 60000}, R_ARRAY}, {1, Set::range(10, 1000).uni(Set::range(2000, 2999)), R_RUN}};
                Chunks c1 = {{0, Set::range(100, 5099), R_BITSET}, {3, Set{5}, R_ARRAY}};
                int64_t b0 = hk::S.live_bytes;
                o.emplace_back(build_chunks(c0));
                o.emplace_back(build_chunks(c1));
                o.emplace_back();
                s[0] = chunks_set(c0);
                s[1] = chunks_set(c1);
                auto flags = [&] {
                    if (cow)
                        for (auto &x : o) x.setCopyOnWrite(true);
                };
                flags();
                for (auto k : h) {
                    v[k].f(o, s);
                    flags();
                    e.eval();
                }
                for (int i = 0; i < N; i++) same(o[i], s[i], mc::strf("object %d", i).c_str());
                for (int i = 0; i < N; i++)
                    for (int j = 0; j < N; j++) MC_CHECK((o[i] == o[j]) == (s[i] == s[j]), "#%d == #%d", i, j);
                std::vector<int> p(N);
                for (int i = 0; i < N; i++) p[i] = i;
                uint64_t best = ~0ull;
                do {
                    std::map<const void *, int> ids;
                    mc::Hash hh;
                    for (int i : p) hh.u64(obj_hash(o[i], ids));
                    best = std::min(best, hh.h);
                } while (std::next_permutation(p.begin(), p.end()));
                mc::Hash hh;
                hh.u64(best);
                hh.u64((uint64_t)(hk::S.live_bytes - b0));
                fp = hh.h | 1;
            }
            ls.check("after destroying every object");
            return fp;
        });
}
int main(int argc, char **argv) {
    auto &e = mc::E();
    e.init(argc, argv, "C21");
    hk::install();
    api();
    two();
    lists();
    cursors();
    values();
    e.rule = "every method, operator and constructor of the class on a catalogue of bitmaps and of pairs; every iterator walk "
             "and every history of value operations on three objects up to the stated depth, each step compared with an "
             "independent set model, every object destroyed under a counting allocator";
    return e.finish();
}
