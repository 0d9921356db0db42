// C20: the uncompressed bitset against a mathematical set of non-negative integers.
#include <roaring/bitset/bitset.h>
#include <functional>
#include <memory>
#include "../lib/hooks.hpp"
#include "../lib/mc.hpp"
#include "../lib/model.hpp"
using namespace mc;

struct BFree {
    void operator()(bitset_t *b) const { bitset_free(b); }
};
typedef std::unique_ptr<bitset_t, BFree> BP;
typedef std::vector<uint64_t> Words;

static Set wset(const Words &w) {
    Set s;
    for (size_t i = 0; i < w.size() * 64; i++)
        if (w[i / 64] >> (i % 64) & 1) s.add(i);
    return s;
}
// build through the public interface; spare>0 leaves spare capacity holding stale ones behind the size
static bitset_t *mk(const Words &w, int spare) {
    bitset_t *b = bitset_create_with_capacity((w.size() + spare) * 64);
    MC_CHECK(b, "create_with_capacity failed");
    if (spare) {
        bitset_fill(b);
        MC_CHECK(bitset_resize(b, w.size(), true), "resize down failed");
        bitset_clear(b);
    }
    for (size_t i = 0; i < w.size() * 64; i++)
        if (w[i / 64] >> (i % 64) & 1) bitset_set(b, i);
    return b;
}
struct ForEach {
    std::vector<size_t> got;
    size_t stop;
};
static bool fe_cb(size_t v, void *p) {
    ForEach *f = (ForEach *)p;
    f->got.push_back(v);
    return f->got.size() != f->stop;
}
static void expect(const bitset_t *b, const Set &s, const char *what, bool full = true) {
    MC_CHECK(b, "%s: NULL", what);
    size_t n = bitset_size_in_words(b);
    MC_CHECK(bitset_size_in_bits(b) == n * 64 && bitset_size_in_bytes(b) == n * 8, "%s: sizes disagree", what);
    size_t c = bitset_count(b);
    MC_CHECK(c == s.card(), "%s: count %zu, expected %llu", what, c, (unsigned long long)s.card());
    MC_CHECK(bitset_empty(b) == s.empty(), "%s: empty() wrong", what);
    MC_CHECK(bitset_minimum(b) == (s.empty() ? SIZE_MAX : (size_t)s.min()), "%s: minimum %zu", what, bitset_minimum(b));
    MC_CHECK(bitset_maximum(b) == (s.empty() ? 0 : (size_t)s.max()), "%s: maximum %zu", what, bitset_maximum(b));
    size_t lim = n * 64 + 130;
    for (size_t i = 0; i < lim; i++)
        if (bitset_get(b, i) != s.has(i)) fail("%s: get(%zu) = %d", what, i, (int)bitset_get(b, i));
    MC_CHECK(!bitset_get(b, SIZE_MAX), "%s: get(SIZE_MAX) is set", what);
    auto l = s.list();
    size_t k = 0;
    for (size_t i = 0; bitset_next_set_bit(b, &i); i++, k++) MC_CHECK(k < l.size() && l[k] == i, "%s: next_set_bit gave %zu at position %zu", what, i, k);
    MC_CHECK(k == l.size(), "%s: next_set_bit ended after %zu of %zu", what, k, l.size());
    if (!full) return;
    // from every start
    for (size_t i = 0; i < n * 64 + 70; i++) {
        size_t p = i;
        uint64_t w;
        bool g = bitset_next_set_bit(b, &p), e = s.next_ge(i, w);
        MC_CHECK(g == e && (!g || p == w), "%s: next_set_bit from %zu: %d %zu", what, i, (int)g, p);
    }
    for (size_t cap : {(size_t)0, (size_t)1, (size_t)2, (size_t)3, (size_t)5, (size_t)64, (size_t)65, l.size(), l.size() + 1}) {
        std::vector<size_t> buf(cap + 1, (size_t)-7), all;
        if (cap == 0) {
            size_t st = 0;
            MC_CHECK(bitset_next_set_bits(b, buf.data(), 0, &st) == 0, "%s: next_set_bits with capacity 0", what);
            continue;
        }
        size_t got, st = 0;
        for (; (got = bitset_next_set_bits(b, buf.data(), cap, &st)) > 0; st++) {
            MC_CHECK(got <= cap && buf[cap] == (size_t)-7, "%s: next_set_bits overran its buffer", what);
            MC_CHECK(st == buf[got - 1], "%s: next_set_bits position %zu after %zu", what, st, buf[got - 1]);
            MC_CHECK(got == cap || all.size() + got == l.size(), "%s: next_set_bits short block %zu of %zu", what, got, cap);
            all.insert(all.end(), buf.begin(), buf.begin() + got);
            if (all.size() > l.size()) break;
        }
        MC_CHECK(all.size() == l.size() && std::equal(all.begin(), all.end(), l.begin()), "%s: next_set_bits blocks of %zu gave %zu values", what, cap, all.size());
    }
    for (size_t i = 0; i < n * 64 + 3; i++) {
        size_t buf[4] = {9, 9, 9, 9}, st = i;
        size_t got = bitset_next_set_bits(b, buf, 3, &st);
        size_t r = (size_t)(i ? s.rank(i - 1) : 0), e = std::min<size_t>(3, l.size() - r);
        MC_CHECK(got == e, "%s: next_set_bits from %zu gave %zu of %zu", what, i, got, e);
        for (size_t j = 0; j < e; j++) MC_CHECK(buf[j] == l[r + j], "%s: next_set_bits from %zu wrong value", what, i);
    }
    for (size_t stop = 0; stop <= l.size() + 1; stop = stop < 4 || stop + 4 > l.size() ? stop + 1 : l.size() - 1) {
        ForEach f;
        f.stop = stop;
        bool r = bitset_for_each(b, fe_cb, &f);
        bool cut = stop >= 1 && stop <= l.size();
        MC_CHECK(r == !cut, "%s: for_each returned %d (stop %zu of %zu)", what, (int)r, stop, l.size());
        size_t m = cut ? stop : l.size();
        MC_CHECK(f.got.size() == m && std::equal(f.got.begin(), f.got.end(), l.begin()), "%s: for_each visited %zu", what, f.got.size());
    }
}
static void leakcheck(int64_t l0, const char *w) {
    MC_CHECK(hk::S.live == l0, "%s: %lld blocks left", w, (long long)(hk::S.live - l0));
    MC_CHECK(hk::S.foreign == 0, "%s: memory hooks bypassed", w);
}
static void pair_case(const Words &wa, int sa, const Words &wb, int sb) {
    int64_t l0 = hk::S.live;
    Set A = wset(wa), B = wset(wb);
    {
        BP b(mk(wb, sb));
        {
            BP a(mk(wa, sa));
            Set I = A.inter(B), U = A.uni(B), D = A.minus(B), X = A.xr(B);
            auto eq = [&](const char *n, size_t g, uint64_t w) { if (g != w) fail("%s %zu, expected %llu", n, g, (unsigned long long)w); };
            eq("intersection_count", bitset_intersection_count(a.get(), b.get()), I.card());
            eq("union_count", bitset_union_count(a.get(), b.get()), U.card());
            eq("difference_count", bitset_difference_count(a.get(), b.get()), D.card());
            eq("symmetric_difference_count", bitset_symmetric_difference_count(a.get(), b.get()), X.card());
            eq("disjoint", bitsets_disjoint(a.get(), b.get()), I.empty());
            eq("intersect", bitsets_intersect(a.get(), b.get()), !I.empty());
            eq("contains_all", bitset_contains_all(a.get(), b.get()), B.subset_of(A));
            E().eval(7);
            E().outcome(U.card() * 1000003 + I.card() * 4099 + wa.size() * 64 + wb.size());
        }
        for (int op = 0; op < 4; op++) {
            BP a(mk(wa, sa));
            static const char *nm[] = {"inplace_union", "inplace_intersection", "inplace_difference", "inplace_symmetric_difference"};
            Set w;
            bool ok = true;
            switch (op) {
                case 0: ok = bitset_inplace_union(a.get(), b.get()); w = A.uni(B); break;
                case 1: bitset_inplace_intersection(a.get(), b.get()); w = A.inter(B); break;
                case 2: bitset_inplace_difference(a.get(), b.get()); w = A.minus(B); break;
                default: ok = bitset_inplace_symmetric_difference(a.get(), b.get()); w = A.xr(B);
            }
            MC_CHECK(ok, "%s reported failure", nm[op]);
            expect(a.get(), w, nm[op], false);
            // what lies behind the logical end must not come back
            size_t n = bitset_size_in_words(a.get());
            MC_CHECK(bitset_grow(a.get(), n + 3), "grow failed");
            expect(a.get(), w, "grow after it", false);
            E().eval(2);
        }
        expect(b.get(), B, "right operand", false);
    }
    leakcheck(l0, "pair");
}
static std::string ws(const Words &w) {
    std::string s = "[";
    for (auto x : w) s += strf("%llx ", (unsigned long long)x);
    return s + "]";
}
struct Op {
    std::string name;
    std::function<bool(bitset_t *, Set &)> f;  // false: not applicable in this state
};
int main(int argc, char **argv) {
    auto &e = E();
    e.init(argc, argv, "C20");
    hk::install();
    bool T = e.thorough;
    std::vector<uint64_t> alpha = {0, 1, 1ull << 63, ~0ull, 0x8000000000000001ull};
    alpha.push_back(0x00FF00F000000F80ull);
    std::vector<Words> small;
    for (size_t n = 0; n <= 3; n++) {
        size_t c = 1;
        for (size_t i = 0; i < n; i++) c *= alpha.size();
        for (size_t q = 0; q < c; q++) {
            Words w;
            size_t x = q;
            for (size_t i = 0; i < n; i++, x /= alpha.size()) w.push_back(alpha[x % alpha.size()]);
            small.push_back(w);
        }
    }
    std::vector<Words> wide;
    for (size_t n = 0; n <= (T ? 20 : 13); n++)
        for (int v = 0; v < 6; v++) {
            Words w(n, 0);
            for (size_t i = 0; i < n; i++)
                w[i] = v == 0 ? 0 : v == 1 ? ~0ull : v == 2 ? 0x1111ull << i : v == 3 ? (i == n - 1 ? 1ull << 63 : 0) : v == 4 ? (i == 0 ? 1 : 0) : (i % 2 ? ~0ull : i);
            if (n || v == 0) wide.push_back(w);
        }
    e.rule = "an outcome is one (sizes, union, intersection cardinality) of a pair or one state of the sequence search";
    e.samples.push_back("pair " + ws(small[40]) + " / " + ws(small[100]) + " with spare capacity holding stale ones");
    std::vector<Words> all = small;
    all.insert(all.end(), wide.begin(), wide.end());
    // every single bitset: queries, copy, shifts by every amount, trim, resize, grow
    e.parallel("single", all.size() * 2, [&](uint64_t i) {
        const Words &w = all[i / 2];
        int sp = i % 2 ? 2 : 0;
        e.detail("%s spare %d", ws(w).c_str(), sp);
        int64_t l0 = hk::S.live;
        Set s = wset(w);
        {
            BP b(mk(w, sp));
            expect(b.get(), s, "built");
            BP c(bitset_copy(b.get()));
            expect(c.get(), s, "copy", false);
            bitset_set(c.get(), 64 * w.size() + 5);
            expect(b.get(), s, "original after the copy changed", false);
            Set s2 = s;
            s2.add(64 * w.size() + 5);
            expect(c.get(), s2, "changed copy", false);
            e.eval(3);
        }
        size_t lim = 64 * (w.size() + 2) + 2;
        for (size_t k = 0; k <= lim; k++) {
            e.detail("%s spare %d shift %zu", ws(w).c_str(), sp, k);
            BP b(mk(w, sp));
            bitset_shift_left(b.get(), k);
            expect(b.get(), s.shift(k), "shift_left", false);
            BP d(mk(w, sp));
            bitset_shift_right(d.get(), k);
            Set r;
            for (auto iv : s.v)
                if (iv.b >= k) r.v.push_back({iv.a < k ? 0 : iv.a - k, iv.b - k});
            expect(d.get(), r, "shift_right", false);
            // room given up by the shift must read as zeros again
            MC_CHECK(bitset_grow(d.get(), bitset_size_in_words(d.get()) + 4), "grow failed");
            expect(d.get(), r, "grow after shift_right", false);
            bitset_shift_left(d.get(), k);
            expect(d.get(), r.shift(k), "shift_left after shift_right", false);
            e.eval(4);
        }
        for (size_t n = 0; n <= w.size() + 3; n++) {
            e.detail("%s spare %d size %zu", ws(w).c_str(), sp, n);
            BP b(mk(w, sp));
            MC_CHECK(bitset_resize(b.get(), n, true), "resize failed");
            MC_CHECK(bitset_size_in_words(b.get()) == n, "resize gave %zu words", bitset_size_in_words(b.get()));
            Set r = n ? s.inter(Set::range(0, n * 64 - 1)) : Set();
            expect(b.get(), r, "resize", false);
            MC_CHECK(bitset_grow(b.get(), n + 2), "grow failed");
            expect(b.get(), r, "grow after resize", false);
            MC_CHECK(!bitset_grow(b.get(), n + 1), "grow to a smaller size reported success");
            expect(b.get(), r, "refused grow", false);
            int64_t before = hk::S.live_bytes;
            MC_CHECK(bitset_trim(b.get()), "trim reported failure");
            MC_CHECK(hk::S.live_bytes <= before, "trim used more memory");
            expect(b.get(), r, "trim", false);
            MC_CHECK(bitset_size_in_words(b.get()) == (r.empty() ? 0 : r.max() / 64 + 1), "trim left %zu words", bitset_size_in_words(b.get()));
            bitset_set(b.get(), 200);
            r.add(200);
            expect(b.get(), r, "set after trim", false);
            MC_CHECK(bitset_trim(b.get()), "second trim reported failure");
            expect(b.get(), r, "second trim", false);
            e.eval(6);
        }
        MC_CHECK(!bitset_resize(BP(mk(w, sp)).get(), SIZE_MAX / 32, true), "resize to an impossible size succeeded");
        {
            BP b(mk(w, sp));
            bitset_set(b.get(), SIZE_MAX);
            bitset_set_to_value(b.get(), SIZE_MAX - 64, true);
            expect(b.get(), s, "set of an impossible bit", false);
            bitset_fill(b.get());
            expect(b.get(), w.empty() ? Set() : Set::range(0, w.size() * 64 - 1), "fill", false);
            bitset_clear(b.get());
            expect(b.get(), Set(), "clear", false);
        }
        leakcheck(l0, "single");
    });
    e.parallel("capacity", 400, [&](uint64_t n) {
        int64_t l0 = hk::S.live;
        size_t req = n < 390 ? n : SIZE_MAX - (n - 390) * 9;
        {
            BP b(bitset_create_with_capacity(req));
            if (n < 390) {
                MC_CHECK(b, "create_with_capacity(%zu) failed", req);
                expect(b.get(), Set(), "create_with_capacity");
            }
            if (b) MC_CHECK(bitset_size_in_bits(b.get()) >= req, "create_with_capacity(%zu) can hold %zu bits", req, bitset_size_in_bits(b.get()));
        }
        leakcheck(l0, "capacity");
    });
    e.parallel("pairs-small", (uint64_t)small.size() * small.size(), [&](uint64_t i) {
        const Words &a = small[i / small.size()], &b = small[i % small.size()];
        for (int sp = 0; sp < 4; sp++) {
            e.detail("a=%s b=%s spare %d", ws(a).c_str(), ws(b).c_str(), sp);
            pair_case(a, sp & 1 ? 3 : 0, b, sp & 2 ? 1 : 0);
        }
    }, nullptr, 8);
    e.parallel("pairs-wide", (uint64_t)wide.size() * wide.size(), [&](uint64_t i) {
        const Words &a = wide[i / wide.size()], &b = wide[i % wide.size()];
        for (int sp = 0; sp < (T ? 4 : 2); sp++) {
            e.detail("a=%s b=%s spare %d", ws(a).c_str(), ws(b).c_str(), sp);
            pair_case(a, sp & 1 ? 9 : 0, b, sp & 2 ? 1 : 0);
        }
    }, nullptr, 4);
    // every operation sequence
    std::vector<Op> ops;
    auto add = [&](std::string n, std::function<bool(bitset_t *, Set &)> f) { ops.push_back({n, f}); };
    for (size_t x : {(size_t)0, (size_t)63, (size_t)64, (size_t)130}) {
        add(strf("set(%zu)", x), [=](bitset_t *b, Set &s) { bitset_set(b, x); s.add(x); return true; });
        add(strf("unset(%zu)", x), [=](bitset_t *b, Set &s) { bitset_set_to_value(b, x, false); s.remove(x); return true; });
    }
    add("put(191)", [](bitset_t *b, Set &s) { bitset_set_to_value(b, 191, true); s.add(191); return true; });
    for (size_t k : {(size_t)1, (size_t)63, (size_t)64, (size_t)65, (size_t)200}) {
        add(strf("shift_left(%zu)", k), [=](bitset_t *b, Set &s) {
            if (bitset_size_in_words(b) > 6) return false;
            bitset_shift_left(b, k);
            s = s.shift(k);
            return true;
        });
        add(strf("shift_right(%zu)", k), [=](bitset_t *b, Set &s) {
            bitset_shift_right(b, k);
            Set r;
            for (auto iv : s.v)
                if (iv.b >= k) r.v.push_back({iv.a < k ? 0 : iv.a - k, iv.b - k});
            s = r;
            return true;
        });
    }
    add("fill", [](bitset_t *b, Set &s) {
        bitset_fill(b);
        size_t n = bitset_size_in_bits(b);
        s = n ? Set::range(0, n - 1) : Set();
        return true;
    });
    add("clear", [](bitset_t *b, Set &s) { bitset_clear(b); s = Set(); return true; });
    add("trim", [](bitset_t *b, Set &s) { (void)s; MC_CHECK(bitset_trim(b), "trim reported failure"); return true; });
    for (size_t n : {(size_t)0, (size_t)1, (size_t)3})
        add(strf("resize(%zu)", n), [=](bitset_t *b, Set &s) {
            MC_CHECK(bitset_resize(b, n, true), "resize reported failure");
            s = n ? s.inter(Set::range(0, n * 64 - 1)) : Set();
            return true;
        });
    add("grow(+1)", [](bitset_t *b, Set &s) {
        (void)s;
        if (bitset_size_in_words(b) > 6) return false;
        MC_CHECK(bitset_grow(b, bitset_size_in_words(b) + 1), "grow reported failure");
        return true;
    });
    static const std::vector<Words> opnd = {{}, {1, 1ull << 63, 3}, {~0ull, ~0ull}};
    for (size_t q = 1; q < opnd.size(); q++)
        for (int o = 0; o < 4; o++) {
            static const char *nm[] = {"union", "intersection", "difference", "symmetric_difference"};
            Words w = opnd[q];
            add(strf("%s(%s)", nm[o], ws(w).c_str()), [=](bitset_t *b, Set &s) {
                BP c(mk(w, 1));
                Set W = wset(w);
                bool ok = true;
                if (o == 0) { ok = bitset_inplace_union(b, c.get()); s = s.uni(W); }
                else if (o == 1) { bitset_inplace_intersection(b, c.get()); s = s.inter(W); }
                else if (o == 2) { bitset_inplace_difference(b, c.get()); s = s.minus(W); }
                else { ok = bitset_inplace_symmetric_difference(b, c.get()); s = s.xr(W); }
                MC_CHECK(ok, "reported failure");
                return true;
            });
        }
    e.samples.push_back("history: set(63) shift_left(65) trim symmetric_difference(..)");
    e.bfs("hist", (int)ops.size(), T ? 7 : 5, [&](const Engine::Hist &h) -> uint64_t {
        std::string d;
        for (auto o : h) d += ops[o].name + " ";
        e.detail("%s", d.c_str());
        int64_t l0 = hk::S.live;
        uint64_t fp;
        {
            int64_t b0 = hk::S.live_bytes;
            BP b(bitset_create());
            Set s;
            for (auto o : h) {
                if (!ops[o].f(b.get(), s)) { return 0; }
                e.eval();
            }
            expect(b.get(), s, h.empty() ? "initial" : ops[h.back()].name.c_str());
            Hash H;
            for (auto iv : s.v) { H.u64(iv.a); H.u64(iv.b); }
            H.u64(bitset_size_in_words(b.get()));
            H.u64((uint64_t)(hk::S.live_bytes - b0));
            // stale words behind the logical end are part of the state: what padding must hide
            size_t n = bitset_size_in_words(b.get());
            for (size_t i = n; i < b->capacity; i++) H.u64(b->array[i]);
            fp = H.h | 1;
        }
        leakcheck(l0, "history");
        return fp;
    });
    return e.finish();
}
