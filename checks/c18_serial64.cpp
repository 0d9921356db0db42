// C18: 64-bit portable and frozen round trips, and the bounds-checked reader on damaged bytes.
#include "allops.hpp"
#include "hist64.hpp"
#include "queries64.hpp"
#include "untrusted.hpp"
#include "zoo64.hpp"
struct Buf {
    char *base, *p;
    size_t n;
    Buf(size_t n, size_t align, size_t off = 0) : n(n) {
        if (posix_memalign((void **)&base, align, n + off)) abort();
        p = base + off;
        memset(base, 0xC3, n + off);
    }
    ~Buf() { free(base); }
};
int main(int argc, char **argv) {
    auto &e = mc::E();
    e.init(argc, argv, "C18");
    hk::install();
    typedef unsigned long long ull;
    auto z = zoo64(e.thorough ? 2 : 1);
    auto use = [&](R64 *r, const Set &S, const char *what, bool writable, bool light) {
        MC_CHECK(r, "%s refused its own bytes", what);
        RP64 h(r);
        expect_set64(r, S, what);
        expect_valid64(r, what);
        if (light) {
            RP64 c(roaring64_bitmap_copy(r));
            MC_CHECK(roaring64_bitmap_equals(c.get(), r) && roaring64_bitmap_get_cardinality(r) == S.card(), "%s: copy or cardinality", what);
            e.eval();
            return;
        }
        check_queries64(r, S, 4);
        auto walk = [&](bool fwd) {
            roaring64_iterator_t *it = fwd ? roaring64_iterator_create(r) : roaring64_iterator_create_last(r);
            uint64_t n = 0, prev = 0;
            bool ok = true;
            while (roaring64_iterator_has_value(it) && n < 5000) {
                uint64_t v = roaring64_iterator_value(it);
                ok &= S.has(v) && (!n || (fwd ? v > prev : v < prev));
                prev = v;
                n++;
                fwd ? roaring64_iterator_advance(it) : roaring64_iterator_previous(it);
            }
            bool seek = S.empty() || (roaring64_iterator_move_equalorlarger(it, S.max()) && roaring64_iterator_value(it) == S.max());
            roaring64_iterator_free(it);
            MC_CHECK(ok && seek && (n == S.card() || n == 5000), "%s: wrong %s iteration", what, fwd ? "forward" : "backward");
        };
        walk(true);
        walk(false);
        RP64 c(roaring64_bitmap_copy(r));
        uint64_t y = S.empty() ? 5 : S.max() ^ 1, lo = S.empty() ? 0 : S.min();
        uint64_t hi = lo > U64M - 200000 ? U64M : lo + 200000;
        auto upd = [&](R64 *b) {
            roaring64_bitmap_add(b, y);
            roaring64_bitmap_add(b, 0xABCDEF0123456ull);
            roaring64_bitmap_remove_range_closed(b, lo, hi);
        };
        Set W = S;
        W.add(y);
        W.add(0xABCDEF0123456ull);
        W.remove_range(lo, hi);
        upd(c.get());
        expect_set64(c.get(), W, "updated copy of a 64-bit bitmap that was read back");
        RP64 u(roaring64_bitmap_or(r, c.get())), x(roaring64_bitmap_xor(c.get(), r)), a(roaring64_bitmap_and(r, c.get())), d(roaring64_bitmap_andnot(r, c.get()));
        expect_set64(u.get(), S.uni(W), "or with a 64-bit bitmap that was read back");
        expect_set64(x.get(), S.xr(W), "xor with a 64-bit bitmap that was read back");
        expect_set64(a.get(), S.inter(W), "and with a 64-bit bitmap that was read back");
        expect_set64(d.get(), S.minus(W), "andnot with a 64-bit bitmap that was read back");
        RP64 f(roaring64_bitmap_flip_closed(r, lo, hi));
        expect_set64(f.get(), S.flip(lo, hi), "flip of a 64-bit bitmap that was read back");
        if (writable) {
            upd(r);
            expect_set64(r, W, "updated 64-bit bitmap that was read back");
        }
        e.eval();
    };
    // every reader and writer on one bitmap; a light run skips the shortened buffers
    auto trip = [&](R64 *raw, const Set &S, const std::string &nm, bool light) {
        struct { std::string name; } b{nm};
        RP64 r(raw);
        {
            size_t n = roaring64_bitmap_portable_size_in_bytes(r.get());
            std::string first;
            for (size_t off = 0; off < (light ? 1u : 2u); off++) {
                e.detail("%s portable offset %zu", b.name.c_str(), off);
                Buf w(n, 64, off);
                size_t k = roaring64_bitmap_portable_serialize(r.get(), w.p);
                MC_CHECK(k == n, "64-bit portable_serialize wrote %zu, announced %zu", k, n);
                if (off) MC_CHECK(first == std::string(w.p, n), "portable bytes depend on the buffer alignment");
                first.assign(w.p, n);
                size_t ps = roaring64_bitmap_portable_deserialize_size(w.p, n);
                MC_CHECK(ps == n, "64-bit portable_deserialize_size says %zu, expected %zu", ps, n);
                use(roaring64_bitmap_portable_deserialize_safe(w.p, n), S, "64-bit portable_deserialize_safe", true, light);
                MC_CHECK(std::string(w.p, n) == first, "reading changed the buffer");
                for (size_t len = light ? n : 0; len < n; len += n > 200 ? 1 + n / 40 : 1) {
                    Buf t(len, 64, 0);
                    memcpy(t.p, w.p, len);
                    RP64 bad(roaring64_bitmap_portable_deserialize_safe(t.p, len));
                    MC_CHECK(!bad, "truncated 64-bit stream accepted (%zu of %zu)", len, n);
                    MC_CHECK(!roaring64_bitmap_portable_deserialize_size(t.p, len), "size probe accepts a truncated 64-bit stream");
                }
            }
            {
                RP64 back(roaring64_bitmap_portable_deserialize_safe(first.data(), n));
                MC_CHECK(roaring64_bitmap_equals(back.get(), r.get()), "read back 64-bit bitmap not equal to the original");
                MC_CHECK(ser_bytes64(back.get()) == first, "serializing what was read back gives other bytes");
            }
            // frozen: only when announced (compact bitmaps); after shrinking always
            for (int shrunk = 0; shrunk < 2; shrunk++) {
                e.detail("%s frozen %d", b.name.c_str(), shrunk);
                if (shrunk) roaring64_bitmap_shrink_to_fit(r.get());
                expect_set64(r.get(), S, "shrink_to_fit");
                size_t fn = roaring64_bitmap_frozen_size_in_bytes(r.get());
                if (shrunk) MC_CHECK(fn > 0, "frozen size 0 after shrink_to_fit");
                Buf w(fn, 64, 0);
                size_t k = roaring64_bitmap_frozen_serialize(r.get(), w.p);
                MC_CHECK(k == fn, "64-bit frozen_serialize wrote %zu, announced %zu", k, fn);
                if (!fn) continue;
                std::string f(w.p, fn);
                use(roaring64_bitmap_frozen_view(w.p, fn), S, "64-bit frozen_view", false, light);
                MC_CHECK(std::string(w.p, fn) == f, "using the 64-bit frozen view changed its buffer");
                RP64 v(roaring64_bitmap_frozen_view(w.p, fn));
                MC_CHECK(roaring64_bitmap_equals(v.get(), r.get()), "64-bit frozen view not equal to the original");
                MC_CHECK(ser_bytes64(v.get()) == first, "portable bytes of the 64-bit frozen view differ");
                RP64 c(roaring64_bitmap_copy(v.get()));
                roaring64_bitmap_shrink_to_fit(c.get());
                size_t cn = roaring64_bitmap_frozen_size_in_bytes(c.get());
                Buf cw(cn, 64, 0);
                MC_CHECK(cn && roaring64_bitmap_frozen_serialize(c.get(), cw.p) == cn, "a copy of the view cannot be frozen");
                RP64 cv(roaring64_bitmap_frozen_view(cw.p, cn));
                MC_CHECK(cv && roaring64_bitmap_equals(cv.get(), r.get()), "frozen copy of the view not equal to the original");
                Buf mis(fn + 8, 64, 8);
                memcpy(mis.p, w.p, fn);
                RP64 bad(roaring64_bitmap_frozen_view(mis.p, fn));
                MC_CHECK(!bad, "64-bit frozen_view accepted a misaligned buffer");
                // a shortened buffer is refused, unless only padding is missing
                if (shrunk && !light)
                    for (size_t k = 0; k < fn; k += k < 150 || fn - k < 70 ? 1 : std::max<size_t>(1, fn / 17)) {
                        Buf cut(k, 64, 0);
                        memcpy(cut.p, w.p, k);
                        RP64 t(roaring64_bitmap_frozen_view(cut.p, k));
                        if (!t) continue;
                        MC_CHECK(fn - k < 64, "64-bit frozen_view accepted %zu of %zu bytes", k, fn);
                        expect_set64(t.get(), S, "64-bit frozen view without its padding");
                    }
            }
            // the bitmap stays usable after serialization
            roaring64_bitmap_add(r.get(), 0x7777777777ull);
            Set W = S;
            W.add(0x7777777777ull);
            expect_set64(r.get(), W, "64-bit bitmap updated after serialization");
            mc::Hash h;
            h.bytes(first.data(), first.size());
            e.outcome(h.h);
        }
    };
    e.parallel("zoo64", z.size(), [&](uint64_t i) {
        LeakScope ls;
        trip(zoo64_build(z[i]), z[i].s, z[i].name, false);
        ls.check("64-bit serialization round trips");
    }, nullptr, 1);
    // what operations leave behind: results and in-place operands, with their freed or moved slots
    {
        static const std::vector<Set> ks = {Set(), Set{3, 9, 65535}, Set::range(62, 4300), Set{3}.uni(Set::range(4301, 65535)), full16()};
        static const uint64_t keys[3] = {0, 0x30, 0x123400000001ull};
        static const int nl = 125;
        auto lay = [&](uint64_t q) {
            Set t;
            for (int j = 0; j < 3; j++, q /= 5) t = t.uni(ks[q % 5].shift(keys[j] << 16));
            return t;
        };
        auto ops = ops64();
        uint64_t step = e.thorough ? 1 : 29;  // quick: a fixed lattice over the pairs, every operation on each
        uint64_t np = (nl * nl + step - 1) / step;
        e.parallel("results64", np, [&](uint64_t i) {
            uint64_t q = i * step;
            Set A = lay(q % nl), B = lay(q / nl);
            for (auto &o : ops) {
                std::string nm = mc::strf("layouts %llu and %llu: %s", (ull)(q % nl), (ull)(q / nl), o.name.c_str());
                e.detail("%s", nm.c_str());
                LeakScope ls;
                {
                    RP64 a(build64(A, rep_natural)), b(build64(B, q % 2 ? rep_run : rep_natural));
                    R64 *r = o.f(a.get(), b.get());
                    Set W = o.m(A, B);
                    if (o.inplace) a.release();
                    trip(r, W, nm, true);
                }
                ls.check(nm.c_str());
            }
        }, nullptr, 4);
        std::vector<h64::Op> hs = {h64::addr(0x300005, 0x310007), h64::remr(0, 0x300004), h64::remr(0x300000, 0x310000), h64::flip(0, 0x10000), h64::flip(0x2FFFFF, 0x310001),
                                   h64::addm("spread", {7, 0x200000, 0x300009, 0x123400000001ull << 16, 8}), h64::remm("spread", {3, 9, 65535, 0x300003, 0x300009, 0x30FFFF}),
                                   h64::addc(0x7FFFFFFFFFFFFFFFull), h64::remc(0x300003), h64::runopt()};
        uint64_t nh = hs.size(), per = nh * nh * nh;
        static const int starts[4] = {0, 31, 57, 124};
        e.parallel("histories64", per * 4, [&](uint64_t i) {
            LeakScope ls;
            Set S = lay(starts[i % 4]);
            uint64_t q = i / 4;
            {
                RP64 r(build64(S, rep_natural));
                std::string nm = mc::strf("layout %d:", starts[i % 4]);
                for (int j = 0; j < 3; j++, q /= nh) {
                    nm += " " + hs[q % nh].name;
                    hs[q % nh].f(r.get(), S);
                }
                e.detail("%s", nm.c_str());
                trip(r.release(), S, nm, true);
            }
            ls.check("64-bit serialization after updates");
        }, nullptr, 4);
    }
    auto b64 = ut::bases64();
    ut::families(b64, ut::one64, "r64-");
    ut::wide(ut::one64, true, "r64-");
    // bucket counts and keys, field by field
    static const uint64_t counts[] = {0, 1, 2, 3, 0xFFFFFFFFull, 0x100000000ull, 1ull << 63, U64M};
    static const uint32_t keys[] = {0, 1, 2, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFFu};
    e.parallel("r64-buckets", 8 * 6 * 6 * 4, [&](uint64_t i) {
        std::string s;
        put64(s, counts[i % 8]);
        put32(s, keys[i / 8 % 6]);
        Chunks c1 = {{0, Set{1, 2}, R_ARRAY}}, c2 = {{3, Set{9}, R_ARRAY}, {4, Set::range(1, 3), R_RUN}};
        uint64_t v = i / 288;
        s += encode32(v & 1 ? c2 : c1);
        put32(s, keys[i / 48 % 6]);
        s += encode32(v & 2 ? Chunks() : c2);
        e.detail("bucket count %llx keys %x %x variant %llu", (ull)counts[i % 8], keys[i / 8 % 6], keys[i / 48 % 6], (ull)v);
        for (size_t n = 0; n <= s.size(); n++) ut::one64(s, n);
        for (size_t x : {1, 4, 20}) ut::one64(s + std::string(x, '\0'), s.size() + x);
    });
    e.rule = "each case is one 64-bit bitmap (chunk shapes, key layouts, index sizes, histories with freed slots, results and operands of every operation, every history of three updates) written in both formats into exactly sized buffers and read back, or one damaged stream";
    e.samples.push_back(z[40].name);
    return e.finish();
}
