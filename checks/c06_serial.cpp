// C06: portable, native and frozen round trips with exactly sized buffers.
#include "allops.hpp"
#include "queries32.hpp"
#include "zoo.hpp"
struct Buf {  // exactly n bytes at the wanted alignment; the library is instrumented, so any access outside is caught
    char *base, *p;
    size_t n;
    Buf(size_t n, size_t align, size_t off = 0) : n(n) {
        if (posix_memalign((void **)&base, align, n + off)) abort();
        p = base + off;
        memset(base, 0xC3, n + off);
    }
    ~Buf() { free(base); }
};
int main(int argc, char **argv) {
    auto &e = mc::E();
    e.init(argc, argv, "C06");
    hk::install();
    auto z = zoo(e.thorough ? 2 : 1);
    QOpts q{3, true, true, true};
    auto use = [&](R *r, const Set &S, const char *what, bool writable) {
        MC_CHECK(r, "%s refused its own bytes", what);
        RP h(r);
        expect_set(r, S, what);
        expect_valid(r, what);
        check_queries(r, S, q);
        e.eval();
        // reading side stays usable: as an operand, copied, and (when it is not a view) updated
        RP c(roaring_bitmap_copy(r));
        roaring_bitmap_add(c.get(), 123456);
        roaring_bitmap_remove_range(c.get(), 10, 70000);
        Set W = S;
        W.add(123456);
        W.remove_range(10, 69999);
        expect_set(c.get(), W, "updated copy of a bitmap that was read back");
        RP u(roaring_bitmap_or(r, c.get())), x(roaring_bitmap_xor(c.get(), r)), a(roaring_bitmap_and(r, c.get()));
        expect_set(u.get(), S.uni(W), "or with a bitmap that was read back");
        expect_set(x.get(), S.xr(W), "xor with a bitmap that was read back");
        expect_set(a.get(), S.inter(W), "and with a bitmap that was read back");
        if (writable) {
            roaring_bitmap_add(r, 123456);
            roaring_bitmap_remove_range(r, 10, 70000);
            expect_set(r, W, "updated bitmap that was read back");
        }
    };
    e.parallel("zoo", z.size(), [&](uint64_t i) {
        const Zoo &b = z[i];
        e.detail("%s", b.name.c_str());
        Set S = chunks_set(b.cs);
        LeakScope ls;
        {
            RP sh, r(zoo_build(b, sh));
            std::string first;
            {   // portable
                size_t n = roaring_bitmap_portable_size_in_bytes(r.get());
                for (size_t off : {(size_t)0, (size_t)1}) {
                    e.detail("%s portable offset %zu", b.name.c_str(), off);
                    Buf w(n, 64, off);
                    size_t k = roaring_bitmap_portable_serialize(r.get(), w.p);
                    MC_CHECK(k == n, "portable_serialize wrote %zu, announced %zu", k, n);
                    if (off) MC_CHECK(first == std::string(w.p, n), "portable bytes depend on the buffer alignment");
                    first.assign(w.p, n);
                    use(roaring_bitmap_portable_deserialize_safe(w.p, n), S, "portable_deserialize_safe", true);
                    use(roaring_bitmap_portable_deserialize(w.p), S, "portable_deserialize", true);
                    size_t ps = roaring_bitmap_portable_deserialize_size(w.p, n);
                    MC_CHECK(ps == n, "portable_deserialize_size says %zu, expected %zu", ps, n);
                    MC_CHECK(std::string(w.p, n) == first, "reading changed the portable buffer");
                }
                Buf w(n, 64, 0);
                memcpy(w.p, first.data(), n);
                e.detail("%s portable_deserialize_frozen", b.name.c_str());
                use(roaring_bitmap_portable_deserialize_frozen(w.p), S, "portable_deserialize_frozen", false);
                MC_CHECK(std::string(w.p, n) == first, "using the portable view changed its buffer");
                RP back(roaring_bitmap_portable_deserialize_safe(w.p, n));
                MC_CHECK(ser_eq(back.get(), first), "serializing what was read back gives other bytes");
                RP vw(roaring_bitmap_portable_deserialize_frozen(w.p));
                MC_CHECK(ser_eq(vw.get(), first), "serializing the portable view gives other bytes");
                MC_CHECK(roaring_bitmap_equals(back.get(), r.get()) && roaring_bitmap_equals(vw.get(), r.get()), "read back bitmap not equal to the original");
            }
            {   // native
                e.detail("%s native", b.name.c_str());
                size_t n = roaring_bitmap_size_in_bytes(r.get());
                Buf w(n, 64, 0);
                size_t k = roaring_bitmap_serialize(r.get(), w.p);
                MC_CHECK(k == n, "serialize wrote %zu, announced %zu", k, n);
                std::string f(w.p, n);
                use(roaring_bitmap_deserialize(w.p), S, "deserialize", true);
                use(roaring_bitmap_deserialize_safe(w.p, n), S, "deserialize_safe", true);
                MC_CHECK(std::string(w.p, n) == f, "reading changed the native buffer");
                for (size_t len = 0; len < n; len += n > 300 ? 1 + n / 60 : 1) {
                    e.detail("%s native truncated to %zu of %zu", b.name.c_str(), len, n);
                    Buf t(len, 64, 0);
                    memcpy(t.p, w.p, len);
                    RP bad(roaring_bitmap_deserialize_safe(t.p, len));
                    MC_CHECK(!bad, "deserialize_safe accepted a truncated native stream");
                }
            }
            {   // frozen
                e.detail("%s frozen", b.name.c_str());
                size_t n = roaring_bitmap_frozen_size_in_bytes(r.get());
                Buf w(n, 32, 0);
                roaring_bitmap_frozen_serialize(r.get(), w.p);
                std::string f(w.p, n);
                R *v = const_cast<R *>(roaring_bitmap_frozen_view(w.p, n));
                use(v, S, "frozen_view", false);
                MC_CHECK(std::string(w.p, n) == f, "using the frozen view changed its buffer");
                RP v2(const_cast<R *>(roaring_bitmap_frozen_view(w.p, n)));
                // a view serializes again, in every format
                MC_CHECK(ser_eq(v2.get(), first), "portable bytes of the frozen view differ from the original's");
                size_t n2 = roaring_bitmap_frozen_size_in_bytes(v2.get());
                MC_CHECK(n2 == n, "frozen size of the view %zu, original %zu", n2, n);
                Buf w2(n, 32, 0);
                roaring_bitmap_frozen_serialize(v2.get(), w2.p);
                MC_CHECK(std::string(w2.p, n) == f, "frozen bytes of the view differ");
                MC_CHECK(roaring_bitmap_equals(v2.get(), r.get()), "frozen view not equal to the original");
                // a misaligned view is refused
                Buf mis(n, 32, 4);
                memcpy(mis.p, w.p, n);
                RP bad(const_cast<R *>(roaring_bitmap_frozen_view(mis.p, n)));
                MC_CHECK(!bad, "frozen_view accepted a buffer that is not 32-byte aligned");
                // a shortened buffer: never read past its end
                for (size_t k = 0; k < n; k += k < 30 || n - k < 12 ? 1 : std::max<size_t>(1, n / 7)) {
                    Buf cut(k, 32, 0);
                    memcpy(cut.p, w.p, k);
                    RP t(const_cast<R *>(roaring_bitmap_frozen_view(cut.p, k)));
                }
                // the right ending with a length that is not the announced one: refused, and nothing outside is read
                for (size_t k = 1; k <= n; k += k < 8 || n - k < 40 ? 1 : std::max<size_t>(1, n / 7)) {
                    Buf tail(n - k, 32, 0);
                    memcpy(tail.p, w.p + k, n - k);
                    RP t(const_cast<R *>(roaring_bitmap_frozen_view(tail.p, n - k)));
                    MC_CHECK(!t, "frozen_view accepted the last %zu of %zu bytes", n - k, n);
                }
                for (size_t k : {(size_t)1, (size_t)2, (size_t)4, (size_t)32, (size_t)8192}) {
                    Buf more(n + k, 32, 0);
                    memset(more.p, 0, k);
                    memcpy(more.p + k, w.p, n);
                    RP t(const_cast<R *>(roaring_bitmap_frozen_view(more.p, n + k)));
                    MC_CHECK(!t, "frozen_view accepted %zu bytes too many in front", k);
                    memcpy(more.p, w.p, n);
                    memset(more.p + n, 0, k);
                    RP u(const_cast<R *>(roaring_bitmap_frozen_view(more.p, n + k)));
                    MC_CHECK(!u, "frozen_view accepted %zu bytes too many at the end", k);
                }
            }
            expect_set(r.get(), S, "the serialized bitmap itself");
            if (sh) expect_set(sh.get(), S, "the bitmap sharing storage");
            mc::Hash h;
            h.bytes(first.data(), first.size());
            e.outcome(h.h);
        }
        ls.check("serialization round trips");
    }, nullptr, 1);
    // every number of chunks, with the run containers in every sixth, all, none, the first, the last or every other place
    e.parallel("counts", e.thorough ? 2400 : 840, [&](uint64_t i) {
        uint32_t n = (uint32_t)(i / 6 * (i >= 840 ? 3 : 1));
        int v = (int)(i % 6);
        Chunks cs;
        for (uint32_t k = 0; k < n; k++) {
            bool run = v == 0 ? k % 6 == 5 : v == 1 || (v == 3 && k == 0) || (v == 4 && k == n - 1) || (v == 5 && k % 2 == n % 2);
            cs.push_back({(uint16_t)(k == n - 1 && v == 4 ? 0xFFFF : k * 70), run ? Set::range(k, k + 10) : k % 25 == 3 ? Set::step(k, 60000, 14) : Set{k, 2 * k + 1, 60000}, run ? R_RUN : k % 25 == 3 && Set::step(k, 60000, 14).card() > 4096 ? R_BITSET : R_ARRAY});
        }
        e.detail("%u chunks, variant %d", n, v);
        Set S = chunks_set(cs);
        LeakScope ls;
        {
            RP r(cs.empty() ? roaring_bitmap_create() : build_chunks(cs));
            auto same = [&](R *b, const char *what) {
                MC_CHECK(b, "%s refused its own bytes", what);
                RP h(b);
                expect_set(b, S, what);
                expect_valid(b, what);
                MC_CHECK(roaring_bitmap_equals(b, r.get()), "%s: not equal to the original", what);
                e.eval();
            };
            size_t p = roaring_bitmap_portable_size_in_bytes(r.get()), q = roaring_bitmap_size_in_bytes(r.get()), f = roaring_bitmap_frozen_size_in_bytes(r.get());
            Buf a(p, 64, 0), b(q, 64, 0), c(f, 32, 0);
            size_t k = roaring_bitmap_portable_serialize(r.get(), a.p);
            MC_CHECK(k == p, "portable_serialize wrote %zu, announced %zu", k, p);
            MC_CHECK(roaring_bitmap_portable_deserialize_size(a.p, p) == p, "portable_deserialize_size differs from the size written");
            if (p) MC_CHECK(roaring_bitmap_portable_deserialize_size(a.p, p - 1) == 0, "portable_deserialize_size accepts a stream one byte short");
            k = roaring_bitmap_serialize(r.get(), b.p);
            MC_CHECK(k == q, "serialize wrote %zu, announced %zu", k, q);
            roaring_bitmap_frozen_serialize(r.get(), c.p);
            same(roaring_bitmap_portable_deserialize_safe(a.p, p), "portable_deserialize_safe");
            same(roaring_bitmap_portable_deserialize(a.p), "portable_deserialize");
            same(roaring_bitmap_portable_deserialize_frozen(a.p), "portable_deserialize_frozen");
            same(roaring_bitmap_deserialize_safe(b.p, q), "deserialize_safe");
            same(roaring_bitmap_deserialize(b.p), "deserialize");
            same(const_cast<R *>(roaring_bitmap_frozen_view(c.p, f)), "frozen_view");
            mc::Hash h;
            h.bytes(a.p, p);
            e.outcome(h.h);
        }
        ls.check("serialization of many chunks");
    }, nullptr, 6);
    // what operations leave behind (slack, shared storage, emptied chunks, full runs): a shorter round trip on every result
    {
        static const std::vector<std::pair<Set, Rep>> ks = {{Set(), R_AUTO}, {Set{3, 9, 65535}, R_ARRAY}, {Set::range(62, 4300), R_RUN}, {Set::step(1, 40001, 9).uni(Set::range(50000, 51001)), R_BITSET},
                                                            {Set{3}.uni(Set::range(4301, 65535)), R_BITSET}, {full16(), R_RUN}};
        static const uint16_t keys[3] = {0, 7, 0xFFFF};
        auto lay = [&](uint64_t q) {
            Chunks c;
            for (int j = 0; j < 3; j++, q /= 6)
                if (q % 6) c.push_back({keys[j], ks[q % 6].first, ks[q % 6].second});
            return c;
        };
        auto ops = ops26();
        const uint64_t nl = 216, step = e.thorough ? 1 : 151;
        auto same = [&](R *r, const Set &S, const char *what) {
            MC_CHECK(r, "%s refused its own bytes", what);
            RP h(r);
            expect_set(r, S, what);
            expect_valid(r, what);
            e.eval();
        };
        e.parallel("results", (nl * nl + step - 1) / step, [&](uint64_t i) {
            uint64_t q = i * step;
            Chunks ca = lay(q % nl), cb = lay(q / nl);
            Set A = chunks_set(ca), B = chunks_set(cb);
            for (auto &o : ops)
                for (int cow = 0; cow < 2; cow++) {
                    e.detail("layouts %llu and %llu: %s%s", (ull)(q % nl), (ull)(q / nl), o.name.c_str(), cow ? ", copy-on-write" : "");
                    LeakScope ls;
                    {
                        RP a(ca.empty() ? roaring_bitmap_create() : build_chunks(ca)), b(cb.empty() ? roaring_bitmap_create() : build_chunks(cb));
                        roaring_bitmap_set_copy_on_write(a.get(), cow);
                        roaring_bitmap_set_copy_on_write(b.get(), cow);
                        R *raw = o.f(a.get(), b.get());
                        MC_CHECK(raw, "operation returned NULL");
                        if (o.inplace) a.release();
                        RP r(raw);
                        Set W = o.m(A, B);
                        size_t n = roaring_bitmap_portable_size_in_bytes(r.get());
                        Buf p(n, 64, 0);
                        size_t k = roaring_bitmap_portable_serialize(r.get(), p.p);
                        MC_CHECK(k == n, "portable_serialize wrote %zu, announced %zu", k, n);
                        same(roaring_bitmap_portable_deserialize_safe(p.p, n), W, "portable_deserialize_safe of a result");
                        same(roaring_bitmap_portable_deserialize_frozen(p.p), W, "portable_deserialize_frozen of a result");
                        size_t nn = roaring_bitmap_size_in_bytes(r.get());
                        Buf w(nn, 64, 0);
                        k = roaring_bitmap_serialize(r.get(), w.p);
                        MC_CHECK(k == nn, "serialize wrote %zu, announced %zu", k, nn);
                        same(roaring_bitmap_deserialize_safe(w.p, nn), W, "deserialize_safe of a result");
                        size_t fn = roaring_bitmap_frozen_size_in_bytes(r.get());
                        Buf f(fn, 32, 0);
                        roaring_bitmap_frozen_serialize(r.get(), f.p);
                        same(const_cast<R *>(roaring_bitmap_frozen_view(f.p, fn)), W, "frozen view of a result");
                        expect_set(r.get(), W, "the serialized result itself");
                        // the bytes depend on contents and representation only: packing the memory changes nothing
                        roaring_bitmap_shrink_to_fit(r.get());
                        Buf p2(n, 64, 0), f2(fn, 32, 0);
                        MC_CHECK(roaring_bitmap_portable_serialize(r.get(), p2.p) == n && !memcmp(p.p, p2.p, n), "portable bytes change with shrink_to_fit");
                        MC_CHECK(roaring_bitmap_frozen_size_in_bytes(r.get()) == fn, "frozen size changes with shrink_to_fit");
                        roaring_bitmap_frozen_serialize(r.get(), f2.p);
                        MC_CHECK(!memcmp(f.p, f2.p, fn), "frozen bytes change with shrink_to_fit");
                        mc::Hash h;
                        h.bytes(p.p, n);
                        e.outcome(h.h);
                    }
                    ls.check("serialization of a result");
                }
        }, nullptr, 4);
    }
    e.rule = "each case is one bitmap (catalogue contents and representations, layouts, results of every operation on pairs of layouts); all three formats are written into exactly sized heap buffers and read back by every reader; library code is address-sanitized";
    e.samples.push_back(z[40].name);
    return e.finish();
}
