// C07: the portable byte format against an independent encoder and decoder.
#include "queries32.hpp"
#include "zoo.hpp"
#include "lib64.hpp"
#include <dirent.h>
static std::string slurp(const std::string &p) {
    std::string s;
    FILE *f = fopen(p.c_str(), "rb");
    if (!f) return s;
    char b[65536];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
    fclose(f);
    return s;
}
static R *read32(const std::string &s, size_t extra = 0) {
    char *p = (char *)malloc(s.size() + extra + 1);
    memcpy(p, s.data(), s.size());
    memset(p + s.size(), 0xEE, extra);
    size_t n = roaring_bitmap_portable_deserialize_size(p, s.size() + extra);
    R *r = roaring_bitmap_portable_deserialize_safe(p, s.size() + extra);
    free(p);
    if (!r) mc::fail("a stream following the specification was refused (%zu bytes)", s.size());
    if (n != s.size()) {
        roaring_bitmap_free(r);
        mc::fail("deserialize_size says %zu for a stream of %zu bytes", n, s.size());
    }
    return r;
}
// stream with the run cookie even though no chunk is a run
static std::string encode_forced_cookie(const Chunks &cs) {
    std::string o;
    size_t n = cs.size();
    put32(o, 12347u | (uint32_t)(n - 1) << 16);
    o += std::string((n + 7) / 8, '\0');
    for (auto &c : cs) {
        put16(o, c.key);
        put16(o, (uint32_t)(c.s.card() - 1));
    }
    std::vector<std::string> pl(n);
    for (size_t i = 0; i < n; i++) encode_payload(pl[i], cs[i].s, natural(cs[i].s));
    if (n >= 4) {
        size_t at = o.size() + 4 * n;
        for (auto &p : pl) {
            put32(o, (uint32_t)at);
            at += p.size();
        }
    }
    for (auto &p : pl) o += p;
    return o;
}
int main(int argc, char **argv) {
    auto &e = mc::E();
    e.init(argc, argv, "C07");
    hk::install();
    typedef unsigned long long ull;
    auto z = zoo(e.thorough ? 2 : 1);
    e.parallel("write32", z.size(), [&](uint64_t i) {
        e.detail("%s", z[i].name.c_str());
        Set S = chunks_set(z[i].cs);
        RP sh, r(zoo_build(z[i], sh));
        auto chk = [&](R *b, const Set &want, const char *what) {
            Set g = to_set_ser(b);  // independent strict decoder
            MC_CHECK(g == want, "%s: bytes decode to another set: %s", what, diff_str(g, want).c_str());
            e.eval();
        };
        chk(r.get(), S, "as built");
        // the same set in whatever encodings the library itself chooses
        roaring_bitmap_run_optimize(r.get());
        chk(r.get(), S, "after run_optimize");
        roaring_bitmap_remove_run_compression(r.get());
        chk(r.get(), S, "after remove_run_compression");
        RP f(roaring_bitmap_flip(r.get(), 100, 200000));
        chk(f.get(), S.flip(100, 199999), "after flip");
        roaring_bitmap_or_inplace(r.get(), f.get());
        chk(r.get(), S.uni(S.flip(100, 199999)), "after or_inplace");
        e.outcome(mc::hash64(i));
    }, nullptr, 4);
    e.parallel("read32", z.size(), [&](uint64_t i) {
        const Chunks &cs = z[i].cs;
        Set S = chunks_set(cs);
        e.detail("%s", z[i].name.c_str());
        auto chk = [&](const std::string &bytes, const char *what) {
            e.detail("%s %s", z[i].name.c_str(), what);
            for (size_t extra : {(size_t)0, (size_t)1, (size_t)100}) {
                RP r(read32(bytes, extra));
                expect_set(r.get(), S, what);
                expect_valid(r.get(), what);
                e.eval();
            }
        };
        if (cs.empty()) {
            chk(encode32(cs), "empty stream");
            return;
        }
        chk(encode32(cs), "stream");
        Chunks all = cs;
        for (auto &c : all) c.rep = R_RUN;
        chk(encode32(all), "all-run stream");
        for (auto &c : all) c.rep = natural(c.s);
        chk(encode32(all), "no-run stream");
        chk(encode_forced_cookie(all), "stream with the run cookie and no runs");
    }, nullptr, 4);
    // run flags: every subset of chunks stored as runs, chunk counts around the offset-header threshold and flag-byte edges
    e.parallel("flags", 12, [&](uint64_t i) {
        int n = (int)i + 1;
        uint64_t lim = n <= 10 ? 1ull << n : 1024;
        for (uint64_t m = 0; m < lim; m++) {
            uint64_t mask = n <= 10 ? m : (m * 2654435761ull) & ((1u << n) - 1);
            Chunks cs;
            for (int j = 0; j < n; j++) cs.push_back({(uint16_t)(j == n - 1 ? 0xFFFF : j * 3), Set::range(j, j + 5).uni(Set{(uint64_t)1000 + j}), mask >> j & 1 ? R_RUN : R_ARRAY});
            e.detail("%d chunks, run mask %llx", n, (ull)mask);
            std::string b = encode32(cs);
            RP r(read32(b));
            expect_set(r.get(), chunks_set(cs), "flag stream");
            MC_CHECK(ser_eq(r.get(), b), "re-serializing gives other bytes");
            std::string why;
            e.eval();
        }
        e.outcome(mc::hash64(i + 100));
    }, nullptr, 1);
    // every number of chunks: the library reads the independent encoder's stream and writes the same bytes
    e.parallel("counts", e.thorough ? 2400 : 840, [&](uint64_t i) {
        uint32_t n = (uint32_t)(i / 6 * (i >= 840 ? 3 : 1));
        int v = (int)(i % 6);
        Chunks cs;
        for (uint32_t k = 0; k < n; k++) {
            bool run = v == 0 ? k % 6 == 5 : v == 1 || (v == 3 && k == 0) || (v == 4 && k == n - 1) || (v == 5 && k % 2 == n % 2);
            cs.push_back({(uint16_t)(k == n - 1 && v == 4 ? 0xFFFF : k * 70), run ? Set::range(k, k + 10) : Set{k, 2 * k + 1, 60000}, run ? R_RUN : R_ARRAY});
        }
        e.detail("%u chunks, variant %d", n, v);
        std::string b = encode32(cs);
        RP r(read32(b));
        expect_set(r.get(), chunks_set(cs), "stream of many chunks");
        MC_CHECK(ser_eq(r.get(), b), "re-serializing gives other bytes");
        MC_CHECK(roaring_bitmap_portable_size_in_bytes(r.get()) == b.size(), "portable_size_in_bytes %zu, format says %zu", roaring_bitmap_portable_size_in_bytes(r.get()), b.size());
        e.eval();
        e.outcome(mc::hash64(i + 5000));
    }, nullptr, 8);
    e.parallel("all-keys", 4, [&](uint64_t i) {
        Chunks cs;
        for (uint32_t k = 0; k < 65536; k++) cs.push_back({(uint16_t)k, i == 3 ? Set::range(k & 255, 40000) : Set{(k * 7) & 0xffff}, i == 0 ? R_ARRAY : i == 1 ? R_RUN : i == 3 ? R_RUN : k % 5 ? R_ARRAY : R_RUN});
        e.detail("65536 chunks variant %llu", (ull)i);
        std::string b = encode32(cs);
        RP r(read32(b));
        Set S = chunks_set(cs);
        MC_CHECK(roaring_bitmap_get_cardinality(r.get()) == S.card(), "cardinality");
        Set g = to_set_ser(r.get());
        MC_CHECK(g == S, "65536-chunk stream: %s", diff_str(g, S).c_str());
        MC_CHECK(ser_eq(r.get(), b), "re-serializing 65536 chunks gives other bytes");
        e.eval(3);
    }, nullptr, 1);
    // 64-bit
    static const uint32_t highs[4] = {0, 1, 0x80000000u, 0xFFFFFFFFu};
    std::vector<Chunks> inner;
    inner.push_back({});
    for (auto &b : z)
        if (!b.shared && !b.slack && (inner.size() < 12 || b.name.find("wide 4 ") == 0 || b.name.find("wide 9 ") == 0)) {
            if (inner.size() < 12 && b.cs.empty()) continue;
            inner.push_back(b.cs);
        }
    inner.push_back({{0, full16(), R_RUN}, {0xFFFF, full16(), R_RUN}});
    inner.push_back({{0, full16().minus(Set{65535}), R_BITSET}, {0xFFFF, Set{65535}, R_ARRAY}});
    inner.push_back({{0xFFFF, Set::step(1, 65535, 2), R_BITSET}});
    uint64_t k = inner.size();
    e.parallel("stream64", k * k * k * 2, [&](uint64_t i) {
        uint64_t q = i / 2;
        std::vector<Bucket> bs;
        std::string nm;
        bool with_empty = false;
        for (int j = 0; j < 3; j++, q /= k) {
            uint64_t c = q % k;
            nm += mc::strf("%llu ", (ull)c);
            if (c == 0 && i % 2 == 0) continue;   // bucket absent
            with_empty |= c == 0;                 // bucket present but empty
            bs.push_back({highs[j + (j == 2 ? 1 : 0)], inner[c]});
        }
        if (i % 2 == 1 && !with_empty) return;
        e.detail("64-bit buckets %s%s", nm.c_str(), with_empty ? "(with empty buckets)" : "");
        std::string b = encode64(bs);
        Set S = buckets_set(bs);
        size_t n = roaring64_bitmap_portable_deserialize_size(b.data(), b.size());
        MC_CHECK(n == b.size(), "roaring64 deserialize_size says %zu for a stream of %zu bytes", n, b.size());
        RP64 r(roaring64_bitmap_portable_deserialize_safe(b.data(), b.size()));
        MC_CHECK(r, "a 64-bit stream following the specification was refused");
        expect_set64(r.get(), S, "64-bit stream");
        expect_valid64(r.get(), "64-bit stream");
        Set g = to_set64_ser(r.get());
        MC_CHECK(g == S, "64-bit bytes decode to another set: %s", diff_str(g, S).c_str());
        if (!with_empty) MC_CHECK(ser_bytes64(r.get()) == b, "re-serializing the 64-bit stream gives other bytes");
        roaring64_bitmap_add(r.get(), 0x5555555555ull);
        roaring64_bitmap_run_optimize(r.get());
        S.add(0x5555555555ull);
        g = to_set64_ser(r.get());
        MC_CHECK(g == S, "64-bit bytes after an update decode to another set: %s", diff_str(g, S).c_str());
        e.eval(4);
        e.outcome(mc::hash64(i + 1000));
    }, nullptr, 4);
    // many buckets
    e.parallel("buckets", 6, [&](uint64_t i) {
        static const int cnt[6] = {1, 2, 16, 17, 255, 1000};
        std::vector<Bucket> bs;
        for (int j = 0; j < cnt[i]; j++) bs.push_back({(uint32_t)(j * 4294967ull), {{(uint16_t)(j * 31), Set{(uint64_t)j, 60000}, R_ARRAY}, {0xFFFF, Set::range(1, 90), R_RUN}}});
        std::string b = encode64(bs);
        RP64 r(roaring64_bitmap_portable_deserialize_safe(b.data(), b.size()));
        MC_CHECK(r, "stream of %d buckets refused", cnt[i]);
        expect_set64(r.get(), buckets_set(bs), "many buckets");
        MC_CHECK(ser_bytes64(r.get()) == b, "re-serializing gives other bytes");
        e.eval(2);
    });
    // files written by other implementations, shipped with the repository
    const char *rp = getenv("VERIF_REPO");
    std::string dir = std::string(rp ? rp : "/repo") + "/tests/testdata";
    std::vector<std::string> files;
    if (DIR *d = opendir(dir.c_str())) {
        while (dirent *x = readdir(d)) {
            std::string n = x->d_name;
            if (n.size() > 4 && n.substr(n.size() - 4) == ".bin" && n.find("crash") == std::string::npos && n.find("bad") == std::string::npos) files.push_back(n);
        }
        closedir(d);
    }
    std::sort(files.begin(), files.end());
    uint64_t agreed = 0;
    (void)agreed;
    e.parallel("foreign", files.size(), [&](uint64_t i) {
        e.detail("%s", files[i].c_str());
        std::string b = slurp(dir + "/" + files[i]);
        Chunks cs;
        size_t used = 0;
        std::vector<Bucket> bs;
        if (decode32(b.data(), b.size(), cs, used) && used == b.size()) {
            RP r(read32(b));
            Set g = to_set_ser(r.get()), w = chunks_set(cs);
            MC_CHECK(g == w, "file of another implementation read differently: %s", diff_str(g, w).c_str());
            MC_CHECK(ser_eq(r.get(), b), "file of another implementation re-serialized differently");
            e.eval(2);
        } else if (decode64(b.data(), b.size(), bs, used) && used == b.size()) {
            RP64 r(roaring64_bitmap_portable_deserialize_safe(b.data(), b.size()));
            MC_CHECK(r, "64-bit file of another implementation refused");
            Set g = to_set64_ser(r.get()), w = buckets_set(bs);
            MC_CHECK(g == w, "64-bit file of another implementation read differently: %s", diff_str(g, w).c_str());
            e.eval(2);
        }
        e.outcome(mc::hash64(i + 7));
    });
    e.rule = "each case is one bitmap written and decoded by the independent strict decoder, or one stream produced by the independent encoder and read by the library";
    e.samples.push_back("flags: 9 chunks, run mask 1a3; stream64: buckets at high 0,1,0xffffffff");
    return e.finish();
}
