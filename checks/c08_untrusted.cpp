// C08: bounds-checked readers on damaged and arbitrary bytes.
#include "untrusted.hpp"
int main(int argc, char **argv) {
    auto &e = mc::E();
    e.init(argc, argv, "C08");
    hk::install();
    typedef unsigned long long ull;
    auto b32 = ut::bases32();
    ut::families(b32, ut::one32, "r32-");
    // streams assembled field by field: every combination of a header alphabet and a payload alphabet
    // n containers (1..2), kind of cookie, keys, cardinalities, run counts, payload words
    static const uint32_t cards[] = {0, 1, 2, 4095, 4096, 65535};
    static const uint32_t pay[] = {0, 1, 2, 65535};
    e.parallel("r32-grammar1", 2 * 6 * 256 * 5, [&](uint64_t i) {
        int cookie = (int)(i % 2);
        uint32_t card = cards[i / 2 % 6];
        uint64_t w = i / 12 % 256;
        int drop = (int)(i / 12 / 256);
        std::string s;
        for (int n : {0, 1, 2}) {
            s.clear();
            if (cookie) {
                put32(s, 12347u | (uint32_t)(n == 0 ? 0 : n - 1) << 16);
                s += (char)(n == 0 ? 0 : n == 1 ? 1 : 3);
            } else {
                put32(s, 12346);
                put32(s, (uint32_t)n);
            }
            for (int k = 0; k < n; k++) {
                put16(s, (uint32_t)k);
                put16(s, card);
            }
            if (!cookie)
                for (int k = 0; k < n; k++) put32(s, (uint32_t)(8 + 8 * n + k * 2 * (card + 1)));
            for (int k = 0; k < 4; k++) put16(s, pay[w >> (2 * k) & 3]);
            if (n == 2) for (int k = 0; k < 3; k++) put16(s, pay[w >> (2 * k) & 3] + 1);
            size_t len = s.size() > (size_t)drop ? s.size() - drop : 0;
            e.detail("cookie %d n %d card %u words %llu dropped %d", cookie, n, card, (ull)w, drop);
            ut::one32(s, len);
        }
    }, nullptr, 8);
    // run containers: every list of up to two runs over boundary values
    static const uint32_t rv[] = {0, 1, 2, 10, 32768, 65533, 65534, 65535};
    e.parallel("r32-runs", 8 * 8 * 8 * 8, [&](uint64_t i) {
        uint32_t a = rv[i % 8], l = rv[i / 8 % 8], b = rv[i / 64 % 8], m = rv[i / 512];
        for (uint32_t nr : {0u, 1u, 2u, 3u, 65535u}) {
            std::string s;
            put32(s, 12347);
            s += (char)1;
            put16(s, 0);
            put16(s, l);
            put16(s, nr);
            put16(s, a);
            put16(s, l);
            put16(s, b);
            put16(s, m);
            e.detail("runs n=%u (%u,%u) (%u,%u)", nr, a, l, b, m);
            ut::one32(s, s.size());
        }
    }, nullptr, 8);
    // bitset counts that disagree with the words
    e.parallel("r32-bitset", 40, [&](uint64_t i) {
        for (uint32_t card : {4096u, 4097u, 4098u, 5000u, 8191u, 65535u, 65534u}) {
            std::string s;
            put32(s, 12346);
            put32(s, 1);
            put16(s, 3);
            put16(s, card);
            put32(s, 16);
            std::string w(8192, '\0');
            uint32_t bits = (uint32_t)(i < 20 ? 4090 + i : i < 30 ? card + i - 25 + 1 : 65536 - (i - 30));
            for (uint32_t k = 0; k < bits && k < 65536; k++) w[k / 8] |= (char)(1 << k % 8);
            s += w;
            e.detail("bitset header count %u, %u bits set", card + 1, bits);
            ut::one32(s, s.size());
            ut::one32(s, s.size() - 1);
        }
    }, nullptr, 1);
    // large container counts with short buffers
    e.parallel("r32-counts", 64, [&](uint64_t i) {
        static const uint32_t cnt[8] = {0, 1, 65535, 65536, 65537, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFFu};
        for (int len = 0; len < 40; len++) {
            std::string s;
            if (i % 8 < 4) {
                put32(s, 12346);
                put32(s, cnt[i / 8]);
            } else
                put32(s, 12347u | cnt[i / 8] << 16);
            s += std::string((size_t)len, (char)(i % 4 == 0 ? 0 : i % 4 == 1 ? 0xFF : i % 4 == 2 ? 1 : 0x80));
            e.detail("count %u, %d bytes follow", cnt[i / 8], len);
            ut::one32(s, s.size());
        }
    });
    // native reader with a limit
    auto native = [&](uint64_t i, Set *out = nullptr) {
        Chunks cs;
        size_t used;
        auto &base = b32[i / 3].second;
        decode32(base.data(), base.size(), cs, used);
        RP r(cs.empty() ? roaring_bitmap_create() : build_chunks(cs));
        if (i % 3 == 1) roaring_bitmap_add_range(r.get(), 5, 300);
        if (i % 3 == 2) roaring_bitmap_run_optimize(r.get());
        if (out) *out = to_set(r.get());
        std::string s(roaring_bitmap_size_in_bytes(r.get()), '\0');
        roaring_bitmap_serialize(r.get(), &s[0]);
        return s;
    };
    e.parallel("native", b32.size() * 3, [&](uint64_t i) {
        Set S;
        std::string s = native(i, &S);
        for (size_t n = 0; n <= s.size(); n += s.size() > 2000 && n > 100 && n + 100 < s.size() ? 37 : 1) {
            int64_t l0 = hk::S.live;
            e.detail("native %s variant %llu limit %zu of %zu", b32[i / 3].first.c_str(), (ull)(i % 3), n, s.size());
            ut::Exact b(s.data(), n);
            {
                RP x(roaring_bitmap_deserialize_safe(b.p, n));
                MC_CHECK(!x || n == s.size(), "deserialize_safe accepted a truncated native stream (%zu of %zu)", n, s.size());
                if (n == s.size()) expect_set(x.get(), S, "deserialize_safe");
            }
            MC_CHECK(hk::S.live == l0, "deserialize_safe leaked");
            e.eval();
        }
    }, nullptr, 1);
    e.parallel("native-bytes", b32.size() * 3 * 48, [&](uint64_t q) {
        uint64_t i = q / 48, pos = q % 48;
        std::string s = native(i);
        if (pos >= s.size()) return;
        for (int v = 0; v < 256; v++) {
            std::string t = s;
            t[pos] = (char)v;
            int64_t l0 = hk::S.live;
            e.detail("native %s variant %llu byte %zu = %d", b32[i / 3].first.c_str(), (ull)(i % 3), (size_t)pos, v);
            ut::Exact b(t.data(), t.size());
            {
                RP x(roaring_bitmap_deserialize_safe(b.p, t.size()));
                if (x && roaring_bitmap_internal_validate(x.get(), nullptr) && (e.replay || ut::first_time(t.data(), t.size()))) ut::exercise32(x.get());
            }
            MC_CHECK(hk::S.live == l0, "deserialize_safe leaked");
            e.eval();
        }
    }, nullptr, 1);
    auto b64 = ut::bases64();
    ut::families(b64, ut::one64, "r64-");
    ut::wide(ut::one32, false, "r32-");
    ut::wide(ut::one64, true, "r64-");
    e.rule = "each case damages one base stream (every truncation, every byte value, boundary values in pairs of fields) or assembles a stream field by field; readers run on exactly sized buffers under address sanitizer";
    e.samples.push_back("run+array, field 3 = 65535, field 5 = 32768");
    return e.finish();
}
