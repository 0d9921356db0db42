// Independent encoder/decoder of the Roaring portable format, written from RoaringFormatSpec.
#pragma once
#include <cstring>
#include <string>
#include <vector>
#include "model.hpp"

enum Rep { R_AUTO = 0, R_ARRAY = 1, R_BITSET = 2, R_RUN = 3 };
struct Chunk {
    uint16_t key;
    Set s;  // over 0..65535, non-empty
    Rep rep;
};
typedef std::vector<Chunk> Chunks;

inline Rep natural(const Set &s) { return s.card() <= 4096 ? R_ARRAY : R_BITSET; }
inline bool valid_rep(const Set &s, Rep r) {
    if (r == R_ARRAY) return s.card() <= 4096;
    if (r == R_BITSET) return s.card() > 4096;
    return true;
}
inline void put16(std::string &o, uint32_t v) {
    o += (char)(v & 255);
    o += (char)(v >> 8 & 255);
}
inline void put32(std::string &o, uint32_t v) {
    put16(o, v & 0xffff);
    put16(o, v >> 16);
}
inline void put64(std::string &o, uint64_t v) {
    put32(o, (uint32_t)v);
    put32(o, (uint32_t)(v >> 32));
}
inline void encode_payload(std::string &o, const Set &s, Rep r) {
    if (r == R_RUN) {
        put16(o, (uint32_t)s.v.size());
        for (auto &i : s.v) {
            put16(o, (uint32_t)i.a);
            put16(o, (uint32_t)(i.b - i.a));
        }
    } else if (r == R_ARRAY) {
        s.each([&](uint64_t x) { put16(o, (uint32_t)x); });
    } else {
        std::string w(8192, '\0');
        s.each([&](uint64_t x) { w[x / 8] |= (char)(1 << (x % 8)); });
        o += w;
    }
}
// positions of interesting fields, for the corruption enumeration
struct Layout {
    size_t cookie = 0, flags = 0, desc = 0, offs = 0, payload = 0;
    std::vector<size_t> payloads;
    bool has_offs = false;
};
inline std::string encode32(const Chunks &cs, Layout *lay = nullptr) {
    std::string o;
    Layout L;
    bool hasrun = false;
    for (auto &c : cs) hasrun |= c.rep == R_RUN;
    size_t n = cs.size();
    if (hasrun) {
        put32(o, 12347u | ((uint32_t)(n - 1) << 16));
        L.flags = o.size();
        std::string f((n + 7) / 8, '\0');
        for (size_t i = 0; i < n; i++)
            if (cs[i].rep == R_RUN) f[i / 8] |= (char)(1 << (i % 8));
        o += f;
    } else {
        put32(o, 12346);
        put32(o, (uint32_t)n);
    }
    L.desc = o.size();
    for (auto &c : cs) {
        put16(o, c.key);
        put16(o, (uint32_t)(c.s.card() - 1));
    }
    L.offs = o.size();
    L.has_offs = !hasrun || n >= 4;
    size_t at = o.size() + (L.has_offs ? 4 * n : 0);
    std::vector<std::string> pl(n);
    for (size_t i = 0; i < n; i++) encode_payload(pl[i], cs[i].s, cs[i].rep == R_AUTO ? natural(cs[i].s) : cs[i].rep);
    if (L.has_offs)
        for (size_t i = 0; i < n; i++) {
            put32(o, (uint32_t)at);
            at += pl[i].size();
        }
    L.payload = o.size();
    for (size_t i = 0; i < n; i++) {
        L.payloads.push_back(o.size());
        o += pl[i];
    }
    if (lay) *lay = L;
    return o;
}
struct Reader {
    const unsigned char *p;
    size_t n, i = 0;
    bool bad = false;
    Reader(const char *b, size_t m) : p((const unsigned char *)b), n(m) {}
    uint32_t u16() {
        if (i + 2 > n) {
            bad = true;
            return 0;
        }
        uint32_t v = p[i] | p[i + 1] << 8;
        i += 2;
        return v;
    }
    uint32_t u32() {
        uint32_t a = u16();
        return a | u16() << 16;
    }
    uint64_t u64() {
        uint64_t a = u32();
        return a | (uint64_t)u32() << 32;
    }
};
// Strict decoder: fails on anything the specification does not allow.  Fills chunks; consumed bytes.
inline bool decode32(const char *b, size_t n, Chunks &out, size_t &used, std::string *why = nullptr) {
    auto bad = [&](const char *w) {
        if (why) *why = w;
        return false;
    };
    Reader r(b, n);
    out.clear();
    uint32_t cookie = r.u32();
    if (r.bad) return bad("no cookie");
    uint32_t cnt;
    bool hasrun = false;
    std::string flags;
    if ((cookie & 0xffff) == 12347) {
        hasrun = true;
        cnt = (cookie >> 16) + 1;
        size_t fb = (cnt + 7) / 8;
        if (r.i + fb > n) return bad("short flags");
        flags.assign(b + r.i, fb);
        for (size_t i = cnt; i < fb * 8; i++)
            if (flags[i / 8] >> (i % 8) & 1) return bad("run flag beyond the container count");
        r.i += fb;
    } else if (cookie == 12346) {
        cnt = r.u32();
        if (cnt > 65536) return bad("too many containers");
    } else
        return bad("bad cookie");
    if (r.bad) return bad("short header");
    std::vector<uint32_t> card(cnt);
    for (uint32_t i = 0; i < cnt; i++) {
        Chunk c;
        c.key = (uint16_t)r.u16();
        card[i] = r.u16() + 1;
        if (i && c.key <= out.back().key) return bad("keys not increasing");
        bool run = hasrun && (flags[i / 8] >> (i % 8) & 1);
        c.rep = run ? R_RUN : card[i] <= 4096 ? R_ARRAY : R_BITSET;
        out.push_back(c);
    }
    if (r.bad) return bad("short descriptive header");
    std::vector<uint32_t> offs;
    if (!hasrun || cnt >= 4)
        for (uint32_t i = 0; i < cnt; i++) offs.push_back(r.u32());
    if (r.bad) return bad("short offset header");
    for (uint32_t i = 0; i < cnt; i++) {
        if (!offs.empty() && offs[i] != r.i) return bad("wrong offset");
        Set &s = out[i].s;
        if (out[i].rep == R_RUN) {
            uint32_t nr = r.u16();
            int64_t last = -1;
            for (uint32_t k = 0; k < nr; k++) {
                uint32_t a = r.u16(), l = r.u16();
                if (r.bad) return bad("short run container");
                if ((int64_t)a <= last || a + l > 65535) return bad("bad run");
                last = a + l;
                if (!s.v.empty() && s.v.back().b + 1 == a) s.v.back().b = a + l;
                else s.v.push_back({a, a + l});
            }
        } else if (out[i].rep == R_ARRAY) {
            int64_t last = -1;
            for (uint32_t k = 0; k < card[i]; k++) {
                uint32_t a = r.u16();
                if (r.bad) return bad("short array container");
                if ((int64_t)a <= last) return bad("array not increasing");
                last = a;
                if (!s.v.empty() && s.v.back().b + 1 == a) s.v.back().b = a;
                else s.v.push_back({a, a});
            }
        } else {
            if (r.i + 8192 > n) return bad("short bitset container");
            const unsigned char *w = r.p + r.i;
            for (uint32_t k = 0; k < 8192; k++) {
                if (w[k] == 0) continue;
                if (w[k] == 255) {
                    uint64_t a = k * 8;
                    if (!s.v.empty() && s.v.back().b + 1 == a) s.v.back().b = a + 7;
                    else s.v.push_back({a, a + 7});
                    continue;
                }
                for (int q = 0; q < 8; q++)
                    if (w[k] >> q & 1) {
                        uint64_t a = k * 8 + q;
                        if (!s.v.empty() && s.v.back().b + 1 == a) s.v.back().b = a;
                        else s.v.push_back({a, a});
                    }
            }
            r.i += 8192;
        }
        if (r.bad) return bad("short container");
        if (s.card() != card[i]) return bad("cardinality mismatch");
    }
    used = r.i;
    return true;
}
inline Set chunks_set(const Chunks &cs, uint64_t high = 0) {
    Set s;
    for (auto &c : cs)
        for (auto &i : c.s.v) {
            uint64_t a = high << 32 | (uint64_t)c.key << 16 | i.a, b = high << 32 | (uint64_t)c.key << 16 | i.b;
            if (!s.v.empty() && s.v.back().b + 1 == a) s.v.back().b = b;
            else s.v.push_back({a, b});
        }
    return s;
}
// split a 32-bit set into chunks with a representation chosen by the callback
template <class F>
inline Chunks split32(const Set &s, F rep) {
    Chunks cs;
    for (auto i : s.v) {
        uint64_t a = i.a;
        while (true) {
            uint64_t k = a >> 16, e = std::min<uint64_t>(i.b, k << 16 | 0xffff);
            if (cs.empty() || cs.back().key != (uint16_t)k) cs.push_back({(uint16_t)k, Set(), R_AUTO});
            cs.back().s.v.push_back({a & 0xffff, e & 0xffff});
            if (e == i.b) break;
            a = e + 1;
        }
    }
    for (auto &c : cs) c.rep = rep(c);
    return cs;
}
// 64-bit portable: u64 bucket count, then (u32 high, 32-bit bitmap) each
struct Bucket {
    uint32_t high;
    Chunks cs;
};
inline std::string encode64(const std::vector<Bucket> &bs) {
    std::string o;
    put64(o, bs.size());
    for (auto &b : bs) {
        put32(o, b.high);
        o += encode32(b.cs);
    }
    return o;
}
inline bool decode64(const char *b, size_t n, std::vector<Bucket> &out, size_t &used, std::string *why = nullptr) {
    Reader r(b, n);
    out.clear();
    uint64_t k = r.u64();
    if (r.bad || k > UINT32_MAX) return false;
    for (uint64_t i = 0; i < k; i++) {
        Bucket bk;
        bk.high = r.u32();
        if (r.bad) {
            if (why) *why = "short bucket header";
            return false;
        }
        if (i && bk.high <= out.back().high) {
            if (why) *why = "buckets not increasing";
            return false;
        }
        size_t u;
        if (!decode32(b + r.i, n - r.i, bk.cs, u, why)) return false;
        r.i += u;
        out.push_back(bk);
    }
    used = r.i;
    return true;
}
inline Set buckets_set(const std::vector<Bucket> &bs) {
    Set s;
    for (auto &b : bs) s = s.uni(chunks_set(b.cs, b.high));
    return s;
}
inline std::vector<Bucket> split64(const Set &s, Rep (*rep)(const Chunk &)) {
    std::vector<Bucket> out;
    std::vector<Set> low;
    for (auto i : s.v) {
        uint64_t a = i.a;
        while (true) {
            uint64_t h = a >> 32, e = std::min<uint64_t>(i.b, h << 32 | 0xffffffffULL);
            if (out.empty() || out.back().high != (uint32_t)h) {
                out.push_back({(uint32_t)h, {}});
                low.push_back(Set());
            }
            low.back().v.push_back({a & 0xffffffff, e & 0xffffffff});
            if (e == i.b) break;
            a = e + 1;
        }
    }
    for (size_t k = 0; k < out.size(); k++) out[k].cs = split32(low[k], rep);
    return out;
}
