// C24: run-optimizing, removing run compression and shrinking never change the set; their reported results are true.
#include "hist32.hpp"
#include "hist64.hpp"
#include "queries32.hpp"
#include "queries64.hpp"
#include "rows.hpp"
#include "zoo.hpp"
#include "zoo64.hpp"
typedef unsigned long long ull;
static size_t payload(const Chunk &c) {
    return c.rep == R_RUN ? 2 + 4 * c.s.v.size() : c.s.card() <= 4096 ? 2 * c.s.card() : 8192;
}
static const char *SN[] = {"run_optimize", "remove_run_compression", "shrink_to_fit"};
// one re-encoding step with all its promises
static void step32(R *r, const Set &s, int w) {
    auto &e = mc::E();
    Chunks before, after;
    Set s0 = to_set_ser(r, &before);
    MC_CHECK(s0 == s, "before %s: %s", SN[w], diff_str(s0, s).c_str());
    size_t sz = roaring_bitmap_portable_size_in_bytes(r);
    roaring_statistics_t st;
    roaring_bitmap_statistics(r, &st);
    bool had_runs = st.n_run_containers > 0;
    int64_t live = hk::S.live_bytes;
    if (w == 0) {
        bool ret = roaring_bitmap_run_optimize(r);
        roaring_bitmap_statistics(r, &st);
        bool in_bytes = false;
        Set s1 = to_set_ser(r, &after);
        MC_CHECK(s1 == s, "run_optimize: %s", diff_str(s1, s).c_str());
        for (auto &c : after) in_bytes |= c.rep == R_RUN;
        MC_CHECK(ret == in_bytes, "run_optimize returned %d, run storage present: %d", ret, in_bytes);
        MC_CHECK((st.n_run_containers > 0) == in_bytes, "statistics report %u run containers, bytes say %d", st.n_run_containers, in_bytes);
        MC_CHECK(before.size() == after.size(), "run_optimize changed the number of chunks");
        for (size_t i = 0; i < before.size(); i++)
            MC_CHECK(payload(after[i]) <= payload(before[i]), "run_optimize enlarged chunk %u from %zu to %zu bytes", before[i].key, payload(before[i]), payload(after[i]));
    } else if (w == 1) {
        bool ret = roaring_bitmap_remove_run_compression(r);
        roaring_bitmap_statistics(r, &st);
        Set s1 = to_set_ser(r, &after);
        MC_CHECK(s1 == s, "remove_run_compression: %s", diff_str(s1, s).c_str());
        MC_CHECK(ret == had_runs, "remove_run_compression returned %d, runs were present: %d", ret, had_runs);
        MC_CHECK(st.n_run_containers == 0, "remove_run_compression left %u run containers", st.n_run_containers);
        for (auto &c : after) MC_CHECK(c.rep != R_RUN, "remove_run_compression left run storage in chunk %u", c.key);
    } else {
        std::string b0(sz, 0);
        roaring_bitmap_portable_serialize(r, &b0[0]);
        size_t ret = roaring_bitmap_shrink_to_fit(r);
        MC_CHECK((int64_t)ret == live - hk::S.live_bytes, "shrink_to_fit reported %zu bytes, %lld were given back", ret, (long long)(live - hk::S.live_bytes));
        MC_CHECK(ser_eq(r, b0), "shrink_to_fit changed the serialized bytes");
        live = hk::S.live_bytes;
        ret = roaring_bitmap_shrink_to_fit(r);
        MC_CHECK(ret == 0 && live == hk::S.live_bytes, "a second shrink_to_fit reported %zu bytes and gave back %lld", ret, (long long)(live - hk::S.live_bytes));
    }
    expect_valid(r, SN[w]);
    MC_CHECK(roaring_bitmap_get_cardinality(r) == s.card(), "%s: cardinality %llu", SN[w], (ull)roaring_bitmap_get_cardinality(r));
    e.eval();
}
static void step64(R64 *r, const Set &s, int w) {
    auto &e = mc::E();
    std::vector<Bucket> before, after;
    Set s0 = to_set64_ser(r, &before);
    MC_CHECK(s0 == s, "before %s: %s", SN[w], diff_str(s0, s).c_str());
    roaring64_statistics_t st;
    if (w == 0) {
        bool ret = roaring64_bitmap_run_optimize(r), in_bytes = false;
        Set s1 = to_set64_ser(r, &after);
        MC_CHECK(s1 == s, "64-bit run_optimize: %s", diff_str(s1, s).c_str());
        MC_CHECK(before.size() == after.size(), "64-bit run_optimize changed the number of buckets");
        for (size_t b = 0; b < after.size(); b++) {
            MC_CHECK(before[b].cs.size() == after[b].cs.size(), "64-bit run_optimize changed the number of chunks");
            for (size_t i = 0; i < after[b].cs.size(); i++) {
                in_bytes |= after[b].cs[i].rep == R_RUN;
                MC_CHECK(payload(after[b].cs[i]) <= payload(before[b].cs[i]), "64-bit run_optimize enlarged chunk %u", after[b].cs[i].key);
            }
        }
        MC_CHECK(ret == in_bytes, "64-bit run_optimize returned %d, run storage present: %d", ret, in_bytes);
        roaring64_bitmap_statistics(r, &st);
        MC_CHECK((st.n_run_containers > 0) == in_bytes, "64-bit statistics report %llu run containers", (ull)st.n_run_containers);
    } else {
        std::string b0 = ser_bytes64(r);
        int64_t live = hk::S.live_bytes;
        size_t ret = roaring64_bitmap_shrink_to_fit(r);
        MC_CHECK((int64_t)ret == live - hk::S.live_bytes, "64-bit shrink_to_fit reported %zu bytes, %lld were given back", ret, (long long)(live - hk::S.live_bytes));
        MC_CHECK(ser_bytes64(r) == b0, "64-bit shrink_to_fit changed the serialized bytes");
        live = hk::S.live_bytes;
        ret = roaring64_bitmap_shrink_to_fit(r);
        MC_CHECK(ret == 0 && live == hk::S.live_bytes, "a second 64-bit shrink_to_fit reported %zu bytes and gave back %lld", ret, (long long)(live - hk::S.live_bytes));
    }
    expect_valid64(r, SN[w]);
    MC_CHECK(roaring64_bitmap_get_cardinality(r) == s.card(), "64-bit %s: cardinality %llu", SN[w], (ull)roaring64_bitmap_get_cardinality(r));
    e.eval();
}
int main(int argc, char **argv) {
    hk::install();
    auto &e = mc::E();
    e.init(argc, argv, "C24");
    e.rule = "a distinct state is a different serialized content, set of storage kinds and amount of spare capacity";
    static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    {  // every state of the update histories, re-encoded in an order that depends on the state
        HistOpts o;
        o.values = false;
        o.leaks = true;
        o.depth_delta = e.thorough ? 0 : -1;
        o.extra = [&](R *r, const Set &s) {
            uint64_t k = mc::hash64(state_fp(r, 0)) % 6;
            for (int j = 0; j < 3; j++) step32(r, s, perm[k][j]);
        };
        run_hist_families(o);
    }
    {
        h64::HistOpts o;
        o.values = false;
        o.leaks = true;
        o.depth_delta = e.thorough ? 0 : -1;
        o.extra = [&](R64 *r, const Set &s) {
            uint64_t k = mc::hash64(h64::state_fp(r, 0)) % 2;
            step64(r, s, k ? 0 : 2);
            step64(r, s, k ? 2 : 0);
        };
        h64::run_hist_families(o);
    }
    // sequences of steps on every bitmap of the list, followed by a further update or by queries
    std::vector<std::vector<int>> seqs;
    for (int l = 1; l <= 3; l++) {
        int n = l == 1 ? 3 : l == 2 ? 9 : 27;
        for (int q = 0; q < n; q++) {
            std::vector<int> v;
            for (int j = 0, c = q; j < l; j++, c /= 3) v.push_back(c % 3);
            seqs.push_back(v);
        }
    }
    using namespace op;
    Set mix = Set::range(100, 5099).uni(Set{0, 65535, 70000, 0xFFFFFFFFu}).uni(Set::range(6 * 65536, 6 * 65536 + 9000));
    Ops post = {addc(100), remc(65535), addc(6 * 65536 + 77), addr(1000, 6 * 65536 + 10), remr(5, 65530), flip(0, 65536), flip(6 * 65536 + 5, 9 * 65536 + 100), flip(0xFFFDFFF0ull, 1ull << 32),
                inpl("and", "mix", mix, true), inpl("or", "mix", mix, false), inpl("xor", "mix", mix, true), inpl("andnot", "mix", mix, false), remr(0xFFFF0000ull, 1ull << 32),
                addm("list", {3, 70000, 65536 * 6 + 1, 2, 0xFFFFFFFFu, 1})};
    size_t P = post.size() + 1;
    auto z = zoo(1);
    e.parallel("sequences32", z.size() * seqs.size(), [&](uint64_t i) {
        const Zoo &x = z[i / seqs.size()];
        auto &q = seqs[i % seqs.size()];
        Set s0 = chunks_set(x.cs);
        if (!e.thorough && (x.cs.size() > 50 ? i % 3 : q.size() == 3 && i % 2)) return;
        LeakScope ls;
        for (size_t p = e.thorough ? 0 : i % P; p < P; p += e.thorough ? 1 : P) {
            std::string d = x.name + ":";
            for (int w : q) d += std::string(" ") + SN[w];
            if (p < post.size()) d += " then " + post[p].name;
            e.detail("%s", d.c_str());
            Set s = s0;
            RP sharer, r(zoo_build(x, sharer));
            if (x.shared && p % 2) sharer.reset();
            for (int w : q) step32(r.get(), s, w);
            if (p < post.size()) {
                post[p].f(r.get(), s);
                expect_set(r.get(), s, post[p].name.c_str());
                expect_valid(r.get(), post[p].name.c_str());
                step32(r.get(), s, q[0]);
            } else {
                QOpts o;
                o.points = 3;
                o.extraction = false;
                check_queries(r.get(), s, o);
            }
            if (sharer) MC_CHECK(to_set_ser(sharer.get()) == s0, "the other owner of shared storage changed");
            e.outcome(state_fp(r.get(), hk::S.live_bytes));
        }
        ls.check("re-encoding");
        MC_CHECK(hk::S.foreign == 0, "library bypassed the memory hooks");
    }, nullptr, 16);
    // rows of 24 and of 300 chunks, one chunk at every position unlike the others
    for (int w = 0; w < 2; w++) {
        rows::Rows rw{w == 1};
        auto pts = rw.points();
        e.parallel(rw.name(), pts.size() * 4 * 3, [=](uint64_t i) {
            int p = pts[i / 12], base = (int)(i / 3 % 4), share = (int)(i % 3);
            // base 0: arrays, 1: arrays that gain from runs, 2: runs, 3: the mixed row
            static const Set A{3, 9, 65535}, G = Set::range(5, 300), B = Set::range(100, 5099).minus(Set::step(101, 5000, 2)).uni(Set::step(6000, 20000, 5));
            Chunks cs = rw.row(0, 5, 3);
            if (base < 3)
                for (int k = 0; k < (int)cs.size(); k++) {
                    bool odd = k == p;
                    cs[k].s = base == 0 ? (odd ? G : A) : base == 1 ? (odd ? A : G) : odd ? B : G;
                    cs[k].rep = base == 2 && !odd ? R_RUN : natural(cs[k].s);
                }
            else if (p) cs.erase(cs.begin() + p);
            Set s = chunks_set(cs);
            LeakScope ls;
            for (auto &q : seqs) {
                if (q.size() > 2 || (!mc::E().thorough && q.size() == 2 && q[0] == q[1])) continue;
                mc::E().detail("row kind %d, chunk %d, sharing %d, steps %d %d", base, p, share, q[0], q.size() > 1 ? q[1] : -1);
                RP other, r(build_chunks(cs));
                if (share) {
                    roaring_bitmap_set_copy_on_write(r.get(), true);
                    other.reset(roaring_bitmap_copy(r.get()));
                    if (share == 2) other.reset();
                }
                for (int t : q) step32(r.get(), s, t);
                if (other) MC_CHECK(to_set_ser(other.get()) == s, "the other owner of shared storage changed");
            }
            if (share == 0) {
                std::vector<Bucket> b;
                for (auto &c : cs) {
                    uint32_t hi = (uint32_t)(c.key / 64);
                    if (b.empty() || b.back().high != hi) b.push_back({hi, {}});
                    b.back().cs.push_back({(uint16_t)(c.key % 64), c.s, c.rep});
                }
                RP64 r(build64_buckets(b));
                Set s6 = buckets_set(b);
                for (int t : {0, 2, 0}) step64(r.get(), s6, t);
            }
            ls.check("re-encoding a row");
        }, nullptr, 1);
    }
    auto z64 = zoo64(1);
    uint64_t B = 5ull << 40;
    h64::Ops post64 = {h64::addc(100), h64::remc(65535), h64::addc(B), h64::addr(1000, 6 * 65536 + 10), h64::remr(5, 65530), h64::flip(0, 65536), h64::addc(U64M), h64::remc(U64M),
                       h64::addm("list", {3, 70000, B, 1ull << 24, U64M, 1}), h64::remr(65536, U64M), h64::clear()};
    static const std::vector<std::vector<int>> q64 = {{0}, {2}, {0, 2}, {2, 0}, {2, 0, 2}, {0, 2, 0}};
    size_t P64 = post64.size() + 1;
    e.parallel("sequences64", z64.size() * q64.size(), [&](uint64_t i) {
        auto &x = z64[i / q64.size()];
        auto &q = q64[i % q64.size()];
        LeakScope ls;
        for (size_t p = e.thorough ? 0 : i % P64; p < P64; p += e.thorough ? 1 : P64) {
            std::string d = x.name + ":";
            for (int w : q) d += std::string(" ") + SN[w];
            if (p < post64.size()) d += " then " + post64[p].name;
            e.detail("%s", d.c_str());
            Set s = x.s;
            RP64 r(zoo64_build(x));
            for (int w : q) step64(r.get(), s, w);
            if (p < post64.size()) {
                post64[p].f(r.get(), s);
                expect_set64(r.get(), s, post64[p].name.c_str());
                expect_valid64(r.get(), post64[p].name.c_str());
                step64(r.get(), s, q[0]);
            } else check_queries64(r.get(), s, 3, false);
            e.outcome(h64::state_fp(r.get(), hk::S.live_bytes));
        }
        ls.check("64-bit re-encoding");
    }, nullptr, 16);
    return e.finish();
}
