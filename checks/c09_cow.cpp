// C09: every history over several bitmaps that share storage through copy-on-write, up to a depth.
#include <algorithm>
#include "hist32.hpp"
#include "rows.hpp"
struct Sys {
    int n;
    std::vector<R *> b;
    std::vector<Set> m;
    explicit Sys(int n) : n(n), b(n, nullptr), m(n) {}
    void put(int k, R *r, const Set &s) {
        R *old = b[k];
        b[k] = r;
        m[k] = s;
        if (old) roaring_bitmap_free(old);
    }
    void drop(int k) {
        roaring_bitmap_free(b[k]);
        b[k] = nullptr;
        m[k] = Set();
    }
    ~Sys() {
        for (auto *r : b)
            if (r) roaring_bitmap_free(r);
    }
};
struct COp {
    std::string name;
    unsigned need = 0;   // slots that must exist
    int makes = -1, kills = -1;
    unsigned writes = 0;  // slots the operation may change
    std::function<void(Sys &)> f;
};
static R *cow(R *r) {
    roaring_bitmap_set_copy_on_write(r, true);
    return r;
}
static std::string nm(const char *f, int i, int j = -1, int k = -1) {
    std::string s = mc::strf("%s(#%d", f, i);
    if (j >= 0) s += mc::strf(",#%d", j);
    s += ")";
    if (k >= 0) s += mc::strf("->#%d", k);
    return s;
}
static void per_slot(std::vector<COp> &v, int n, const Ops &ops) {
    for (int i = 0; i < n; i++)
        for (auto &o : ops)
            v.push_back({mc::strf("#%d.%s", i, o.name.c_str()), 1u << i, -1, -1, 1u << i, [=](Sys &s) { o.f(s.b[i], s.m[i]); }});
}
static void sharing(std::vector<COp> &v, int n) {
    for (int i = 0; i < n; i++) {
        v.push_back({nm("free", i), 1u << i, -1, i, 1u << i, [=](Sys &s) { s.drop(i); }});
        for (int j = 0; j < n; j++)
            if (i != j) {
                v.push_back({nm("copy", i, -1, j), 1u << i, j, -1, 1u << j, [=](Sys &s) { s.put(j, roaring_bitmap_copy(s.b[i]), s.m[i]); }});
                v.push_back({nm("overwrite", j, i), 1u << i | 1u << j, -1, -1, 1u << j, [=](Sys &s) {
                                 MC_CHECK(roaring_bitmap_overwrite(s.b[j], s.b[i]), "overwrite failed");
                                 s.m[j] = s.m[i];
                             }});
            }
    }
}
static void inplace(std::vector<COp> &v, int n, bool lazy) {
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
            if (i != j) {
                unsigned need = 1u << i | 1u << j, w = 1u << i;
                v.push_back({nm("or_inplace", i, j), need, -1, -1, w, [=](Sys &s) { roaring_bitmap_or_inplace(s.b[i], s.b[j]); s.m[i] = s.m[i].uni(s.m[j]); }});
                v.push_back({nm("and_inplace", i, j), need, -1, -1, w, [=](Sys &s) { roaring_bitmap_and_inplace(s.b[i], s.b[j]); s.m[i] = s.m[i].inter(s.m[j]); }});
                v.push_back({nm("xor_inplace", i, j), need, -1, -1, w, [=](Sys &s) { roaring_bitmap_xor_inplace(s.b[i], s.b[j]); s.m[i] = s.m[i].xr(s.m[j]); }});
                v.push_back({nm("andnot_inplace", i, j), need, -1, -1, w, [=](Sys &s) { roaring_bitmap_andnot_inplace(s.b[i], s.b[j]); s.m[i] = s.m[i].minus(s.m[j]); }});
                if (lazy) {
                    v.push_back({nm("lazy_or_inplace+repair", i, j), need, -1, -1, w, [=](Sys &s) {
                                     roaring_bitmap_lazy_or_inplace(s.b[i], s.b[j], true);
                                     roaring_bitmap_repair_after_lazy(s.b[i]);
                                     s.m[i] = s.m[i].uni(s.m[j]);
                                 }});
                    v.push_back({nm("lazy_or_inplace(no conversion)+repair", i, j), need, -1, -1, w, [=](Sys &s) {
                                     roaring_bitmap_lazy_or_inplace(s.b[i], s.b[j], false);
                                     roaring_bitmap_repair_after_lazy(s.b[i]);
                                     s.m[i] = s.m[i].uni(s.m[j]);
                                 }});
                    v.push_back({nm("lazy_xor_inplace+repair", i, j), need, -1, -1, w, [=](Sys &s) {
                                     roaring_bitmap_lazy_xor_inplace(s.b[i], s.b[j]);
                                     roaring_bitmap_repair_after_lazy(s.b[i]);
                                     s.m[i] = s.m[i].xr(s.m[j]);
                                 }});
                }
            }
}
static R *nn(R *r, const char *what) {
    MC_CHECK(r, "%s returned NULL", what);
    return r;
}
static R *rep(R *r) {
    roaring_bitmap_repair_after_lazy(r);
    return r;
}
// read-only calls: nothing may change
static void queries(std::vector<COp> &v, int n) {
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) {
            if (i == j) continue;
            v.push_back({nm("queries", i, j), 1u << i | 1u << j, -1, -1, 0, [=](Sys &s) {
                             const R *a = s.b[i], *b = s.b[j];
                             const Set &x = s.m[i], &y = s.m[j];
                             MC_CHECK(roaring_bitmap_and_cardinality(a, b) == x.inter(y).card(), "and_cardinality");
                             MC_CHECK(roaring_bitmap_xor_cardinality(a, b) == x.xr(y).card(), "xor_cardinality");
                             MC_CHECK(roaring_bitmap_andnot_cardinality(a, b) == x.minus(y).card(), "andnot_cardinality");
                             MC_CHECK(roaring_bitmap_intersect(a, b) == !x.inter(y).empty(), "intersect");
                             MC_CHECK(roaring_bitmap_equals(a, b) == (x == y), "equals");
                             MC_CHECK(roaring_bitmap_is_subset(a, b) == x.subset_of(y), "is_subset");
                             MC_CHECK(roaring_bitmap_rank(a, 66000) == x.rank(66000), "rank");
                             MC_CHECK(roaring_bitmap_contains_range(a, 100, 1001) == x.contains_range(100, 1000), "contains_range");
                             MC_CHECK(roaring_bitmap_range_cardinality(a, 100, 131272) == x.range_card(100, 131271), "range_cardinality");
                             uint32_t got;
                             uint64_t want;
                             bool ok = roaring_bitmap_select(a, 20, &got), wok = x.select(20, want);
                             MC_CHECK(ok == wok && (!ok || got == want), "select(20)");
                             std::vector<uint32_t> buf(64);
                             MC_CHECK(roaring_bitmap_range_uint32_array(a, 3, 50, buf.data()), "range_uint32_array");
                             size_t fz = roaring_bitmap_frozen_size_in_bytes(a);
                             char *f = (char *)aligned_alloc(32, (fz + 31) / 32 * 32 + 32);
                             roaring_bitmap_frozen_serialize(a, f);
                             const R *fv = roaring_bitmap_frozen_view(f, fz);
                             MC_CHECK(fv && roaring_bitmap_equals(fv, a), "frozen view of a bitmap with shared storage differs");
                             roaring_bitmap_free(fv);
                             free(f);
                             bitset_t *bs = bitset_create();
                             MC_CHECK(roaring_bitmap_to_bitset(a, bs) && bitset_count(bs) == x.card(), "to_bitset");
                             bitset_free(bs);
                             const char *why = nullptr;
                             MC_CHECK(roaring_bitmap_internal_validate(a, &why), "internal validation: %s", why);
                         }});
        }
}
// results stored in slot k
static void outofplace(std::vector<COp> &v, int n, bool lazy) {
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
            for (int k = 0; k < n; k++) {
                if (i == j || (n > 2 && (k == i || k == j))) continue;
                if (n == 2 && k != j) continue;
                unsigned need = 1u << i | 1u << j, w = 1u << k;
                v.push_back({nm("and", i, j, k), need, k, -1, w, [=](Sys &s) { Set z = s.m[i].inter(s.m[j]); s.put(k, nn(roaring_bitmap_and(s.b[i], s.b[j]), "and"), z); }});
                v.push_back({nm("or", i, j, k), need, k, -1, w, [=](Sys &s) { Set z = s.m[i].uni(s.m[j]); s.put(k, nn(roaring_bitmap_or(s.b[i], s.b[j]), "or"), z); }});
                v.push_back({nm("xor", i, j, k), need, k, -1, w, [=](Sys &s) { Set z = s.m[i].xr(s.m[j]); s.put(k, nn(roaring_bitmap_xor(s.b[i], s.b[j]), "xor"), z); }});
                v.push_back({nm("andnot", i, j, k), need, k, -1, w, [=](Sys &s) { Set z = s.m[i].minus(s.m[j]); s.put(k, nn(roaring_bitmap_andnot(s.b[i], s.b[j]), "andnot"), z); }});
                if (lazy) {
                    v.push_back({nm("lazy_or+repair", i, j, k), need, k, -1, w, [=](Sys &s) { Set z = s.m[i].uni(s.m[j]); s.put(k, rep(nn(roaring_bitmap_lazy_or(s.b[i], s.b[j], true), "lazy_or")), z); }});
                    v.push_back({nm("lazy_or(no conversion)+repair", i, j, k), need, k, -1, w, [=](Sys &s) { Set z = s.m[i].uni(s.m[j]); s.put(k, rep(nn(roaring_bitmap_lazy_or(s.b[i], s.b[j], false), "lazy_or")), z); }});
                    v.push_back({nm("lazy_xor+repair", i, j, k), need, k, -1, w, [=](Sys &s) { Set z = s.m[i].xr(s.m[j]); s.put(k, rep(nn(roaring_bitmap_lazy_xor(s.b[i], s.b[j]), "lazy_xor")), z); }});
                    v.push_back({nm("or_many", i, j, k), need, k, -1, w, [=](Sys &s) {
                                     Set z = s.m[i].uni(s.m[j]);
                                     const R *l[] = {s.b[i], s.b[j], s.b[i]};
                                     s.put(k, cow(nn(roaring_bitmap_or_many(3, l), "or_many")), z);
                                 }});
                    v.push_back({nm("or_many_heap", i, j, k), need, k, -1, w, [=](Sys &s) {
                                     Set z = s.m[i].uni(s.m[j]);
                                     const R *l[] = {s.b[i], s.b[j], s.b[i]};
                                     s.put(k, cow(nn(roaring_bitmap_or_many_heap(3, l), "or_many_heap")), z);
                                 }});
                    v.push_back({nm("xor_many", i, j, k), need, k, -1, w, [=](Sys &s) {
                                     Set z = s.m[i].xr(s.m[j]);
                                     const R *l[] = {s.b[i], s.b[j]};
                                     s.put(k, cow(nn(roaring_bitmap_xor_many(2, l), "xor_many")), z);
                                 }});
                    v.push_back({nm("or_many(one)", i, -1, k), need, k, -1, w, [=](Sys &s) {
                                     Set z = s.m[i];
                                     const R *l[] = {s.b[i]};
                                     s.put(k, cow(nn(roaring_bitmap_or_many(1, l), "or_many")), z);
                                 }});
                }
            }
    for (int i = 0; i < n; i++)
        for (int k = 0; k < n; k++) {
            if (i == k) continue;
            unsigned need = 1u << i, w = 1u << k;
            v.push_back({nm("flip(3,140000)", i, -1, k), need, k, -1, w, [=](Sys &s) { Set z = s.m[i].flip(3, 139999); s.put(k, nn(roaring_bitmap_flip(s.b[i], 3, 140000), "flip"), z); }});
            v.push_back({nm("add_offset(65536)", i, -1, k), need, k, -1, w, [=](Sys &s) {
                             Set z = s.m[i].inter(Set::range(0, 0xFFFEFFFFull)).shift(65536);
                             s.put(k, nn(roaring_bitmap_add_offset(s.b[i], 65536), "add_offset"), z);
                         }});
            v.push_back({nm("add_offset(5)", i, -1, k), need, k, -1, w, [=](Sys &s) {
                             Set z = s.m[i].inter(Set::range(0, 0xFFFFFFFAull)).shift(5);
                             s.put(k, nn(roaring_bitmap_add_offset(s.b[i], 5), "add_offset"), z);
                         }});
        }
}
static uint64_t slot_hash(const Sys &s, int i, std::map<const void *, int> &ids) {
    mc::Hash h;
    if (!s.b[i]) return 7;
    const roaring_array_t &ra = s.b[i]->high_low_container;
    std::string b(roaring_bitmap_portable_size_in_bytes(s.b[i]), '\0');
    roaring_bitmap_portable_serialize(s.b[i], &b[0]);
    h.bytes(b.data(), b.size());
    roaring_statistics_t st;
    roaring_bitmap_statistics(s.b[i], &st);
    h.u64((uint64_t)st.n_array_containers << 40 | (uint64_t)st.n_run_containers << 20 | st.n_bitset_containers);
    h.u64(ra.flags);
    h.u64(ra.allocation_size);
    for (int c = 0; c < ra.size; c++) {
        h.u64(ra.typecodes[c]);
        auto it = ids.emplace(ra.containers[c], (int)ids.size());
        h.u64(it.first->second);
    }
    return h.h;
}
static uint64_t sys_fp(const Sys &s, int64_t bytes) {
    std::vector<int> p(s.n);
    for (int i = 0; i < s.n; i++) p[i] = i;
    uint64_t best = ~0ull;
    do {
        std::map<const void *, int> ids;
        mc::Hash h;
        for (int i : p) h.u64(slot_hash(s, i, ids));
        best = std::min(best, h.h);
    } while (std::next_permutation(p.begin(), p.end()));
    mc::Hash h;
    h.u64(best);
    h.u64((uint64_t)bytes);
    return h.h | 1;
}
static Op bulk(std::vector<uint32_t> v) {
    return {"add_bulk(mixed)", [=](R *r, Set &s) {
                roaring_bulk_context_t c = CROARING_ZERO_INITIALIZER;
                for (auto x : v) {
                    roaring_bitmap_add_bulk(r, &c, x);
                    s.add(x);
                }
            }};
}
struct Start {
    std::string name;
    std::function<void(Sys &)> f;
};
static Chunks mk(std::initializer_list<Chunk> l) { return Chunks(l); }
static void fam(const std::string &name, int n, const std::vector<COp> &ops, const std::vector<Start> &starts, int depth) {
    auto &e = mc::E();
    for (auto &st : starts) {
        std::string fn = "cow-" + name + "-" + st.name;
        if (!e.want(fn)) continue;
        e.samples.push_back(fn + ": " + ops[0].name + " " + ops[ops.size() / 3].name + " " + ops.back().name);
        e.bfs(fn, (int)ops.size(), depth, [&](const mc::Engine::Hist &h) -> uint64_t {
            LeakScope ls;
            uint64_t fp;
            std::string d;
            for (auto o : h) d += (d.empty() ? "" : " ") + ops[o].name;
            e.detail("start %s: %s", st.name.c_str(), d.c_str());
            {
                int64_t b0 = hk::S.live_bytes;
                Sys s(n);
                st.f(s);
                unsigned have = 0;
                for (int i = 0; i < n; i++) have |= (unsigned)!!s.b[i] << i;
                for (auto o : h) {
                    if ((ops[o].need & have) != ops[o].need) return 0;
                    if (ops[o].makes >= 0) have |= 1u << ops[o].makes;
                    if (ops[o].kills >= 0) have &= ~(1u << ops[o].kills);
                }
                struct Held {
                    roaring_uint32_iterator_t *it;
                    Set rest;
                    int slot;
                };
                std::vector<Held> held;
                for (size_t x = 0; x < h.size(); x++) {
                    if (x + 1 == h.size())  // open cursors on bitmaps the last operation must not disturb
                        for (int i = 0; i < n; i++)
                            if (s.b[i] && !(ops[h[x]].writes >> i & 1)) {
                                auto *it = roaring_iterator_create(s.b[i]);
                                Set rest = s.m[i];
                                uint64_t k = rest.card();
                                uint64_t v;
                                if (k > 2 && rest.select(k / 2, v)) {
                                    MC_CHECK(roaring_uint32_iterator_move_equalorlarger(it, (uint32_t)v), "seek failed");
                                    rest = rest.inter(Set::range(v, 0xFFFFFFFFull));
                                }
                                held.push_back({it, rest, i});
                            }
                    ops[h[x]].f(s);
                    e.eval();
                }
                const char *what = h.empty() ? "initial" : ops[h.back()].name.c_str();
                for (auto &hd : held) {
                    std::vector<uint32_t> buf(hd.rest.card() + 1);
                    uint32_t got = roaring_uint32_iterator_read(hd.it, buf.data(), (uint32_t)buf.size());
                    auto want = hd.rest;
                    Set g;
                    for (uint32_t i = 0; i < got; i++) {
                        if (!g.v.empty() && g.v.back().b + 1 == buf[i]) g.v.back().b = buf[i];
                        else g.v.push_back({buf[i], buf[i]});
                    }
                    roaring_uint32_iterator_free(hd.it);
                    if (g != want) mc::fail("%s: a cursor open on #%d, which it must not disturb, reads %s", what, hd.slot, diff_str(g, want).c_str());
                }
                for (int i = 0; i < n; i++)
                    if (s.b[i]) expect_set(s.b[i], s.m[i], mc::strf("after %s, #%d", what, i).c_str());
                fp = sys_fp(s, hk::S.live_bytes - b0);
            }
            ls.check("after releasing every bitmap");
            return fp;
        });
        if (e.over_budget()) return;
    }
}
int main(int argc, char **argv) {
    auto &e = mc::E();
    e.init(argc, argv, "C09");
    hk::install();
    using namespace op;
    bool T = e.thorough;
    Set arr{1, 5, 9, 60000}, run = Set::range(10, 1000).uni(Set::range(2000, 2999)), dense = Set::range(100, 5099);
    Set dense2 = Set::range(1000, 5099);
    auto A = [=] { return cow(build_chunks({{0, arr, R_ARRAY}, {1, run, R_RUN}, {2, dense, R_BITSET}})); };
    auto B = [=] { return cow(build_chunks({{1, dense2, R_BITSET}, {2, run, R_RUN}, {3, arr, R_ARRAY}})); };
    auto sA = chunks_set({{0, arr, R_ARRAY}, {1, run, R_RUN}, {2, dense, R_BITSET}});
    auto sB = chunks_set({{1, dense2, R_BITSET}, {2, run, R_RUN}, {3, arr, R_ARRAY}});
    auto one = [=](Set c, Rep rp) { return [=](Sys &s) { s.put(0, cow(build_chunks({{0, c, rp}})), c); s.put(1, roaring_bitmap_copy(s.b[0]), c); }; };
    // one chunk, two sharers: every kind of update
    {
        std::vector<COp> v;
        per_slot(v, 2, {add(7), addc(5), rem(5), remc(100), addr(50, 300), remr(90, 5000), flip(0, 70000), flipc(5, 5),
                        runopt(), remrun(), shrink(), clear(), bulk({5, 70000, 6, 65540, 9}), addm("5,70000,6", {5, 70000, 6}), remm("5,100,5,9", {5, 100, 5, 9}),
                        remm("100..1100", vec32(Set::range(100, 1100))), addrc(0, 65535), remrc(0, 65535)});
        sharing(v, 2);
        queries(v, 2);
        inplace(v, 2, true);
        outofplace(v, 2, true);
        fam("two", 2, v, {{"array", one(arr, R_ARRAY)}, {"run", one(run, R_RUN)}, {"bitset", one(dense, R_BITSET)}}, T ? 4 : 3);
    }
    // three bitmaps, several chunks
    {
        std::vector<COp> v;
        per_slot(v, 3, {add(7), remc(65536 + 10), remc(131072 + 100), addr(50, 140000), remr(1005, 70000), flip(5, 131072 + 200),
                        runopt(), remrun(), shrink(), addm("keys", {1, 65546, 131072, 400000}), remm("keys", {1, 65546, 131172, 5, 5})});
        sharing(v, 3);
        queries(v, 3);
        inplace(v, 3, false);
        outofplace(v, 3, false);
        fam("three", 3, v, {{"two-bitmaps", [=](Sys &s) { s.put(0, A(), sA); s.put(1, B(), sB); }},
                            {"chain", [=](Sys &s) { s.put(0, A(), sA); s.put(1, roaring_bitmap_copy(s.b[0]), sA); s.put(2, roaring_bitmap_copy(s.b[1]), sA); }}},
            T ? 4 : 2);
    }
    // sharing and releasing only, deep: every order of copying, unsharing and releasing among four bitmaps
    {
        std::vector<COp> v;
        per_slot(v, 4, {add(7), rem(5), remr(0, 65536)});
        sharing(v, 4);
        fam("orders", 4, v, {{"array", [=](Sys &s) { s.put(0, cow(build_chunks({{0, arr, R_ARRAY}})), arr); }}}, T ? 10 : 7);
    }
    // many-way operations on up to five copy-on-write inputs: every list of small layouts, inputs and result changed and
    // released afterwards in every direction
    {
        static const Set small{2, 7, 9}, runs = Set::range(10, 3000), bits = Set::range(100, 5099).uni(Set{7000, 7002});
        struct Lay { Chunks c; Set s; };
        std::vector<Lay> ls;
        for (auto &c : std::vector<Chunks>{{{0, small, R_ARRAY}}, {{1, small, R_ARRAY}}, {{2, Set{1, 5, 9}, R_ARRAY}}, {{0, Set{8}, R_ARRAY}, {1, runs, R_RUN}}, {{2, bits, R_BITSET}}, {{0, bits, R_BITSET}, {2, runs, R_RUN}}})
            ls.push_back({c, chunks_set(c)});
        if (T) ls.push_back({{{0, full16(), R_RUN}, {1, Set{9}, R_ARRAY}}, chunks_set({{0, full16(), R_RUN}, {1, Set{9}, R_ARRAY}})});
        uint64_t n = ls.size();
        for (int L = 2; L <= 5; L++) {
            uint64_t cnt = 1;
            for (int j = 0; j < L; j++) cnt *= n;
            e.parallel(mc::strf("cow-many-%d", L), cnt * 2, [&, L](uint64_t i) {
                bool copies = i & 1;  // inputs are copies of bitmaps that stay alive, and repeated layouts share storage
                std::vector<uint64_t> idx;
                std::string nm;
                uint64_t q = i / 2;
                for (int j = 0; j < L; j++, q /= n) {
                    idx.push_back(q % n);
                    nm += mc::strf(" %llu", (unsigned long long)(q % n));
                }
                Set u, x;
                for (auto k : idx) {
                    u = u.uni(ls[k].s);
                    x = x.xr(ls[k].s);
                }
                for (int kind = 0; kind < 3; kind++)
                    for (int after = 0; after < 3; after++) {
                        static const char *kn[3] = {"or_many", "or_many_heap", "xor_many"};
                        static const char *an[3] = {"result changed", "inputs changed", "inputs released"};
                        e.detail("%s of%s%s, %s", kn[kind], nm.c_str(), copies ? " (copies)" : "", an[after]);
                        LeakScope sc;
                        {
                            std::vector<RP> orig(n), in;
                            std::vector<const R *> l;
                            for (auto k : idx) {
                                if (copies) {
                                    if (!orig[k]) orig[k].reset(cow(build_chunks(ls[k].c)));
                                    in.emplace_back(roaring_bitmap_copy(orig[k].get()));
                                } else in.emplace_back(cow(build_chunks(ls[k].c)));
                                l.push_back(in.back().get());
                            }
                            RP r(kind == 0 ? roaring_bitmap_or_many(l.size(), l.data()) : kind == 1 ? roaring_bitmap_or_many_heap((uint32_t)l.size(), l.data()) : roaring_bitmap_xor_many(l.size(), l.data()));
                            const Set &w = kind == 2 ? x : u;
                            MC_CHECK(r, "many-way operation returned NULL");
                            expect_set(r.get(), w, kn[kind]);
                            Set W = w;
                            auto change = [](R *b, Set &s) {
                                roaring_bitmap_add(b, 65536 + 4);
                                roaring_bitmap_remove_range(b, 5, 9);
                                roaring_bitmap_flip_inplace(b, 131072, 131082);
                                s.add(65536 + 4);
                                s.remove_range(5, 8);
                                s = s.xr(Set::range(131072, 131081));
                            };
                            if (after == 0) change(r.get(), W);
                            for (size_t j = 0; j < in.size(); j++) {
                                Set s = ls[idx[j]].s;
                                if (after == 1) change(in[j].get(), s);
                                if (after == 2) in[j].reset();
                                else expect_set(in[j].get(), s, mc::strf("input %zu", j).c_str());
                            }
                            expect_set(r.get(), W, "the result afterwards");
                            if (after == 2) {
                                change(r.get(), W);
                                expect_set(r.get(), W, "the result, changed after its inputs were released");
                            }
                            for (uint64_t k = 0; k < n; k++)
                                if (orig[k]) expect_set(orig[k].get(), ls[k].s, "bitmap an input was copied from");
                        }
                        sc.check("many-way operation on shared storage");
                        e.eval();
                    }
                mc::Hash h;
                h.u64(i);
                h.u64(L);
                e.outcome(h.h);
            }, nullptr, 8);
        }
    }
    // counts of sharers around powers of two: one of them is written, half are released, the rest still see the contents
    {
        static const std::vector<int> counts = {1, 2, 3, 4, 7, 8, 15, 16, 17, 63, 64, 65, 126, 127, 128, 129, 253, 254, 255, 256, 257, 258, 300, 511, 512, 65534, 65535, 65536, 65537};
        static const std::vector<std::pair<Set, Rep>> ks = {{Set{3, 9, 65535}, R_ARRAY}, {Set::range(5, 300), R_RUN}, {Set::range(100, 5000), R_BITSET}, {full16(), R_RUN}};
        e.parallel("sharers", counts.size() * 4 * 3 * 3, [&](uint64_t q) {
            int n = counts[q / 36], kind = (int)(q % 4), order = (int)(q / 4 % 3), who = (int)(q / 12 % 3);
            if (n > 1000 && !e.thorough && who != (kind + order) % 3) return;
            LeakScope ls;
            {
                Chunks ch = {{7, ks[kind].first, ks[kind].second}, {9, Set{5}, R_ARRAY}};
                Set S = chunks_set(ch), T = S;
                e.detail("%d copies, kind %d, release order %d, writer %d", n, kind, order, who);
                std::vector<R *> all = {cow(build_chunks(ch))};
                for (int i = 0; i < n; i++) all.push_back(roaring_bitmap_copy(all[order == 1 ? all.size() - 1 : 0]));
                int w = who == 0 ? 0 : who == 1 ? n / 2 : n;
                roaring_bitmap_add(all[w], (7u << 16) + 1);
                T.add((7u << 16) + 1);
                roaring_bitmap_remove(all[w], (7u << 16) + 9);
                T.remove((7u << 16) + 9);
                auto look = [&](int i, const char *when) {
                    if (all[i]) expect_set(all[i], i == w ? T : S, when);
                    e.eval();
                };
                for (int i : {0, 1, n / 2, n - 1, n, w}) look(i, "after the write");
                // release: ascending, descending, every second one and then the others
                std::vector<int> ord;
                for (int i = 0; i <= n; i++) ord.push_back(order == 0 ? i : order == 1 ? n - i : 2 * i <= n ? 2 * i : (i - n / 2 - 1) * 2 + 1);
                for (int i = 0; i <= n; i++) {
                    roaring_bitmap_free(all[ord[i]]);
                    all[ord[i]] = nullptr;
                    bool near = i < 2 || i > n - 4;
                    for (int p : {64, 128, 256, 512, 32768, 65536}) near = near || i == p || n - i == p;
                    if (near && i < n) look(ord[n], "while others are released"), look(ord[i + 1], "while others are released");
                    if (i == n / 2 && i < n) look(w, "half of them released"), roaring_bitmap_add(all[ord[n]], 1u << 31), (ord[n] == w ? T : S).add(1u << 31), look(ord[n], "after a second write"), ord[n] == w ? T.remove(1u << 31) : S.remove(1u << 31), roaring_bitmap_remove(all[ord[n]], 1u << 31);
                }
            }
            ls.check("sharers");
        }, nullptr, 1);
    }
    // a row of 24 shared chunks: every update over every interval of it, and every operation with an interval of another row
    {
        for (const rows::Rows rw : {rows::Rows{false}, rows::Rows{true}})
            e.parallel(rw.name(), rw.intervals() * 2, [&, rw](uint64_t q) {
            int i, j, v = (int)(q % 2);
            rw.interval(q / 2, i, j);
            const uint64_t k0 = v ? 0x10000 - 2 * rw.n() : 0;
            const int st = v ? 2 : 1;
            Chunks ca = rw.row(v, k0, st), cb = rw.row(v + 2, k0, st, i, j);
            if (v) for (auto &c : cb) if (c.key % 3 == 0 && c.key < 0xFFFF) c.key++;  // some keys beside the row's
            Set SA = chunks_set(ca), SB = chunks_set(cb);
            uint64_t lo = (k0 + (uint64_t)i * st) << 16, hi = ((k0 + (uint64_t)j * st) << 16) + 65535;
            std::vector<uint32_t> vals;
            for (int c = i; c <= j; c++) {
                vals.push_back((uint32_t)((k0 + (uint64_t)c * st) << 16) + 777);
                vals.push_back((uint32_t)((k0 + (uint64_t)c * st) << 16) + 9);
            }
            std::vector<Op> ups = {addr(lo, hi + 1), addr(lo + 3, hi - 3), remr(lo, hi + 1), remr(lo + 3, hi - 3), flip(lo, hi + 1), flip(lo + 3, hi - 3),
                                   addm("in each chunk", vals), remm("in each chunk", vals), runopt(), remrun(), shrink()};
            typedef R *(*Out)(const R *, const R *);
            typedef void (*In)(R *, const R *);
            static const Out outs[4] = {roaring_bitmap_and, roaring_bitmap_or, roaring_bitmap_xor, roaring_bitmap_andnot};
            static const In ins[4] = {roaring_bitmap_and_inplace, roaring_bitmap_or_inplace, roaring_bitmap_xor_inplace, roaring_bitmap_andnot_inplace};
            static const char *nm[4] = {"and", "or", "xor", "andnot"};
            auto val = [](int t, const Set &x, const Set &y) { return t == 0 ? x.inter(y) : t == 1 ? x.uni(y) : t == 2 ? x.xr(y) : x.minus(y); };
            auto touch = [](R *b, Set &s) {  // writes into every chunk of the bitmap
                std::vector<uint32_t> w;
                for (auto &x : s.v)
                    if (w.empty() || w.back() >> 16 != x.b >> 16) w.push_back((uint32_t)x.b);
                roaring_bitmap_remove_many(b, w.size(), w.data());
                for (auto x : w) s.remove(x);
            };
            const int total = (int)ups.size() + 12;
            for (int t = 0; t < total; t++)
                for (int first = 0; first < 2; first++) {  // which side is written and released first afterwards
                    if (!e.thorough && first != (int)((q + t) % 2)) continue;
                    LeakScope ls;
                    {
                        RP a(cow(build_chunks(ca))), b(cow(build_chunks(cb))), s(roaring_bitmap_copy(a.get())), r;
                        Set A = SA, B = SB, S = SA, Rm;
                        if (t < (int)ups.size()) {
                            e.detail("row variant %d, chunks %d to %d: %s on a sharing copy", v, i, j, ups[t].name.c_str());
                            ups[t].f(s.get(), S);
                        } else {
                            int k = (t - (int)ups.size()) % 4, how = (t - (int)ups.size()) / 4;
                            e.detail("row variant %d, chunks %d to %d: %s, %s", v, i, j, nm[k], how == 0 ? "new result" : how == 1 ? "into the row" : "into the interval");
                            if (how == 0) {
                                r.reset(outs[k](s.get(), b.get()));
                                Rm = val(k, S, B);
                            } else if (how == 1) {
                                ins[k](s.get(), b.get());
                                S = val(k, S, B);
                            } else {
                                ins[k](b.get(), s.get());
                                B = val(k, B, S);
                            }
                        }
                        auto all = [&](const char *w) {
                            if (a) expect_set(a.get(), A, mc::strf("the original %s", w).c_str());
                            if (b) expect_set(b.get(), B, mc::strf("the other row %s", w).c_str());
                            if (s) expect_set(s.get(), S, mc::strf("the copy %s", w).c_str());
                            if (r) expect_set(r.get(), Rm, mc::strf("the result %s", w).c_str());
                            e.eval();
                        };
                        all("afterwards");
                        if (first) {
                            touch(a.get(), A);
                            touch(b.get(), B);
                            all("after writing to the operands");
                            a.reset();
                            b.reset();
                        } else {
                            touch(s.get(), S);
                            if (r) touch(r.get(), Rm);
                            all("after writing to the copy and the result");
                            s.reset();
                            r.reset();
                        }
                        all("after releasing the others");
                    }
                    ls.check("row of shared chunks");
                }
            e.outcome(mc::hash64(q + 88000));
        }, nullptr, 2);
    }
    e.rule = "breadth-first search over histories on 2 to 4 bitmaps sharing copy-on-write storage; states are identified up to "
             "renaming of the bitmaps by contents, representation, capacity and which containers are shared; after every "
             "transition all bitmaps and all open cursors are compared with independent set models, and after releasing "
             "everything the allocator must be empty; plus every list of two to five copy-on-write inputs through the many-way operations";
    return e.finish();
}
