// C03: many-way unions / symmetric differences and lazy operation chains.
#include "rows.hpp"
struct K { const char *n; Chunks cs; Set s; };
static const char *small(int i) { static char b[16][16]; snprintf(b[i % 16], 16, "%d", i); return b[i % 16]; }
int main(int argc, char **argv) {
    auto &e = mc::E();
    e.init(argc, argv, "C03");
    hk::install();
    typedef unsigned long long ull;
    (void)small;
    std::vector<K> ks;
    auto add = [&](const char *n, Chunks c) { ks.push_back({n, c, chunks_set(c)}); };
    add("empty", {});
    add("pts", {{0, Set{0, 7, 65535}, R_ARRAY}, {3, Set{1}, R_ARRAY}});
    add("a3000", {{0, Set::step(0, 65535, 22), R_ARRAY}});
    add("a4096odd", {{0, first_n(Set::step(1, 65535, 2), 4096), R_ARRAY}, {0xFFFF, Set{65535}, R_ARRAY}});
    add("bits13", {{0, Set::step(2, 65535, 13), R_BITSET}});
    add("bits15@3", {{3, Set::step(0, 65535, 15), R_BITSET}});
    add("full", {{0, full16(), R_RUN}, {2, Set{9}, R_ARRAY}});
    add("runs", {{0, Set::step(5, 65535, 3000, 1200), R_RUN}, {3, Set::range(10, 60000), R_RUN}});
    add("almostfull", {{0, full16().minus(Set{0, 4, 7}), R_BITSET}});
    add("r2of32", {{0, Set::step(0, 65535, 40, 33), R_RUN}, {1, full16(), R_RUN}});
    add("dense", {{0, Set::range(0, 4096), R_BITSET}, {3, Set::range(0, 4095), R_ARRAY}});
    if (e.thorough) {
        add("fullbits", {{0, full16(), R_BITSET}, {0xFFFF, full16(), R_BITSET}});
        add("evens", {{0, Set::step(0, 65535, 2), R_BITSET}});
        add("a2049", {{0, first_n(Set::step(3, 65535, 31), 2049), R_ARRAY}});
        add("onerun", {{0, Set::range(0, 20000), R_RUN}});
        add("4097", {{0, first_n(Set::step(0, 65535, 15), 4097), R_BITSET}, {5, Set{3}, R_RUN}});
    }
    uint64_t n = ks.size();
    auto mk = [&](uint64_t k) { return ks[k].cs.empty() ? roaring_bitmap_create() : build_chunks(ks[k].cs); };
    auto run_list = [&](const std::vector<uint64_t> &idx, bool alias, bool cow, const char *what) {
        LeakScope ls;
        {
        std::vector<RP> own;
        std::map<uint64_t, R *> by;
        std::vector<const R *> list;
        Set u, x;
        for (auto k : idx) {
            if (alias && by.count(k)) list.push_back(by[k]);
            else {
                own.emplace_back(mk(k));
                if (cow) roaring_bitmap_set_copy_on_write(own.back().get(), true);
                by[k] = own.back().get();
                list.push_back(by[k]);
            }
            u = u.uni(ks[k].s);
            x = x.xr(ks[k].s);
        }
        const R *dummy = nullptr;
        const R **p = list.empty() ? &dummy : list.data();
        {
            RP a(roaring_bitmap_or_many(list.size(), p));
            expect_set(a.get(), u, "or_many");
            RP b(roaring_bitmap_or_many_heap((uint32_t)list.size(), p));
            expect_set(b.get(), u, "or_many_heap");
            RP c(roaring_bitmap_xor_many(list.size(), p));
            expect_set(c.get(), x, "xor_many");
            expect_valid(a.get(), "or_many");
            expect_valid(b.get(), "or_many_heap");
            expect_valid(c.get(), "xor_many");
            e.eval(3);
            // results are their own bitmaps
            roaring_bitmap_flip_inplace(a.get(), 0, 300000);
            roaring_bitmap_flip_inplace(b.get(), 0, 300000);
            roaring_bitmap_flip_inplace(c.get(), 0, 300000);
        }
        for (size_t i = 0; i < idx.size(); i++) expect_set(list[i], ks[idx[i]].s, "input of a many-way operation");
        }
        ls.check(what);
        mc::Hash h;
        for (auto k : idx) h.u64(k);
        e.outcome(h.h);
    };
    int L = 3;
    uint64_t tot = 0;
    std::vector<uint64_t> starts;
    for (int l = 0; l <= L; l++) {
        starts.push_back(tot);
        uint64_t c = 1;
        for (int j = 0; j < l; j++) c *= n;
        tot += c;
    }
    e.parallel("lists", tot * 2, [&](uint64_t i) {
        bool cow = i % 2;
        uint64_t q = i / 2;
        int l = L;
        while (q < starts[l]) l--;
        q -= starts[l];
        std::vector<uint64_t> idx;
        for (int j = 0; j < l; j++, q /= n) idx.push_back(q % n);
        std::string nm;
        for (auto k : idx) nm += std::string(ks[k].n) + " ";
        e.detail("list [%s]%s", nm.c_str(), cow ? ", copy-on-write" : "");
        run_list(idx, false, cow, "many-way operation");
        run_list(idx, true, cow, "many-way operation with repeated inputs");
    }, nullptr, 4);
    // longer lists over a smaller alphabet, including long ones for the heap
    static const uint64_t sub[4] = {1, 3, 4, 9};
    int L2 = e.thorough ? 6 : 5;
    uint64_t c2 = 1;
    for (int j = 0; j < L2; j++) c2 *= 4;
    e.parallel("long", c2, [&](uint64_t i) {
        std::vector<uint64_t> idx;
        for (int j = 0; j < L2; j++, i /= 4) idx.push_back(sub[i % 4]);
        e.detail("long list %llu", (ull)i);
        run_list(idx, false, false, "long many-way operation");
        run_list(idx, true, true, "long many-way operation with shared storage");
    }, nullptr, 4);
    e.parallel("wide", 40, [&](uint64_t i) {
        std::vector<uint64_t> idx;
        for (uint64_t j = 0; j < 6 + i; j++) idx.push_back((j * (i + 1) + i) % n);
        e.detail("wide list of %zu", idx.size());
        run_list(idx, i % 2, i % 3 == 0, "wide many-way operation");
    });
    // lazy chains: every sequence of lazy operations, then repair
    // op kinds: or with/without conversion, xor; first step either produces a new bitmap or works in place
    int D = 3;
    uint64_t per = 1, kinds = 3;
    for (int j = 0; j < D; j++) per *= n;
    uint64_t kc = 1;
    for (int j = 0; j < D - 1; j++) kc *= kinds;
    e.parallel("lazy", per * 2 * kc * 2, [&](uint64_t i) {
        uint64_t q = i;
        bool fresh = q % 2;
        q /= 2;
        bool cow = q % 2;
        q /= 2;
        int kind[4], a[4];
        for (int j = 0; j < D - 1; j++, q /= kinds) kind[j] = (int)(q % kinds);
        for (int j = 0; j < D; j++, q /= n) a[j] = (int)(q % n);
        if (kind[1] != kind[0] && (kind[0] == 2 || kind[1] == 2) && i % 4 > 1) return;  // mixing or/xor without repair is not offered in COW mode twice
        std::string nm = ks[a[0]].n;
        static const char *kn[3] = {" lazy_or ", " lazy_or(conv) ", " lazy_xor "};
        for (int j = 0; j < D - 1; j++) nm += std::string(kn[kind[j]]) + ks[a[j + 1]].n;
        e.detail("%s%s%s", nm.c_str(), fresh ? " (new)" : " (in place)", cow ? " cow" : "");
        Set s = ks[a[0]].s;
        LeakScope ls;
        {
            RP acc(mk(a[0]));
            if (cow) roaring_bitmap_set_copy_on_write(acc.get(), true);
            RP acc0;
            bool mixed = false;
            for (int j = 0; j < D - 1; j++) {
                RP b(mk(a[j + 1]));
                if (cow) roaring_bitmap_set_copy_on_write(b.get(), true);
                if (j && (kind[j] == 2) != (kind[j - 1] == 2)) {  // switch of family: repair in between
                    roaring_bitmap_repair_after_lazy(acc.get());
                    mixed = true;
                }
                if (j == 0 && fresh) {
                    R *nr = kind[j] == 2 ? roaring_bitmap_lazy_xor(acc.get(), b.get()) : roaring_bitmap_lazy_or(acc.get(), b.get(), kind[j] == 1);
                    acc0 = std::move(acc);
                    acc.reset(nr);
                } else if (kind[j] == 2) roaring_bitmap_lazy_xor_inplace(acc.get(), b.get());
                else roaring_bitmap_lazy_or_inplace(acc.get(), b.get(), kind[j] == 1);
                s = kind[j] == 2 ? s.xr(ks[a[j + 1]].s) : s.uni(ks[a[j + 1]].s);
                expect_set(b.get(), ks[a[j + 1]].s, "operand of a lazy operation");
            }
            (void)mixed;
            roaring_bitmap_repair_after_lazy(acc.get());
            expect_set(acc.get(), s, "lazy chain after repair");
            expect_valid(acc.get(), "lazy chain after repair");
            if (acc0) expect_set(acc0.get(), ks[a[0]].s, "first operand of a lazy operation");
            e.eval(D - 1);
        }
        ls.check("lazy chain");
    }, nullptr, 8);
    // rows of 24 chunks with every interval of other chunks on the same keys and beside them
    for (const rows::Rows rw : {rows::Rows{false}, rows::Rows{true}})
        e.parallel(rw.name(), rw.intervals() * 2, [&, rw](uint64_t q) {
        int i, j, v = (int)(q % 2);
        rw.interval(q / 2, i, j);
        const uint64_t k0 = v ? 0x10000 - 2 * rw.n() : 0;
        Chunks ca = rw.row(v, k0, 2), cb = rw.row(v + 1, k0, 2, i, j), cc = rw.row(v + 3, k0 + 1, 2, i, j);
        std::vector<Chunks> cs = {ca, cb, cc};
        for (auto &c : ca) cs.push_back({c});
        std::vector<Set> ss;
        for (auto &c : cs) ss.push_back(chunks_set(c));
        std::vector<std::vector<int>> lists = {{0, 1}, {1, 0}, {1, 2}, {2, 1, 0}, {0, 2, 1, 0}, {1}};
        for (int c = 0; c < rw.n(); c++) lists.back().push_back(3 + (c * 7 + i) % rw.n());  // the row, one chunk per input
        for (bool cow : {false, true}) {
            LeakScope ls;
            {
                std::vector<RP> own;
                for (auto &c : cs) {
                    own.emplace_back(build_chunks(c));
                    roaring_bitmap_set_copy_on_write(own.back().get(), cow);
                }
                for (auto &l : lists) {
                    std::string nm;
                    std::vector<const R *> in;
                    Set u, x;
                    for (int k : l) {
                        in.push_back(own[k].get());
                        u = u.uni(ss[k]);
                        x = x.xr(ss[k]);
                        nm += mc::strf(" %d", k);
                    }
                    e.detail("rows variant %d, chunks %d to %d, inputs%s%s", v, i, j, nm.c_str(), cow ? ", copy-on-write" : "");
                    RP a(roaring_bitmap_or_many(in.size(), in.data())), b(roaring_bitmap_or_many_heap((uint32_t)in.size(), in.data())), c(roaring_bitmap_xor_many(in.size(), in.data()));
                    expect_set(a.get(), u, "or_many");
                    expect_set(b.get(), u, "or_many_heap");
                    expect_set(c.get(), x, "xor_many");
                    expect_valid(a.get(), "or_many");
                    expect_valid(b.get(), "or_many_heap");
                    expect_valid(c.get(), "xor_many");
                    e.eval(3);
                }
                // lazy chains over the same operands: new and in place, both ways round
                static const int ord[4][3] = {{0, 1, 2}, {1, 0, 2}, {2, 1, 0}, {1, 2, 0}};
                for (int t = 0; t < 4 * 6; t++) {
                    auto &o = ord[t % 4];
                    int k = t / 4;  // 0,1 lazy_or new; 2,3 in place; 4 lazy_xor new; 5 in place
                    bool xr = k >= 4, fresh = k < 2 || k == 4;
                    e.detail("rows variant %d, chunks %d to %d, lazy form %d over %d %d %d%s", v, i, j, k, o[0], o[1], o[2], cow ? ", copy-on-write" : "");
                    RP r(fresh ? (xr ? roaring_bitmap_lazy_xor(own[o[0]].get(), own[o[1]].get()) : roaring_bitmap_lazy_or(own[o[0]].get(), own[o[1]].get(), k == 1)) : roaring_bitmap_copy(own[o[0]].get()));
                    for (int z = fresh ? 2 : 1; z < 3; z++)
                        if (xr) roaring_bitmap_lazy_xor_inplace(r.get(), own[o[z]].get());
                        else roaring_bitmap_lazy_or_inplace(r.get(), own[o[z]].get(), k & 1);
                    roaring_bitmap_repair_after_lazy(r.get());
                    Set w = xr ? ss[0].xr(ss[1]).xr(ss[2]) : ss[0].uni(ss[1]).uni(ss[2]);
                    expect_set(r.get(), w, "lazy chain over rows");
                    expect_valid(r.get(), "lazy chain over rows");
                    e.eval();
                }
                for (size_t k = 0; k < cs.size(); k++) expect_set(own[k].get(), ss[k], "input of the row operations");
            }
            ls.check("row operations");
        }
        e.outcome(mc::hash64(q + 66000));
    }, nullptr, 2);
    // catalogue pairs: one lazy step on every pair of contents and representations
    auto cs = contents(e.thorough ? 2 : 0);
    auto its = items(cs);
    uint64_t m = its.size();
    e.parallel("lazy-pairs", m * m, [&](uint64_t i) {
        auto &A = its[i / m];
        auto &B = its[i % m];
        for (int isa = 0; isa < 3; isa++) {
            IsaScope sc(ISA_LEVELS[isa]);
            for (int k = 0; k < 6; k++) {
                e.detail("%s with %s lazy variant %d %s", A.name.c_str(), B.name.c_str(), k, isa_name(ISA_LEVELS[isa]));
                RP a(build(*A.s, 1, A.rep)), b(build(*B.s, 1, B.rep)), r;
                bool x = k >= 4;
                if (k == 0 || k == 1) r.reset(roaring_bitmap_lazy_or(a.get(), b.get(), k == 1));
                if (k == 4) r.reset(roaring_bitmap_lazy_xor(a.get(), b.get()));
                if (k == 2 || k == 3) { roaring_bitmap_lazy_or_inplace(a.get(), b.get(), k == 3); r = std::move(a); }
                if (k == 5) { roaring_bitmap_lazy_xor_inplace(a.get(), b.get()); r = std::move(a); }
                roaring_bitmap_repair_after_lazy(r.get());
                Set want = (x ? A.s->xr(*B.s) : A.s->uni(*B.s)).shift(65536);
                expect_set(r.get(), want, "lazy step after repair");
                expect_valid(r.get(), "lazy step after repair");
                e.eval();
            }
            const R *lst[2];
            RP a(build(*A.s, 1, A.rep)), b(build(*B.s, 1, B.rep));
            lst[0] = a.get();
            lst[1] = b.get();
            RP o(roaring_bitmap_or_many(2, lst)), h(roaring_bitmap_or_many_heap(2, lst)), x(roaring_bitmap_xor_many(2, lst));
            expect_set(o.get(), A.s->uni(*B.s).shift(65536), "or_many of two");
            expect_set(h.get(), A.s->uni(*B.s).shift(65536), "or_many_heap of two");
            expect_set(x.get(), A.s->xr(*B.s).shift(65536), "xor_many of two");
            e.eval(3);
        }
    }, nullptr, 1);
    e.rule = "each case is a list of input bitmaps (with repetition and aliasing) or a chain of lazy operations; the repaired result is compared with pairwise interval arithmetic";
    e.samples.push_back("lazy: a3000 lazy_or bits13 lazy_or(conv) full (new) cow");
    return e.finish();
}
