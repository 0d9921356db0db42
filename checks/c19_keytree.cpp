// C19: the index over 48-bit high parts, through histories of key insertions and removals.
#include "queries64.hpp"
typedef unsigned long long ull;
static const uint64_t LOW = 7;
static void light(const R64 *r, const std::vector<uint64_t> &pool, const Set &s) {
    for (auto k : pool) MC_CHECK(roaring64_bitmap_contains(r, k << 16 | LOW) == s.has(k << 16 | LOW), "key %llx: found %d", (ull)k, !s.has(k << 16 | LOW));
    mc::E().eval(pool.size());
}
static void full(const R64 *r, const std::vector<uint64_t> &pool, const Set &s) {
    light(r, pool, s);
    auto v = s.list();
    MC_CHECK(roaring64_bitmap_get_cardinality(r) == v.size(), "cardinality %llu, expected %zu", (ull)roaring64_bitmap_get_cardinality(r), v.size());
    MC_CHECK(roaring64_bitmap_is_empty(r) == v.empty(), "is_empty");
    roaring64_iterator_t *it = roaring64_iterator_create(r);
    struct G { roaring64_iterator_t *i; ~G() { roaring64_iterator_free(i); } } g{it};
    size_t i = 0;
    for (; roaring64_iterator_has_value(it); roaring64_iterator_advance(it), i++)
        MC_CHECK(i < v.size() && roaring64_iterator_value(it) == v[i], "forward iteration at %zu: %llx", i, (ull)roaring64_iterator_value(it));
    MC_CHECK(i == v.size(), "forward iteration visits %zu of %zu", i, v.size());
    // turn around past the end
    if (!v.empty()) MC_CHECK(roaring64_iterator_previous(it) && roaring64_iterator_value(it) == v.back(), "step back from past the end");
    roaring64_iterator_reinit_last(r, it);
    for (i = v.size(); roaring64_iterator_has_value(it); roaring64_iterator_previous(it)) {
        MC_CHECK(i > 0 && roaring64_iterator_value(it) == v[i - 1], "backward iteration at %zu", i);
        i--;
    }
    MC_CHECK(i == 0, "backward iteration stops early, %zu left", i);
    size_t stp = pool.size() > 24 ? pool.size() / 12 : 1;
    for (size_t k = 0; k < pool.size(); k += stp)
        for (uint64_t t : {pool[k] << 16, pool[k] << 16 | 0xFFFF, (pool[k] << 16) - 1}) {
            uint64_t w = 0;
            bool f = s.next_ge(t, w);
            // from past either end, from the first, and from the previous target
            for (int from = 0; from < 3; from++) {
                if (from == 0) roaring64_iterator_reinit(r, it);
                if (from == 1) roaring64_iterator_reinit_last(r, it);
                bool got = roaring64_iterator_move_equalorlarger(it, t);
                MC_CHECK(got == f && (!f || roaring64_iterator_value(it) == w), "seek %llx: got %d %llx, expected %d %llx", (ull)t, got, got ? (ull)roaring64_iterator_value(it) : 0, f, (ull)w);
                if (from == 2 && got) {  // neighbours
                    uint64_t nx;
                    bool h = w < U64M && s.next_ge(w + 1, nx);
                    bool a = roaring64_iterator_advance(it);
                    MC_CHECK(a == h && (!h || roaring64_iterator_value(it) == nx), "step after seek %llx", (ull)t);
                    if (!h) MC_CHECK(roaring64_iterator_previous(it) && roaring64_iterator_value(it) == w, "turn around after seek %llx", (ull)t);
                }
            }
            MC_CHECK(roaring64_bitmap_rank(r, t) == s.rank(t), "rank %llx", (ull)t);
        }
    mc::E().eval(v.size() * 2 + 20);
    mc::Hash h;  // an outcome is one set of present keys
    for (auto x : v) h.u64(x);
    mc::E().outcome(h.h | 1);
}
static void shape_ok(R64 *r, const std::vector<uint64_t> &pool, const Set &s) {
    expect_valid64(r, "index history");
    full(r, pool, s);
}
struct Pool { const char *name; std::vector<uint64_t> k; };
int main(int argc, char **argv) {
    auto &e = mc::E();
    e.init(argc, argv, "C19");
    hk::install();
    static const std::vector<Pool> pools = {
        {"dense low", {0, 1, 2, 3, 4, 5, 6, 255}},
        {"prefix chain", {0, 0x1, 0x100, 0x10000, 0x1000000, 0x100000000ull, 0x10000000000ull, 0xFFFFFFFFFFFFull}},
        {"two deep subtrees", {0xAABBCCDDEE00ull, 0xAABBCCDDEE01ull, 0xAABBCCDDEF00ull, 0xAABBCCDD0000ull, 0xAA0000000000ull, 0xAABBCCDDEEFFull, 0x55BBCCDDEE00ull, 0x55BBCCDDEE01ull}},
        {"signs", {0x7FFFFFFFFFFFull, 0x800000000000ull, 0x7F0000000000ull, 0x80FFFFFFFFFFull, 0x00000000007Full, 0x000000000080ull, 0x0000007F8000ull, 0x000000807F00ull}},
        {"last byte extremes", {0x123400, 0x1234FF, 0x12347F, 0x123480, 0x123500, 0x1233FF, 0x120000, 0x13FFFF}},
        {"middle split", {0x010203040506ull, 0x010203040507ull, 0x010203050506ull, 0x010204040506ull, 0x010303040506ull, 0x020203040506ull, 0x010203040606ull, 0x01020304ull}},
    };
    // 1. every sequence of key toggles (insert if absent, remove if present) and shrinks
    for (auto &p : pools) {
        int na = (int)p.k.size() + 1, L = e.thorough ? 7 : 6;
        uint64_t total = 1;
        for (int i = 0; i < L; i++) total *= na;
        e.parallel(std::string("toggles-") + p.name, total, [&](uint64_t q) {
            RP64 r(roaring64_bitmap_create());
            Set s;
            uint64_t x = q;
            bool trailing = true;  // shorter sequences are those that end in shrinks
            for (int i = 0; i < L; i++, x /= na) {
                int a = (int)(x % na);
                if (a == na - 1) roaring64_bitmap_shrink_to_fit(r.get());
                else {
                    uint64_t y = p.k[a] << 16 | LOW;
                    if (s.has(y)) {
                        MC_CHECK(roaring64_bitmap_remove_checked(r.get(), y), "remove_checked misses a present key");
                        s.remove(y);
                    } else {
                        MC_CHECK(roaring64_bitmap_add_checked(r.get(), y), "add_checked reports an absent key as present");
                        s.add(y);
                    }
                }
                if ((q & 15) == 0 && i == 0) e.detail("%s toggle sequence %llu (base %d)", p.name, (ull)q, na);
            }
            (void)trailing;
            e.detail("%s toggle sequence %llu (base %d)", p.name, (ull)q, na);
            if (q % 8 == 0) shape_ok(r.get(), p.k, s);
            else full(r.get(), p.k, s);
        }, nullptr, 256);
    }
    // 2. insertion order x removal order of six keys
    static std::vector<std::vector<int>> perms;
    {
        std::vector<int> a = {0, 1, 2, 3, 4};
        do perms.push_back(a);
        while (std::next_permutation(a.begin(), a.end()));
    }
    e.parallel("orders", perms.size() * perms.size() * pools.size() * 2, [&](uint64_t i) {
        auto &p = pools[i % pools.size()];
        uint64_t q = i / pools.size();
        int off = (int)(q % 2) * 3;
        q /= 2;
        auto &in = perms[q % perms.size()], &out = perms[q / perms.size()];
        e.detail("%s keys from %d, orders %llu", p.name, off, (ull)q);
        RP64 r(roaring64_bitmap_create());
        Set s;
        for (int j : in) {
            roaring64_bitmap_add(r.get(), p.k[j + off] << 16 | LOW);
            s.add(p.k[j + off] << 16 | LOW);
        }
        for (size_t j = 0; j < out.size(); j++) {
            if (j == 2) roaring64_bitmap_shrink_to_fit(r.get());
            uint64_t y = p.k[out[j] + off] << 16 | LOW;
            roaring64_bitmap_remove(r.get(), y);
            s.remove(y);
            full(r.get(), p.k, s);
        }
        roaring64_bitmap_add(r.get(), p.k[off] << 16 | LOW);
        s.add(p.k[off] << 16 | LOW);
        full(r.get(), p.k, s);
    }, nullptr, 32);
    // 3. one node growing to n children and shrinking back, at every byte of the key, in several orders
    auto order = [](int kind, int n) {
        std::vector<int> v(n);
        for (int i = 0; i < n; i++) v[i] = kind == 0 ? i : kind == 1 ? n - 1 - i : kind == 2 ? (i % 2 ? n - 1 - i / 2 : i / 2) : (int)((i * 151ull + 7) % 256);
        return v;
    };
    static const int sizes[] = {1, 2, 3, 4, 5, 6, 15, 16, 17, 18, 47, 48, 49, 50, 128, 255, 256};
    e.parallel("nodes", 17 * 6 * 4 * 4 * 2, [&](uint64_t i) {
        int n = sizes[i % 17], byte = (int)(i / 17 % 6), oi = (int)(i / 102 % 4), oo = (int)(i / 408 % 4), deep = (int)(i / 1632);
        if (oi == 3 || oo == 3) n = 256;
        if ((oi == 3 || oo == 3) && i % 17 != 16) return;
        std::vector<uint64_t> pool;
        for (int k = 0; k < n; k++) {
            uint64_t c = n <= 50 ? (uint64_t)k * (256 / std::max(n, 1)) : (uint64_t)k;
            uint64_t key = c << (8 * byte);
            if (deep) key |= 0x000000000005ull & ~(0xFFull << (8 * byte));
            pool.push_back(key);
        }
        e.detail("node of %d children at byte %d, insert order %d, remove order %d, deep %d", n, byte, oi, oo, deep);
        auto in = order(oi, n), out = order(oo, n);
        RP64 r(roaring64_bitmap_create());
        Set s;
        auto edge = [](size_t c) { return c <= 6 || (c >= 14 && c <= 18) || (c >= 46 && c <= 50) || c >= 254; };
        for (int j = 0; j < n; j++) {
            roaring64_bitmap_add(r.get(), pool[in[j]] << 16 | LOW);
            s.add(pool[in[j]] << 16 | LOW);
            if (edge(j + 1)) full(r.get(), pool, s);
        }
        if (i & 1) roaring64_bitmap_shrink_to_fit(r.get());
        full(r.get(), pool, s);
        // a copy has its own index
        RP64 c(roaring64_bitmap_copy(r.get()));
        for (int j = 0; j < n; j++) {
            roaring64_bitmap_remove(r.get(), pool[out[j]] << 16 | LOW);
            s.remove(pool[out[j]] << 16 | LOW);
            if (edge(n - 1 - j)) full(r.get(), pool, s);
            if (j == n / 2) roaring64_bitmap_shrink_to_fit(r.get());
            if (j == n / 3) {  // reuse a freed slot in between
                roaring64_bitmap_add(r.get(), pool[out[0]] << 16 | LOW);
                full(r.get(), pool, s.uni(Set{pool[out[0]] << 16 | LOW}));
                if (j) roaring64_bitmap_remove(r.get(), pool[out[0]] << 16 | LOW);
                else s.add(pool[out[0]] << 16 | LOW), roaring64_bitmap_remove(r.get(), pool[out[0]] << 16 | LOW), s.remove(pool[out[0]] << 16 | LOW);
            }
        }
        MC_CHECK(roaring64_bitmap_is_empty(r.get()), "not empty after removing every key");
        roaring64_bitmap_add(r.get(), 99);
        full(r.get(), {0}, Set{99}.minus(Set{99}).uni(Set{99}));
        Set all;
        for (auto k : pool) all.add(k << 16 | LOW);
        full(c.get(), pool, all);
        // range removal across the keys
        auto v = all.list();
        for (size_t a = 0; a < v.size(); a += 1 + v.size() / 5)
            for (size_t b = a; b < v.size(); b += 1 + v.size() / 5) {
                RP64 d(roaring64_bitmap_copy(c.get()));
                roaring64_bitmap_remove_range_closed(d.get(), v[a], v[b]);
                Set w = all;
                w.remove_range(v[a], v[b]);
                full(d.get(), pool, w);
                roaring64_bitmap_add(d.get(), v[a]);
                w.add(v[a]);
                full(d.get(), pool, w);
            }
    }, nullptr, 1);
    // 4. two-level products: every pair of node sizes below one another
    e.parallel("two-level", 7 * 7 * 3, [&](uint64_t i) {
        static const int sz[7] = {1, 4, 5, 16, 17, 48, 49};
        int a = sz[i % 7], b = sz[i / 7 % 7], gap = (int)(i / 49);
        std::vector<uint64_t> pool;
        int hi = gap == 0 ? 8 : gap == 1 ? 24 : 40;
        for (int x = 0; x < a; x++)
            for (int y = 0; y < b; y++) pool.push_back((uint64_t)x * 5 << hi | (uint64_t)y * 3);
        e.detail("%d x %d children, upper node at bit %d", a, b, hi);
        RP64 r(roaring64_bitmap_create());
        Set s;
        for (size_t k = 0; k < pool.size(); k++) {
            uint64_t y = pool[(k * 7919) % pool.size()] << 16 | LOW;
            roaring64_bitmap_add(r.get(), y);
            s.add(y);
        }
        for (auto k : pool) roaring64_bitmap_add(r.get(), k << 16 | LOW), s.add(k << 16 | LOW);
        shape_ok(r.get(), pool, s);
        for (size_t k = 0; k < pool.size(); k++) {
            uint64_t y = pool[k * 31 % pool.size()] << 16 | LOW;
            roaring64_bitmap_remove(r.get(), y);
            s.remove(y);
            if (k % 37 == 0) full(r.get(), pool, s);
        }
        full(r.get(), pool, s);
        roaring64_bitmap_shrink_to_fit(r.get());
        shape_ok(r.get(), pool, s);
    }, nullptr, 1);
    e.rule = "all toggle sequences over six pools of eight keys plus shrink, all insertion x removal orders of five keys, nodes of every size class at every key byte; after each history "
             "membership, both iteration directions, seeks from every kind of position and rank are compared with the sorted key set";
    e.samples.push_back("prefix chain: toggle 0x100, toggle 0x10000, shrink, toggle 0x100, toggle 0xFFFFFFFFFFFF, toggle 1");
    return e.finish();
}
