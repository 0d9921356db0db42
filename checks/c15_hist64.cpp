// C15: every history of 64-bit updates up to a depth, over several operation alphabets.
#include "hist64.hpp"
#include "onerun.hpp"
#include "rows.hpp"
static std::vector<uint64_t> points(const Set &s, uint64_t base) {
    std::vector<uint64_t> p = {0, 1, 63, 64, 4095, 4096, 32768, 65534, 65535};
    if (!s.empty()) {
        p.push_back(s.min());
        p.push_back(s.max());
        for (size_t i : {(size_t)0, s.v.size() / 2, s.v.size() - 1}) {
            auto &I = s.v[i];
            for (uint64_t x : {I.a, I.b, I.a - 1, I.b + 1, (I.a + I.b) / 2})
                if (x <= 65535) p.push_back(x);
        }
    }
    std::sort(p.begin(), p.end());
    p.erase(std::unique(p.begin(), p.end()), p.end());
    for (auto &x : p) x += base;
    return p;
}
int main(int argc, char **argv) {
    auto &e = mc::E();
    e.init(argc, argv, "C15");
    hk::install();
    h64::HistOpts o;
    h64::run_hist_families(o);
    auto cs = contents(e.thorough ? 2 : 1);
    auto its = items(cs);
    e.parallel("one-step", its.size() * 3, [&](uint64_t i) {
        auto &it = its[i / 3];
        uint64_t base = i % 3 == 0 ? 0 : i % 3 == 1 ? 0x123456780000ull : 0xFFFFFFFFFFFF0000ull;
        Set S = it.s->shift(base);
        auto bs = split64(S, it.rep == R_RUN ? rep_run : rep_natural);
        auto pts = points(*it.s, base);
        auto one = [&](const h64::Op &op) {
            e.detail("%s at %llx, then %s", it.name.c_str(), (unsigned long long)base, op.name.c_str());
            RP64 r(build64_buckets(bs));
            Set s = S;
            op.f(r.get(), s);
            expect_set64(r.get(), s, op.name.c_str());
            e.eval();
        };
        for (auto x : pts) {
            one(h64::add(x));
            one(h64::addc(x));
            one(h64::rem(x));
            one(h64::remc(x));
            one(h64::remm("value, value+1, value", {x, x + 1, x}));
            one(h64::addm("value, value+1, value", {x, x + 1, x}));
        }
        size_t st = e.thorough ? 1 : 2;
        for (size_t a = 0; a < pts.size(); a++)
            for (size_t b = a; b < pts.size(); b += st) {
                one(h64::addrc(pts[a], pts[b]));
                one(h64::remrc(pts[a], pts[b]));
                one(h64::flipc(pts[a], pts[b]));
                one(h64::addr(pts[a], pts[b]));
                one(h64::remr(pts[a], pts[b]));
                one(h64::flip(pts[a], pts[b]));
            }
        uint64_t lo = base > 100000 ? base - 100000 : 0, hi = base > U64M - 200000 ? U64M : base + 200000;
        one(h64::addrc(lo, hi));
        one(h64::remrc(lo, hi));
        one(h64::flipc(lo, hi));
        one(h64::runopt());
        one(h64::shrink());
        one(h64::clear());
    }, nullptr, 1);
    // a row of 24 chunks of every kind: one update over every interval of chunks, whole or cut at either end
    e.parallel("rows", 24 * 25 / 2 * 3, [&](uint64_t q) {
        static const std::vector<std::pair<Set, Rep>> ks = {{Set{3, 9, 65535}, R_ARRAY}, {Set::range(5, 300), R_RUN}, {Set::range(60000, 64500).uni(Set{9}), R_BITSET},
                                                            {Set{777}, R_ARRAY}, {Set::range(0, 40), R_RUN}, {Set{0, 65535}, R_RUN}, {Set::step(0, 65535, 800), R_ARRAY}, {full16(), R_RUN}};
        int pos = (int)(q / 3), v = (int)(q % 3), i = 0, j;
        for (j = pos; j >= 24 - i; j -= 24 - i, i++) {}
        j += i;  // 0 <= i <= j < 24
        // adjacent chunks from zero; every seventh chunk across a byte of the key; the end of the universe
        const uint64_t stepk = v == 0 ? 1 : v == 1 ? 7 : 2, k0 = v == 0 ? 0 : v == 1 ? 0x12345678ffb0ull : 0xFFFFFFFFFFFFull - 2 * 23;
        Set S;
        std::vector<Bucket> bs;
        for (uint64_t c = 0; c < 24; c++) {
            auto &k = ks[c == 11 ? 7 : (c + c / 7 + v) % 7];
            uint64_t key = k0 + c * stepk;
            if (bs.empty() || bs.back().high != (uint32_t)(key >> 16)) bs.push_back({(uint32_t)(key >> 16), {}});
            bs.back().cs.push_back({(uint16_t)key, k.first, k.second});
            S = S.uni(k.first.shift(key << 16));
        }
        uint64_t a = (k0 + i * stepk) << 16, b = ((k0 + j * stepk) << 16) + 65535;
        auto one = [&](const h64::Op &op, const h64::Op *then = nullptr) {
            e.detail("row of 24 chunks, variant %d, then %s%s", v, op.name.c_str(), then ? then->name.c_str() : "");
            RP64 r(build64_buckets(bs));
            Set s = S;
            op.f(r.get(), s);
            if (then) then->f(r.get(), s);
            expect_set64(r.get(), s, op.name.c_str());
            expect_valid64(r.get(), op.name.c_str());
            e.eval();
        };
        h64::Op shr = h64::shrink();
        for (uint64_t da : {0, 3, 500})
            for (uint64_t db : {0, 2, 700}) {
                if (da && db && !e.thorough && (pos + da + db) % 3) continue;
                one(h64::addrc(a + da, b - db));
                one(h64::remrc(a + da, b - db), da ? nullptr : &shr);
                one(h64::flipc(a + da, b - db));
            }
        if (i == j || e.thorough)
            for (uint64_t x : {a, a + 777, a + 65535, b + 5, a - 5}) {
                one(h64::addc(x));
                one(h64::remc(x));
            }
        std::vector<uint64_t> in, out;
        for (int c = i; c <= j; c++) {
            uint64_t x = (k0 + c * stepk) << 16;
            in.push_back(x + 777);
            in.push_back(x + 9);
            out.push_back(x + 65536 + 4);
        }
        one(h64::addm("in each chunk", in));
        one(h64::remm("in each chunk", in));
        one(h64::addm("after each chunk", out));
        one(h64::remm("in each chunk", in), &shr);
    }, nullptr, 2);
    // the same over rows of 300 chunks
    e.parallel("wide rows", rows::WINTERVALS * 3, [&](uint64_t q) {
        int i, j, v = (int)(q % 3);
        rows::winterval(q / 3, i, j);
        const uint64_t st = v == 0 ? 1 : v == 1 ? 7 : 2, k0 = v == 0 ? 0 : v == 1 ? 0x12345678ff00ull : 0x1000000000000ull - 2 * rows::W;
        auto bs = rows::wrow64(v, k0, st);
        Set S = buckets_set(bs);
        uint64_t a = (k0 + i * st) << 16, b = ((k0 + j * st) << 16) + 65535;
        auto one = [&](const h64::Op &op, const h64::Op *then = nullptr) {
            e.detail("row of 300 chunks, variant %d, then %s%s", v, op.name.c_str(), then ? then->name.c_str() : "");
            RP64 r(build64_buckets(bs));
            Set s = S;
            op.f(r.get(), s);
            if (then) then->f(r.get(), s);
            expect_set64(r.get(), s, op.name.c_str());
            expect_valid64(r.get(), op.name.c_str());
            e.eval();
        };
        h64::Op shr = h64::shrink(), opt = h64::runopt();
        for (uint64_t d : {0, 3}) {
            one(h64::addrc(a + d, b - d), &opt);
            one(h64::remrc(a + d, b - d), &shr);
            one(h64::flipc(a + d, b - d), &opt);
        }
        std::vector<uint64_t> in, all, out;
        for (int c = i; c <= j; c++) {
            uint64_t x = (k0 + c * st) << 16;
            in.push_back(x + 777);
            in.push_back(x + 9);
            for (uint64_t y : {3, 9, 65535, 777}) all.push_back(x + y);
            out.push_back(x + 65536 + 4);
        }
        one(h64::addm("in each chunk", in));
        one(h64::remm("in each chunk", in), &shr);
        one(h64::remm("every small chunk", all), &shr);
        one(h64::addm("after each chunk", out), &opt);
        if (i == j)
            for (uint64_t x : {a, a + 777, a + 65535, b + 5, a - 5}) {
                one(h64::addc(x));
                one(h64::remc(x));
            }
    }, nullptr, 1);
    // an interval of every length added to and removed from chunks that avoid it, meet it in one value or lack one value of it
    e.parallel("one interval", onerun::count(), [&](uint64_t i) {
        int a, z;
        if (!onerun::get(i, a, z)) return;
        auto bs = onerun::partners(a, z);
        for (size_t k = 0; k < bs.size(); k++)
            for (int w = 0; w < 2; w++) {
                uint32_t high = (i + k) % 3 == 0 ? 0 : (i + k) % 3 == 1 ? 7 : 0xFFFFFFFFu;
                uint16_t key = (uint16_t)((i + k) % 3 == 1 ? 7 : high);
                uint64_t base = (uint64_t)high << 32 | (uint64_t)key << 16;
                h64::Op op = w ? h64::remrc(base + (uint64_t)a, base + (uint64_t)z) : h64::addrc(base + (uint64_t)a, base + (uint64_t)z);
                e.detail("%s as %s, then %s", bs[k].first.str().substr(0, 60).c_str(), rep_name(bs[k].second), op.name.c_str());
                RP64 r(build64_buckets({{high, {{key, bs[k].first, bs[k].second}}}}));
                Set s = bs[k].first.shift(base);
                op.f(r.get(), s);
                expect_set64(r.get(), s, op.name.c_str());
                expect_valid64(r.get(), op.name.c_str());
                e.eval();
            }
    }, nullptr, 2);
    // ranges over many chunks starting from several bitmaps
    struct W { uint64_t a, b; };
    static const W ws[] = {{0, 0xFFFFFFFFull}, {0xFFFFFFF0ull, 0x100000010ull}, {0xFFFFFFFF0000ull - 5, 0xFFFFFFFF0000ull + 2000000}, {U64M - 20000000, U64M}, {1, 50000000}, {0x7FFFFFFFFFFF0000ull - 3, 0x8000000000000005ull}};
    e.parallel("wide", 6 * 3 * 5, [&](uint64_t i) {
        W w = ws[i % 6];
        int what = (int)(i / 6 % 3), start = (int)(i / 18);
        RP64 r(roaring64_bitmap_create());
        Set s;
        if (start == 1) h64::add(w.a + 77).f(r.get(), s);
        if (start == 2) h64::addrc(w.a + 60000, w.a + 1000000).f(r.get(), s);
        if (start == 3) h64::addrc(w.a, w.b).f(r.get(), s);
        if (start == 4) h64::addm("spread", h64::keys_at(w.b - (w.b > (1ull << 40) ? 40ull << 32 : 0), 16, 40, 0, -3 * (w.b > (1ull << 40)))).f(r.get(), s);
        h64::Op x = what == 0 ? h64::addrc(w.a, w.b) : what == 1 ? h64::remrc(w.a, w.b) : h64::flipc(w.a, w.b);
        e.detail("start %d then %s", start, x.name.c_str());
        x.f(r.get(), s);
        expect_set64(r.get(), s, x.name.c_str());
        e.eval(2);
        h64::Op y = h64::remc(w.b);
        y.f(r.get(), s);
        expect_set64(r.get(), s, y.name.c_str());
    }, nullptr, 1);
    e.rule = "breadth-first search over histories of 64-bit update operations per alphabet (states identified by serialized "
             "bytes, container kinds and allocated size); plus one update from every catalogue state at three key positions; "
             "every return value and the full contents are compared with the interval-set model";
    return e.finish();
}
