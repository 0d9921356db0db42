// C01: every history of 32-bit updates up to a depth, over several operation alphabets.
#include "hist32.hpp"
#include "onerun.hpp"
#include "rows.hpp"
// values an update should report, over the whole catalogue: one step from every state and argument
static std::vector<uint64_t> points(const Set &s, uint64_t base) {
    std::vector<uint64_t> p = {0, 1, 31, 32, 63, 64, 65, 4095, 4096, 4097, 32767, 32768, 65534, 65535};
    if (!s.empty()) {
        p.push_back(s.min());
        p.push_back(s.max());
        for (size_t i : {(size_t)0, s.v.size() / 3, s.v.size() / 2, s.v.size() - 1}) {
            auto &I = s.v[i];
            for (uint64_t x : {I.a, I.b, I.a - 1, I.b + 1, (I.a + I.b) / 2})
                if (x <= 65535) p.push_back(x);
        }
    }
    std::sort(p.begin(), p.end());
    p.erase(std::unique(p.begin(), p.end()), p.end());
    for (auto &x : p) x += base;
    return p;
}
int main(int argc, char **argv) {
    auto &e = mc::E();
    e.init(argc, argv, "C01");
    hk::install();
    HistOpts o;
    run_hist_families(o);
    // one update from every catalogue state (every representation), every boundary argument
    int level = e.thorough ? 2 : 1;
    auto cs = contents(level);
    auto its = items(cs);
    e.parallel("one-step", its.size() * 3, [&](uint64_t i) {
        auto &it = its[i / 3];
        uint16_t key = i % 3 == 0 ? 0 : i % 3 == 1 ? 1 : 0xFFFF;
        uint64_t base = (uint64_t)key << 16;
        Set S = it.s->shift(base);
        auto pts = points(*it.s, base);
        auto one = [&](const Op &op) {
            e.detail("%s at key %u, then %s", it.name.c_str(), key, op.name.c_str());
            RP r(build(*it.s, key, it.rep));
            Set s = S;
            op.f(r.get(), s);
            expect_set(r.get(), s, op.name.c_str());
            e.eval();
        };
        for (auto x : pts) {
            one(op::add((uint32_t)x));
            one(op::addc((uint32_t)x));
            one(op::rem((uint32_t)x));
            one(op::remc((uint32_t)x));
        }
        // every pair of boundary points as a range
        size_t st = e.thorough ? 1 : 2;
        for (size_t a = 0; a < pts.size(); a += 1)
            for (size_t b = a; b < pts.size(); b += st) {
                one(op::addr(pts[a], pts[b] + 1));
                one(op::remr(pts[a], pts[b] + 1));
                one(op::flip(pts[a], pts[b] + 1));
            }
        for (auto &p : {std::make_pair(base > 100 ? base - 100 : 0, base + 70000), std::make_pair(base + 30000, base + 200000)}) {
            one(op::addr(p.first, p.second));
            one(op::remr(p.first, p.second));
            one(op::flip(p.first, p.second));
        }
        one(op::runopt());
        one(op::remrun());
        one(op::shrink());
        one(op::clear());
    }, nullptr, 1);
    // a row of 24 chunks of every kind: one update over every interval of chunks, whole or cut at either end
    e.parallel("rows", 24 * 25 / 2 * 3, [&](uint64_t q) {
        static const std::vector<std::pair<Set, Rep>> ks = {{Set{3, 9, 65535}, R_ARRAY}, {Set::range(5, 300), R_RUN}, {Set::range(60000, 64500).uni(Set{9}), R_BITSET},
                                                            {Set{777}, R_ARRAY}, {Set::range(0, 40), R_RUN}, {Set{0, 65535}, R_RUN}, {Set::step(0, 65535, 800), R_ARRAY}, {full16(), R_RUN}};
        int pos = (int)(q / 3), v = (int)(q % 3), i = 0, j;
        for (j = pos; j >= 24 - i; j -= 24 - i, i++) {}
        j += i;  // 0 <= i <= j < 24
        const int stepk = v == 0 ? 1 : v == 1 ? 2 : 7;
        const uint64_t k0 = v == 1 ? 0xFFFF - 2 * 23 : v == 2 ? 5 : 0;
        Chunks ch;
        for (int c = 0; c < 24; c++) ch.push_back({(uint16_t)(k0 + c * stepk), ks[c == 11 ? 7 : (c + c / 7 + v) % 7].first, ks[c == 11 ? 7 : (c + c / 7 + v) % 7].second});
        Set S = chunks_set(ch);
        uint64_t a = (k0 + (uint64_t)i * stepk) << 16, b = ((k0 + (uint64_t)j * stepk) << 16) + 65536;
        auto one = [&](const Op &op, const Op *then = nullptr) {
            e.detail("row of 24 chunks, variant %d, then %s%s", v, op.name.c_str(), then ? then->name.c_str() : "");
            RP r(build_chunks(ch));
            Set s = S;
            op.f(r.get(), s);
            if (then) then->f(r.get(), s);
            expect_set(r.get(), s, op.name.c_str());
            expect_valid(r.get(), op.name.c_str());
            e.eval();
        };
        Op shr = op::shrink();
        for (uint64_t da : {0, 3, 500})
            for (uint64_t db : {0, 2, 700}) {
                if (da && db && !e.thorough && (pos + da + db) % 3) continue;
                one(op::addr(a + da, b - db));
                one(op::remr(a + da, b - db), da ? nullptr : &shr);
                one(op::flip(a + da, b - db));
            }
        if (i == j || e.thorough) {
            for (uint64_t x : {a, a + 777, a + 65535, b + 5, a - 5})
                if (x < U32END) {
                    one(op::addc((uint32_t)x));
                    one(op::remc((uint32_t)x));
                }
        }
        // one value in each chunk of the interval, and one between each pair of chunks
        std::vector<uint32_t> in, out;
        for (int c = i; c <= j; c++) {
            uint64_t x = (k0 + (uint64_t)c * stepk) << 16;
            in.push_back((uint32_t)x + 777);
            in.push_back((uint32_t)x + 9);
            if (x + 65536 < U32END) out.push_back((uint32_t)x + 65536 + 4);
        }
        one(op::addm("in each chunk", in));
        one(op::remm("in each chunk", in));
        one(op::addm("after each chunk", out));
    }, nullptr, 2);
    // the same over rows of 300 chunks
    e.parallel("wide rows", rows::WINTERVALS * 2, [&](uint64_t q) {
        int i, j, v = (int)(q % 2);
        rows::winterval(q / 2, i, j);
        const int st = v ? 2 : 1;
        const uint64_t k0 = v ? 0x10000 - 2 * rows::W : 0;
        Chunks ch = rows::wrow(v, k0, st);
        Set S = chunks_set(ch);
        uint64_t a = (k0 + (uint64_t)i * st) << 16, b = ((k0 + (uint64_t)j * st) << 16) + 65536;
        auto one = [&](const Op &op, const Op *then = nullptr) {
            e.detail("row of 300 chunks, variant %d, then %s%s", v, op.name.c_str(), then ? then->name.c_str() : "");
            RP r(build_chunks(ch));
            Set s = S;
            op.f(r.get(), s);
            if (then) then->f(r.get(), s);
            expect_set(r.get(), s, op.name.c_str());
            expect_valid(r.get(), op.name.c_str());
            e.eval();
        };
        Op shr = op::shrink(), opt = op::runopt(), del = op::remrun();
        for (uint64_t d : {0, 3}) {
            one(op::addr(a + d, b - d), &opt);
            one(op::remr(a + d, b - d), &shr);
            one(op::flip(a + d, b - d), &del);
        }
        std::vector<uint32_t> in, out, all;
        for (int c = i; c <= j; c++) {
            uint64_t x = (k0 + (uint64_t)c * st) << 16;
            in.push_back((uint32_t)x + 777);
            in.push_back((uint32_t)x + 9);
            for (uint32_t y : {3, 9, 65535, 777}) all.push_back((uint32_t)x + y);
            if (x + 65536 < U32END) out.push_back((uint32_t)x + 65536 + 4);
        }
        one(op::addm("in each chunk", in), &del);
        one(op::remm("in each chunk", in), &opt);
        one(op::remm("every small chunk", all), &shr);
        one(op::addm("after each chunk", out));
        if (i == j)
            for (uint64_t x : {a, a + 777, a + 65535, b + 5, a - 5})
                if (x < U32END) {
                    one(op::addc((uint32_t)x));
                    one(op::remc((uint32_t)x));
                }
    }, nullptr, 1);
    // an interval of every length added to, removed from and flipped in chunks that avoid it, meet it in one value or lack one value of it
    e.parallel("one interval", onerun::count(), [&](uint64_t i) {
        int a, z;
        if (!onerun::get(i, a, z)) return;
        auto bs = onerun::partners(a, z);
        for (size_t k = 0; k < bs.size(); k++)
            for (int w = 0; w < 3; w++) {
                uint16_t key = (uint16_t)((i + k) % 3 == 0 ? 0 : (i + k) % 3 == 1 ? 7 : 0xFFFF);
                uint64_t x = (uint64_t)key << 16 | (uint64_t)a, y = ((uint64_t)key << 16 | (uint64_t)z) + 1;
                Op op = w == 0 ? op::addr(x, y) : w == 1 ? op::remr(x, y) : op::flip(x, y);
                e.detail("%s as %s at key %u, then %s", bs[k].first.str().substr(0, 60).c_str(), rep_name(bs[k].second), key, op.name.c_str());
                RP r(build(bs[k].first, key, bs[k].second));
                Set s = bs[k].first.shift((uint64_t)key << 16);
                op.f(r.get(), s);
                expect_set(r.get(), s, op.name.c_str());
                expect_valid(r.get(), op.name.c_str());
                e.eval();
            }
    }, nullptr, 2);
    // whole-universe ranges
    struct W { uint64_t a, b; };
    static const W ws[] = {{0, U32END}, {1, U32END - 1}, {0, UINT64_MAX}, {0x7FFFFFFFull, U32END + 7}, {65535, U32END - 65535}};
    e.parallel("universe", 5 * 3 * 4, [&](uint64_t i) {
        W w = ws[i % 5];
        int what = (int)(i / 5 % 3), start = (int)(i / 15);
        if (start == 3 && what == 2 && i % 5 != 3 && !e.thorough) return;  // complementing the whole universe takes ten seconds
        RP r(roaring_bitmap_create());
        Set s;
        if (start == 1) op::add(77).f(r.get(), s);
        if (start == 2) op::addr(60000, 1000000).f(r.get(), s);
        if (start == 3) op::addr(0, U32END).f(r.get(), s);
        Op x = what == 0 ? op::addr(w.a, w.b) : what == 1 ? op::remr(w.a, w.b) : op::flip(w.a, w.b);
        e.detail("start %d then %s", start, x.name.c_str());
        x.f(r.get(), s);
        expect_set(r.get(), s, x.name.c_str());
        e.eval(2);
        Op y = op::remc(0x80000000u);
        y.f(r.get(), s);
        expect_set(r.get(), s, y.name.c_str());
    });
    e.rule = "breadth-first search over histories of update operations per alphabet (states identified by serialized "
             "bytes, container kinds and allocated size); plus one update from every catalogue state; every return "
             "value and the full contents are compared with the interval-set model";
    return e.finish();
}
