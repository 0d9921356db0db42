// Every two-operand and one-operand operation in a uniform form (32 and 64 bit).
#pragma once
#include "lib64.hpp"
typedef unsigned long long ull;
typedef std::function<R *(R *, const R *)> F2;  // in place operations return their first argument
struct Op26 {
    std::string name;
    bool inplace;
    F2 f;
    std::function<Set(const Set &, const Set &)> m;
};
inline R *repaired(R *r) {
    MC_CHECK(r, "lazy operation returned NULL");
    roaring_bitmap_repair_after_lazy(r);
    return r;
}
inline R *many(R *(*f)(size_t, const R **), std::vector<const R *> v) { return f(v.size(), v.data()); }
inline R *or_many(size_t n, const R **v) { return roaring_bitmap_or_many(n, v); }
inline R *xor_many(size_t n, const R **v) { return roaring_bitmap_xor_many(n, v); }
inline R *or_heap(size_t n, const R **v) { return roaring_bitmap_or_many_heap((uint32_t)n, v); }
inline std::vector<Op26> ops26() {
    std::vector<Op26> o;
    auto I = [](const Set &a, const Set &b) { return a.inter(b); };
    auto U = [](const Set &a, const Set &b) { return a.uni(b); };
    auto X = [](const Set &a, const Set &b) { return a.xr(b); };
    auto D = [](const Set &a, const Set &b) { return a.minus(b); };
    auto L = [](const Set &a, const Set &) { return a; };
    o.push_back({"and", false, [](R *a, const R *b) { return roaring_bitmap_and(a, b); }, I});
    o.push_back({"or", false, [](R *a, const R *b) { return roaring_bitmap_or(a, b); }, U});
    o.push_back({"xor", false, [](R *a, const R *b) { return roaring_bitmap_xor(a, b); }, X});
    o.push_back({"andnot", false, [](R *a, const R *b) { return roaring_bitmap_andnot(a, b); }, D});
    o.push_back({"lazy_or", false, [](R *a, const R *b) { return repaired(roaring_bitmap_lazy_or(a, b, false)); }, U});
    o.push_back({"lazy_or with conversion", false, [](R *a, const R *b) { return repaired(roaring_bitmap_lazy_or(a, b, true)); }, U});
    o.push_back({"lazy_xor", false, [](R *a, const R *b) { return repaired(roaring_bitmap_lazy_xor(a, b)); }, X});
    o.push_back({"or_many(a,b)", false, [](R *a, const R *b) { return many(or_many, {a, b}); }, U});
    o.push_back({"or_many(a)", false, [](R *a, const R *) { return many(or_many, {a}); }, L});
    o.push_back({"or_many(a,b,a)", false, [](R *a, const R *b) { return many(or_many, {a, b, a}); }, U});
    o.push_back({"or_many_heap(a)", false, [](R *a, const R *) { return many(or_heap, {a}); }, L});
    o.push_back({"or_many_heap(a,b)", false, [](R *a, const R *b) { return many(or_heap, {a, b}); }, U});
    o.push_back({"or_many_heap(b,a,b)", false, [](R *a, const R *b) { return many(or_heap, {b, a, b}); }, U});
    o.push_back({"xor_many(a)", false, [](R *a, const R *) { return many(xor_many, {a}); }, L});
    o.push_back({"xor_many(a,b)", false, [](R *a, const R *b) { return many(xor_many, {a, b}); }, X});
    o.push_back({"xor_many(a,b,b)", false, [](R *a, const R *b) { return many(xor_many, {a, b, b}); }, L});
    o.push_back({"copy", false, [](R *a, const R *) { return roaring_bitmap_copy(a); }, L});
    o.push_back({"add_offset(0)", false, [](R *a, const R *) { return roaring_bitmap_add_offset(a, 0); }, L});
    o.push_back({"add_offset(65536)", false, [](R *a, const R *) { return roaring_bitmap_add_offset(a, 65536); },
                 [](const Set &a, const Set &) { return a.shift(65536).inter(Set::range(0, 0xFFFFFFFF)); }});
    o.push_back({"add_offset(3)", false, [](R *a, const R *) { return roaring_bitmap_add_offset(a, 3); },
                 [](const Set &a, const Set &) { return a.shift(3).inter(Set::range(0, 0xFFFFFFFF)); }});
    o.push_back({"flip(300,400)", false, [](R *a, const R *) { return roaring_bitmap_flip(a, 300, 400); },
                 [](const Set &a, const Set &) { return a.xr(Set::range(300, 399)); }});
    o.push_back({"flip(5,5)", false, [](R *a, const R *) { return roaring_bitmap_flip(a, 5, 5); }, L});
    o.push_back({"flip(65536,262144)", false, [](R *a, const R *) { return roaring_bitmap_flip(a, 65536, 262144); },
                 [](const Set &a, const Set &) { return a.xr(Set::range(65536, 262143)); }});
    auto inp = [&](const char *n, void (*f)(R *, const R *), std::function<Set(const Set &, const Set &)> m) {
        o.push_back({n, true, [=](R *a, const R *b) { f(a, b); return a; }, m});
    };
    inp("and_inplace", roaring_bitmap_and_inplace, I);
    inp("or_inplace", roaring_bitmap_or_inplace, U);
    inp("xor_inplace", roaring_bitmap_xor_inplace, X);
    inp("andnot_inplace", roaring_bitmap_andnot_inplace, D);
    o.push_back({"lazy_or_inplace", true, [](R *a, const R *b) { roaring_bitmap_lazy_or_inplace(a, b, false); return repaired(a); }, U});
    o.push_back({"lazy_or_inplace with conversion", true, [](R *a, const R *b) { roaring_bitmap_lazy_or_inplace(a, b, true); return repaired(a); }, U});
    o.push_back({"lazy_xor_inplace", true, [](R *a, const R *b) { roaring_bitmap_lazy_xor_inplace(a, b); return repaired(a); }, X});
    o.push_back({"overwrite", true, [](R *a, const R *b) { MC_CHECK(roaring_bitmap_overwrite(a, b), "overwrite failed"); return a; },
                 [](const Set &, const Set &b) { return b; }});
    return o;
}
typedef std::function<R64 *(R64 *, const R64 *)> G2;
struct Op64 {
    std::string name;
    bool inplace, selfok;
    G2 f;
    std::function<Set(const Set &, const Set &)> m;
};
inline std::vector<Op64> ops64() {
    std::vector<Op64> o;
    auto I = [](const Set &a, const Set &b) { return a.inter(b); };
    auto U = [](const Set &a, const Set &b) { return a.uni(b); };
    auto X = [](const Set &a, const Set &b) { return a.xr(b); };
    auto D = [](const Set &a, const Set &b) { return a.minus(b); };
    auto L = [](const Set &a, const Set &) { return a; };
    o.push_back({"and64", false, true, [](R64 *a, const R64 *b) { return roaring64_bitmap_and(a, b); }, I});
    o.push_back({"or64", false, true, [](R64 *a, const R64 *b) { return roaring64_bitmap_or(a, b); }, U});
    o.push_back({"xor64", false, true, [](R64 *a, const R64 *b) { return roaring64_bitmap_xor(a, b); }, X});
    o.push_back({"andnot64", false, true, [](R64 *a, const R64 *b) { return roaring64_bitmap_andnot(a, b); }, D});
    o.push_back({"copy64", false, true, [](R64 *a, const R64 *) { return roaring64_bitmap_copy(a); }, L});
    o.push_back({"flip64(300,400)", false, true, [](R64 *a, const R64 *) { return roaring64_bitmap_flip(a, 300, 400); },
                 [](const Set &a, const Set &) { return a.xr(Set::range(300, 399)); }});
    o.push_back({"flip64(5,5)", false, true, [](R64 *a, const R64 *) { return roaring64_bitmap_flip(a, 5, 5); }, L});
    o.push_back({"flip_closed64(2^48,2^48+70000)", false, true, [](R64 *a, const R64 *) { return roaring64_bitmap_flip_closed(a, 1ull << 48, (1ull << 48) + 70000); },
                 [](const Set &a, const Set &) { return a.xr(Set::range(1ull << 48, (1ull << 48) + 70000)); }});
    auto inp = [&](const char *n, bool selfok, void (*f)(R64 *, const R64 *), std::function<Set(const Set &, const Set &)> m) {
        o.push_back({n, true, selfok, [=](R64 *a, const R64 *b) { f(a, b); return a; }, m});
    };
    inp("and_inplace64", true, roaring64_bitmap_and_inplace, I);
    inp("or_inplace64", true, roaring64_bitmap_or_inplace, U);
    inp("xor_inplace64", false, roaring64_bitmap_xor_inplace, X);
    inp("andnot_inplace64", false, roaring64_bitmap_andnot_inplace, D);
    return o;
}
