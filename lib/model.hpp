// Reference model: a set of unsigned 64-bit integers as sorted, disjoint, non-adjacent closed intervals.
#pragma once
#include <algorithm>
#include <cstdint>
#include <string>
#include <vector>

struct Set {
    struct I {
        uint64_t a, b;
        bool operator==(const I &o) const { return a == o.a && b == o.b; }
        bool operator<(const I &o) const { return a != o.a ? a < o.a : b < o.b; }
    };
    std::vector<I> v;

    Set() {}
    Set(std::initializer_list<uint64_t> l) {
        for (uint64_t x : l) add(x);
    }
    static Set range(uint64_t a, uint64_t b) {  // closed
        Set s;
        if (a <= b) s.v.push_back({a, b});
        return s;
    }
    static Set step(uint64_t a, uint64_t b, uint64_t st, uint64_t len = 1) {  // a, a+st.. <= b, blocks of len
        Set s;
        for (uint64_t x = a; x <= b; x += st) {
            uint64_t e = std::min(b, x + len - 1);
            if (!s.v.empty() && s.v.back().b + 1 == x) s.v.back().b = e;
            else s.v.push_back({x, e});
        }
        return s;
    }
    bool empty() const { return v.empty(); }
    bool operator==(const Set &o) const { return v == o.v; }
    bool operator!=(const Set &o) const { return !(v == o.v); }
    bool operator<(const Set &o) const { return v < o.v; }
    // modulo 2^64: the full universe gives 0
    uint64_t card() const {
        uint64_t c = 0;
        for (auto &i : v) c += i.b - i.a + 1;
        return c;
    }
    uint64_t min() const { return v.front().a; }
    uint64_t max() const { return v.back().b; }
    size_t find(uint64_t x) const {  // first interval with b >= x
        size_t lo = 0, hi = v.size();
        while (lo < hi) {
            size_t m = (lo + hi) / 2;
            if (v[m].b < x) lo = m + 1;
            else hi = m;
        }
        return lo;
    }
    bool has(uint64_t x) const {
        size_t i = find(x);
        return i < v.size() && v[i].a <= x;
    }
    bool next_ge(uint64_t x, uint64_t &r) const {
        size_t i = find(x);
        if (i == v.size()) return false;
        r = std::max(x, v[i].a);
        return true;
    }
    bool prev_le(uint64_t x, uint64_t &r) const {
        size_t i = find(x);
        if (i < v.size() && v[i].a <= x) {
            r = x;
            return true;
        }
        if (i == 0) return false;
        r = v[i - 1].b;
        return true;
    }
    uint64_t rank(uint64_t x) const {  // number of values <= x
        uint64_t c = 0;
        for (auto &i : v) {
            if (i.a > x) break;
            c += std::min(i.b, x) - i.a + 1;
        }
        return c;
    }
    bool select(uint64_t k, uint64_t &r) const {
        for (auto &i : v) {
            uint64_t n = i.b - i.a + 1;
            if (n == 0 || k < n) {
                r = i.a + k;
                return true;
            }
            k -= n;
        }
        return false;
    }
    uint64_t range_card(uint64_t a, uint64_t b) const {  // closed
        uint64_t c = 0;
        for (auto &i : v)
            if (i.b >= a && i.a <= b) c += std::min(i.b, b) - std::max(i.a, a) + 1;
        return c;
    }
    bool contains_range(uint64_t a, uint64_t b) const {  // closed, a<=b
        size_t i = find(a);
        return i < v.size() && v[i].a <= a && v[i].b >= b;
    }
    bool intersects_range(uint64_t a, uint64_t b) const {
        uint64_t r;
        return next_ge(a, r) && r <= b;
    }
    void add_range(uint64_t a, uint64_t b) {  // closed
        if (a > b) return;
        if (v.empty() || v.back().b < a) {
            if (!v.empty() && v.back().b + 1 == a) v.back().b = b;
            else v.push_back({a, b});
            return;
        }
        size_t lo = find(a == 0 ? 0 : a - 1);  // first that may touch on the left
        size_t hi = lo;
        uint64_t na = a, nb = b;
        while (hi < v.size() && (v[hi].a <= b || v[hi].a == b + 1) && !(b == UINT64_MAX && v[hi].a > b)) {
            na = std::min(na, v[hi].a);
            nb = std::max(nb, v[hi].b);
            hi++;
        }
        if (hi == lo) v.insert(v.begin() + lo, I{na, nb});
        else {
            v[lo] = {na, nb};
            v.erase(v.begin() + lo + 1, v.begin() + hi);
        }
    }
    void add(uint64_t x) { add_range(x, x); }
    void remove_range(uint64_t a, uint64_t b) {
        if (a > b) return;
        size_t lo = find(a);
        std::vector<I> keep;
        size_t hi = lo;
        while (hi < v.size() && v[hi].a <= b) {
            if (v[hi].a < a) keep.push_back({v[hi].a, a - 1});
            if (v[hi].b > b) keep.push_back({b + 1, v[hi].b});
            hi++;
        }
        if (hi == lo) return;
        v.erase(v.begin() + lo, v.begin() + hi);
        v.insert(v.begin() + lo, keep.begin(), keep.end());
    }
    void remove(uint64_t x) { remove_range(x, x); }
    Set minus(const Set &o) const {
        Set r;
        size_t j = 0;
        for (auto i : v) {
            uint64_t a = i.a;
            bool done = false;
            while (j < o.v.size() && o.v[j].b < a) j++;
            size_t k = j;
            while (k < o.v.size() && o.v[k].a <= i.b) {
                if (o.v[k].a > a) r.v.push_back({a, o.v[k].a - 1});
                if (o.v[k].b >= i.b) {
                    done = true;
                    break;
                }
                a = o.v[k].b + 1;
                k++;
            }
            if (!done) r.v.push_back({a, i.b});
        }
        return r;
    }
    Set inter(const Set &o) const {
        Set r;
        size_t i = 0, j = 0;
        while (i < v.size() && j < o.v.size()) {
            uint64_t a = std::max(v[i].a, o.v[j].a), b = std::min(v[i].b, o.v[j].b);
            if (a <= b) r.v.push_back({a, b});
            if (v[i].b < o.v[j].b) i++;
            else j++;
        }
        return r;
    }
    Set uni(const Set &o) const {
        Set r;
        size_t i = 0, j = 0;
        while (i < v.size() || j < o.v.size()) {
            I x;
            if (j == o.v.size() || (i < v.size() && v[i].a <= o.v[j].a)) x = v[i++];
            else x = o.v[j++];
            if (!r.v.empty() && (r.v.back().b >= x.a || r.v.back().b + 1 == x.a)) {
                if (x.b > r.v.back().b) r.v.back().b = x.b;
            } else
                r.v.push_back(x);
        }
        return r;
    }
    Set xr(const Set &o) const { return minus(o).uni(o.minus(*this)); }
    Set flip(uint64_t a, uint64_t b) const { return a <= b ? xr(range(a, b)) : *this; }
    bool subset_of(const Set &o) const { return minus(o).empty(); }
    Set shift(uint64_t off) const {  // no overflow expected
        Set r = *this;
        for (auto &i : r.v) {
            i.a += off;
            i.b += off;
        }
        return r;
    }
    template <class F>
    void each(F f) const {
        for (auto &i : v)
            for (uint64_t x = i.a;; x++) {
                f(x);
                if (x == i.b) break;
            }
    }
    std::vector<uint64_t> list() const {
        std::vector<uint64_t> r;
        each([&](uint64_t x) { r.push_back(x); });
        return r;
    }
    std::string str(size_t maxn = 12) const {
        std::string s = "{";
        for (size_t i = 0; i < v.size() && i < maxn; i++) {
            if (i) s += ",";
            s += std::to_string(v[i].a);
            if (v[i].b != v[i].a) s += "-" + std::to_string(v[i].b);
        }
        if (v.size() > maxn) s += ",.." + std::to_string(v.size()) + " intervals";
        return s + "}";
    }
};
