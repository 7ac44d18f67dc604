// Geometry of traces: generation, SEG-Y files, sort keys.
#pragma once
#include "model.hh"

#include "ExSeisDat/PIOL/SortType.h"

namespace geo {
using namespace mon;
using namespace lib;

struct G {
    double sx = 0, sy = 0, rx = 0, ry = 0, cx = 0, cy = 0;
    int64_t off = 0, il = 0, xl = 0, tn = 0;
};
// values of one key: few distinct, constant, sorted, reversed, wide
struct KeyGen {
    int style;
    int64_t lo, hi;
    explicit KeyGen(Rng& r)
    {
        style = r.in(0, 6);
        int64_t w = style == 0 ? 1 : style == 1 ? 4 : style == 2 ? 100000 : r.in(1, 30);
        lo = r.chance(0.3) ? 0 : r.in(-1000, 1000);
        if (r.chance(0.15)) lo = -w - r.in(0, 50);  // all negative
        hi = lo + w;
    }
    int64_t operator()(Rng& r, size_t k) const
    {
        if (style == 3) return lo + int64_t(k) / 3;        // ascending with ties
        if (style == 4) return hi - int64_t(k) / 2;        // descending
        if (style == 5 && (k & 1)) return lo;              // half constant
        if (style == 6) return lo;                         // constant
        return r.in(lo, hi);
    }
};
inline std::vector<G> gen(Rng& r, size_t n)
{
    std::vector<KeyGen> k;
    for (int i = 0; i < 10; i++) k.emplace_back(r);
    double sc = r.chance(0.5) ? 1.0 : 0.5;
    if (r.chance(0.5)) {  // a regular shot/receiver arrangement leaves many ties
        for (int i = 0; i < 10; i++)
            if (r.chance(0.6)) k[i].style = 6;
    }
    std::vector<G> g(n);
    for (size_t i = 0; i < n; i++) {
        g[i].sx  = sc * k[0](r, i);
        g[i].sy  = sc * k[1](r, i);
        g[i].rx  = sc * k[2](r, i);
        g[i].ry  = sc * k[3](r, i);
        g[i].cx  = sc * k[4](r, i);
        g[i].cy  = sc * k[5](r, i);
        g[i].off = k[6](r, i);
        g[i].il  = k[7](r, i);
        g[i].xl  = k[8](r, i);
        g[i].tn  = int64_t(i) + 1;
    }
    return g;
}
inline void set(const G& g, size_t k, Param* p)
{
    using exseis::utils::Integer;
    auto f = [&](size_t m, double v) {
        if (p->r->getEntry(m)) param_utils::setPrm(k, m, v, p);
    };
    auto i = [&](size_t m, int64_t v) {
        if (p->r->getEntry(m)) param_utils::setPrm(k, m, Integer(v), p);
    };
    f(PIOL_META_xSrc, g.sx);
    f(PIOL_META_ySrc, g.sy);
    f(PIOL_META_xRcv, g.rx);
    f(PIOL_META_yRcv, g.ry);
    f(PIOL_META_xCmp, g.cx);
    f(PIOL_META_yCmp, g.cy);
    i(PIOL_META_Offset, g.off);
    i(PIOL_META_il, g.il);
    i(PIOL_META_xl, g.xl);
    i(PIOL_META_tn, g.tn);
}
// a header holding g; coordinates must be multiples of 0.5
inline void put(const G& g, unsigned char* h, int scal = -10)
{
    double f = scal < 0 ? -scal : 1;
    segy::put16(h + 70, scal);
    segy::put32(h + 72, llround(g.sx * f));
    segy::put32(h + 76, llround(g.sy * f));
    segy::put32(h + 80, llround(g.rx * f));
    segy::put32(h + 84, llround(g.ry * f));
    segy::put32(h + 180, llround(g.cx * f));
    segy::put32(h + 184, llround(g.cy * f));
    segy::put32(h + 36, g.off);
    segy::put32(h + 188, g.il);
    segy::put32(h + 192, g.xl);
    segy::put32(h + 4, g.tn);
}
// a SEG-Y file of these traces; sample s of trace k holds val(k, s)
template<class F>
Bytes file(const std::vector<G>& g, size_t ns, int inc, F val, Rng* junk = nullptr)
{
    std::string t(3200, ' ');
    t.replace(0, 20, "C 1 GENERATED SURVEY");
    Bytes b = segy::header(t, ns, inc, 5);
    b.resize(segy::fsize(g.size(), ns), 0);
    for (size_t k = 0; k < g.size(); k++) {
        unsigned char* p = &b[segy::off(k, ns)];
        if (junk)
            for (int i = 0; i < 240; i++) p[i] = junk->next();
        put(g[k], p);
        for (size_t s = 0; s < ns; s++) segy::putf(p + 240 + 4 * s, val(k, s));
    }
    return b;
}
static const std::vector<size_t> sort_types = {PIOL_SORTTYPE_SrcRcv, PIOL_SORTTYPE_SrcOff, PIOL_SORTTYPE_SrcROff, PIOL_SORTTYPE_RcvOff, PIOL_SORTTYPE_RcvROff,
                                               PIOL_SORTTYPE_LineOff, PIOL_SORTTYPE_LineROff, PIOL_SORTTYPE_OffLine, PIOL_SORTTYPE_ROffLine};
// the key tuple a sort type orders by
inline std::vector<double> key(size_t type, const G& g)
{
    double co = (g.sx - g.rx) * (g.sx - g.rx) + (g.sy - g.ry) * (g.sy - g.ry);
    switch (type) {
        case PIOL_SORTTYPE_SrcOff: return {g.sx, g.sy, co};
        case PIOL_SORTTYPE_SrcROff: return {g.sx, g.sy, double(g.off)};
        case PIOL_SORTTYPE_RcvOff: return {g.rx, g.ry, co};
        case PIOL_SORTTYPE_RcvROff: return {g.rx, g.ry, double(g.off)};
        case PIOL_SORTTYPE_LineOff: return {double(g.il), double(g.xl), co};
        case PIOL_SORTTYPE_LineROff: return {double(g.il), double(g.xl), double(g.off)};
        case PIOL_SORTTYPE_OffLine: return {co, double(g.il), double(g.xl)};
        case PIOL_SORTTYPE_ROffLine: return {double(g.off), double(g.il), double(g.xl)};
        default: return {g.sx, g.sy, g.rx, g.ry};
    }
}
// user comparisons, with their keys
inline std::vector<double> user_key(int u, const G& g)
{
    switch (u) {
        case 0: return {double(g.il)};                 // many ties
        case 1: return {-double(g.xl), double(g.il)};  // descending
        case 2: return {0.0};                          // everything ties
        case 3: return {g.cx, -g.cy};
        default: return {double(g.off), -double(g.tn)};
    }
}
// what the comparison reads
inline std::shared_ptr<Rule> user_rule(int u)
{
    std::vector<std::vector<Meta>> m = {{PIOL_META_il}, {PIOL_META_xl, PIOL_META_il}, {}, {PIOL_META_xCmp, PIOL_META_yCmp}, {PIOL_META_Offset, PIOL_META_tn}};
    return std::make_shared<Rule>(m[u], u % 2 == 0, false);
}
inline CompareP user_comp(int u)
{
    using param_utils::getPrm;
    using exseis::utils::Integer;
    switch (u) {
        case 0: return [](const Param* p, size_t i, size_t j) { return getPrm<Integer>(i, PIOL_META_il, p) < getPrm<Integer>(j, PIOL_META_il, p); };
        case 1:
            return [](const Param* p, size_t i, size_t j) {
                auto a = getPrm<Integer>(i, PIOL_META_xl, p), b = getPrm<Integer>(j, PIOL_META_xl, p);
                if (a != b) return a > b;
                return getPrm<Integer>(i, PIOL_META_il, p) < getPrm<Integer>(j, PIOL_META_il, p);
            };
        case 2: return [](const Param*, size_t, size_t) { return false; };
        case 3:
            return [](const Param* p, size_t i, size_t j) {
                auto a = getPrm<double>(i, PIOL_META_xCmp, p), b = getPrm<double>(j, PIOL_META_xCmp, p);
                if (a != b) return a < b;
                return getPrm<double>(i, PIOL_META_yCmp, p) > getPrm<double>(j, PIOL_META_yCmp, p);
            };
        default:
            return [](const Param* p, size_t i, size_t j) {
                auto a = getPrm<Integer>(i, PIOL_META_Offset, p), b = getPrm<Integer>(j, PIOL_META_Offset, p);
                if (a != b) return a < b;
                return getPrm<Integer>(i, PIOL_META_tn, p) > getPrm<Integer>(j, PIOL_META_tn, p);
            };
    }
}
// trace numbers in sorted order; ties in original order
inline std::vector<size_t> order(const std::vector<G>& g, const std::function<std::vector<double>(const G&)>& k)
{
    std::vector<std::vector<double>> ks;
    for (auto& x : g) ks.push_back(k(x));
    std::vector<size_t> o(g.size());
    for (size_t i = 0; i < o.size(); i++) o[i] = i;
    std::stable_sort(o.begin(), o.end(), [&](size_t a, size_t b) { return ks[a] < ks[b]; });
    return o;
}
// shares for operations that divide by contiguous blocks; at least `least` each
inline std::vector<size_t> contiguous(Rng& r, size_t n, int np, size_t least)
{
    if (least * np > n) {
        std::vector<size_t> s(np, n / np);
        for (size_t i = 0; i < n % np; i++) s[i]++;
        return s;
    }
    auto s = shares(r, n - least * np, np);
    for (auto& x : s) x += least;
    return s;
}
}  // namespace geo
