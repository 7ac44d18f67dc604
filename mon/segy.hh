// Independent model of the SEG-Y revision 1 layout (written from the standard,
// not from the library): encode/decode of files byte by byte.
#pragma once
#include "core.hh"

#include "ExSeisDat/PIOL/Meta.h"

namespace segy {
using mon::Bytes;
constexpr size_t HO = 3600, TXT = 3200, MD = 240;
inline size_t dosz(size_t ns) { return MD + 4 * ns; }
inline size_t fsize(size_t nt, size_t ns) { return HO + nt * dosz(ns); }
inline size_t off(size_t t, size_t ns) { return HO + t * dosz(ns); }

inline void put16(unsigned char* p, int v)
{
    p[0] = (unsigned(v) >> 8) & 255;
    p[1] = unsigned(v) & 255;
}
inline void put32(unsigned char* p, int64_t v)
{
    uint32_t u = uint32_t(v);
    for (int i = 0; i < 4; i++) p[i] = (u >> (24 - 8 * i)) & 255;
}
inline int get16(const unsigned char* p) { return int16_t((unsigned(p[0]) << 8) | p[1]); }
inline int32_t get32(const unsigned char* p) { return int32_t((uint32_t(p[0]) << 24) | (uint32_t(p[1]) << 16) | (uint32_t(p[2]) << 8) | p[3]); }
inline uint32_t fbits(float f)
{
    uint32_t u;
    memcpy(&u, &f, 4);
    return u;
}
inline float ffrom(uint32_t u)
{
    float f;
    memcpy(&f, &u, 4);
    return f;
}
inline void putf(unsigned char* p, float f) { put32(p, fbits(f)); }
inline float getf(const unsigned char* p) { return ffrom(uint32_t(get32(p))); }

// kind: 'l' 32-bit integer, 's' 16-bit integer, 'f' 32-bit scaled by scal
struct Field {
    size_t meta;
    char kind;
    int loc, scal;  // 1-based byte positions
    const char* name;
};
inline const std::vector<Field>& fields()
{
    static const std::vector<Field> f = {
        {PIOL_META_tnl, 'l', 1, 0, "tnl"},          {PIOL_META_tn, 'l', 5, 0, "tn"},
        {PIOL_META_tnr, 'l', 13, 0, "tnr"},         {PIOL_META_SrcNum, 'l', 17, 0, "SrcNum"},
        {PIOL_META_tne, 'l', 25, 0, "tne"},         {PIOL_META_Tic, 's', 29, 0, "Tic"},
        {PIOL_META_VStack, 's', 31, 0, "VStack"},   {PIOL_META_HStack, 's', 33, 0, "HStack"},
        {PIOL_META_Offset, 'l', 37, 0, "Offset"},   {PIOL_META_RGElev, 'f', 41, 69, "RGElev"},
        {PIOL_META_SSElev, 'f', 45, 69, "SSElev"},  {PIOL_META_SDElev, 'f', 49, 69, "SDElev"},
        {PIOL_META_WtrDepSrc, 'f', 61, 69, "WtrDepSrc"}, {PIOL_META_WtrDepRcv, 'f', 65, 69, "WtrDepRcv"},
        {PIOL_META_xSrc, 'f', 73, 71, "xSrc"},      {PIOL_META_ySrc, 'f', 77, 71, "ySrc"},
        {PIOL_META_xRcv, 'f', 81, 71, "xRcv"},      {PIOL_META_yRcv, 'f', 85, 71, "yRcv"},
        {PIOL_META_ns, 's', 115, 0, "ns"},          {PIOL_META_inc, 's', 117, 0, "inc"},
        {PIOL_META_xCmp, 'f', 181, 71, "xCmp"},     {PIOL_META_yCmp, 'f', 185, 71, "yCmp"},
        {PIOL_META_il, 'l', 189, 0, "il"},          {PIOL_META_xl, 'l', 193, 0, "xl"},
        {PIOL_META_ShotNum, 'f', 197, 201, "ShotNum"}, {PIOL_META_TraceUnit, 's', 203, 0, "TraceUnit"},
        {PIOL_META_TransUnit, 's', 211, 0, "TransUnit"}};
    return f;
}
inline const Field* field(size_t m)
{
    for (auto& f : fields())
        if (f.meta == m) return &f;
    return nullptr;
}
inline const std::vector<size_t>& default_metas()
{
    static const std::vector<size_t> m = {PIOL_META_xSrc, PIOL_META_ySrc, PIOL_META_xRcv, PIOL_META_yRcv, PIOL_META_xCmp,
                                          PIOL_META_yCmp, PIOL_META_Offset, PIOL_META_il, PIOL_META_xl, PIOL_META_tn};
    return m;
}
inline long double scal_factor(int s)
{
    if (s == 0) return 1;
    return s > 0 ? (long double)s : 1.0L / (long double)(-s);
}
inline bool scal_allowed(int s)
{
    for (int p = 1; p <= 10000; p *= 10)
        if (s == p || s == -p) return true;
    return s == 0;
}
inline long double decode(const unsigned char* md, const Field& f)
{
    if (f.kind == 'l') return get32(md + f.loc - 1);
    if (f.kind == 's') return get16(md + f.loc - 1);
    return (long double)get32(md + f.loc - 1) * scal_factor(get16(md + f.scal - 1));
}
// the finest factor of the format with which every value fits in 32 bits; 0 if none
inline long double best_factor(long double maxabs)
{
    for (int e = -4; e <= 4; e++) {
        long double f = powl(10.0L, e);
        if (roundl(maxabs / f) <= 2147483647.0L) return f;
    }
    return 0;
}

// IBM hexadecimal float (big-endian bytes) -> exact value (fits in a double)
inline double ibm_value(uint32_t u)
{
    int e      = int((u >> 24) & 127) - 64;
    double fr  = double(u & 0xffffffu);
    double v   = std::ldexp(fr, 4 * e - 24);
    return (u >> 31) ? -v : v;
}

struct File {
    std::string text;
    int ns = 0, inc = 0, fmt = 5;
    Bytes head;   // 3600
    Bytes body;   // traces
    size_t nt() const { return body.size() / dosz(ns); }
};
inline Bytes header(const std::string& text, int ns, int inc, int fmt)
{
    Bytes h(HO, 0);
    for (size_t i = 0; i < text.size() && i < TXT; i++) h[i] = text[i];
    put16(&h[3216], inc);
    put16(&h[3220], ns);
    put16(&h[3224], fmt);
    put16(&h[3254], 1);
    put16(&h[3500], 0x0100);
    put16(&h[3502], 1);
    put16(&h[3504], 0);
    return h;
}
}  // namespace segy
