// C05: number conversions against exact arithmetic
#include "lib.hh"

#include <array>

#include "ExSeisDat/utils/encoding/number_encoding.hh"
using namespace mon;
using namespace exseis::utils;

static std::array<unsigned char, 4> bytes(uint32_t u, bool be)
{
    std::array<unsigned char, 4> a;
    for (int i = 0; i < 4; i++) a[be ? i : 3 - i] = (u >> (24 - 8 * i)) & 255;
    return a;
}
static int ibm_one(Ctx& c, uint32_t u, bool be)
{
    float got = from_IBM_to_float(bytes(u, be), be);
    // an IBM float is exactly representable in double, so the cast is one correct rounding
    float want = (u & 0xffffff) ? float(segy::ibm_value(u)) : 0.0f;
    uint32_t g = segy::fbits(got), w = segy::fbits(want);
    if (g == w) return 0;
    const char* k = (u & 0xffffff) == 0 ? "ibm-zero" : std::isinf(want) ? "ibm-overflow" : std::fabs(want) < 1.18e-38 ? "ibm-subnormal" : "ibm-normal";
    c.check(false, "C05", k, "IBM 0x%08x (%s endian) converts to %a (0x%08x), exact value %a rounds to %a (0x%08x)", u, be ? "big" : "little", got, g, segy::ibm_value(u), want, w);
    return 1;
}

// the first byte (sign, exponent) is enumerated; fractions: every single and
// double bit pattern, runs of ones, and a random stride through all 2^24
SCENARIO(num_ibm, "C05", 1, 1, 1)
{
    Rng& r       = c.rng;
    unsigned top = c.case_no % 256;
    uint64_t n = 0, h = 0;
    int bad    = 0;
    auto both  = [&](uint32_t f) {
        uint32_t u = (top << 24) | (f & 0xffffff);
        bad += ibm_one(c, u, true);
        bad += ibm_one(c, u, false);
        n += 2;
        h = splitmix(h ^ u);
    };
    both(0);
    for (int i = 0; i < 24; i++)
        for (int j = 0; j <= i; j++) {
            uint32_t a = 1u << i, b = 1u << j;
            both(a | b);
            both(a - b);       // runs of ones
            both((a | b) + 1);
            both((a | b) - 1);
            both(a + (b >> 1) + 1);
        }
    // around every possible rounding point of a subnormal result
    for (int i = 0; i < 3000 && bad < 4; i++) {
        int k      = r.in(1, 23);
        uint32_t v = (uint32_t(r.next()) << k) | (1u << (k - 1));
        both(v);
        both(v + 1);
        both(v - 1);
    }
    uint32_t step = (1 + uint32_t(r.next() % 600)) | 1, at = r.next() & 0xffffff;
    for (uint32_t i = 0; i < 60000 && bad < 4; i++, at += step) both(at);
    c.count("ibm_values", n);
    c.distinct("ibm_top_bytes", top);
    for (int i = 0; i < 16; i++) c.evaluation(splitmix(h + i), true);
    if (c.case_no < 3) c.sample("IBM numbers with first byte " + std::to_string(top) + ", stride " + std::to_string(step));
}

// every fraction of one first byte
SCENARIO(num_ibm_all, "C05", 2, 8, 1)
{
    // the exponents with subnormal, limit and overflow results come first
    static const std::vector<unsigned> order = [] {
        std::vector<unsigned> o;
        for (unsigned e : {0x21u, 0x20u, 0x1fu, 0x1eu, 0x1du, 0x1cu, 0x1bu, 0x1au, 0x60u, 0x61u, 0x40u, 0u, 0x7fu, 0x22u, 0x5fu})
            for (unsigned s : {0u, 128u}) o.push_back(e | s);
        for (unsigned t = 0; t < 256; t++)
            if (std::find(o.begin(), o.end(), t) == o.end()) o.push_back(t);
        return o;
    }();
    unsigned top = order[c.case_no % 256];
    int bad      = 0;
    bool be      = c.case_no < 256 ? true : false;
    for (uint32_t f = c.rank; f < (1u << 24) && bad < 4; f += c.np) bad += ibm_one(c, (top << 24) | f, be);
    c.count("ibm_values", (1u << 24) / c.np);
    c.distinct("ibm_top_bytes_exhaustive", top);
    for (int i = 0; i < 16; i++) c.evaluation(splitmix(top * 16 + i + c.rank * 99999), true);
    c.skip_audit = true;
}

SCENARIO(num_be, "C05", 1, 1, 0.2)
{
    Rng& r  = c.rng;
    int bad = 0;
    for (int v = -32768; v <= 32767 && bad < 4; v++) {
        auto b = to_big_endian(int16_t(v));
        bool ok = b[0] == ((unsigned(v) >> 8) & 255) && b[1] == (unsigned(v) & 255) && from_big_endian<int16_t>(b[0], b[1]) == v && from_big_endian<int16_t>(b) == v;
        bad += !c.check(ok, "C05", "be16", "16-bit %d encodes to %02x %02x and decodes to %d", v, b[0], b[1], int(from_big_endian<int16_t>(b[0], b[1])));
        auto w = from_big_endian<uint16_t>(b);
        bad += !c.check(w == uint16_t(v), "C05", "be16", "16-bit unsigned %u decodes to %u", unsigned(uint16_t(v)), unsigned(w));
    }
    uint64_t h = 0;
    for (int i = 0; i < 60000 && bad < 4; i++) {
        uint32_t u = i < 32 ? 1u << i : i < 64 ? ~(1u << (i - 32)) : i < 1000 ? (1u << r.in(0, 31)) - (1u << r.in(0, 31)) : uint32_t(r.next());
        if (i % 5 == 4) u = (u & 0x807fffff) | (r.chance(0.5) ? 0x7f800000 : 0);  // infinities, NaNs, subnormals
        unsigned char e[4];
        segy::put32(e, u);
        h      = splitmix(h ^ u);
        auto a = to_big_endian(int32_t(u)), b2 = to_big_endian(uint32_t(u));
        float f;
        memcpy(&f, &u, 4);
        auto fb = to_big_endian(f);
        bad += !c.check(!memcmp(a.data(), e, 4) && !memcmp(b2.data(), e, 4), "C05", "be32", "32-bit 0x%08x encodes to %02x %02x %02x %02x", u, a[0], a[1], a[2], a[3]);
        bad += !c.check(!memcmp(fb.data(), e, 4), "C05", "be-float", "float 0x%08x encodes to %02x %02x %02x %02x", u, fb[0], fb[1], fb[2], fb[3]);
        bad += !c.check(from_big_endian<int32_t>(e[0], e[1], e[2], e[3]) == int32_t(u) && from_big_endian<uint32_t>(a) == u, "C05", "be32", "32-bit 0x%08x decodes to 0x%08x", u, from_big_endian<int32_t>(e[0], e[1], e[2], e[3]));
        float g = from_big_endian<float>(e[0], e[1], e[2], e[3]);
        bad += !c.check(segy::fbits(g) == u, "C05", "be-float", "float 0x%08x decodes to 0x%08x", u, segy::fbits(g));
    }
    c.count("be_values", 65536 + 60000);
    for (int i = 0; i < 8; i++) c.evaluation(splitmix(h + i), true);
}
