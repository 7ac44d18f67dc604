// Reference model of a SEG-Y file being written: samples (bit patterns) and
// header state per trace, kept independently of the library.
#pragma once
#include "lib.hh"

namespace model {
using namespace mon;
using namespace lib;

struct RuleSpec {
    std::vector<size_t> metas;  // fields present
    bool copy = false, full = true;
    std::string name;
    std::shared_ptr<Rule> make() const
    {
        std::vector<Meta> l(metas.begin(), metas.end());
        if (copy) l.push_back(PIOL_META_COPY);
        return std::make_shared<Rule>(l, full, false, false);
    }
    bool has(size_t m) const { return std::find(metas.begin(), metas.end(), m) != metas.end(); }
};
inline RuleSpec gen_rule(Rng& r, bool allow_copy)
{
    RuleSpec s;
    int k = r.in(0, 3);
    if (k == 0) {
        s.metas = segy::default_metas();
        s.name  = "default";
    }
    else if (k == 1) {
        for (auto& f : segy::fields()) s.metas.push_back(f.meta);
        s.name = "all";
    }
    else {
        double p = r.uni();
        for (auto& f : segy::fields())
            if (r.chance(p)) s.metas.push_back(f.meta);
        r.shuffle(s.metas);
        s.name = std::to_string(s.metas.size()) + " fields";
    }
    if (allow_copy && r.chance(0.4)) {
        s.copy = true;
        s.name += "+copy";
    }
    if (r.chance(0.25)) {
        s.full = false;
        s.name += " dynamic extent";
    }
    return s;
}

// value of a coordinate, of a style shared by a file
inline double gen_coord(Rng& r, int style)
{
    double s = r.chance(0.5) ? -1 : 1;
    switch (style) {
        case 0: return double(r.in(-100000, 100000));
        case 1: return double(r.in(-1000000000, 1000000000)) / 100.0;
        case 2: return double(r.in(-2000000000, 2000000000)) / 10000.0;
        case 3: return s * std::exp(r.uni() * 21.0);  // up to 1.3e9
        case 4: return s * std::exp(r.uni() * 30.0);  // up to 1.07e13
        case 5: return double(r.in(-40000000, 40000000)) / 10.0;
        case 6: return s * r.uni() * 1e-3;
        case 7: return r.chance(0.3) ? s * (2147483647.0 - double(r.in(0, 3)) + r.uni()) : double(r.in(-3, 3));
        default: return r.chance(0.5) ? 0.0 : double(r.in(-2147483647, 2147483647));
    }
}
inline int64_t gen_int32(Rng& r) { return r.chance(0.5) ? r.in(-1000, 1000) : r.chance(0.1) ? (r.chance(0.5) ? INT32_MAX : INT32_MIN) : int64_t(int32_t(r.next())); }
inline int gen_int16(Rng& r) { return r.chance(0.5) ? r.in(-10, 100) : int16_t(r.next()); }
inline uint32_t gen_sample(Rng& r)
{
    if (r.chance(0.15)) return r.next();  // any bit pattern
    float f = float((r.uni() - 0.5) * std::exp(r.uni() * 20 - 10));
    return segy::fbits(f);
}

// one trace header's values
struct Hdr {
    std::map<size_t, int64_t> i;  // long and short fields
    std::map<size_t, double> f;   // coordinates
    Bytes copy;                   // verbatim header, if copied
};
inline Hdr gen_hdr(Rng& r, const RuleSpec& rs)
{
    Hdr h;
    int st[3] = {int(r.in(0, 8)), int(r.in(0, 8)), int(r.in(0, 8))};
    for (auto m : rs.metas) {
        auto* f = segy::field(m);
        if (f->kind == 'l') h.i[m] = gen_int32(r);
        else if (f->kind == 's') h.i[m] = gen_int16(r);
        else h.f[m] = gen_coord(r, r.chance(0.8) ? st[f->scal == 69 ? 0 : f->scal == 71 ? 1 : 2] : int(r.in(0, 8)));
    }
    if (rs.copy) {
        h.copy.resize(240);
        for (auto& b : h.copy) b = r.next();
    }
    return h;
}
inline void fill_param(const Hdr& h, const RuleSpec& rs, size_t k, Param* p)
{
    for (auto m : rs.metas) {
        auto* f = segy::field(m);
        if (f->kind == 'f') param_utils::setPrm(k, m, h.f.at(m), p);
        else if (f->kind == 'l') param_utils::setPrm(k, m, exseis::utils::Integer(h.i.at(m)), p);
        else param_utils::setPrm(k, m, int16_t(h.i.at(m)), p);
    }
    if (rs.copy) std::copy(h.copy.begin(), h.copy.end(), p->c.begin() + 240 * k);
}

struct Trc {
    std::vector<uint32_t> s;  // sample bits
    bool hw = false;          // header written
    bool wr = false;          // anything written
    RuleSpec rs;
    Hdr h;
};

// compare a header on disk with the model; returns a description of the first difference
inline std::string cmp_header(const unsigned char* md, const Trc& t, std::string* which)
{
    char b[300];
    std::vector<char> care(240, 1);
    Bytes want(240, 0);
    if (t.hw) {
        if (t.rs.copy) want = t.h.copy;
        std::map<int, long double> mx;
        for (auto m : t.rs.metas) {
            auto* f = segy::field(m);
            if (f->kind == 'l') segy::put32(&want[f->loc - 1], t.h.i.at(m));
            else if (f->kind == 's') segy::put16(&want[f->loc - 1], t.h.i.at(m));
            else {
                mx[f->scal] = std::max(mx[f->scal], fabsl((long double)t.h.f.at(m)));
                for (int k = 0; k < 4; k++) care[f->loc - 1 + k] = 0;
                for (int k = 0; k < 2; k++) care[f->scal - 1 + k] = 0;
            }
        }
        for (auto& g : mx) {
            int sc = segy::get16(md + g.first - 1);
            if (!segy::scal_allowed(sc)) {
                snprintf(b, sizeof b, "scalar at byte %d is %d", g.first, sc);
                *which = "scalar";
                return b;
            }
        }
        for (auto m : t.rs.metas) {
            auto* f = segy::field(m);
            if (f->kind != 'f') continue;
            long double v = t.h.f.at(m), got = segy::decode(md, *f), F = segy::best_factor(mx[f->scal]);
            if (F == 0) continue;
            long double tol = 0.5L * F + fabsl(v) * 1e-14L + 1e-13L;
            if (fabsl(got - v) > tol) {
                snprintf(b, sizeof b, "%s: value %.10Lf stored as %.10Lf (scalar %d, best factor %Lg)", f->name, v, got, segy::get16(md + f->scal - 1), F);
                *which = "coord";
                return b;
            }
        }
    }
    for (int k = 0; k < 240; k++)
        if (care[k] && md[k] != want[k]) {
            const char* fn = "unassigned";
            for (auto& f : segy::fields())
                if (k >= f.loc - 1 && k < f.loc - 1 + (f.kind == 's' ? 2 : 4)) fn = f.name;
            snprintf(b, sizeof b, "header byte %d (%s) is 0x%02x, expected 0x%02x", k + 1, fn, md[k], want[k]);
            *which = "header";
            return b;
        }
    return "";
}
// does trace k of p hold what the header bytes md say?  returns first difference
inline std::string cmp_param(const unsigned char* md, const RuleSpec& rs, size_t k, const Param* p)
{
    char b[300];
    for (auto m : rs.metas) {
        auto* f = segy::field(m);
        if (f->kind == 'f') {
            long double want = segy::decode(md, *f), got = param_utils::getPrm<double>(k, m, p);
            if (fabsl(got - want) > fabsl(want) * 1e-14L) {
                snprintf(b, sizeof b, "%s read as %.12Lg, header holds %.12Lg", f->name, got, want);
                return b;
            }
        }
        else {
            int64_t want = int64_t(segy::decode(md, *f)), got = param_utils::getPrm<exseis::utils::Integer>(k, m, p);
            if (got != want) {
                snprintf(b, sizeof b, "%s read as %ld, header holds %ld", f->name, long(got), long(want));
                return b;
            }
        }
    }
    if (rs.copy)
        for (int j = 0; j < 240; j++)
            if (p->c[240 * k + j] != md[j]) {
                snprintf(b, sizeof b, "copied header byte %d is 0x%02x, file has 0x%02x", j + 1, p->c[240 * k + j], md[j]);
                return b;
            }
    return "";
}
// distinctive content of a parameter structure, to see that unrelated cells stay put
inline void poison(Param* p, uint64_t seed)
{
    Rng r(seed);
    for (auto& x : p->f) x = double(r.in(-1000000, 1000000)) + 0.5;
    for (auto& x : p->i) x = r.in(-1000000, 1000000);
    for (auto& x : p->s) x = int16_t(r.next());
    for (auto& x : p->t) x = r.next();
    for (auto& x : p->c) x = r.next();
}
// cells of trace a of x equal those of trace b of y (same rule)
inline bool same_cells(const Param& x, size_t a, const Param& y, size_t b)
{
    auto eq = [&](auto& u, auto& v, size_t n) {
        for (size_t k = 0; k < n; k++)
            if (memcmp(&u[n * a + k], &v[n * b + k], sizeof(u[0]))) return false;
        return true;
    };
    return eq(x.f, y.f, x.r->numFloat) && eq(x.i, y.i, x.r->numLong) && eq(x.s, y.s, x.r->numShort) && eq(x.t, y.t, x.r->numIndex)
           && (x.r->numCopy == 0 || std::equal(x.c.begin() + 240 * a, x.c.begin() + 240 * a + 240, y.c.begin() + 240 * b));
}
}  // namespace model
