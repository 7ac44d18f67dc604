// C17: tapers and gain control; C18: temporal filters, against their definitions in double precision.
#include "lib.hh"

#include "ExSeisDat/PIOL/operations/temporalfilter.hh"
#include "ExSeisDat/utils/signal_processing/AGC.h"
#include "ExSeisDat/utils/signal_processing/taper.h"

#include <algorithm>
#include <cmath>
#include <complex>
#include <cstring>
using namespace mon;
using namespace exseis::utils;
typedef exseis::utils::Trace_value TV;
typedef std::vector<TV> Trace;

static const double PI = 3.14159265358979323846;

// A trace in the middle of other memory: a guard of known content on both
// sides (checked after the call) inside an allocation of exact size (checked
// by the sanitizer). The guards differ between two runs of the same call, so
// that a result that depends on them is seen.
struct Framed {
    std::vector<TV> b;
    size_t front, n, back;
    TV fill;
    Framed(const Trace& t, size_t f, size_t k, TV v) : b(f + t.size() + k, v), front(f), n(t.size()), back(k), fill(v) { std::copy(t.begin(), t.end(), b.begin() + f); }
    TV* p() { return b.data() + front; }
    bool intact() const
    {
        for (size_t i = 0; i < front; i++)
            if (segy::fbits(b[i]) != segy::fbits(fill)) return false;
        for (size_t i = front + n; i < b.size(); i++)
            if (segy::fbits(b[i]) != segy::fbits(fill)) return false;
        return true;
    }
};
static TV value(Rng& r, int style)
{
    switch (style) {
        case 0: return TV(r.in(-4000, 4000)) / 16;
        case 1: return TV((r.uni() - 0.5) * 2e-3);
        case 2: return TV((r.uni() - 0.5) * 2e7);
        case 3: return r.chance(0.6) ? 0.f : TV(r.in(-4000, 4000)) / 16;
        case 4: return TV(r.in(1, 4000)) / 16;
        default: return r.chance(0.5) ? TV(-100.5) : TV(100.5);
    }
}
static Trace make_trace(Rng& r, size_t ns, std::string& what)
{
    int style = r.in(0, 5);
    Trace t(ns);
    for (auto& v : t) v = value(r, style);
    size_t mute = r.chance(0.4) ? r.in(0, ns) : 0;
    for (size_t i = 0; i < mute; i++) t[i] = (r.chance(0.2) ? -0.0f : 0.f);
    what += " style " + std::to_string(style) + " muted " + std::to_string(mute);
    return t;
}

// ---------------------------------------------------------------- tapers
static std::vector<std::pair<TV, TV>> taper_calls;
static TV taper_user(TV p, TV w)
{
    taper_calls.push_back({p, w});
    return p / (w + 3) + 0.25f;
}
static double ramp(int which, double p, double w)
{
    double c = 0.5 + 0.5 * std::cos(PI * (p - w) / w);
    return which == 1 ? p / w : which == 2 ? c : which == 3 ? c * c : double(TV(TV(p) / (TV(w) + 3) + 0.25f));
}

SCENARIO(taper_trace, "C17", 1, 1, 1)
{
    Rng& r = c.rng;
    static const Taper_function cxx[] = {taper_user, linear_taper, cosine_taper, cosine_square_taper};
    static const exseis_Taper_function cc[] = {taper_user, exseis_linear_taper, exseis_cosine_taper, exseis_cosine_square_taper};
    for (int rep = 0; rep < 40; rep++) {
        size_t ns = r.chance(0.3) ? r.in(0, 6) : r.chance(0.5) ? r.in(2, 60) : r.in(61, 1500) * (r.chance(0.05) ? r.in(2, 20) : 1);
        std::string what = "trace of " + std::to_string(ns);
        Trace t  = make_trace(r, ns, what);
        size_t L = r.chance(0.2) ? 0 : r.chance(0.2) ? ns : r.chance(0.1) ? r.in(ns, 3 * ns + 5) : r.in(0, ns);
        size_t R = r.chance(0.2) ? 0 : r.chance(0.2) ? ns : r.chance(0.1) ? r.in(ns, 3 * ns + 5) : r.in(0, ns);
        int which = r.in(0, 3);
        bool capi = r.chance(0.3);
        what += ", ramp " + std::to_string(which) + " over " + std::to_string(L) + " and " + std::to_string(R) + (capi ? " (C)" : "");
        // expected
        size_t m = 0;
        while (m < ns && t[m] == 0) m++;
        size_t live = ns - m, l = std::min(L, live), q = std::min(R, live);
        std::vector<double> e(t.begin(), t.end());
        for (size_t j = 0; j < l; j++) e[m + j] *= ramp(which, j + 1, l);
        for (size_t j = 0; j < q; j++) e[ns - 1 - j] *= ramp(which, j + 1, q);
        Trace out[2];
        if (ns == 0) {  // nothing at all to read (the sanitizer watches)
            std::unique_ptr<TV[]> none(new TV[0]);
            if (capi) exseis_taper(0, none.get(), cc[which], 0, 0);
            else taper(0, none.get(), cxx[which], 0, 0);
        }
        for (int k = 0; k < 2; k++) {
            Framed f(t, r.in(0, 9), r.in(0, 9), k ? TV(7.5) : TV(0));
            taper_calls.clear();
            if (capi) exseis_taper(ns, f.p(), cc[which], L, R);
            else taper(ns, f.p(), cxx[which], L, R);
            c.check(f.intact(), "C17", "taper-outside", "%s: memory beside the trace was changed", what.c_str());
            out[k].assign(f.p(), f.p() + ns);
            if (which == 0) {
                c.check(std::all_of(taper_calls.begin(), taper_calls.end(), [](std::pair<TV, TV> x) { return x.first > 0 && x.second > 0 && x.first <= x.second; }), "C17", "taper-position", "%s: the ramp was evaluated outside of its range", what.c_str());
                c.count("ramp_evaluations", taper_calls.size());
            }
        }
        c.check(memcmp(out[0].data(), out[1].data(), ns * sizeof(TV)) == 0, "C17", "taper-reads-outside", "%s: the result depends on memory beside the trace", what.c_str());
        bool nontrivial = false;
        for (size_t i = 0; i < ns; i++) {
            bool touched = i >= m && (i - m < l || ns - 1 - i < q);
            bool ok = touched ? std::fabs(out[0][i] - e[i]) <= 4e-6 * std::fabs(t[i]) : segy::fbits(out[0][i]) == segy::fbits(t[i]);
            nontrivial |= touched && t[i] != 0;
            if (!c.check(ok, "C17", touched ? "taper-value" : "taper-untouched", "%s: sample %zu was %g and is %g, expected %g", what.c_str(), i, t[i], out[0][i], e[i])) break;
        }
        c.count("tapered_traces");
        c.evaluation(hash_bytes(what.data(), what.size()), nontrivial);
        if (rep == 0) c.sample(what);
    }
}

// ---------------------------------------------------------------- gains
struct GainCall {
    ptrdiff_t at;
    size_t n, centre;
    TV target;
};
static std::vector<GainCall> gain_calls;
static const TV* gain_base;
static TV gain_user(const TV* s, size_t n, TV target, size_t centre)
{
    gain_calls.push_back({s - gain_base, n, centre, target});
    double a = 0;
    for (size_t i = 0; i < n; i++) a += double(s[i]) * (1 + i % 3);
    return TV(target + a / 1024 + s[centre]);
}
// the statistic of the window [b, b + n) of t around i (half width h); zero: none
static double statistic(int which, const Trace& t, size_t b, size_t n, size_t i, size_t h, bool wrong_median)
{
    double a = 0;
    size_t num = 0;
    for (size_t j = b; j < b + n; j++) num += t[j] != 0;
    num = std::max<size_t>(num, 1);
    if (which == 3) {
        for (size_t j = b; j < b + n; j++) a += std::fabs(double(t[j]));
        return a / num;
    }
    if (which == 4) {
        Trace s(t.begin() + b, t.begin() + b + n);
        std::sort(s.begin(), s.end());
        if (n % 2) return s[n / 2];
        if (wrong_median) return (TV(s[n / 2]) + TV(s[std::min(n / 2 + 1, n - 1)])) / 2;
        return (s[n / 2 - 1] + s[n / 2]) / 2;
    }
    for (size_t j = b; j < b + n; j++) {
        double d = j > i ? j - i : i - j;
        double w = which == 2 && h > 0 ? 1 - d / h : 1;
        a += double(t[j]) * t[j] * w * w;
    }
    return std::sqrt(a / num);
}

SCENARIO(agc_trace, "C17", 1, 1, 1)
{
    Rng& r = c.rng;
    static const Gain_function cxx[] = {gain_user, rectangular_RMS_gain, triangular_RMS_gain, mean_abs_gain, median_gain};
    static const exseis_Gain_function cc[] = {gain_user, exseis_rectangular_RMS_gain, exseis_triangular_RMS_gain, exseis_mean_abs_gain, exseis_median_gain};
    for (int rep = 0; rep < 25; rep++) {
        size_t ns = r.chance(0.3) ? r.in(0, 8) : r.chance(0.6) ? r.in(2, 60) : r.in(61, 600) * (r.chance(0.02) ? r.in(2, 8) : 1);
        std::string what = "trace of " + std::to_string(ns);
        Trace t = make_trace(r, ns, what);
        size_t w = r.chance(0.2) ? ns : r.chance(0.2) ? r.in(1, 4) : r.chance(0.15) ? r.in(ns, 3 * ns + 3) : r.in(0, ns);
        size_t W = w + (w % 2 == 0), h = W / 2;
        int which  = r.in(0, 4);
        bool capi  = r.chance(0.3);
        TV target  = r.chance(0.3) ? 1.f : TV(r.in(1, 400)) / 16;
        what += ", gain " + std::to_string(which) + " window " + std::to_string(w) + " target " + std::to_string(target) + (capi ? " (C)" : "");
        Trace out[2];
        for (int k = 0; k < 2; k++) {
            Framed f(t, r.in(0, 9), r.in(0, 9), k ? TV(7.5) : TV(0));
            gain_calls.clear();
            gain_base = f.p();
            if (capi) exseis_AGC(ns, f.p(), cc[which], w, target);
            else AGC(ns, f.p(), cxx[which], w, target);
            c.check(f.intact(), "C17", "agc-outside", "%s: memory beside the trace was changed", what.c_str());
            out[k].assign(f.p(), f.p() + ns);
        }
        c.check(memcmp(out[0].data(), out[1].data(), ns * sizeof(TV)) == 0, "C17", "agc-reads-outside", "%s: the result depends on memory beside the trace", what.c_str());
        if (which == 0) {
            // every sample has exactly one window: clipped, with its centre on the sample
            std::vector<int> seen(ns);
            for (auto& g : gain_calls) {
                ptrdiff_t i = g.at + ptrdiff_t(g.centre);
                bool in = i >= 0 && i < ptrdiff_t(ns) && g.at >= 0 && g.at + g.n <= ns;
                if (in) {
                    size_t b = size_t(i) > h ? i - h : 0, e = std::min(size_t(i) + h + 1, ns);
                    in = size_t(g.at) == b && g.n == e - b && g.target == target;
                    seen[i]++;
                }
                if (!c.check(in, "C17", "agc-window", "%s: a window of %zu samples at %td with the centre at %zu", what.c_str(), g.n, g.at, g.centre)) break;
            }
            c.check(std::all_of(seen.begin(), seen.end(), [](int n) { return n == 1; }), "C17", "agc-windows", "%s: samples without a window or with several", what.c_str());
            c.count("gain_windows", gain_calls.size());
        }
        for (size_t i = 0; i < ns; i++) {
            size_t b = i > h ? i - h : 0, n = std::min(i + h + 1, ns) - b;
            double e, tol = 2e-4;
            bool wrong = false;
            if (which == 2 && i < h && i + h >= ns) continue;  // the width of the triangle is lost at both ends
            if (which == 0) {
                double a = 0;
                for (size_t j = 0; j < n; j++) a += double(t[b + j]) * (1 + j % 3);
                e = double(t[i]) * TV(target + a / 1024 + t[i]);
                tol = 1e-5;
            }
            else {
                double s = statistic(which, t, b, n, i, h, false);
                e = s == 0 ? double(t[i]) : t[i] * (target / s);
                if (which == 4 && n % 2 == 0) {
                    double s2 = statistic(which, t, b, n, i, h, true);
                    double e2 = s2 == 0 ? double(t[i]) : t[i] * (target / s2);
                    wrong = std::fabs(out[0][i] - e2) <= tol * std::fabs(e2) && !(std::fabs(out[0][i] - e) <= tol * std::fabs(e));
                }
            }
            bool ok = std::fabs(out[0][i] - e) <= tol * std::fabs(e) + 1e-37;
            if (!c.check(ok, "C17", wrong ? "median-even" : "agc-value", wrong ? "%s: sample %zu was %g and is %g, expected %g: the median of an even number of samples is taken from the two above the middle" : "%s: sample %zu was %g and is %g, expected %g", what.c_str(), i, t[i], out[0][i], e) && !wrong) break;
        }
        c.count("gained_traces");
        c.evaluation(hash_bytes(what.data(), what.size()) ^ hash_vec(t), std::any_of(t.begin(), t.end(), [](TV v) { return v != 0; }));
        if (rep == 0) c.sample(what);
    }
}

// ---------------------------------------------------------------- filters
using namespace exseis::PIOL;
typedef std::complex<double> Cx;
struct Design {
    FltrType type;
    size_t N;
    double fs, c1, c2;
    std::string str() const
    {
        static const char* n[] = {"lowpass", "highpass", "bandpass", "bandstop"};
        char b[160];
        snprintf(b, sizeof b, "%s of order %zu, %g..%g at %g", n[int(type)], N, c1, c2, fs);
        return b;
    }
    bool band() const { return type == FltrType::Bandpass || type == FltrType::Bandstop; }
    // squared magnitude of the Butterworth design after the bilinear transform
    double gain2(double f) const
    {
        double w = std::tan(PI * f / fs), a = std::tan(PI * c1 / fs), b = band() ? std::tan(PI * c2 / fs) : 0, x;
        switch (type) {
            case FltrType::Lowpass: x = w / a; break;
            case FltrType::Highpass: x = w > 0 ? a / w : INFINITY; break;
            case FltrType::Bandpass: x = w > 0 ? (w * w - a * b) / (w * (b - a)) : INFINITY; break;
            default: x = std::fabs(w * w - a * b) > 0 ? w * (b - a) / (w * w - a * b) : INFINITY; break;
        }
        return std::isinf(x) ? 0 : 1 / (1 + std::pow(std::fabs(x), 2.0 * N));
    }
};
static Design design(Rng& r)
{
    Design d;
    d.type = FltrType(r.in(0, 3));
    d.N    = r.in(1, d.band() ? 3 : 5);
    d.fs   = r.chance(0.5) ? 1000.0 / r.in(1, 8) : double(r.in(20, 2000));
    d.fs   = float(d.fs);
    double a = 0.04 + 0.38 * r.uni();
    d.c1 = float(a * d.fs);
    d.c2 = 0;
    if (d.band()) {
        a    = 0.04 + 0.25 * r.uni();
        d.c1 = float(a * d.fs);
        d.c2 = float((a + 0.05 + (0.44 - a - 0.05) * r.uni()) * d.fs);
    }
    return d;
}
static Cx poly(const std::vector<TV>& p, double w)
{
    Cx z = std::exp(Cx(0, -w)), s = 0;
    for (size_t i = p.size(); i-- > 0;) s = s * z + Cx(p[i]);
    return s;
}

SCENARIO(filter_design, "C18", 1, 1, 1)
{
    Rng& r = c.rng;
    for (int rep = 0; rep < 20; rep++) {
        Design d = design(r);
        size_t n = d.N * (d.band() ? 2 : 1);
        std::string what = d.str();
        std::vector<TV> num(n + 1, 99.f), den(n + 1, 99.f);
        makeFilter(d.type, num.data(), den.data(), d.N, d.fs, d.c1, d.c2);
        double sn = 0, sd = 0;
        for (auto v : num) sn += std::fabs(v);
        for (auto v : den) sd += std::fabs(v);
        c.check(std::fabs(den[0] - 1) < 1e-5, "C18", "normalised", "%s: the first coefficient of the denominator is %g", what.c_str(), den[0]);
        const double eps = 6e-8 * 16 * (n + 2);
        uint64_t used = 0;
        auto at = [&](double f, double* err) {
            double w = 2 * PI * f / d.fs;
            Cx A = poly(den, w), B = poly(num, w);
            double H = std::abs(B / A);
            *err = eps * (sn + H * sd) / std::abs(A);
            return H;
        };
        for (int k = 0; k < 60; k++) {
            double f = k < 2 ? (k && d.band() ? d.c2 : d.c1) : d.fs * 0.4999 * (k - 2) / 57, err;
            double H = at(f, &err), e = std::sqrt(d.gain2(f));
            if (err > 0.03) {
                c.count("ill_conditioned_frequencies");
                continue;
            }
            used++;
            if (!c.check(std::fabs(H - e) <= err + 2e-4, "C18", k < 2 ? "corner" : "response", "%s: gain %g at %g Hz, the Butterworth design has %g (tolerance %g)", what.c_str(), H, f, e, err)) break;
        }
        // stability: the impulse response of 1 / A decays
        std::vector<double> y(4000);
        double tail = 0, peak = 0;
        for (size_t i = 0; i < y.size(); i++) {
            y[i] = i == 0;
            for (size_t j = 1; j <= n && j <= i; j++) y[i] -= den[j] * y[i - j];
            peak = std::max(peak, std::fabs(y[i]));
            if (i > 3900) tail = std::max(tail, std::fabs(y[i]));
        }
        c.check(tail < 1e-6 * peak, "C18", "stable", "%s: the impulse response does not decay (%g of %g after 4000 samples)", what.c_str(), tail, peak);
        c.count("frequencies_compared", used);
        c.evaluation(hash_bytes(what.data(), what.size()), used > 5);
        if (rep == 0) c.sample(what);
    }
}

// The order found from pass and stop bands: at most 3 dB lost at the pass
// corners, at least 20 dB lost at the stop corners, and no order below does.
SCENARIO(filter_order, "C18", 1, 1, 0.6)
{
    Rng& r = c.rng;
    for (int rep = 0; rep < 30; rep++) {
        double p = 0.03 + 0.4 * r.uni(), s;
        do s = 0.03 + 0.4 * r.uni();
        while (std::fabs(std::log(std::tan(PI * s) / std::tan(PI * p))) < 0.05);
        double x = 0.5 * std::log(99.0 / (std::pow(10.0, 0.3) - 1)) / std::fabs(std::log(std::tan(PI * s) / std::tan(PI * p)));
        size_t n = filterOrder(TV(p), TV(s));
        char w[120];
        snprintf(w, sizeof w, "pass band to %g, stop band from %g", p, s);
        bool near = std::fabs(x - std::round(x)) < 1e-3 * x;
        c.check(n == size_t(std::ceil(x)) || (near && (n == size_t(std::round(x)) || n == size_t(std::round(x)) + 1)), "C18", "order", "%s: order %zu, expected %g rounded up", w, n, x);
        c.evaluation(hash_bytes(w, strlen(w)));
    }
    // corners in Hz through the filter of traces: same as the explicit order
    for (int rep = 0; rep < 6; rep++) {
        Design d;
        d.type = FltrType(r.in(0, 3));
        d.fs   = float(r.in(50, 1000));
        std::vector<double> q;
        double lo = d.band() ? 0.03 : 0.05;
        for (int tries = 0; tries < 1000; tries++) {
            q.clear();
            for (int i = 0; i < (d.band() ? 4 : 2); i++) q.push_back(lo + 0.4 * r.uni());
            std::sort(q.begin(), q.end());
            bool ok = true;
            for (size_t i = 1; i < q.size(); i++) ok &= std::tan(PI * q[i]) / std::tan(PI * q[i - 1]) > (d.band() ? 2.2 : 1.9);
            if (ok) break;
            q.clear();
        }
        if (q.empty()) continue;
        std::vector<TV> corner;
        for (auto v : q) corner.push_back(TV(v * d.fs));
        auto order = [&](double a, double b) { return 0.5 * std::log(99.0 / (std::pow(10.0, 0.3) - 1)) / std::fabs(std::log(std::tan(PI * b / d.fs) / std::tan(PI * a / d.fs))); };
        double x;
        std::vector<TV> pass;
        if (d.type == FltrType::Lowpass) x = order(corner[0], corner[1]), pass = {corner[0], 0};
        else if (d.type == FltrType::Highpass) x = order(corner[1], corner[0]), pass = {corner[1], 0};
        else if (d.type == FltrType::Bandpass) x = std::max(order(corner[1], corner[0]), order(corner[2], corner[3])), pass = {corner[1], corner[2]};
        else x = std::max(order(corner[0], corner[1]), order(corner[3], corner[2])), pass = {corner[0], corner[3]};
        if (std::fabs(x - std::round(x)) < 1e-3 * x) continue;
        size_t ns = r.in(20, 200), nt = r.in(1, 3);
        Trace t(ns * nt);
        for (auto& v : t) v = TV(r.in(-4000, 4000)) / 16;
        Trace a = t, b = t;
        std::vector<TV> given = corner;
        r.shuffle(given);
        temporalFilter(nt, ns, a.data(), d.fs, d.type, FltrDmn::Time, PadType::Zero, 0, 0, given);
        temporalFilter(nt, ns, b.data(), d.fs, d.type, FltrDmn::Time, PadType::Zero, 0, 0, pass, size_t(std::ceil(x)));
        d.N = std::ceil(x);
        d.c1 = pass[0], d.c2 = pass[1];
        std::string what = d.str() + " found from its pass and stop bands";
        c.check(memcmp(a.data(), b.data(), a.size() * sizeof(TV)) == 0, "C18", "order-of-corners", "%s: the traces differ from those filtered with that order", what.c_str());
        c.count("filters_with_order_found");
        c.evaluation(hash_bytes(what.data(), what.size()));
        if (rep == 0) c.sample(what);
    }
}

static size_t reflect(long k, size_t n)
{
    if (n == 1) return 0;
    long p = 2 * (long(n) - 1);
    k = ((k % p) + p) % p;
    return k < long(n) ? k : p - k;
}
static double padded(const std::vector<double>& x, long k, PadType pad)
{
    long n = x.size();
    if (k >= 0 && k < n) return x[k];
    switch (pad) {
        case PadType::Zero: return 0;
        case PadType::Symmetric: return x[reflect(k, n)];
        case PadType::Replicate: return k < 0 ? x[0] : x[n - 1];
        default: return x[((k % n) + n) % n];
    }
}
// forward-backward filtering in double precision with steady initial states
struct FB {
    std::vector<double> y;
    double tol;
};
static FB filtfilt(const std::vector<double>& x, const std::vector<TV>& b, const std::vector<TV>& a, PadType pad)
{
    size_t n = a.size() - 1, P = 3 * (n + 1), L = x.size() + 2 * P;
    std::vector<double> v(L);
    for (size_t i = 0; i < L; i++) v[i] = padded(x, long(i) - long(P), pad);
    // steady state of the transposed direct form for a unit step, by elimination
    // z_i = b_{i+1} + z_{i+1} - a_{i+1} y with y = sum b / sum a
    double sb = 0, sa = 0;
    for (size_t i = 0; i <= n; i++) sb += b[i], sa += a[i];
    double y1 = sb / sa;
    std::vector<double> zs(n + 1, 0.0);
    for (size_t i = n; i-- > 0;) zs[i] = b[i + 1] - a[i + 1] * y1 + zs[i + 1];
    double maxv = 0, zmax = 0;
    for (double q : v) maxv = std::max(maxv, std::fabs(q));
    for (double q : zs) zmax = std::max(zmax, std::fabs(q));
    double amp = 0;
    auto pass = [&]() {
        std::vector<double> z(n + 1, 0.0), y(L);
        for (size_t i = 0; i < n; i++) z[i] = zs[i] * v[0];
        for (size_t k = 0; k < L; k++) {
            y[k] = b[0] * v[k] + z[0];
            for (size_t i = 0; i < n; i++) z[i] = b[i + 1] * v[k] - a[i + 1] * y[k] + z[i + 1];
            amp = std::max(amp, std::fabs(y[k]));
        }
        v.assign(y.rbegin(), y.rend());
    };
    pass();
    pass();
    FB f;
    f.y.assign(v.begin() + P, v.begin() + P + x.size());
    // propagation of single precision rounding
    double sab = 0, sbb = 0, G = 0, H = 0;
    for (size_t i = 0; i <= n; i++) sab += std::fabs(a[i]), sbb += std::fabs(b[i]);
    std::vector<double> g(L), h(L);
    for (size_t i = 0; i < L; i++) {
        g[i] = i == 0;
        h[i] = i <= n ? double(b[i]) : 0;
        for (size_t j = 1; j <= n && j <= i; j++) g[i] -= a[j] * g[i - j], h[i] -= a[j] * h[i - j];
        G += std::fabs(g[i]);
        H += std::fabs(h[i]);
    }
    // the steady state divides by the sum of the denominator
    double z = 6e-8 * (sab + sbb) * (1 + std::fabs(y1)) / std::fabs(sa) * (n + 1) * 2;
    double unit = 6e-8 * (n + 2) * (sab * amp + sbb * std::max(maxv, amp)) + (z * (n + 1)) * std::max(maxv, amp) * 0.25;
    f.tol = 2 * unit * G * (1 + H) + 1e-6 * amp;
    return f;
}

SCENARIO(filter_time, "C18", 1, 1, 1)
{
    Rng& r = c.rng;
    for (int rep = 0; rep < 10; rep++) {
        Design d = design(r);
        if (d.N > 3) d.N = r.in(1, 3);
        size_t ns = r.chance(0.3) ? r.in(0, 20) : r.in(21, 260) * (r.chance(0.03) ? r.in(2, 20) : 1), nt = r.in(1, 4);
        PadType pad = PadType(r.in(0, 3));
        size_t nw = r.chance(0.4) ? 0 : r.in(1, ns + 3), wc = r.chance(0.4) ? 0 : r.in(0, ns + (r.chance(0.2) ? 9 : 0));
        size_t n = d.N * (d.band() ? 2 : 1);
        std::string what = d.str() + ", " + std::to_string(nt) + " traces of " + std::to_string(ns) + ", window " + std::to_string(nw) + " at " + std::to_string(wc) + " pad " + std::to_string(int(pad));
        Trace t(nt * ns);
        int style = r.in(0, 5);
        for (auto& v : t) v = value(r, style);
        std::vector<TV> num(n + 1), den(n + 1);
        makeFilter(d.type, num.data(), den.data(), d.N, d.fs, d.c1, d.c2);
        // the window: odd size around the centre, clipped to the trace
        size_t W = nw == 0 || nw > ns ? ns : nw;
        W -= W % 2 == 0 && W;
        size_t ctr = wc == 0 ? ns / 2 : wc, b = ctr > W / 2 ? ctr - W / 2 : 0, e = std::min(ctr + W / 2 + 1, ns);
        Trace out[2];
        for (int k = 0; k < 2; k++) {
            Framed f(t, r.in(0, 30), r.in(0, 30), k ? TV(7.5) : TV(0));
            temporalFilter(nt, ns, f.p(), d.fs, d.type, FltrDmn::Time, pad, nw, wc, {TV(d.c1), TV(d.c2)}, d.N);
            c.check(f.intact(), "C18", "filter-outside", "%s: memory beside the traces was changed", what.c_str());
            out[k].assign(f.p(), f.p() + nt * ns);
        }
        c.check(memcmp(out[0].data(), out[1].data(), t.size() * sizeof(TV)) == 0, "C18", "filter-reads-outside", "%s: the result depends on memory beside the traces", what.c_str());
        bool used = false;
        for (size_t j = 0; j < nt; j++) {
            // every trace as if alone
            Trace one(t.begin() + j * ns, t.begin() + (j + 1) * ns), same = one;
            temporalFilter(1, ns, same.data(), d.fs, d.type, FltrDmn::Time, pad, nw, wc, {TV(d.c1), TV(d.c2)}, d.N);
            if (!c.check(memcmp(same.data(), &out[0][j * ns], ns * sizeof(TV)) == 0, "C18", "filter-independent", "%s: trace %zu differs from the same trace filtered alone", what.c_str(), j)) break;
            bool ok = true;
            for (size_t i = 0; ok && i < ns; i++)
                if (i < b || i >= e) ok = c.check(segy::fbits(same[i]) == segy::fbits(one[i]), "C18", "filter-window", "%s: sample %zu outside of the window [%zu, %zu) was changed", what.c_str(), i, b, e);
            if (!ok || e <= b) break;
            auto ref = filtfilt(std::vector<double>(one.begin() + b, one.begin() + e), num, den, pad);
            double big = 0;
            for (double v : one) big = std::max(big, std::fabs(v));
            if (ref.tol > 0.1 * big) {
                c.count("ill_conditioned_traces");
                continue;
            }
            used = true;
            for (size_t i = b; i < e; i++)
                if (!c.check(std::fabs(same[i] - ref.y[i - b]) <= ref.tol, "C18", "filter-samples", "%s: trace %zu sample %zu is %g, forward and backward filtering gives %g (tolerance %g)", what.c_str(), j, i, same[i], ref.y[i - b], ref.tol)) break;
            c.count("filtered_traces");
        }
        c.evaluation(hash_bytes(what.data(), what.size()), used);
        if (rep == 0) c.sample(what);
    }
}

// no phase shift: a sinusoid in the middle of a long trace comes out scaled by
// the squared gain, linear: a combination of traces as that of the results
SCENARIO(filter_phase, "C18", 1, 1, 0.5)
{
    Rng& r = c.rng;
    for (int rep = 0; rep < 4; rep++) {
        Design d = design(r);
        if (d.N > 2) d.N = r.in(1, 2);
        double f = d.fs * (0.02 + 0.45 * r.uni()), ph = 2 * PI * r.uni();
        PadType pad = PadType(r.in(0, 3));
        size_t ns = 2001;
        Trace s(ns), q(ns), x(ns);
        for (size_t i = 0; i < ns; i++) s[i] = 10 * std::sin(2 * PI * f / d.fs * i + ph), q[i] = TV(r.in(-400, 400)) / 16;
        TV ca = TV(r.in(-16, 16)) / 4, cb = TV(r.in(-16, 16)) / 4;
        for (size_t i = 0; i < ns; i++) x[i] = ca * s[i] + cb * q[i];
        Trace fs_ = s, fq = q, fx = x;
        std::vector<TV> cor{TV(d.c1), TV(d.c2)};
        for (Trace* t : {&fs_, &fq, &fx}) temporalFilter(1, ns, t->data(), d.fs, d.type, FltrDmn::Time, pad, 0, 0, cor, d.N);
        double g = d.gain2(f);
        char w[240];
        snprintf(w, sizeof w, "%s, sinusoid of %g Hz", d.str().c_str(), f);
        for (size_t i = 900; i < 1100; i++)
            if (!c.check(std::fabs(fs_[i] - g * s[i]) < 0.02, "C18", "phase", "%s: sample %zu is %g, expected %g of %g", w, i, fs_[i], g, s[i])) break;
        for (size_t i = 0; i < ns; i++)
            if (!c.check(std::fabs(fx[i] - (double(ca) * fs_[i] + double(cb) * fq[i])) < 0.05, "C18", "linear", "%s: sample %zu of a combination of traces is %g, that of the filtered traces %g", w, i, fx[i], double(ca) * fs_[i] + double(cb) * fq[i])) break;
        c.count("sinusoids");
        c.evaluation(hash_bytes(w, strlen(w)), g > 0.01);
        if (rep == 0) c.sample(w);
    }
}

// Filtering in the frequency domain: every spectral component times the gain.
// (known finding freq-response: the response is evaluated at other frequencies
// and split into real and imaginary parts; anything that differs from that
// too has another key)
SCENARIO(filter_freq, "C18", 1, 1, 0.6)
{
    Rng& r = c.rng;
    for (int rep = 0; rep < 4; rep++) {
        Design d = design(r);
        if (d.N > 3) d.N = r.in(1, 3);
        size_t ns = r.chance(0.3) ? r.in(0, 12) : r.in(13, 160), nt = r.in(1, 3);
        size_t nw = r.chance(0.4) ? 0 : r.in(1, ns + 3), wc = r.chance(0.4) ? 0 : r.in(0, ns + (r.chance(0.2) ? 9 : 0));
        size_t n = d.N * (d.band() ? 2 : 1);
        std::string what = d.str() + " in the frequency domain, " + std::to_string(nt) + " traces of " + std::to_string(ns) + ", window " + std::to_string(nw) + " at " + std::to_string(wc);
        Trace t(nt * ns);
        for (auto& v : t) v = TV(r.in(-4000, 4000)) / 16;
        std::vector<TV> num(n + 1), den(n + 1);
        makeFilter(d.type, num.data(), den.data(), d.N, d.fs, d.c1, d.c2);
        size_t W = nw == 0 || nw > ns ? ns : nw;
        W -= W % 2 == 0 && W;
        size_t ctr = wc == 0 ? ns / 2 : wc, b = ctr > W / 2 ? ctr - W / 2 : 0, e = std::min(ctr + W / 2 + 1, ns);
        Framed f(t, r.in(0, 30), r.in(0, 30), 7.5f);
        temporalFilter(nt, ns, f.p(), d.fs, d.type, FltrDmn::Freq, PadType(r.in(0, 3)), nw, wc, {TV(d.c1), TV(d.c2)}, d.N);
        c.check(f.intact(), "C18", "filter-outside", "%s: memory beside the traces was changed", what.c_str());
        size_t m = e > b ? e - b : 0;
        for (size_t j = 0; j < nt; j++) {
            const TV *x = &t[j * ns], *y = f.p() + j * ns;
            bool ok = true;
            for (size_t i = 0; ok && i < ns; i++)
                if (i < b || i >= e) ok = c.check(segy::fbits(x[i]) == segy::fbits(y[i]), "C18", "filter-window", "%s: sample %zu outside of the window was changed", what.c_str(), i);
            if (!ok || e <= b) break;
            std::vector<Cx> X(m / 2 + 1);
            for (size_t k = 0; k < X.size(); k++)
                for (size_t i = 0; i < m; i++) X[k] += double(x[b + i]) * std::exp(Cx(0, -2 * PI * double((i * k) % m) / m));
            std::vector<Cx> R = X, K = X;
            double cond = 0;
            for (size_t k = 0; k < X.size(); k++) {
                double w = 2 * PI * k / m;
                R[k] *= std::abs(poly(num, w) / poly(den, w));
                double wk = double(TV(d.fs)) * k / m;
                Cx Hk = poly(num, wk) / poly(den, wk);
                K[k] *= Cx(std::fabs(Hk.real()), std::fabs(Hk.imag()));
                double sa = 0, sb = 0;
                for (auto v : den) sa += std::fabs(v);
                for (auto v : num) sb += std::fabs(v);
                // the argument of the exponential is rounded to single precision
                cond += std::abs(X[k]) * (sb + std::abs(Hk) * sa) / std::abs(poly(den, wk)) * (1 + wk * n) * 6e-8 * 8 / m * 2;
            }
            auto inv = [&](const std::vector<Cx>& Z, size_t i) {
                double s = Z[0].real();
                for (size_t k = 1; k < Z.size(); k++) {
                    Cx q = Z[k] * std::exp(Cx(0, 2 * PI * double((i * k) % m) / m));
                    s += (2 * k == m ? 1 : 2) * q.real();
                }
                return s / m;
            };
            double tol = cond + 2e-3;
            if (tol > 5) {
                c.count("ill_conditioned_traces");
                continue;
            }
            double dr = 0, dk = 0;
            for (size_t i = 0; i < m; i++) dr = std::max(dr, std::fabs(y[b + i] - inv(R, i))), dk = std::max(dk, std::fabs(y[b + i] - inv(K, i)));
            bool good = dr <= tol, known = dk <= tol;
            c.count("spectra_compared");
            if (!c.check(good, "C18", known ? "freq-response" : "freq-samples", known ? "%s: differs from the trace with the gain of the design by %g: the response is evaluated at wrong frequencies" : "%s: differs by %g from the spectrum with the gain of the design", what.c_str(), dr) && !known) break;
        }
        c.evaluation(hash_bytes(what.data(), what.size()), m > 2);
        if (rep == 0) c.sample(what);
    }
}
