// C10: workflows (sets of files, chains of operations) against the operations applied to one trace at a time.
#include "geo.hh"

#include "ExSeisDat/Flow/Set.hh"
#include "ExSeisDat/PIOL/ReadModel.hh"
#include "ExSeisDat/PIOL/ReadSEGYModel.hh"
#include "ExSeisDat/PIOL/operations/gather.hh"
#include "ExSeisDat/PIOL/operations/temporalfilter.hh"
#include "ExSeisDat/utils/signal_processing/AGC.h"
#include "ExSeisDat/utils/signal_processing/taper.h"

#include <sstream>
using namespace mon;
using namespace lib;
typedef exseis::utils::Trace_value TV;
typedef std::vector<TV> Trace;

// gains and tapers that are neither idempotent nor commutative
static TV gain_first(const TV* s, size_t n, TV target, size_t c) { return target + 0.25f * s[c] + 0.125f * s[0] - 0.0625f * s[n - 1]; }
static TV taper_step(TV w, TV ramp) { return w / (ramp + 2) + 0.125f; }

struct FOp {
    enum Kind { Taper, Gain, Filter, Sort } kind;
    size_t a = 0, b = 0;
    int which  = 0;
    float val  = 1;
    bool user  = false;
    bool own   = false;  // the rule of the sort holds what its comparison reads
    int how    = 0;      // of a filter: order and two corners, order and one corner, order from the corners
    FltrDmn dmn = FltrDmn::Time;
    PadType pad = PadType::Zero;
    std::string str() const
    {
        static const char* n[] = {"taper", "gain", "filter", "sort"};
        return std::string(n[kind]) + (kind == Sort && user ? own ? "(comparison with its rule " : "(comparison " : "(") + std::to_string(which) + "," + std::to_string(a) + "," + std::to_string(b) + (kind == Filter ? "," + std::to_string(how) + "," + std::to_string(int(dmn)) + "," + std::to_string(int(pad)) : "") + ")";
    }
    std::vector<TV> corners() const
    {
        if (how == 1) return {20.f, 0.f};
        if (how == 2 && which < 2) return {12.f, 24.f};
        if (how == 2) return {6.f, 14.f, 26.f, 40.f};
        return {10.f, 25.f};
    }
    void gen_filter(Rng& r, size_t minns)
    {
        kind  = Filter;
        how   = r.in(0, 2);
        which = how == 1 ? r.in(0, 1) : r.in(0, 3);
        dmn   = r.chance(0.6) ? FltrDmn::Time : FltrDmn::Freq;
        pad   = PadType(r.in(0, 3));
        if (r.chance(0.4)) {
            a = r.in(1, minns + 4);
            b = r.in(0, minns + 4);
        }
    }
    exseis::utils::Taper_function tf() const { return which == 0 ? taper_step : which == 1 ? exseis::utils::linear_taper : which == 2 ? exseis::utils::cosine_taper : exseis::utils::cosine_square_taper; }
    exseis::utils::Gain_function gf() const { return which == 0 ? gain_first : exseis::utils::rectangular_RMS_gain; }
    void apply(Trace& t) const
    {
        if (kind == Taper) exseis::utils::taper(t.size(), t.data(), tf(), a, b);
        if (kind == Gain) exseis::utils::AGC(t.size(), t.data(), gf(), a, val);
        if (kind == Filter && how == 2) temporalFilter(1, t.size(), t.data(), 100.f, FltrType(which), dmn, pad, a, b, corners());
        if (kind == Filter && how != 2) temporalFilter(1, t.size(), t.data(), 100.f, FltrType(which), dmn, pad, a, b, corners(), 2);
    }
    void request(exseis::Flow::Set& s) const
    {
        if (kind == Taper) s.taper(tf(), a, b);
        if (kind == Gain) s.AGC(gf(), a, val);
        if (kind == Filter && how == 0) s.temporalFilter(FltrType(which), dmn, pad, 100.f, size_t(2), corners(), a, b);
        if (kind == Filter && how == 1) s.temporalFilter(FltrType(which), dmn, pad, 100.f, size_t(2), corners()[0], a, b);
        if (kind == Filter && how == 2) s.temporalFilter(FltrType(which), dmn, pad, 100.f, corners(), a, b);
        if (kind == Sort) {
            if (user && own) s.sort(geo::user_rule(which), geo::user_comp(which));
            else if (user) s.sort(geo::user_comp(which));
            else s.sort(SortType(which));
        }
    }
};
struct In {
    std::string path;
    std::vector<geo::G> g;
    Bytes b;
    int group;
};
struct Ref {
    size_t file, t;
};

SCENARIO(flow, "C10,C08,C15,C22", 1, 8, 2)
{
    Rng& r = c.rng;
    // groups
    struct Grp {
        size_t ns;
        int inc;
    };
    std::vector<Grp> gr;
    int ng = r.chance(0.6) ? 1 : r.in(2, 3);
    int low = r.chance(0.15) ? 0 : 7;  // hardly any samples
    bool wide = r.chance(0.03);        // many
    for (int i = 0; i < ng; i++) {
        Grp x;
        do {
            x.ns  = r.chance(0.5) && i ? gr[0].ns : r.in(low, low ? wide ? 1500 : 20 : 8);
            x.inc = r.chance(0.5) && i ? gr[0].inc : r.in(1, 9) * 500;
        } while (std::any_of(gr.begin(), gr.end(), [&](const Grp& y) { return y.ns == x.ns && y.inc == x.inc; }));
        gr.push_back(x);
    }
    bool sane = r.chance(0.3);  // rule without copied headers
    bool ibm  = r.chance(0.2);
    int nf    = r.chance(0.03) ? r.in(5, 40) : r.in(1, 4);
    std::vector<In> in(nf);
    Rng junk(r.next());
    bool many  = r.chance(0.03);  // many traces
    bool blank = r.chance(0.1);  // some traces begin with zeros
    for (int f = 0; f < nf; f++) {
        size_t nt   = r.chance(0.1) ? 0 : r.chance(0.2) ? r.in(1, 3) : r.in(1, 30) * (many && nf < 5 ? r.in(5, 30) : 1);
        in[f].group = r.in(0, ng - 1);
        in[f].g     = geo::gen(r, nt);
        in[f].path  = c.path((f < 10 ? "in0" : "in") + std::to_string(f) + (r.chance(0.3) ? ".SEGY" : ".sgy"));
        auto& x     = gr[in[f].group];
        Rng v(r.next());
        in[f].b = geo::file(
          in[f].g, x.ns, x.inc,
          [&](size_t, size_t s) { return blank && s < 3 ? 0.f : TV(v.in(1, 4000)) / 16 - 125.03125f; }, &junk);
        if (ibm) {
            segy::put16(&in[f].b[3224], 1);
            for (size_t t = 0; t < nt; t++)
                for (size_t s = 0; s < x.ns; s++) {
                    unsigned char* p = &in[f].b[segy::off(t, x.ns) + 240 + 4 * s];
                    // 24-bit fraction below 16^3
                    uint32_t fr = v.in(1, 0xffffff) & 0xffff00;
                    segy::put32(p, int64_t((v.chance(0.5) ? 0x80000000u : 0u) | 0x43000000u | (fr | 0x100000u)));
                    if (blank && s < 3) segy::put32(p, 0);
                }
        }
        spew0(c, in[f].path, in[f].b);
    }
    // operations
    size_t minns = 99;
    for (auto& x : gr) minns = std::min(minns, x.ns);
    std::vector<FOp> ops;
    int nops = r.in(0, 4);
    bool sorts = r.chance(0.6);
    for (int i = 0; i < nops; i++) {
        FOp o;
        int k = r.in(0, sorts ? 5 : 3);
        if (k <= 1) {
            o.kind  = FOp::Taper;
            o.which = r.in(0, 3);
            o.a     = r.in(0, minns + 2);
            o.b     = r.in(0, minns + 2);
        }
        else if (k == 2) {
            o.kind  = FOp::Gain;
            o.which = blank ? 0 : r.in(0, 1);
            o.a     = r.in(1, minns + 4);
            o.val   = r.in(1, 8) / 4.f;
        }
        else if (k == 3)
            o.gen_filter(r, minns);
        else {
            o.kind  = FOp::Sort;
            o.user  = r.chance(0.4);
            o.which = o.user ? r.in(0, 4) : r.pick(geo::sort_types);
            o.own   = o.user && r.chance(0.5);
        }
        ops.push_back(o);
    }
    if (r.chance(0.15))  // what one sort has read is not what the next needs
        for (int i = 0; i < 2; i++) {
            FOp o;
            o.kind = FOp::Sort;
            o.user = r.chance(0.7);
            o.own  = o.user;
            o.which = o.user ? r.in(0, 4) : r.pick(geo::sort_types);
            ops.push_back(o);
        }
    // a second output: its own operations, the order of the last sort
    std::vector<FOp> more;
    if (r.chance(0.35))
        for (int i = r.in(0, 2); i > 0; i--) {
            FOp o;
            o.kind = r.chance(0.6) ? FOp::Taper : r.chance(0.5) ? FOp::Sort : FOp::Filter;
            o.which = r.in(0, 3);
            if (o.kind == FOp::Taper) {
                o.a = r.in(0, minns + 2);
                o.b = r.in(0, minns + 2);
            }
            if (o.kind == FOp::Filter) o.gen_filter(r, minns);
            if (o.kind == FOp::Sort) o.user = o.own = true;
            more.push_back(o);
        }
    bool twice = r.chance(0.35);
    auto rule = std::make_shared<Rule>(std::initializer_list<Meta>{PIOL_META_COPY});
    if (sane) {
        rule = std::make_shared<Rule>(std::initializer_list<Meta>{PIOL_META_xSrc, PIOL_META_ySrc, PIOL_META_xRcv, PIOL_META_yRcv, PIOL_META_xCmp, PIOL_META_yCmp, PIOL_META_Offset, PIOL_META_il, PIOL_META_xl, PIOL_META_tn});
    }
    // the whole pipeline
    std::string lim;
    bool small = r.chance(0.6);
    if (small) {
        // room for a few traces
        size_t cost = 0;
        for (auto& x : gr) cost = std::max(cost, 40 + segy::dosz(x.ns) + 2 * rule->paramMem() + 8 * x.ns + 64);
        lim = std::to_string(cost * r.in(1, 7));
        setenv("EXSEISDAT_MEMLIM", lim.c_str(), 1);
    }
    int life = r.in(0, 3);  // how the output is asked for
    bool text = r.chance(0.3);
    std::string pattern = c.path("in*");
    std::string outp = c.path("out");
    std::vector<std::string> names, names2;
    if (life == 0) twice = false;
    std::ostringstream w;
    w << nf << " files";
    for (auto& f : in) w << " " << f.g.size() << "x" << gr[f.group].ns << "@" << gr[f.group].inc;
    w << (sane ? ", rule without copy" : "") << (ibm ? ", IBM" : "") << ", operations";
    for (auto& o : ops) w << " " << o.str();
    w << ", limit " << (small ? lim : "none") << ", output " << life;
    if (twice) {
        w << ", second output";
        for (auto& o : more) w << " " << o.str();
    }
    std::string what = w.str();
    auto piol = new_piol();
    if (r.chance(0.3)) pm::delays(0.03, 200, c.lrng.next());
    {
        std::unique_ptr<exseis::Flow::Set> s;
        bool named = life != 0;
        if (life == 0 || life == 1) s.reset(new exseis::Flow::Set(piol, pattern, life == 0 ? outp : std::string(), rule));
        else if (life == 2) s.reset(new exseis::Flow::Set(piol, pattern, rule));
        else {
            s.reset(new exseis::Flow::Set(piol, rule));
            for (auto& f : in) {
                if (r.chance(0.5)) s->add(f.path);
                else s->add(std::unique_ptr<ReadInterface>(open_read(piol, f.path, DataCfg())));
            }
        }
        for (auto& o : ops) o.request(*s);
        if (text) s->text("C 1 requested text");
        if (named) names = s->output(outp);
        if (twice) {
            for (auto& o : more) o.request(*s);
            names2 = s->output(c.path("again"));
        }
        s.reset();
    }
    pm::delays(0, 0, 0);
    unsetenv("EXSEISDAT_MEMLIM");
    barrier();
    c.check(!piol->log->isErr(), "C10,C04", "spurious-error", "%s: an error was recorded although every operation succeeded", what.c_str());
    uint64_t traces = 0;
    if (c.rank == 0) {
        for (auto& f : in) {
            Bytes now = slurp(f.path);
            c.check(now == f.b, "C10", "input-changed", "%s: input file %s was modified", what.c_str(), f.path.c_str());
        }
        std::vector<int> used;
        for (int k = 0; k < ng; k++)
            if (std::any_of(in.begin(), in.end(), [&](const In& f) { return f.group == k; })) used.push_back(k);
        std::vector<FOp> sorts2 = ops;  // the order of the second output
        sorts2.insert(sorts2.end(), more.begin(), more.end());
        std::string first = what;
        for (int run = 0; run < (twice ? 2 : 1); run++) {
        const auto& done   = run ? more : ops;
        const auto& orders = run ? sorts2 : ops;
        const auto& names_ = run ? names2 : names;
        if (run) what = first + " (the second output)";
        // candidates: the names returned, and any file that begins with the prefix
        std::vector<std::string> files;
        {
            const std::string pre = run ? "again" : "out";
            for (auto& n : mon::list_dir(c.dir))
                if (n.compare(0, pre.size(), pre) == 0) files.push_back(c.path(n));
        }
        c.check(files.size() == used.size(), "C10", "output-files", "%s: %zu output files for %zu groups", what.c_str(), files.size(), used.size());
        if (life) {
            std::set<std::string> a(files.begin(), files.end()), b(names_.begin(), names_.end());
            c.check(a == b && names_.size() == b.size(), "C10", "names", "%s: %zu names returned (%s), %zu files written", what.c_str(), names_.size(), names_.empty() ? "" : names_[0].c_str(), files.size());
        }
        for (int k : used) {
            size_t ns = gr[k].ns;
            std::vector<Ref> ref;
            std::vector<geo::G> gg;
            int nof = 0;
            std::vector<std::pair<size_t, size_t>> tie;
            for (int f = 0; f < nf; f++)
                if (in[f].group == k) {
                    for (size_t t = 0; t < in[f].g.size(); t++) {
                        ref.push_back({size_t(f), t});
                        gg.push_back(in[f].g[t]);
                        tie.push_back({t, size_t(nof)});
                    }
                    nof++;
                }
            // positions: input order, or the order of the last sort
            std::vector<size_t> ord(ref.size());
            for (size_t i = 0; i < ord.size(); i++) ord[i] = i;
            for (auto& o : orders)
                if (o.kind == FOp::Sort) {
                    std::vector<std::vector<double>> key;
                    for (auto& g : gg) key.push_back(o.user ? geo::user_key(o.which, g) : geo::key(o.which, g));
                    for (size_t i = 0; i < ord.size(); i++) ord[i] = i;
                    std::sort(ord.begin(), ord.end(), [&](size_t a, size_t b) { return key[a] != key[b] ? key[a] < key[b] : tie[a] < tie[b]; });
                }
            std::string path;
            Bytes b;
            for (auto& n : files) {
                Bytes x = slurp(n);
                if (x.size() >= 3600 && size_t(segy::get16(&x[3220])) == ns && segy::get16(&x[3216]) == gr[k].inc) {
                    path = n;
                    b    = x;
                }
            }
            if (!c.check(!path.empty(), "C10", "group-missing", "%s: no output file with %zu samples at %d us", what.c_str(), ns, gr[k].inc)) continue;
            if (!c.check(b.size() == segy::fsize(ref.size(), ns), "C10", "size", "%s: output of %zu bytes, expected %zu traces (%zu bytes)", what.c_str(), b.size(), ref.size(), segy::fsize(ref.size(), ns))) continue;
            c.check(segy::get16(&b[3224]) == 5, "C10", "format", "%s: output format is %d", what.c_str(), segy::get16(&b[3224]));
            if (text) c.check(memcmp(&b[0], "C 1 requested text", 18) == 0, "C10", "text", "%s: the requested text header was not written", what.c_str());
            for (size_t i = 0; i < ord.size(); i++) {
                auto& q                 = ref[ord[i]];
                const unsigned char* ih = &in[q.file].b[segy::off(q.t, ns)];
                const unsigned char* oh = &b[segy::off(i, ns)];
                bool hok;
                std::string d;
                if (!sane) hok = memcmp(ih, oh, 240) == 0;
                else {
                    hok = true;
                    for (size_t m : segy::default_metas())
                        if (std::fabs(double(segy::decode(ih, *segy::field(m)) - segy::decode(oh, *segy::field(m)))) > 1e-6) {
                            hok = false;
                            d   = segy::field(m)->name;
                        }
                }
                if (!hok) {
                    // is it another trace's header, or a damaged one?
                    size_t who = ref.size();
                    for (size_t j = 0; j < ref.size(); j++)
                        if (!memcmp(&in[ref[j].file].b[segy::off(ref[j].t, ns) + 188], oh + 188, 8) && segy::get32(&in[ref[j].file].b[segy::off(ref[j].t, ns) + 4]) == segy::get32(oh + 4)) who = j;
                    size_t at = 0;
                    while (at < 240 && ih[at] == oh[at]) at++;
                    c.check(false, "C10,C08", "header", "%s: the header at position %zu is not that of trace %zu of file %zu (first difference at byte %zu%s%s; it looks like item %zu)", what.c_str(), i, q.t, q.file, at + 1, d.empty() ? "" : ", ", d.c_str(), who);
                    break;
                }
                Trace t(ns);
                for (size_t s = 0; s < ns; s++) t[s] = ibm ? TV(segy::ibm_value(uint32_t(segy::get32(ih + 240 + 4 * s)))) : segy::getf(ih + 240 + 4 * s);
                {
                    pm::Off off;
                    for (auto& o : done) o.apply(t);
                }
                // the last bits of a Fourier transform depend on where its data lie in memory
                float tol = 0;
                if (std::any_of(done.begin(), done.end(), [](const FOp& o) { return o.kind == FOp::Filter && o.dmn == FltrDmn::Freq; }))
                    for (auto v : t) tol = std::max(tol, 1e-3f * std::fabs(v));
                size_t bad = ns;
                for (size_t s = 0; s < ns; s++) {
                    float got = segy::getf(oh + 240 + 4 * s);
                    if (tol > 0 && std::fabs(got - t[s]) <= tol) continue;
                    if (segy::fbits(got) != segy::fbits(t[s]) && !(std::isnan(got) && std::isnan(t[s]))) {
                        bad = s;
                        break;
                    }
                }
                if (!c.check(bad == ns, "C10", "samples", "%s: sample %zu of the trace at position %zu is %.9g, the operations applied to trace %zu of file %zu give %.9g", what.c_str(), bad, i, bad < ns ? segy::getf(oh + 240 + 4 * bad) : 0.f, q.t, q.file, bad < ns ? t[bad] : 0.f)) break;
                traces++;
            }
        }
        }
        what = first;
    }
    c.count("output_traces", traces);
    c.count("operations", ops.size());
    uint64_t tot = 0;
    for (auto& f : in) tot += f.g.size();
    c.evaluation(hash_bytes(what.data(), what.size()) ^ splitmix(c.np), tot > 0);
    if (c.rank == 0) c.sample(what);
    barrier();
}

// --- C20: radon to angle, velocity models




struct Grid {
    int64_t il0, ilinc, nil, xl0, xlinc, nxl;
    size_t ns;
    int inc;  // us
    std::string path;
    Bytes b;
    size_t nt() const { return nil * nxl; }
    float val(size_t t, size_t s) const { return segy::getf(&b[segy::off(t, ns) + 240 + 4 * s]); }
    // closest line for lines outside
    static int64_t idx(int64_t v, int64_t s, int64_t inc, int64_t n) { return std::min(std::max((v - s) / inc, int64_t(0)), n - 1); }
    size_t trace(int64_t il, int64_t xl) const { return idx(il, il0, ilinc, nil) * nxl + idx(xl, xl0, xlinc, nxl); }
    std::string str() const
    {
        std::ostringstream o;
        o << "model " << nil << "x" << nxl << " from " << il0 << "/" << xl0 << " by " << ilinc << "/" << xlinc << ", " << ns << "@" << inc;
        return o.str();
    }
};
template<class V>
static Grid make_grid(Ctx& c, Rng& r, V v)
{
    Grid m;
    auto inc = [&] { int64_t k = r.in(1, 5); return r.chance(0.2) ? -k : k; };
    m.il0   = r.in(-20, 2000);
    m.xl0   = r.in(-20, 2000);
    m.ilinc = inc();
    m.xlinc = inc();
    m.nil   = r.chance(0.25) ? 1 : r.in(2, 7);
    m.nxl   = r.chance(0.25) ? 1 : r.in(2, 7);
    m.ns    = r.in(1, 12);
    m.inc   = r.in(1, 8) * 1000;
    std::vector<geo::G> g;
    for (int64_t i = 0; i < m.nil; i++)
        for (int64_t x = 0; x < m.nxl; x++) {
            geo::G q;
            q.il = m.il0 + i * m.ilinc;
            q.xl = m.xl0 + x * m.xlinc;
            g.push_back(q);
        }
    m.b    = geo::file(g, m.ns, m.inc, v, &r);
    m.path = c.path("model.segy");
    spew0(c, m.path, m.b);
    return m;
}
// gathers on the lines of the model: consecutive traces with the same lines
static std::vector<geo::G> make_gathers(Rng& r, const Grid& m, size_t ng, bool outside)
{
    std::vector<geo::G> g;
    int how = r.in(0, 2);
    size_t at = r.in(0, m.nt() - 1);
    geo::G last;
    bool first = true;
    for (size_t k = 0; k < ng; k++) {
        if (how == 0) at = (at + 1) % m.nt();
        else if (how == 1) at = (at + m.nt() - 1) % m.nt();
        else at = r.next() % m.nt();
        geo::G q;
        q.il = m.il0 + int64_t(at / m.nxl) * m.ilinc;
        q.xl = m.xl0 + int64_t(at % m.nxl) * m.xlinc;
        if (outside && r.chance(0.3)) {
            int64_t far = r.chance(0.1) ? 2000000 : 10;
            q.il += m.ilinc * r.in(-far, far);
            q.xl += m.xlinc * r.in(-far, far);
        }
        size_t len = r.chance(0.15) ? 1 : r.in(2, 14);
        if (!first && last.il == q.il && last.xl == q.xl && r.chance(0.5)) continue;
        for (size_t i = 0; i < len; i++) g.push_back(q);
        last  = q;
        first = false;
    }
    return g;
}
struct Run {
    int64_t il, xl;
    size_t at, n;
};
static std::vector<Run> runs(const std::vector<geo::G>& g)
{
    std::vector<Run> v;
    for (size_t i = 0; i < g.size(); i++) {
        if (v.empty() || v.back().il != g[i].il || v.back().xl != g[i].xl) v.push_back({g[i].il, g[i].xl, i, 0});
        v.back().n++;
    }
    return v;
}

SCENARIO(model_read, "C20,C15,C22", 1, 8, 0.7)
{
    Rng& r = c.rng;
    Rng vr(r.next());
    auto m = make_grid(c, r, [&](size_t, size_t) { return float(vr.in(-1000, 1000)) / 8; });
    auto g = make_gathers(r, m, r.chance(0.1) ? r.in(1, 2) : r.in(1, 20), r.chance(0.4));
    auto e = runs(g);
    std::string path = c.path("g.segy");
    spew0(c, path, geo::file(g, 1, 1000, [](size_t, size_t) { return 1.f; }));
    auto piol = new_piol();
    if (r.chance(0.3)) pm::delays(0.03, 200, c.lrng.next());
    std::string what = m.str() + ", " + std::to_string(e.size()) + " gathers";
    {
        auto f = open_read(piol, path, DataCfg());
        auto v = getIlXlGathers(piol.get(), f.get());
        std::vector<size_t> l;
        std::vector<TV> got;
        size_t ns = m.ns;
        if (v.size() == e.size()) {
            int how = r.in(0, 1);
            if (how == 0) {  // a range of gathers
                ReadModel rm(piol, m.path);
                auto s = shares(r, e.size(), c.np);
                size_t o = 0;
                for (int p = 0; p < c.rank; p++) o += s[p];
                for (size_t i = 0; i < s[c.rank]; i++) l.push_back(o + i);
                got = rm.readModel(o, l.size(), v);
                barrier();
            }
            else {
                auto rm = makeFile<ReadSEGYModel>(piol, m.path);
                c.check(rm->il.start == m.il0 && rm->xl.start == m.xl0 && rm->il.count == m.nil && rm->xl.count == m.nxl && (m.nil == 1 || rm->il.increment == m.ilinc) && (m.nxl == 1 || rm->xl.increment == m.xlinc), "C20", "grid",
                        "%s: read as %lldx%lld from %lld/%lld by %lld/%lld", what.c_str(), (long long)rm->il.count, (long long)rm->xl.count, (long long)rm->il.start, (long long)rm->xl.start, (long long)rm->il.increment, (long long)rm->xl.increment);
                size_t n = c.lrng.chance(0.2) ? 0 : c.lrng.in(1, 12);
                for (size_t i = 0; i < n; i++) l.push_back(c.lrng.next() % e.size());
                got = rm->readModel(l.size(), l.data(), v);
                barrier();
            }
            if (c.check(got.size() == l.size() * ns, "C20", "model-size", "%s: %zu samples for %zu gathers of %zu", what.c_str(), got.size(), l.size(), ns))
                for (size_t i = 0; i < l.size(); i++) {
                    size_t t = m.trace(e[l[i]].il, e[l[i]].xl), s = 0;
                    while (s < ns && segy::fbits(got[i * ns + s]) == segy::fbits(m.val(t, s))) s++;
                    if (!c.check(s == ns, "C20", "model-trace", "%s: gather %zu at %lld/%lld: sample %zu is %g, the model holds %g", what.c_str(), l[i], (long long)e[l[i]].il, (long long)e[l[i]].xl, s, s < ns ? got[i * ns + s] : 0.f, s < ns ? m.val(t, s) : 0.f)) break;
                }
            c.count("model_traces", l.size());
            c.evaluation(hash_bytes(what.data(), what.size()) ^ hash_vec(l) ^ splitmix(c.np), !l.empty());
        }
        else c.check(false, "C12", "count", "%zu gathers found, %zu expected", size_t(v.size()), e.size());
        pm::delays(0, 0, 0);
        barrier();
    }
    c.check(!piol->log->isErr(), "C20,C04", "spurious-error", "%s: an error was recorded although every operation succeeded", what.c_str());
    if (c.rank == 0) c.sample(what);
    barrier();
}

SCENARIO(to_angle, "C20,C15,C22", 1, 8, 1)
{
    Rng& r = c.rng;
    Rng vr(r.next());
    size_t vbin = r.chance(0.2) ? 1 : r.in(2, 40);
    int vstyle  = r.in(0, 3);
    auto m = make_grid(c, r, [&](size_t, size_t) {
        double hi = vbin * 14.0;
        return vstyle == 0 ? float(vr.in(0, int(hi))) : vstyle == 1 ? float(vr.in(-int(hi), int(2 * hi))) : vstyle == 2 ? float(vbin * vr.in(0, 14)) : float(vr.uni() * hi);
    });
    auto g = make_gathers(r, m, r.in(1, 14), r.chance(0.2));
    int nf = r.chance(0.7) || g.size() < 2 ? 1 : 2;
    size_t cut = nf == 1 ? g.size() : 1 + r.next() % (g.size() - 1);
    size_t ns = r.in(4, 15);
    int inc   = r.in(1, 6) * 1000;
    std::vector<In> in(nf);
    std::vector<float> smp(g.size() * ns);
    for (auto& x : smp) x = float(vr.in(1, 9000)) / 8 - 400.0625f;
    for (int f = 0; f < nf; f++) {
        size_t o  = f ? cut : 0;
        in[f].g.assign(g.begin() + o, f + 1 == nf ? g.end() : g.begin() + cut);
        in[f].path = c.path("radon" + std::to_string(f) + ".segy");
        in[f].b    = geo::file(in[f].g, ns, inc, [&](size_t t, size_t s) { return smp[(o + t) * ns + s]; }, &r);
        spew0(c, in[f].path, in[f].b);
    }
    size_t osz  = r.chance(0.15) ? 1 : r.in(2, 30);
    double oinc = r.chance(0.3) ? std::atan(1) * 4.0 / 180 : r.in(1, 30) * 0.001;
    std::vector<FOp> ops;
    for (int i = r.in(0, 2); i > 0; i--) {
        FOp o;
        o.kind = r.chance(0.5) ? FOp::Taper : FOp::Gain;
        o.a    = r.in(1, ns - 3);
        o.b    = r.in(0, ns - 3);
        o.val  = r.in(1, 8) / 4.f;
        if (o.kind == FOp::Taper) o.which = r.in(0, 3);
        ops.push_back(o);
    }
    std::ostringstream w;
    w << m.str() << "; " << nf << " files, " << g.size() << " traces " << ns << "@" << inc << ", bin " << vbin << ", " << osz << " angles by " << oinc;
    for (auto& o : ops) w << " " << o.str();
    std::string what = w.str();
    auto e = runs(g);
    char cwd[4096];
    bool in_dir = getcwd(cwd, sizeof cwd) && chdir(c.dir.c_str()) == 0;  // temporary files of the library
    auto piol   = new_piol();
    if (r.chance(0.3)) pm::delays(0.03, 200, c.lrng.next());
    std::string outp = c.path("out");
    bool named = r.chance(0.5);
    std::vector<std::string> names;
    {
        exseis::Flow::Set s(piol, c.path("radon*"), named ? std::string() : outp);
        s.toAngle(m.path, vbin, osz, oinc);
        for (auto& o : ops) o.request(s);
        if (named) names = s.output(outp);
    }
    pm::delays(0, 0, 0);
    barrier();
    if (in_dir && chdir(cwd)) {}
    c.check(!piol->log->isErr(), "C20,C04", "spurious-error", "%s: an error was recorded although every operation succeeded", what.c_str());
    if (c.rank == 0) {
        for (auto& f : in) c.check(slurp(f.path) == f.b, "C20,C10", "input-changed", "%s: the input was modified", what.c_str());
        c.check(slurp(m.path) == m.b, "C20", "model-changed", "%s: the model was modified", what.c_str());
        Bytes b = slurp(outp + ".segy");
        if (named) c.check(names.size() == 1 && names[0] == outp + ".segy", "C10", "names", "%s: %zu names returned", what.c_str(), names.size());
        if (c.check(b.size() == segy::fsize(e.size() * osz, ns), "C20", "size", "%s: output of %zu bytes, expected %zu gathers of %zu traces (%zu bytes)", what.c_str(), b.size(), e.size(), osz, segy::fsize(e.size() * osz, ns))) {
            bool ok = c.check(segy::get16(&b[3220]) == int(ns), "C20", "samples-per-trace", "%s: %d samples per trace", what.c_str(), segy::get16(&b[3220]));
            uint64_t hits = 0, zeros = 0;
            for (size_t k = 0; ok && k < e.size(); k++) {
                size_t vt = m.trace(e[k].il, e[k].xl);
                for (size_t j = 0; ok && j < osz; j++) {
                    const unsigned char* h = &b[segy::off(k * osz + j, ns)];
                    ok = c.check(segy::get32(h + 188) == e[k].il && segy::get32(h + 192) == e[k].xl, "C20", "lines", "%s: trace %zu of gather %zu is at %d/%d, expected %lld/%lld", what.c_str(), j, k, segy::get32(h + 188), segy::get32(h + 192), (long long)e[k].il, (long long)e[k].xl);
                    // alternatives where rounding decides
                    std::vector<std::vector<float>> alt(ns);
                    bool many = false;
                    Trace t(ns);
                    for (size_t z = 0; z < ns; z++) {
                        double x = double(z) * (inc * 1e-6) / (m.inc * 1e-6);
                        std::set<size_t> vi;
                        for (double d : {-1e-9, 0.0, 1e-9}) vi.insert(std::min(size_t(std::max(0.0, x + d)), m.ns - 1));
                        std::set<float> a;
                        for (size_t i : vi) {
                            double q = double(m.val(vt, i)) / std::cos(double(j) * oinc);
                            for (double d : {-1e-7, 0.0, 1e-7}) {
                                double y = q + d;
                                float s  = 0;
                                if (std::fabs(y) < 1e15) {
                                    long long n = llround(y);
                                    long long kk = n < 0 ? -1 : n / (long long)vbin;
                                    if (kk > 0 && size_t(kk) < e[k].n) s = smp[(e[k].at + kk) * ns + z];
                                }
                                a.insert(s);
                                if (d == 0 && i == *vi.rbegin()) t[z] = s;
                            }
                        }
                        if (a.size() > 1) many = true;
                        if (t[z] == 0) zeros++;
                        else hits++;
                        alt[z].assign(a.begin(), a.end());
                    }
                    if (!ok) break;
                    if (ops.empty()) {
                        for (size_t z = 0; z < ns; z++) {
                            float got = segy::getf(h + 240 + 4 * z);
                            if (!(ok = c.check(std::find(alt[z].begin(), alt[z].end(), got) != alt[z].end(), "C20", "samples", "%s: gather %zu (%zu traces) angle %zu sample %zu is %g, expected %g", what.c_str(), k, e[k].n, j, z, got, t[z]))) break;
                        }
                    }
                    else if (!many && t[0] != 0 && std::none_of(t.begin() + 1, t.end(), [](float v) { return v == 0; })) {
                        pm::Off off;
                        for (auto& o : ops) o.apply(t);
                        for (size_t z = 0; z < ns; z++) {
                            float got = segy::getf(h + 240 + 4 * z);
                            if (!(ok = c.check(segy::fbits(got) == segy::fbits(t[z]), "C10", "samples-after-gather", "%s: gather %zu angle %zu sample %zu is %g, expected %g", what.c_str(), k, j, z, got, t[z]))) break;
                        }
                    }
                }
            }
            c.count("selected_samples", hits);
            c.count("zero_samples", zeros);
        }
    }
    c.count("gathers", e.size());
    c.evaluation(hash_bytes(what.data(), what.size()) ^ splitmix(c.np), true);
    if (c.rank == 0) c.sample(what);
    barrier();
}

// conversions of several groups of files, after operations on traces and sorts
SCENARIO(convert, "C20,C10,C15,C22", 1, 8, 0.6)
{
    Rng& r = c.rng;
    Rng vr(r.next());
    size_t vbin = r.in(2, 30);
    auto m      = make_grid(c, r, [&](size_t, size_t) { return float(vr.in(0, int(vbin * 9))) + 0.25f; });
    struct Grp {
        size_t ns;
        int inc;
        std::vector<geo::G> g;
        std::vector<Trace> t;
    };
    std::vector<Grp> gr(r.chance(0.5) ? 1 : 2);
    gr[0].ns  = r.in(5, 12);
    gr[0].inc = r.in(1, 6) * 1000 + 13;
    if (gr.size() > 1) {
        bool same = r.chance(0.5);
        gr[1].ns  = same ? gr[0].ns : gr[0].ns + 1 + r.in(0, 2);
        gr[1].inc = same || r.chance(0.5) ? gr[0].inc + 500 : gr[0].inc;
    }
    struct File {
        std::string path;
        Bytes b;
    };
    std::vector<File> files;
    bool sorted = r.chance(0.4);
    for (auto& q : gr) {
        q.g = make_gathers(r, m, r.in(1, 6), false);
        if (sorted && r.chance(0.7))
            for (size_t i = q.g.size(); i > 1; i--) std::swap(q.g[i - 1], q.g[r.next() % i]);
        for (size_t i = 0; i < q.g.size(); i++) {
            Trace t(q.ns);
            for (auto& x : t) x = float(vr.in(1, 9000)) / 8 - 400.0625f;
            q.t.push_back(t);
        }
        int nf = r.chance(0.6) || q.g.size() < 2 ? 1 : 2;
        size_t cut = nf == 1 ? q.g.size() : 1 + r.next() % (q.g.size() - 1);
        for (int f = 0; f < nf; f++) {
            size_t o = f ? cut : 0;
            File x;
            x.path = c.path("in" + std::to_string(files.size()) + ".segy");
            std::vector<geo::G> part(q.g.begin() + o, f + 1 == nf ? q.g.end() : q.g.begin() + cut);
            x.b = geo::file(part, q.ns, q.inc, [&](size_t t, size_t s) { return q.t[o + t][s]; }, &r);
            spew0(c, x.path, x.b);
            files.push_back(x);
        }
        if (sorted) {  // ties by number in the file, then by file
            std::vector<std::pair<size_t, size_t>> tie;
            for (size_t i = 0; i < q.g.size(); i++) tie.push_back(i < cut ? std::make_pair(i, size_t(0)) : std::make_pair(i - cut, size_t(1)));
            std::vector<size_t> ord(q.g.size());
            for (size_t i = 0; i < ord.size(); i++) ord[i] = i;
            std::sort(ord.begin(), ord.end(), [&](size_t a, size_t b) {
                auto ka = std::make_pair(q.g[a].il, q.g[a].xl), kb = std::make_pair(q.g[b].il, q.g[b].xl);
                return ka != kb ? ka < kb : tie[a] < tie[b];
            });
            std::vector<geo::G> g;
            std::vector<Trace> t;
            for (size_t i : ord) {
                g.push_back(q.g[i]);
                t.push_back(q.t[i]);
            }
            q.g = g;
            q.t = t;
        }
    }
    size_t minns = std::min(gr[0].ns, gr.back().ns);
    auto gen = [&](std::vector<FOp>& v, int n) {
        for (; n > 0; n--) {
            FOp o;
            o.kind = r.chance(0.5) ? FOp::Taper : FOp::Gain;
            o.a    = r.in(1, minns - 3);
            o.b    = r.in(0, minns - 3);
            o.val  = r.in(1, 8) / 4.f;
            if (o.kind == FOp::Taper) o.which = 0;
            v.push_back(o);
        }
    };
    std::vector<FOp> pre;
    gen(pre, r.in(0, 2));
    size_t where = r.in(0, pre.size());  // of the sort among the operations
    struct Step {
        size_t vbin, osz;
        double oinc;
        std::vector<FOp> post;
        int sort;  // 0: none
    };
    std::vector<Step> steps(r.chance(0.35) ? 2 : r.chance(0.1) ? 3 : 1);
    for (auto& x : steps) {
        bool first = &x == &steps[0];
        x.vbin = first ? vbin : r.in(vbin / 2, 3 * vbin);
        x.vbin = std::max<size_t>(x.vbin, 1);
        x.osz  = r.in(1, 8);
        x.oinc = r.in(1, 30) * 0.001;
        x.sort = r.chance(0.2) ? r.in(1, 2) : 0;
        gen(x.post, r.in(0, 1));
    }
    bool text = r.chance(0.3);
    std::ostringstream w;
    w << m.str() << "; " << files.size() << " files";
    for (auto& q : gr) w << ", " << q.g.size() << "x" << q.ns << "@" << q.inc;
    w << (sorted ? ", sorted at " + std::to_string(where) : std::string()) << ", before";
    for (auto& o : pre) w << " " << o.str();
    for (auto& x : steps) {
        w << "; bin " << x.vbin << ", " << x.osz << " angles by " << x.oinc;
        for (auto& o : x.post) w << " " << o.str();
        if (x.sort) w << ", sorted " << x.sort;
    }
    std::string what = w.str();
    char cwd[4096];
    bool in_dir = getcwd(cwd, sizeof cwd) && chdir(c.dir.c_str()) == 0;
    auto piol   = new_piol();
    if (r.chance(0.3)) pm::delays(0.03, 200, c.lrng.next());
    std::string outp = c.path("out");
    std::vector<std::string> names;
    {
        exseis::Flow::Set s(piol, c.path("in*"), std::string());
        auto line = [](const Param* p, size_t i, Meta e) { return param_utils::getPrm<exseis::utils::Integer>(i, e, p); };
        for (size_t i = 0; i <= pre.size(); i++) {
            if (sorted && i == where)
                s.sort([](const Param* p, size_t a, size_t b) {
                    auto v = [&](size_t i, Meta e) { return param_utils::getPrm<exseis::utils::Integer>(i, e, p); };
                    return v(a, PIOL_META_il) != v(b, PIOL_META_il) ? v(a, PIOL_META_il) < v(b, PIOL_META_il) : v(a, PIOL_META_xl) < v(b, PIOL_META_xl);
                });
            if (i < pre.size()) pre[i].request(s);
        }
        for (auto& x : steps) {
            s.toAngle(m.path, x.vbin, x.osz, x.oinc);
            for (auto& o : x.post) o.request(s);
            if (x.sort == 1) s.sort([line](const Param* p, size_t a, size_t b) { return std::make_pair(line(p, a, PIOL_META_il), line(p, a, PIOL_META_xl)) < std::make_pair(line(p, b, PIOL_META_il), line(p, b, PIOL_META_xl)); });
            if (x.sort == 2) s.sort([line](const Param* p, size_t a, size_t b) { return line(p, a, PIOL_META_xl) > line(p, b, PIOL_META_xl); });
        }
        if (text) s.text("C 1 text of the conversion");
        names = s.output(outp);
    }
    pm::delays(0, 0, 0);
    barrier();
    if (in_dir && chdir(cwd)) {}
    c.check(!piol->log->isErr(), "C20,C04", "spurious-error", "%s: an error was recorded although every operation succeeded", what.c_str());
    uint64_t judged = 0;
    if (c.rank == 0) {
        for (auto& f : files) c.check(slurp(f.path) == f.b, "C20,C10", "input-changed", "%s: the input was modified", what.c_str());
        // what the files hold after each step
        struct Piece {
            size_t ns;
            double inc;
            std::vector<geo::G> g;
            std::vector<Trace> t;
            std::vector<char> clear;  // rounding does not decide
        };
        std::vector<Piece> st;
        {
            std::vector<Grp*> order;
            for (auto& q : gr) order.push_back(&q);
            std::sort(order.begin(), order.end(), [](Grp* a, Grp* b) { return std::make_pair(a->ns, a->inc) < std::make_pair(b->ns, b->inc); });
            pm::Off off;
            for (auto* q : order) {
                st.push_back({q->ns, q->inc * 1e-6, q->g, q->t, std::vector<char>(q->t.size(), 1)});
                for (auto& t : st.back().t)
                    for (auto& o : pre) o.apply(t);
            }
        }
        // the files of the same samples become one
        auto merge = [&](int sort) {
            std::vector<Piece> n;
            for (size_t i = 0; i < st.size();) {
                size_t k = i;
                Piece p{st[i].ns, st[i].inc, {}, {}, {}};
                std::vector<std::pair<size_t, size_t>> ord;  // number in the file, file
                for (; k < st.size() && st[k].ns == p.ns; k++)
                    for (size_t j = 0; j < st[k].t.size(); j++) ord.push_back({j, k});
                auto key = [&](std::pair<size_t, size_t> e) {
                    auto& g = st[e.second].g[e.first];
                    return sort == 1 ? std::make_pair((long long)g.il, (long long)g.xl) : std::make_pair(-(long long)g.xl, 0LL);
                };
                std::sort(ord.begin(), ord.end(), [&](auto& a, auto& b) {
                    if (!sort) return std::make_pair(a.second, a.first) < std::make_pair(b.second, b.first);
                    return key(a) != key(b) ? key(a) < key(b) : a < b;
                });
                for (auto& e : ord) {
                    p.g.push_back(st[e.second].g[e.first]);
                    p.t.push_back(st[e.second].t[e.first]);
                    p.clear.push_back(st[e.second].clear[e.first]);
                }
                n.push_back(p);
                i = k;
            }
            st = n;
        };
        for (size_t k = 0; k < steps.size(); k++) {
            auto& x   = steps[k];
            bool join = k && steps[k - 1].post.empty() && !steps[k - 1].sort;  // gather after gather, nothing is written between them
            for (auto& p : st) {
                Piece n{p.ns, x.oinc, {}, {}, {}};
                auto rs = runs(p.g);
                if (join) {
                    rs.clear();
                    for (size_t at = 0; at < p.g.size(); at += steps[k - 1].osz) {
                        auto one = runs(std::vector<geo::G>(1, p.g[at]));
                        one[0].at = at;
                        one[0].n  = steps[k - 1].osz;
                        rs.push_back(one[0]);
                    }
                }
                for (auto& e : rs) {
                    size_t vt = m.trace(e.il, e.xl);
                    for (size_t j = 0; j < x.osz; j++) {
                        Trace t(p.ns);
                        bool clear = true;
                        for (size_t z = 0; z < p.ns; z++) {
                            double u = double(z) * p.inc / (m.inc * 1e-6);
                            std::set<long long> a;
                            for (double dx : {-1e-9, 0.0, 1e-9}) {
                                double y = double(m.val(vt, std::min(size_t(std::max(0.0, u + dx)), m.ns - 1))) / std::cos(double(j) * x.oinc);
                                for (double dy : {-1e-6, 0.0, 1e-6}) {
                                    long long kk = llround(y + dy) / (long long)x.vbin;
                                    a.insert(kk > 0 && size_t(kk) < e.n ? kk : 0);
                                }
                            }
                            std::set<uint32_t> v;
                            for (auto kk : a) {
                                if (kk && !p.clear[e.at + kk]) clear = false;
                                v.insert(segy::fbits(kk ? p.t[e.at + kk][z] : 0.f));
                            }
                            if (v.size() > 1) clear = false;
                            t[z] = *a.begin() ? p.t[e.at + *a.begin()][z] : 0.f;
                        }
                        geo::G g = p.g[e.at];
                        g.il = e.il, g.xl = e.xl;
                        n.g.push_back(g);
                        n.t.push_back(t);
                        n.clear.push_back(clear);
                    }
                }
                p = n;
            }
            if (x.sort) merge(x.sort);
            {
                pm::Off off;
                for (auto& p : st)
                    for (auto& t : p.t)
                        for (auto& o : x.post) o.apply(t);
            }
            bool next = k + 1 < steps.size();
            if (!next || !x.post.empty() || x.sort) merge(0);
        }
        double oinc = steps.back().oinc;
        c.check(names.size() == st.size(), "C10,C20", "names", "%s: %zu names returned for %zu groups", what.c_str(), names.size(), st.size());
        for (auto& v : st) {
            size_t ns = v.ns;
            Bytes b;
            for (auto& n : names) {
                Bytes x = slurp(n);
                if (x.size() >= 3600 && size_t(segy::get16(&x[3220])) == ns) b = x;
            }
            if (!c.check(!b.empty(), "C20,C10", "group-missing", "%s: no output with %zu samples", what.c_str(), ns)) continue;
            if (!c.check(b.size() == segy::fsize(v.t.size(), ns), "C20,C10", "size", "%s: output of %zu bytes, expected %zu traces of %zu samples (%zu bytes)", what.c_str(), b.size(), v.t.size(), ns, segy::fsize(v.t.size(), ns))) continue;
            c.check(segy::get16(&b[3216]) == int(std::lround(oinc * 1e6)), "C20", "increment", "%s: output interval %d", what.c_str(), segy::get16(&b[3216]));
            if (text) c.check(memcmp(&b[0], "C 1 text of the conversion", 26) == 0, "C10", "text", "%s: the requested text was not written", what.c_str());
            bool ok = true;
            for (size_t at = 0; ok && at < v.t.size(); at++) {
                const unsigned char* h = &b[segy::off(at, ns)];
                if (!(ok = c.check(segy::get32(h + 188) == v.g[at].il && segy::get32(h + 192) == v.g[at].xl, "C20,C10", "lines", "%s: output trace %zu is at %d/%d, expected %lld/%lld", what.c_str(), at, segy::get32(h + 188), segy::get32(h + 192), (long long)v.g[at].il, (long long)v.g[at].xl))) break;
                if (!v.clear[at]) continue;
                judged++;
                for (size_t z = 0; z < ns; z++) {
                    float got = segy::getf(h + 240 + 4 * z);
                    if (!(ok = c.check(segy::fbits(got) == segy::fbits(v.t[at][z]), "C20,C10", "samples", "%s: output trace %zu sample %zu is %g, expected %g", what.c_str(), at, z, got, v.t[at][z]))) break;
                }
            }
        }
    }
    c.count("conversions", steps.size());
    c.count("judged_traces", judged);
    c.evaluation(hash_bytes(what.data(), what.size()) ^ splitmix(c.np), true);
    if (c.rank == 0) c.sample(what);
    barrier();
}
