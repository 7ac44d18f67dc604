// C11: min/max search over arrays, parameter structures and sets of files.
#include "geo.hh"

#include "ExSeisDat/Flow/Set.hh"
#include "ExSeisDat/PIOL/operations/minmax.h"
using namespace mon;
using namespace lib;

namespace {
struct P2 { double x = 1e300, y = -1e300; };
struct Ext { bool any = false; double v = 0, o = 0; size_t n = 0; };
double value(Rng& r, int style, double lo, double w, size_t k)
{
    switch (style) {
        case 0: return lo;
        case 1: return lo + r.in(0, 3) * w / 4;
        case 2: return lo + w * r.uni();
        case 3: return lo + double(k);
        case 4: return lo - double(k);
        case 5: return r.chance(0.5) ? 0.0 : -w;
        default: return r.chance(0.5) ? r.in(-2, 2) * 1e12 : r.in(-5, 5) * 1e-12;
    }
}
// the defining search: smallest/greatest (value, other, number)
void upd(Ext& e, bool mx, double v, double o, size_t n)
{
    auto a = std::make_tuple(v, o, n), b = std::make_tuple(e.v, e.o, e.n);
    if (!e.any || (mx ? b < a : a < b)) { e.any = true; e.v = v; e.o = o; e.n = n; }
}
}  // namespace

SCENARIO(minmax_array, "C11,C15,C22", 1, 8, 2)
{
    Rng& r   = c.rng;
    size_t n = r.chance(0.1) ? 0 : r.chance(0.3) ? r.in(1, 5) : r.in(1, 120) * (r.chance(0.04) ? r.in(5, 200) : 1);
    std::vector<double> x(n), y(n);
    for (auto* v : {&x, &y}) {
        int st    = r.in(0, 6);
        double lo = r.in(-1, 1) * (r.chance(0.5) ? 1000.0 : 1.5e9), w = r.chance(0.5) ? 8 : 1e6;
        for (size_t i = 0; i < n; i++) (*v)[i] = value(r, st, lo, w, i);
    }
    auto s   = shares(r, n, c.np);
    size_t o = 0;
    for (int p = 0; p < c.rank; p++) o += s[p];
    size_t m = s[c.rank];
    // the traces searched may be a part of a long file
    size_t base = r.chance(0.3) ? r.next() % (size_t(1) << r.in(20, 45)) : 0;
    Ext e[4];
    for (size_t i = 0; i < n; i++) {
        upd(e[0], false, x[i], y[i], base + i);
        upd(e[1], true, x[i], y[i], base + i);
        upd(e[2], false, y[i], x[i], base + i);
        upd(e[3], true, y[i], x[i], base + i);
    }
    auto piol = new_piol();
    int how   = r.in(0, 2);
    CoordElem mm[4];
    for (auto& q : mm) q = {-77.25, 123456};
    if (r.chance(0.3)) pm::delays(0.05, 300, c.lrng.next());
    if (how == 0) {
        std::vector<P2> a(m);
        for (size_t i = 0; i < m; i++) a[i].x = x[o + i], a[i].y = y[o + i];
        getMinMax<P2>(piol.get(), base + o, m, m || r.chance(0.5) ? a.data() : nullptr, [](const P2& p) { return p.x; }, [](const P2& p) { return p.y; }, mm);
    }
    else {
        static const std::vector<std::pair<Meta, Meta>> pairs = {{PIOL_META_xSrc, PIOL_META_ySrc}, {PIOL_META_xRcv, PIOL_META_yRcv}, {PIOL_META_xCmp, PIOL_META_yCmp}, {PIOL_META_dsdr, PIOL_META_xSrc}, {PIOL_META_ySrc, PIOL_META_xRcv}};
        auto p    = r.pick(pairs);
        auto rule = how == 1 && p.first != PIOL_META_dsdr ? std::make_shared<Rule>(true, true) : std::make_shared<Rule>(std::initializer_list<Meta>{p.second, PIOL_META_tn});
        if (!rule->getEntry(p.first)) rule->addSEGYFloat(p.first, p.first == PIOL_META_dsdr ? PIOL_TR_SrcDpthSurf : PIOL_TR_xSrc, p.first == PIOL_META_dsdr ? PIOL_TR_ScaleElev : PIOL_TR_ScaleCoord);
        Param prm(rule, m);
        for (size_t i = 0; i < m; i++) {
            param_utils::setPrm(i, p.first, x[o + i], &prm);
            param_utils::setPrm(i, p.second, y[o + i], &prm);
        }
        getMinMax(piol.get(), base + o, m, p.first, p.second, &prm, mm);
    }
    pm::delays(0, 0, 0);
    const char* nm[] = {"minimum of the first", "maximum of the first", "minimum of the second", "maximum of the second"};
    std::string sh;
    for (auto k : s) sh += " " + std::to_string(k);
    for (int i = 0; i < 4; i++) {
        if (!n) {
            c.check(mm[i].num == size_t(-1), "C11", "empty", "%s of no traces: trace %zu", nm[i], mm[i].num);
            continue;
        }
        bool val = c.check(mm[i].val == e[i].v, "C11", "value", "%s parameter is %.17g, expected %.17g (shares%s)", nm[i], mm[i].val, e[i].v, sh.c_str());
        if (val) c.check(mm[i].num == e[i].n, "C11", "trace", "%s parameter %.17g: trace %zu, expected %zu (shares%s)", nm[i], mm[i].val, mm[i].num, e[i].n, sh.c_str());
    }
    c.count("searched_traces", m);
    c.distinct("partitions", hash_vec(s));
    c.evaluation(hash_vec(s) ^ hash_vec(x) ^ splitmix(hash_vec(y) + how), n > 0);
    if (c.rank == 0) c.sample(std::to_string(n) + " traces, shares" + sh);
}

SCENARIO(minmax_set, "C11,C15,C22", 1, 8, 1)
{
    Rng& r  = c.rng;
    int nf  = r.in(1, 3);
    std::vector<std::vector<geo::G>> g;
    std::vector<std::string> path;
    for (int k = 0; k < nf; k++) {
        size_t n = r.chance(0.15) ? 0 : r.chance(0.3) ? r.in(1, 4) : r.in(1, 50) * (r.chance(0.03) ? r.in(5, 60) : 1);
        g.push_back(geo::gen(r, n));
        path.push_back(c.path("f" + std::to_string(k) + ".segy"));
        spew0(c, path.back(), geo::file(g.back(), r.in(0, 3), 1000, [](size_t, size_t) { return 0.f; }));
    }
    struct Sel { Meta m; double (*f)(const geo::G&); };
    static const std::vector<Sel> sel = {
      {PIOL_META_xSrc, [](const geo::G& q) { return q.sx; }}, {PIOL_META_ySrc, [](const geo::G& q) { return q.sy; }},
      {PIOL_META_xRcv, [](const geo::G& q) { return q.rx; }}, {PIOL_META_yRcv, [](const geo::G& q) { return q.ry; }},
      {PIOL_META_xCmp, [](const geo::G& q) { return q.cx; }}, {PIOL_META_il, [](const geo::G& q) { return double(q.il); }},
      {PIOL_META_xl, [](const geo::G& q) { return double(q.xl); }}, {PIOL_META_Offset, [](const geo::G& q) { return double(q.off); }}};
    size_t i1 = r.next() % sel.size(), i2 = (i1 + 1 + r.next() % (sel.size() - 1)) % sel.size();
    auto piol = new_piol();
    CoordElem mm[4];
    {
        exseis::Flow::Set set(piol);
        for (auto& p : path) set.add(makeFile<ReadSEGY>(piol, p));
        if (r.chance(0.3)) pm::delays(0.05, 300, c.lrng.next());
        set.getMinMax(sel[i1].m, sel[i2].m, mm);
        pm::delays(0, 0, 0);
    }
    Ext e[4];
    for (auto& q : g)
        for (auto& t : q) {
            double a = sel[i1].f(t), b = sel[i2].f(t);
            upd(e[0], false, a, 0, 0);
            upd(e[1], true, a, 0, 0);
            upd(e[2], false, b, 0, 0);
            upd(e[3], true, b, 0, 0);
        }
    for (int i = 0; i < 4; i++) {
        if (!e[i].any) {
            c.check(mm[i].num == size_t(-1), "C11", "set-empty", "extreme %d of files without traces: trace %zu", i, mm[i].num);
            continue;
        }
        if (!c.check(mm[i].val == e[i].v, "C11", "set-value", "extreme %d of %d files is %.17g, expected %.17g", i, nf, mm[i].val, e[i].v)) continue;
        bool att = false;
        for (auto& q : g) att |= mm[i].num < q.size() && sel[i < 2 ? i1 : i2].f(q[mm[i].num]) == e[i].v;
        c.check(att, "C11", "set-trace", "extreme %d of %d files is %.17g, but trace %zu of no file has that value", i, nf, mm[i].val, mm[i].num);
        if (nf == 1) {
            Ext t;
            for (size_t k = 0; k < g[0].size(); k++) {
                double a = sel[i1].f(g[0][k]), b = sel[i2].f(g[0][k]);
                upd(t, i & 1, i < 2 ? a : b, i < 2 ? b : a, k);
            }
            c.check(mm[i].num == t.n, "C11", "set-trace-number", "extreme %d of the file, %.17g: trace %zu, expected %zu", i, mm[i].val, mm[i].num, t.n);
        }
    }
    double mine[8];
    for (int i = 0; i < 4; i++) mine[i] = mm[i].val, mine[4 + i] = double(mm[i].num);
    for (int i = 0; i < 8; i++) {
        auto all = allgatherd({mine[i]});
        for (double v : all) c.check(!memcmp(&v, &all[0], 8), "C11", "differs", "extreme %d differs between the processes: %.17g and %.17g", i % 4, all[0], v);
    }
    c.check(!piol->log->isErr(), "C11,C04", "spurious-error", "an error was recorded although every operation succeeded");
    c.count("set_searches");
    c.evaluation(splitmix(c.case_no) ^ hash_vec(std::vector<size_t>{i1, i2, size_t(nf)}) ^ c.seed, nf > 0);
    barrier();
}
