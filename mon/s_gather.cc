// C12: gather search against runs counted directly.
#include "geo.hh"

#include "ExSeisDat/PIOL/operations/gather.hh"
using namespace mon;
using namespace lib;

SCENARIO(gathers, "C12,C14,C15,C22", 1, 8, 1)
{
    Rng& r = c.rng;
    // runs: many short, single traces, one long, lines repeated later
    std::vector<geo::G> g;
    int style = r.in(0, 5);
    size_t want = r.chance(0.08) ? 0 : r.chance(0.3) ? r.in(1, 2 * c.np) : r.in(1, 150) * (r.chance(0.03) ? r.in(5, 30) : 1);
    int64_t lo = r.chance(0.3) ? -5 : 0;
    int64_t il = r.in(lo, 5), xl = r.in(lo, 5);
    while (g.size() < want) {
        size_t len = style == 0 ? 1 : style == 1 ? r.in(1, 3) : style == 2 ? r.in(1, 30) : style == 3 ? want : r.chance(0.2) ? want / 2 + 1 : r.in(1, 4);
        int64_t a = il, b = xl;
        int how   = r.in(0, 4);
        if (how == 0) b = xl < 1000 ? xl + 1 : 0;
        else if (how == 1) { a = il < 1000 ? il + 1 : 0; b = r.in(lo, 3); }
        else if (how == 2) { a = r.in(lo, 2); b = r.in(lo, 2); }
        else if (how == 3 && !g.empty()) { auto& q = g[r.next() % g.size()]; a = q.il; b = q.xl; }
        else { a = xl; b = il; }
        if (r.chance(0.02)) a = r.chance(0.5) ? 2147483647 : -2147483648LL;
        il = a; xl = b;
        for (size_t i = 0; i < len && g.size() < want; i++) {
            geo::G q;
            q.il = il; q.xl = xl; q.tn = g.size();
            q.sx = r.in(-5, 5);
            g.push_back(q);
        }
    }
    std::vector<Gather_info> e;
    for (auto& q : g) {
        if (e.empty() || e.back().inline_ != q.il || e.back().crossline != q.xl) e.push_back({0, q.il, q.xl});
        e.back().num_traces++;
    }
    std::string path = c.path("g.segy");
    spew0(c, path, geo::file(g, r.in(0, 2), 1000, [](size_t, size_t) { return 1.f; }));
    auto piol = new_piol();
    auto f    = open_read(piol, path, DataCfg());
    if (r.chance(0.4)) pm::delays(0.05, 300, c.lrng.next());
    {
        auto v = getIlXlGathers(piol.get(), f.get());
        c.check(v.size() == e.size(), "C12", "count", "%zu gathers reported, the file of %zu traces has %zu", v.size(), g.size(), e.size());
        for (size_t k = 0; k < std::min(v.size(), e.size()); k++) {
            size_t i = c.rank & 1 ? std::min(v.size(), e.size()) - 1 - k : k;
            auto x   = v[i];
            if (!c.check(x.inline_ == e[i].inline_ && x.crossline == e[i].crossline, "C12", "lines", "gather %zu of %zu has lines %lld/%lld, expected %lld/%lld", i, e.size(), (long long)x.inline_, (long long)x.crossline, (long long)e[i].inline_, (long long)e[i].crossline)) break;
            if (!c.check(x.num_traces == e[i].num_traces, "C12", "length", "gather %zu of %zu has %zu traces, expected %zu", i, e.size(), x.num_traces, e[i].num_traces)) break;
        }
        pm::delays(0, 0, 0);
        barrier();
    }
    f.reset();
    c.check(!piol->log->isErr(), "C12,C04", "spurious-error", "an error was recorded although every operation succeeded");
    std::vector<size_t> lens;
    for (auto& x : e) lens.push_back(x.num_traces);
    c.count("gathers", e.size());
    c.distinct("run_lengths", hash_vec(lens) ^ splitmix(c.np));
    c.evaluation(hash_vec(lens) ^ splitmix(c.np) ^ c.seed, !e.empty());
    if (c.rank == 0) c.sample(std::to_string(g.size()) + " traces, " + std::to_string(e.size()) + " gathers");
    barrier();
}
