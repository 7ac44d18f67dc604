// C09: parallel sort, order check, inverse lookup.  C08: copied headers through it.
#include "geo.hh"

#include "ExSeisDat/PIOL/operations/sort.hh"
using namespace mon;
using namespace lib;

static std::vector<size_t> counts_for(Rng& r, size_t n, int np)
{
    int how = r.in(0, 3);
    return how == 0 ? geo::contiguous(r, n, np, n / np) : how == 1 ? geo::contiguous(r, n, np, 4) : how == 2 ? geo::contiguous(r, n, np, r.in(1, 3)) : shares(r, n, np);
}

SCENARIO(sort_prm, "C09,C08,C15,C22", 1, 8, 2)
{
    Rng& r   = c.rng;
    size_t n = r.chance(0.1) ? r.in(0, 12) : r.chance(0.4) ? r.in(4, 40) : r.in(8, 90) * (r.chance(0.3) ? c.np : 1) * (r.chance(0.02) ? r.in(5, 40) : 1);
    auto g   = geo::gen(r, n);
    auto s   = counts_for(r, n, c.np);
    size_t o = 0;
    for (int p = 0; p < c.rank; p++) o += s[p];
    size_t m = s[c.rank];
    // metas: what the comparisons need, and more to be carried along
    model::RuleSpec rs;
    rs.metas = segy::default_metas();
    if (r.chance(0.5))
        for (auto& f : segy::fields())
            if (!rs.has(f.meta) && r.chance(0.4)) rs.metas.push_back(f.meta);
    rs.copy = r.chance(0.3);
    std::vector<model::Hdr> h;
    for (size_t i = 0; i < n; i++) h.push_back(model::gen_hdr(r, rs));
    auto rule = rs.make();
    auto fill = [&](size_t t, size_t k, Param* p) {
        model::fill_param(h[t], rs, k, p);
        geo::set(g[t], k, p);
        param_utils::setPrm(k, PIOL_META_gtn, t, p);
        param_utils::setPrm(k, PIOL_META_ltn, t, p);
    };
    Param all(rule, n), prm(rule, m);
    for (size_t i = 0; i < n; i++) fill(i, i, &all);
    for (size_t i = 0; i < m; i++) fill(o + i, i, &prm);
    int user     = r.chance(0.4) ? int(r.in(0, 4)) : -1;
    size_t type  = r.pick(geo::sort_types);
    bool forder  = user < 0 || r.chance(0.5);
    auto ord     = geo::order(g, [&](const geo::G& x) { return user < 0 ? geo::key(type, x) : geo::user_key(user, x); });
    std::string what = (user < 0 ? "type " + std::to_string(type) : "comparison " + std::to_string(user)) + ", " + std::to_string(n) + " traces, shares";
    for (auto x : s) what += " " + std::to_string(x);
    auto piol = new_piol();
    if (r.chance(0.4)) pm::delays(0.05, 300, c.lrng.next());
    std::vector<size_t> l;
    if (user < 0 && r.chance(0.5)) l = sort(piol.get(), SortType(type), &prm);
    else
        l = sort(piol.get(), &prm, user < 0 ? getComp(type) : geo::user_comp(user), forder);
    pm::delays(0, 0, 0);
    if (c.check(l.size() == m, "C09", "list-size", "%s: the list has %zu entries on a process with %zu traces", what.c_str(), l.size(), m)) {
        std::vector<size_t> pos(n);
        for (size_t i = 0; i < n; i++) pos[ord[i]] = i;
        for (size_t i = 0; i < m; i++) {
            size_t want = forder ? pos[o + i] : ord[o + i];
            if (!c.check(l[i] == want, "C09", forder ? "positions" : "order", "%s: entry %zu of process %d is %zu, expected %zu", what.c_str(), i, c.rank, l[i], want)) break;
        }
        for (size_t i = 0; i < m; i++) {
            if (!c.check(param_utils::getPrm<size_t>(i, PIOL_META_gtn, &prm) == ord[o + i], "C09", "sorted-params", "%s: parameters at position %zu are those of trace %zu, expected %zu", what.c_str(), o + i, param_utils::getPrm<size_t>(i, PIOL_META_gtn, &prm), ord[o + i])) break;
            // the whole record moved together
            Param one(rule, 1);
            param_utils::cpyPrm(i, &prm, 0, &one);
            size_t t = ord[o + i];
            std::string d;
            bool same = true, cs = true;
            auto eq = [&](auto& u, auto& v, size_t k) {
                for (size_t j = 0; j < k; j++)
                    if (memcmp(&u[k * i + j], &v[k * t + j], sizeof(u[0]))) return false;
                return true;
            };
            same = eq(prm.f, all.f, rule->numFloat) && eq(prm.i, all.i, rule->numLong) && eq(prm.s, all.s, rule->numShort) && eq(prm.t, all.t, rule->numIndex);
            if (rs.copy) cs = std::equal(prm.c.begin() + 240 * i, prm.c.begin() + 240 * i + 240, all.c.begin() + 240 * t);
            if (!c.check(same, "C09", "record", "%s: parameters at position %zu are not those of trace %zu", what.c_str(), o + i, t)) break;
            if (!c.check(cs, "C09,C08", "copied-header", "%s: the copied header at position %zu is not that of trace %zu", what.c_str(), o + i, t)) break;
        }
    }
    c.check(!piol->log->isErr(), "C09,C04", "spurious-error", "an error was recorded although every operation succeeded");
    c.count("sorted_traces", m);
    bool moved = false;
    for (size_t i = 0; i < n; i++) moved |= ord[i] != i;
    c.distinct("partitions", hash_vec(s));
    c.evaluation(splitmix(hash_bytes(what.data(), what.size()) ^ hash_vec(ord)) + c.rank, moved);
    if (c.rank == 0) c.sample(what);
}

SCENARIO(sort_check, "C09,C15,C22", 1, 8, 1)
{
    Rng& r   = c.rng;
    size_t n = r.chance(0.15) ? r.in(0, 6) : r.in(1, 50) * (r.chance(0.03) ? r.in(5, 60) : 1), ns = r.in(0, 3);
    auto g   = geo::gen(r, n);
    size_t type = r.pick(geo::sort_types);
    auto kf     = [&](const geo::G& x) { return geo::key(type, x); };
    int how = r.in(0, 3);
    auto ord = geo::order(g, kf);
    if (how) {
        std::vector<geo::G> q;
        for (auto i : ord) q.push_back(g[i]);
        // one exchange of neighbours, also across a boundary between processes
        if (how == 2 && n > 1) {
            size_t i = r.next() % (n - 1);
            std::swap(q[i], q[i + 1]);
        }
        if (how == 3 && n > 2) std::rotate(q.begin(), q.begin() + 1 + r.next() % (n - 1), q.end());
        g = q;
    }
    bool sorted = true;
    for (size_t i = 1; i < n; i++)
        if (kf(g[i]) < kf(g[i - 1])) sorted = false;
    std::string path = c.path("f.segy");
    spew0(c, path, geo::file(g, ns, 1000, [](size_t, size_t) { return 0.f; }));
    auto piol = new_piol();
    auto s    = r.chance(0.5) ? geo::contiguous(r, n, c.np, n / c.np) : shares(r, n, c.np);
    size_t o  = 0;
    for (int p = 0; p < c.rank; p++) o += s[p];
    bool res;
    {
        auto f = open_read(piol, path, DataCfg());
        exseis::utils::Contiguous_decomposition d(o, s[c.rank]);
        res = checkOrder(f.get(), d, type);
    }
    bool allok = !any(!res);
    std::string what = "type " + std::to_string(type) + ", " + std::to_string(n) + " traces, shares";
    for (auto x : s) what += " " + std::to_string(x);
    c.check(allok == sorted, "C09", sorted ? "check-rejects" : "check-accepts", "%s: the file is %sordered, but the checks of the processes say %s", what.c_str(), sorted ? "" : "not ", allok ? "success" : "failure");
    c.count(sorted ? "ordered_files" : "unordered_files");
    c.evaluation(hash_bytes(what.data(), what.size()) ^ splitmix(c.case_no), n > 1);
    barrier();
}

SCENARIO(sort_index, "C09", 1, 1, 0.3)
{
    Rng& r   = c.rng;
    size_t n = r.in(0, 200);
    std::vector<size_t> l(n);
    size_t w = r.chance(0.5) ? 5 : 100000;
    for (auto& x : l) x = r.chance(0.05) ? size_t(-1) - r.next() % 3 : r.next() % w;
    auto idx = getSortIndex(n, l.data());
    bool ok  = idx.size() == n;
    std::vector<char> seen(n, 0);
    for (size_t i = 0; ok && i < n; i++) {
        ok = idx[i] < n && !seen[idx[i]];
        if (ok) seen[idx[i]] = 1;
        if (ok && i) ok = l[idx[i - 1]] <= l[idx[i]];
    }
    c.check(ok, "C09", "sort-index", "the index of %zu numbers is not their sorting permutation", n);
    c.evaluation(hash_vec(l), n > 1);
}
