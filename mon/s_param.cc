// C07 (rules and parameter cells), C06 (scaled coordinates), C08 (header conversion in memory)
#include "model.hh"
using namespace model;

namespace {
struct Ent {
    char kind;  // l s f i c
    int loc, scal;
};
typedef std::map<size_t, Ent> MRule;
// what the standard entries are (from the SEG-Y standard, see segy.hh)
bool standard(size_t m, Ent* e)
{
    if (auto* f = segy::field(m)) {
        *e = {f->kind, f->loc, f->scal};
        return true;
    }
    if (m == PIOL_META_COPY) {
        *e = {'c', 0, 0};
        return true;
    }
    return false;
}
std::vector<size_t> all_metas()
{
    std::vector<size_t> v;
    for (size_t m = 0; m <= size_t(PIOL_META_dsdr) + 40; m++) v.push_back(m);
    return v;
}
char kind_of(RuleEntry* e)
{
    switch (e->type()) {
        case RuleEntry::MdType::Long: return 'l';
        case RuleEntry::MdType::Short: return 's';
        case RuleEntry::MdType::Float: return 'f';
        case RuleEntry::MdType::Index: return 'i';
        default: return 'c';
    }
}
size_t model_extent(const MRule& m, bool full)
{
    if (full) return 240;
    int lo = 1000, hi = 0;
    for (auto& x : m) {
        auto& e = x.second;
        if (e.kind == 'c') return 240;
        if (e.kind == 'i') continue;
        lo = std::min(lo, e.loc);
        hi = std::max(hi, e.loc + (e.kind == 's' ? 2 : 4));
        if (e.kind == 'f') {
            lo = std::min(lo, e.scal);
            hi = std::max(hi, e.scal + 2);
        }
    }
    return hi > lo ? hi - lo : 0;
}
bool check_rule(Ctx& c, Rule* r, const MRule& m, bool full, const std::string& hist)
{
    bool ok = true;
    size_t n[256] = {0};
    for (auto& x : m) n[int(x.second.kind)]++;
    ok &= c.check(r->numLong == n['l'] && r->numShort == n['s'] && r->numFloat == n['f'] && r->numIndex == n['i'] && r->numCopy == n['c'], "C07", "rule-counts", "counts long %zu short %zu float %zu index %zu copy %zu, expected %zu %zu %zu %zu %zu after %s", r->numLong, r->numShort, r->numFloat, r->numIndex, r->numCopy, n['l'], n['s'], n['f'], n['i'], n['c'], hist.c_str());
    std::map<char, std::set<size_t>> slots;
    for (auto meta : all_metas()) {
        auto* e = r->getEntry(Meta(meta));
        auto it = m.find(meta);
        if (!c.check((e != nullptr) == (it != m.end()), "C07", "rule-entry", "entry %zu is %s after %s", meta, e ? "present, but was not added" : "absent, but was added", hist.c_str())) return false;
        if (!e) continue;
        auto& w = it->second;
        ok &= c.check(kind_of(e) == w.kind, "C07", "rule-kind", "entry %zu has kind %c, expected %c after %s", meta, kind_of(e), w.kind, hist.c_str());
        if (w.kind != 'i' && w.kind != 'c') ok &= c.check(e->loc == size_t(w.loc), "C07,C02", "rule-loc", "entry %zu is at byte %zu, expected %d after %s", meta, e->loc, w.loc, hist.c_str());
        if (w.kind == 'f' && kind_of(e) == 'f') ok &= c.check(static_cast<SEGYFloatRuleEntry*>(e)->scalLoc == size_t(w.scal), "C07,C02", "rule-scal", "entry %zu has its scalar at byte %zu, expected %d", meta, static_cast<SEGYFloatRuleEntry*>(e)->scalLoc, w.scal);
        if (w.kind != 'c') {
            bool fresh = slots[w.kind].insert(e->num).second;
            ok &= c.check(fresh && e->num < n[int(w.kind)], "C07", "rule-slot", "entry %zu uses slot %zu of kind %c, which is %s (%zu entries) after %s", meta, e->num, w.kind, fresh ? "out of range" : "used twice", n[int(w.kind)], hist.c_str());
        }
    }
    ok &= c.check(r->extent() == model_extent(m, full), "C07", "rule-extent", "extent is %zu, its entries cover %zu bytes after %s", r->extent(), model_extent(m, full), hist.c_str());
    if (m.count(PIOL_META_COPY) == 0 || true) {
        size_t pm = 8 * (n['l'] + n['f'] + n['i']) + 2 * n['s'] + (n['c'] ? 240 : 0);
        ok &= c.check(r->paramMem() == pm, "C07", "rule-parammem", "memory per parameter set is %zu, expected %zu", r->paramMem(), pm);
    }
    return ok;
}

// one cell: value as stored
struct Cell {
    double f  = 0;
    int64_t i = 0;
};
struct MPar {
    std::vector<std::map<size_t, Cell>> t;
    std::vector<Bytes> c;
};
}

// build a random rule by edits, checking the model after each
static std::shared_ptr<Rule> edit_rule(Ctx& c, Rng& r, MRule& m, bool* okp)
{
    bool full = r.chance(0.4);
    std::shared_ptr<Rule> rule;
    std::string hist;
    bool def = r.chance(0.4), ext = r.chance(0.2);
    std::vector<Meta> first;
    int nf = r.chance(0.5) ? r.in(0, 6) : 0;
    for (int i = 0; i < nf; i++) first.push_back(Meta(r.pick(segy::fields()).meta));
    if (r.chance(0.1)) first.push_back(PIOL_META_COPY);
    if (r.chance(0.25)) {
        // from entries made by the caller
        Rule::RuleMap tr;
        size_t n[256] = {0};
        auto metas = all_metas();
        hist = full ? "Rule(entries, full:" : "Rule(entries, dynamic:";
        for (int q = r.in(0, 9); q > 0; q--) {
            size_t y = r.pick(metas);
            if (y == PIOL_META_COPY || m.count(y)) continue;
            Ent w{"lsfi"[r.in(0, 3)], 1 + r.in(0, 229), 1 + r.in(0, 229)};
            size_t k = n[int(w.kind)]++;
            if (w.kind == 'l') tr[Meta(y)] = new SEGYLongRuleEntry(k, Tr(w.loc));
            if (w.kind == 's') tr[Meta(y)] = new SEGYShortRuleEntry(k, Tr(w.loc));
            if (w.kind == 'f') tr[Meta(y)] = new SEGYFloatRuleEntry(k, Tr(w.loc), Tr(w.scal));
            if (w.kind == 'i') tr[Meta(y)] = new SEGYIndexRuleEntry(k);
            m[y] = w;
            hist += std::string(" ") + w.kind + std::to_string(y) + "@" + std::to_string(w.loc);
        }
        if (r.chance(0.15)) {
            tr[PIOL_META_COPY] = new SEGYCopyRuleEntry();
            m[PIOL_META_COPY]  = {'c', 0, 0};
            hist += " copy";
        }
        hist += ")";
        rule = std::make_shared<Rule>(tr, full);
        first.clear();
        def = ext = false;
    }
    else {
    rule = r.chance(0.5) && first.empty() ? std::make_shared<Rule>(full, def, ext) : std::make_shared<Rule>(first, full, def, ext);
    hist = std::string(full ? "Rule(full" : "Rule(dynamic") + (def ? ",defaults" : "") + (ext ? ",extras" : "") + "," + std::to_string(first.size()) + " listed)";
    m[PIOL_META_gtn] = {'i', 0, 0};
    m[PIOL_META_ltn] = {'i', 0, 0};
    }
    Ent e;
    for (auto x : first)
        if (!m.count(x) && standard(x, &e)) m[x] = e;
    if (def)
        for (auto x : segy::default_metas())
            if (standard(x, &e)) m[x] = e;
    if (ext) {
        for (size_t x : {PIOL_META_tnl, PIOL_META_tnr, PIOL_META_tne, PIOL_META_SrcNum, PIOL_META_Tic, PIOL_META_VStack, PIOL_META_HStack, PIOL_META_RGElev, PIOL_META_SSElev, PIOL_META_SDElev, PIOL_META_ns, PIOL_META_inc, PIOL_META_ShotNum, PIOL_META_TraceUnit, PIOL_META_TransUnit})
            if (standard(x, &e)) m[x] = e;
    }
    *okp = check_rule(c, rule.get(), m, full, hist);
    int steps = r.in(0, 25);
    static const std::vector<int> locs = {1, 5, 9, 13, 17, 25, 29, 31, 33, 37, 41, 45, 49, 53, 57, 61, 65, 69, 71, 73, 77, 81, 85, 95, 97, 115, 117, 181, 185, 189, 193, 197, 201, 203, 205, 209, 211, 215, 225, 229};
    auto metas = all_metas();
    std::map<size_t, bool> placed;
    for (int k = 0; k < steps && *okp; k++) {
        size_t x = r.chance(0.6) && !m.empty() ? std::next(m.begin(), r.next() % m.size())->first : r.pick(metas);
        int loc = r.pick(locs), sc = r.pick(locs);
        switch (r.in(0, 9)) {
            case 0:
            case 1: {
                bool has = m.count(x), st = standard(x, &e);
                bool got = rule->addRule(Meta(x));
                hist += ";addRule(" + std::to_string(x) + ")";
                c.check(got == (!has && st), "C07", "rule-add-result", "addRule(%zu) returned %d, entry was %s", x, got, has ? "present" : st ? "absent" : "not a standard entry");
                if (!has && st) m[x] = e;
                break;
            }
            case 2:
                if (x == PIOL_META_COPY) break;
                rule->addLong(Meta(x), Tr(loc));
                m[x] = {'l', loc, 0};
                hist += ";addLong(" + std::to_string(x) + "," + std::to_string(loc) + ")";
                break;
            case 3:
                if (x == PIOL_META_COPY) break;
                rule->addShort(Meta(x), Tr(loc));
                m[x] = {'s', loc, 0};
                hist += ";addShort(" + std::to_string(x) + "," + std::to_string(loc) + ")";
                break;
            case 4:
                if (x == PIOL_META_COPY) break;
                rule->addSEGYFloat(Meta(x), Tr(loc), Tr(sc));
                m[x] = {'f', loc, sc};
                hist += ";addSEGYFloat(" + std::to_string(x) + "," + std::to_string(loc) + "," + std::to_string(sc) + ")";
                break;
            case 5:
                if (x == PIOL_META_COPY) break;
                rule->addIndex(Meta(x));
                m[x] = {'i', 0, 0};
                hist += ";addIndex(" + std::to_string(x) + ")";
                break;
            case 6:
            case 7:
                rule->rmRule(Meta(x));
                m.erase(x);
                hist += ";rm(" + std::to_string(x) + ")";
                break;
            case 8:
                if (r.chance(0.7)) break;
                rule->addCopy();
                m[PIOL_META_COPY] = {'c', 0, 0};
                hist += ";addCopy";
                break;
            case 9: {  // merge with another rule
                MRule o;
                std::vector<Meta> l;
                o[PIOL_META_gtn] = {'i', 0, 0};
                o[PIOL_META_ltn] = {'i', 0, 0};
                Rule other({}, r.chance(0.5), false, false);
                for (int q = r.in(0, 6); q > 0; q--) {
                    size_t y = r.pick(metas);
                    int ly = r.pick(locs), sy = r.pick(locs);
                    if (y == PIOL_META_COPY) continue;
                    int w = r.in(0, 3);
                    if (w == 0) { other.addLong(Meta(y), Tr(ly)); o[y] = {'l', ly, 0}; }
                    else if (w == 1) { other.addShort(Meta(y), Tr(ly)); o[y] = {'s', ly, 0}; }
                    else if (w == 2) { other.addSEGYFloat(Meta(y), Tr(ly), Tr(sy)); o[y] = {'f', ly, sy}; }
                    else { other.addIndex(Meta(y)); o[y] = {'i', 0, 0}; }
                }
                if (r.chance(0.15)) {
                    other.addCopy();
                    o[PIOL_META_COPY] = {'c', 0, 0};
                }
                c.check(rule->addRule(other), "C07", "rule-merge-result", "merging reported failure");
                for (auto& y : o)
                    if (!m.count(y.first)) m[y.first] = y.second;
                hist += ";merge(" + std::to_string(o.size()) + ")";
                *okp &= check_rule(c, &other, o, other.flag.fullextent, "being merged into another rule");
                break;
            }
        }
        if (r.chance(0.5)) *okp &= check_rule(c, rule.get(), m, full, hist);
        c.count("rule_edits");
    }
    *okp &= check_rule(c, rule.get(), m, full, hist);
    return rule;
}

static void set_cell(Rng& r, MPar& mp, const MRule& m, size_t k, size_t x, Param* p)
{
    char kind = m.at(x).kind;
    auto& cl  = mp.t[k][x];
    // values that every type used can hold
    int t = r.in(0, 2);
    if (kind == 'f') {
        if (t == 0) {
            double v = gen_coord(r, r.in(0, 8));
            param_utils::setPrm(k, Meta(x), v, p);
            cl.f = v;
        }
        else if (t == 1) {
            int64_t v = gen_int32(r);
            param_utils::setPrm(k, Meta(x), exseis::utils::Integer(v), p);
            cl.f = double(v);
        }
        else {
            int16_t v = r.next();
            param_utils::setPrm(k, Meta(x), v, p);
            cl.f = v;
        }
    }
    else if (kind == 'l') {
        int64_t v = r.chance(0.2) ? int64_t(r.next()) : gen_int32(r);
        if (t == 2) {
            param_utils::setPrm(k, Meta(x), int16_t(v), p);
            cl.i = int16_t(v);
        }
        else {
            param_utils::setPrm(k, Meta(x), exseis::utils::Integer(v), p);
            cl.i = v;
        }
    }
    else if (kind == 's') {
        int16_t v = r.next();
        if (t == 0) param_utils::setPrm(k, Meta(x), exseis::utils::Integer(v), p);
        else param_utils::setPrm(k, Meta(x), v, p);
        cl.i = v;
    }
    else if (kind == 'i') {
        int64_t v = r.next() >> 1;
        param_utils::setPrm(k, Meta(x), size_t(v), p);
        cl.i = v;
    }
}
static bool check_cells(Ctx& c, const MPar& mp, const MRule& m, const Param* p, const char* after)
{
    for (size_t k = 0; k < mp.t.size(); k++) {
        for (auto& x : m) {
            if (x.second.kind == 'c') continue;
            auto it = mp.t[k].find(x.first);
            Cell w  = it == mp.t[k].end() ? Cell() : it->second;
            bool ok = x.second.kind == 'f' ? param_utils::getPrm<double>(k, Meta(x.first), p) == w.f
                                           : x.second.kind == 's' ? param_utils::getPrm<int16_t>(k, Meta(x.first), p) == w.i && param_utils::getPrm<exseis::utils::Integer>(k, Meta(x.first), p) == w.i
                                           : x.second.kind == 'l' ? param_utils::getPrm<exseis::utils::Integer>(k, Meta(x.first), p) == w.i
                                                                  : param_utils::getPrm<size_t>(k, Meta(x.first), p) == size_t(w.i);
            if (!c.check(ok, "C07", "cell", "cell (%zu, entry %zu kind %c) of %zu holds %.17g / %ld, expected %.17g / %ld after %s", k, x.first, x.second.kind, mp.t.size(), param_utils::getPrm<double>(k, Meta(x.first), p), long(param_utils::getPrm<exseis::utils::Integer>(k, Meta(x.first), p)), w.f, long(w.i), after)) return false;
        }
        if (m.count(PIOL_META_COPY))
            if (!c.check(memcmp(p->c.data() + 240 * k, mp.c[k].data(), 240) == 0, "C07,C08", "cell-copy", "copied header of trace %zu differs after %s", k, after)) return false;
    }
    c.count("cells_checked", mp.t.size() * m.size());
    return true;
}
static void put_copy(Rng& r, MPar& mp, size_t k, Param* p)
{
    mp.c[k].resize(240);
    for (auto& b : mp.c[k]) b = r.next();
    static const std::vector<int> scal = {-10000, -100, -10, 0, 1, 10, 1000};
    // any location may serve as a scalar: keep every aligned 16-bit word a permitted one
    std::copy(mp.c[k].begin(), mp.c[k].end(), p->c.begin() + 240 * k);
}

SCENARIO(param_cells, "C07,C08", 1, 1, 1)
{
    Rng& r  = c.rng;
    bool ok = true;
    MRule ms, md;
    auto rs = edit_rule(c, r, ms, &ok);
    if (!ok) return;
    bool same = r.chance(0.3);
    auto rd   = same ? rs : edit_rule(c, r, md, &ok);
    if (!ok) return;
    if (same) md = ms;
    size_t ns = r.in(1, 6), nd = r.in(1, 6);
    Param ps(rs, ns), pd(rd, nd);
    c.check(ps.size() == ns && pd.size() == nd, "C07", "size", "size is %zu, expected %zu", ps.size(), ns);
    MPar a, b;
    a.t.resize(ns);
    a.c.assign(ns, Bytes(240, 0));
    b.t.resize(nd);
    b.c.assign(nd, Bytes(240, 0));
    auto fillall = [&](MPar& mp, const MRule& m, Param* p) {
        for (size_t k = 0; k < mp.t.size(); k++) {
            for (auto& x : m)
                if (x.second.kind != 'c') set_cell(r, mp, m, k, x.first, p);
            if (m.count(PIOL_META_COPY)) put_copy(r, mp, k, p);
        }
    };
    if (!check_cells(c, a, ms, &ps, "construction")) return;
    fillall(a, ms, &ps);
    fillall(b, md, &pd);
    if (!check_cells(c, a, ms, &ps, "filling") || !check_cells(c, b, md, &pd, "filling")) return;
    uint64_t h = 7;
    for (int q = r.in(1, 15); q > 0; q--) {
        int w = r.in(0, 2);
        if (w == 0 && ms.size()) {
            size_t k = r.next() % ns, x = std::next(ms.begin(), r.next() % ms.size())->first;
            if (ms[x].kind != 'c') set_cell(r, a, ms, k, x, &ps);
            if (!check_cells(c, a, ms, &ps, "storing a cell")) return;
        }
        else if (w == 1 && md.size()) {
            size_t k = r.next() % nd, x = std::next(md.begin(), r.next() % md.size())->first;
            if (md[x].kind != 'c') set_cell(r, b, md, k, x, &pd);
            if (!check_cells(c, b, md, &pd, "storing a cell")) return;
        }
        else {
            size_t j = r.next() % ns, k = r.next() % nd;
            bool cp = ms.count(PIOL_META_COPY);
            // a copied header also supplies the destination's own entries
            if (cp) {
                const unsigned char* h = a.c[j].data();
                for (auto& x : md) {
                    auto& e = x.second;
                    auto& cl = b.t[k][x.first];
                    if (e.kind == 'l') cl.i = segy::get32(h + e.loc - 1);
                    else if (e.kind == 's') cl.i = segy::get16(h + e.loc - 1);
                    else if (e.kind == 'f') cl.f = NAN;
                }
                if (md.count(PIOL_META_COPY)) b.c[k] = a.c[j];
            }
            for (auto& x : ms) {
                auto it = md.find(x.first);
                if (it != md.end() && it->second.kind == x.second.kind && x.second.kind != 'c') b.t[k][x.first] = a.t[j][x.first];
            }
            param_utils::cpyPrm(j, &ps, k, &pd);
            // coordinates only the copied header supplies: compare with tolerance, then adopt
            for (auto& x : md)
                if (x.second.kind == 'f' && std::isnan(b.t[k][x.first].f)) {
                    const unsigned char* h = a.c[j].data();
                    long double want = (long double)segy::get32(h + x.second.loc - 1) * segy::scal_factor(segy::get16(h + x.second.scal - 1));
                    double got       = param_utils::getPrm<double>(k, Meta(x.first), &pd);
                    c.check(fabsl(got - want) <= fabsl(want) * 1e-14L, "C07,C08", "copy-decode", "entry %zu decoded from a copied header is %.15g, expected %.15Lg", x.first, got, want);
                    b.t[k][x.first].f = got;
                }
            if (!check_cells(c, b, md, &pd, same ? "copying (one rule)" : "copying (two rules)") || !check_cells(c, a, ms, &ps, "being copied from")) return;
            // copying within one structure
            if (r.chance(0.3) && ns > 1) {
                size_t j2 = r.next() % ns, k2 = r.next() % ns;
                if (!ms.count(PIOL_META_COPY)) {
                    param_utils::cpyPrm(j2, &ps, k2, &ps);
                    a.t[k2] = a.t[j2];
                    if (!check_cells(c, a, ms, &ps, "copying within the structure")) return;
                }
            }
            c.count("copies");
        }
        h = splitmix(h * 5 + w);
    }
    // equality
    {
        Param x(rs, ns), y(rs, ns);
        for (size_t k = 0; k < ns; k++) {
            param_utils::cpyPrm(k, &ps, k, &x);
            param_utils::cpyPrm(k, &ps, k, &y);
        }
        c.check(x == y && !(x != y), "C07", "equal", "structures with equal cells compare unequal");
        std::vector<size_t> ks;
        for (auto& e : ms) ks.push_back(e.first);
        if (ks.size()) {
            size_t e = r.pick(ks), k = r.next() % ns;
            if (ms[e].kind == 'c') y.c[240 * k + r.in(0, 239)] ^= 1 << r.in(0, 7);
            else if (ms[e].kind == 'f') param_utils::setPrm(k, Meta(e), param_utils::getPrm<double>(k, Meta(e), &y) + 1.0e-3 + std::fabs(param_utils::getPrm<double>(k, Meta(e), &y)) * 1e-9, &y);
            else if (ms[e].kind == 'i') param_utils::setPrm(k, Meta(e), param_utils::getPrm<size_t>(k, Meta(e), &y) ^ 1, &y);
            else if (ms[e].kind == 's') param_utils::setPrm(k, Meta(e), int16_t(param_utils::getPrm<int16_t>(k, Meta(e), &y) ^ 1), &y);
            else param_utils::setPrm(k, Meta(e), exseis::utils::Integer(param_utils::getPrm<exseis::utils::Integer>(k, Meta(e), &y) ^ 1), &y);
            c.check(!(x == y) && x != y, "C07", "unequal", "structures that differ in entry %zu (kind %c) of trace %zu compare equal", e, ms[e].kind, k);
        }
    }
    c.sample("rules of " + std::to_string(ms.size()) + " and " + std::to_string(md.size()) + " entries, " + std::to_string(ns) + "/" + std::to_string(nd) + " traces");
    c.evaluation(splitmix(c.seed), ms.size() + md.size() > 4);
}

// encoding and decoding headers in memory
SCENARIO(param_codec, "C06,C08,C02", 1, 1, 1)
{
    Rng& r = c.rng;
    for (int rep = 0; rep < 8; rep++) {
        RuleSpec rs = gen_rule(r, true);
        if (r.chance(0.5)) {  // only coordinates
            rs.metas.clear();
            for (auto& f : segy::fields())
                if (f.kind == 'f' && r.chance(0.6)) rs.metas.push_back(f.meta);
            r.shuffle(rs.metas);
        }
        size_t n = r.in(1, 5), skip = r.in(0, 2), stride = r.chance(0.5) ? 0 : 4 * r.in(1, 5);
        std::vector<Trc> t(n);
        Param p(rs.make(), n + skip + 1);
        poison(&p, c.seed + rep);
        for (size_t i = 0; i < n; i++) {
            t[i].hw = true;
            t[i].rs = rs;
            t[i].h  = gen_hdr(r, rs);
            fill_param(t[i].h, rs, i + skip, &p);
        }
        Guarded g(n * (240 + stride), 0);
        unsigned char fill = r.chance(0.5) ? 0 : 0xee;
        for (size_t i = 0; i < n; i++)
            for (size_t j = 0; j < stride; j++) g.data()[i * (240 + stride) + 240 + j] = fill;
        SEGY_utils::insertParam(n, &p, g.data(), stride, skip);
        c.check(g.intact(), "C16,C08,C02", "insert-overrun", "bytes outside the header buffer were written");
        for (size_t i = 0; i < n; i++) {
            std::string w, d = cmp_header(g.data() + i * (240 + stride), t[i], &w);
            c.check(d.empty(), w == "coord" ? "C06,C02" : w == "scalar" ? "C06,C02" : "C02,C08", ("encode-" + w).c_str(), "trace %zu of %zu, rule %s: %s", i, n, rs.name.c_str(), d.c_str());
            for (size_t j = 0; j < stride; j++)
                if (!c.check(g.data()[i * (240 + stride) + 240 + j] == fill, "C08,C02", "encode-samples", "a byte between the headers changed")) break;
        }
        Param q(rs.make(), n + skip + 1), ref(rs.make(), n + skip + 1);
        poison(&q, c.seed + 77);
        poison(&ref, c.seed + 77);
        SEGY_utils::extractParam(n, g.data(), &q, stride, skip);
        for (size_t i = 0; i < n; i++) {
            auto d = cmp_param(g.data() + i * (240 + stride), rs, i + skip, &q);
            c.check(d.empty(), "C02,C06,C08", "decode", "trace %zu, rule %s: %s", i, rs.name.c_str(), d.c_str());
        }
        for (size_t i = 0; i < n + skip + 1; i++)
            if (i < skip || i >= skip + n) c.check(same_cells(q, i, ref, i), "C07,C02", "decode-other", "parameter set %zu outside the range changed", i);
        // encode what was decoded: the values stay what they are
        Guarded g2(n * (240 + stride), 0);
        SEGY_utils::insertParam(n, &q, g2.data(), stride, skip);
        Param q2(rs.make(), n + skip + 1);
        SEGY_utils::extractParam(n, g2.data(), &q2, stride, skip);
        for (size_t i = 0; i < n; i++)
            for (auto m : rs.metas) {
                double a = param_utils::getPrm<double>(i + skip, Meta(m), &q), b = param_utils::getPrm<double>(i + skip, Meta(m), &q2);
                c.check(std::fabs(a - b) <= std::fabs(a) * 1e-14, "C06", "reencode", "%s decoded as %.15g becomes %.15g when encoded again", segy::field(m)->name, a, b);
            }
        uint64_t h = hash_bytes(g.data(), n * (240 + stride));
        c.evaluation(h, rs.metas.size() > 0);
        c.count("headers", n);
        if (rep == 0) c.sample("rule " + rs.name + " (" + std::to_string(rs.metas.size()) + " fields), " + std::to_string(n) + " headers, stride " + std::to_string(stride));
    }
    // scalar helpers
    for (int s : {-10000, -1000, -100, -10, -1, 0, 1, 10, 100, 1000, 10000}) {
        double v = SEGY_utils::parse_scalar(s);
        c.check(std::fabs(v - double(segy::scal_factor(s))) < 1e-18 + 1e-15 * v, "C06,C02", "parse-scalar", "scalar %d means %.12g", s, v);
    }
}
