// C01 C02 C06 C08: the file layer, against an independent byte-level model
#include "model.hh"

#include "ExSeisDat/PIOL/operations/gather.hh"
using namespace model;

namespace {
struct F {
    size_t ns = 0, nt = 0;
    int inc = 0, fmt = 5;
    std::string text;
    std::vector<Trc> t;
};
}

// the sample a conforming reader gets from four bytes
static uint32_t want_sample(const unsigned char* p, int fmt)
{
    uint32_t u = uint32_t(segy::get32(p));
    if (fmt != 1) return u;
    return (u & 0xffffff) ? segy::fbits(float(segy::ibm_value(u))) : 0;
}

static std::string gen_text(Rng& r)
{
    std::string s;
    size_t n = r.chance(0.2) ? 0 : r.chance(0.3) ? 3200 : r.chance(0.2) ? 3200 + r.in(1, 300) : r.in(1, 3199);
    static const std::string al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 .,:;-+/()=\n";
    for (size_t i = 0; i < n; i++) s += al[r.next() % al.size()];
    return s;
}
static std::string padded(std::string s)
{
    s.resize(3200, '\0');
    return s;
}

// traces (in file order) split into the parts of the processes
static std::vector<std::vector<size_t>> distribute(Rng& r, const std::vector<size_t>& tr, int np, bool contiguous)
{
    std::vector<std::vector<size_t>> d(np);
    if (contiguous || r.chance(0.5)) {
        auto s    = shares(r, tr.size(), np);
        size_t at = 0;
        for (int p = 0; p < np; p++) {
            d[p].assign(tr.begin() + at, tr.begin() + at + s[p]);
            at += s[p];
        }
    }
    else
        for (auto x : tr) d[r.in(0, np - 1)].push_back(x);
    return d;
}

static void disk_check(Ctx& c, const F& m, const std::string& path)
{
    Bytes b = slurp(path);
    if (!c.check(b.size() == segy::fsize(m.nt, m.ns), "C02,C01", "disk-size", "file has %zu bytes, expected %zu for %zu traces of %zu samples", b.size(), segy::fsize(m.nt, m.ns), m.nt, m.ns)) return;
    Bytes h = segy::header(padded(m.text), m.ns, m.inc, 5);
    for (size_t i = 0; i < segy::HO; i++)
        if (b[i] != h[i]) {
            c.check(false, "C02", i < 3200 ? "disk-text" : "disk-binary-header", "file header byte %zu is 0x%02x, expected 0x%02x", i + 1, b[i], h[i]);
            break;
        }
    int bad = 0;
    for (size_t t = 0; t < m.nt && bad < 4; t++) {
        const unsigned char* p = &b[segy::off(t, m.ns)];
        std::string w, d = cmp_header(p, m.t[t], &w);
        if (!d.empty()) {
            c.check(false, w == "header" ? "C01,C02,C08" : w == "coord" ? "C01,C02,C06" : "C02,C06", ("disk-" + w).c_str(), "trace %zu of %zu (rule %s): %s", t, m.nt, m.t[t].rs.name.c_str(), d.c_str());
            bad++;
        }
        for (size_t i = 0; i < m.ns; i++)
            if (uint32_t(segy::get32(p + 240 + 4 * i)) != m.t[t].s[i]) {
                c.check(false, "C01,C02", "disk-samples", "trace %zu sample %zu is 0x%08x on disk, expected 0x%08x", t, i, unsigned(segy::get32(p + 240 + 4 * i)), m.t[t].s[i]);
                bad++;
                break;
            }
    }
    c.count("disk_headers_checked", m.nt);
    c.count("disk_samples_checked", m.nt * m.ns);
}

static void do_write(Ctx& c, Writer* w, F& m, int pass)
{
    Rng& r = c.rng;
    // which traces this pass writes
    std::vector<size_t> tr;
    double d = pass == 0 ? 1.0 : r.uni();
    // leave holes.  Not with Open MPI's aggregating collective I/O, which fills
    // never-written gaps beyond the old end of file with leftover memory.
    if (pass == 0 && r.chance(0.2) && getenv("OMPI_MCA_fcoll")) d = 0.7;
    int what = r.in(0, 3);                    // 0,1 samples+headers 2 samples 3 headers
    if (pass == 0 && what > 1) what = 0;
    bool ws = what != 3, wh = what != 2;
    bool contig = r.chance(0.5);
    auto rs = gen_rule(r, true);
    if (contig) {
        size_t a = pass == 0 ? 0 : (m.nt ? r.next() % m.nt : 0), n = pass == 0 ? m.nt : r.next() % (m.nt - a + 1);
        for (size_t i = a; i < a + n; i++) tr.push_back(i);
    }
    else
        for (size_t i = 0; i < m.nt; i++)
            if (r.chance(d)) tr.push_back(i);
    auto dist = distribute(r, tr, c.np, contig);
    // new content (known to all)
    for (auto x : tr) {
        m.t[x].wr = true;
        if (ws)
            for (auto& v : m.t[x].s) v = gen_sample(r);
        if (wh) {
            m.t[x].hw = true;
            m.t[x].rs = rs;
            m.t[x].h  = gen_hdr(r, rs);
        }
    }
    auto& mine  = dist[c.rank];
    size_t skip = wh && r.chance(0.3) ? r.in(1, 3) : 0;
    size_t n    = mine.size();
    Param prm(rs.make(), n + skip);
    poison(&prm, c.seed);
    GuardedT<float> trc(n * m.ns);
    for (size_t i = 0; i < n; i++) {
        if (wh) fill_param(m.t[mine[i]].h, rs, i + skip, &prm);
        if (ws) memcpy(trc.data() + i * m.ns, m.t[mine[i]].s.data(), m.ns * 4);
    }
    Bytes before(reinterpret_cast<unsigned char*>(trc.data()), reinterpret_cast<unsigned char*>(trc.data() + n * m.ns));
    size_t f0 = n ? mine[0] : 0;
    // a process without traces may give any valid offset
    if (!n && c.lrng.chance(0.5)) f0 = c.lrng.in(0, m.nt + 9);
    int calls = contig && r.chance(0.3) ? 2 : 1;
    // the same number of calls everywhere
    for (int k = 0; k < calls; k++) {
        size_t a = n * k / calls, e = n * (k + 1) / calls;
        float* tp = ws ? trc.data() + a * m.ns : nullptr;
        if (contig) {
            size_t o = e > a ? mine[a] : f0;
            if (ws && wh) w->writeTrace(o, e - a, tp, &prm, skip + a);
            else if (ws) w->writeTrace(o, e - a, tp);
            else w->writeParam(o, e - a, &prm, skip + a);
        }
        else {
            if (ws && wh) w->writeTraceNonContiguous(e - a, mine.data() + a, tp, &prm, skip + a);
            else if (ws) w->writeTraceNonContiguous(e - a, mine.data() + a, tp);
            else w->writeParamNonContiguous(e - a, mine.data() + a, &prm, skip + a);
        }
    }
    c.check(memcmp(before.data(), trc.data(), before.size()) == 0 && trc.g.intact(), "C01", "write-buffer", "the sample buffer changed while being written (%s)", contig ? "contiguous" : "list");
    c.count(std::string("write_") + (contig ? "contig" : "list") + (ws && wh ? "_both" : ws ? "_samples" : "_headers"));
    c.count("written_traces", n);
    c.evaluation(splitmix(c.seed + pass * 17 + c.rank), n > 0);
}

static void do_reads(Ctx& c, const std::string& path, const F& m, const DataCfg& cfg, Piol piol, const Bytes& disk, int nreads, const char* owner)
{
    Rng& r = c.rng;
    auto f = open_reader(piol, path, cfg, r.chance(0.5));
    std::string o2 = owner;
    c.check(f->readNt() == m.nt, owner, "read-nt", "number of traces read %zu, file has %zu", f->readNt(), m.nt);
    c.check(f->readNs() == m.ns, owner, "read-ns", "samples per trace read %zu, file has %zu", f->readNs(), m.ns);
    double inc = m.inc * cfg.unit;
    c.check(std::fabs(f->readInc() - inc) <= inc * 1e-12, owner, "read-inc", "interval read %.10g, file has %d of %g s", f->readInc(), m.inc, cfg.unit);
    c.check(f->readName() == path, owner, "read-name", "name is '%s'", f->readName().c_str());
    for (int k = 0; k < nreads; k++) {
        int how   = r.in(0, 2);      // contiguous, ascending list, any list
        int what  = r.in(0, 2);      // both, samples, headers
        bool ws = what != 2, wh = what != 1;
        auto rs   = gen_rule(r, true);
        size_t sk = wh && r.chance(0.3) ? r.in(1, 3) : 0;
        size_t post = r.in(0, 2);
        // per process request
        std::vector<size_t> tr;
        Rng q(c.seed ^ splitmix(k * 64 + c.rank));
        bool none = q.chance(0.2);
        if (m.nt && !none) {
            if (how == 0) {
                size_t a = q.next() % m.nt, n = q.chance(0.3) ? m.nt - a : q.next() % (m.nt - a + 1);
                for (size_t i = 0; i < n; i++) tr.push_back(a + i);
            }
            else if (how == 1) {
                double d = q.uni();
                for (size_t i = 0; i < m.nt; i++)
                    if (q.chance(d)) tr.push_back(i);
            }
            else {
                size_t n = q.in(0, 2 * std::min<size_t>(m.nt, q.chance(0.5) ? 40 : 4000));
                for (size_t i = 0; i < n; i++) tr.push_back(q.chance(0.3) && !tr.empty() ? tr[q.next() % tr.size()] : q.next() % m.nt);
                if (q.chance(0.1)) std::sort(tr.begin(), tr.end());
                if (q.chance(0.1)) std::sort(tr.rbegin(), tr.rend());
            }
        }
        size_t n = tr.size();
        Param prm(rs.make(), sk + n + post), ref(rs.make(), sk + n + post);
        poison(&prm, c.seed + k);
        poison(&ref, c.seed + k);
        GuardedT<float> trc(n * m.ns);
        float* tp  = ws ? trc.data() : const_cast<float*>(TRACE_NULL);
        Param* pp  = wh ? &prm : static_cast<Param*>(PIOL_PARAM_NULL);
        size_t off = n ? tr[0] : q.chance(0.5) ? 0 : q.next() % (m.nt + 10);
        auto rq    = tr;
        if (how == 0) {
            // a request may extend beyond the last trace
            size_t ask = n;
            if (q.chance(0.3) && (n == 0 || tr.back() + 1 == m.nt)) {
                if (!n) off = m.nt + q.in(0, 2);
                ask = n + q.in(1, 4);
            }
            if (!ws) f->readParam(off, ask, pp, sk);
            else f->readTrace(off, ask, tp, pp, sk);
        }
        else if (how == 1) {
            if (!ws) f->readParamNonContiguous(n, tr.data(), pp, sk);
            else f->readTraceNonContiguous(n, tr.data(), tp, pp, sk);
        }
        else
            f->readTraceNonMonotonic(n, tr.data(), tp, pp, sk);
        c.check(rq == tr, owner, "list-changed", "the caller's list of trace numbers changed");
        c.check(trc.g.intact(), (o2 + ",C16").c_str(), "read-overrun", "samples were written outside the buffer");
        const char* hn[] = {"contiguous", "ascending list", "unordered list"};
        int bad = 0;
        for (size_t i = 0; i < n && bad < 2; i++) {
            const unsigned char* p = &disk[segy::off(tr[i], m.ns)];
            if (ws)
                for (size_t s = 0; s < m.ns; s++)
                    if (segy::fbits(trc[i * m.ns + s]) != want_sample(p + 240 + 4 * s, m.fmt)) {
                        c.check(false, (o2 + (m.fmt == 1 ? ",C05" : "")).c_str(), m.fmt == 1 ? "read-ibm" : "read-samples", "%s read (%s), entry %zu of %zu = trace %zu: sample %zu is 0x%08x, file (format %d) has 0x%08x", hn[how], wh ? "with headers" : "samples only", i, n, tr[i], s, segy::fbits(trc[i * m.ns + s]), m.fmt, unsigned(segy::get32(p + 240 + 4 * s)));
                        bad++;
                        break;
                    }
            if (wh) {
                auto d = cmp_param(p, rs, sk + i, &prm);
                if (!d.empty()) {
                    c.check(false, (o2 + (d.find("copied") == 0 ? ",C08" : "")).c_str(), d.find("copied") == 0 ? "read-copy" : "read-params", "%s read, entry %zu of %zu (skip %zu) = trace %zu, rule %s: %s", hn[how], i, n, sk, tr[i], rs.name.c_str(), d.c_str());
                    bad++;
                }
                size_t ltn = param_utils::getPrm<size_t>(sk + i, PIOL_META_ltn, &prm);
                if (ltn != tr[i]) {
                    c.check(false, owner, "read-ltn", "%s read, entry %zu: local trace number %zu, expected %zu", hn[how], i, ltn, tr[i]);
                    bad++;
                }
            }
        }
        if (wh)
            for (size_t i = 0; i < sk + n + post; i++)
                if (i < sk || i >= sk + n)
                    if (!same_cells(prm, i, ref, i)) {
                        c.check(false, owner, "read-other-cells", "%s read of %zu traces with skip %zu changed parameter set %zu", hn[how], n, sk, i);
                        break;
                    }
        c.count(std::string("read_") + hn[how] + (ws && wh ? "_both" : ws ? "_samples" : "_headers"));
        c.count("read_traces", n);
        c.evaluation(splitmix(c.seed * 3 + k * 64 + c.rank + 5), n > 0);
    }
    f.reset();
}

static DataCfg gen_cfg(Rng& r, size_t ns)
{
    DataCfg cfg;
    cfg.coll = r.chance(0.7);
    // small transfer limits force chunking (never below two trace records)
    size_t lo = 2 * segy::dosz(ns) + 2;
    if (r.chance(0.5)) cfg.maxSize = lo + r.in(0, 6 * int(lo));
    return cfg;
}

SCENARIO(file_rw, "C01,C02,C06,C08,C15,C22", 1, 8, 1)
{
    Rng& r = c.rng;
    F m;
    m.ns   = r.chance(0.05) ? 0 : r.chance(0.1) ? 1 : r.in(1, 40);
    m.nt   = r.chance(0.08) ? 0 : r.chance(0.3) ? r.in(1, 5) : r.in(1, 70);
    if (r.chance(0.02)) m.ns = r.in(200, 32767);
    if (m.ns > 100) m.nt = r.in(1, 6);
    if (r.chance(0.015)) m.ns = r.in(0, 3), m.nt = r.in(500, 4000);  // many traces
    m.inc  = r.chance(0.1) ? 32767 : r.chance(0.1) ? r.in(32768, 65535) : r.in(1, 20000);
    m.text = gen_text(r);
    m.t.resize(m.nt);
    for (auto& t : m.t) t.s.assign(m.ns, 0);
    std::string path = c.path("f.segy");
    auto cfg         = gen_cfg(r, m.ns);
    // the interval in other units than microseconds
    static const double units[] = {1e-3, 1e-9, 2.5e-4, 1, 1.0 / 3, 1e-12};
    if (r.chance(0.2)) cfg.unit = units[r.in(0, 5)];
    // a file that existed before must leave no trace of its old content
    if (r.chance(0.3)) {
        Bytes junk(m.nt == 0 || r.chance(0.5) ? 100 : segy::fsize(m.nt + 3, m.ns), 0);
        spew0(c, path, junk);
    }
    if (r.chance(0.4)) pm::delays(0.05, 200, c.lrng.next());
    auto piol = new_piol();
    {
        auto w = open_writer(piol, path, cfg, r.chance(0.5));
        // settings in any order
        std::vector<int> ord = {0, 1, 2, 3};
        r.shuffle(ord);
        bool set_nt = m.nt == 0 || r.chance(0.5), late_text = r.chance(0.3);
        for (auto k : ord) {
            if (k == 0) w->writeNs(m.ns);
            if (k == 1) w->writeInc(m.inc * cfg.unit);
            if (k == 2 && !late_text) w->writeText(m.text);
            if (k == 3 && set_nt) w->writeNt(m.nt);
        }
        int passes = m.nt ? r.in(1, 4) : 1;
        for (int p = 0; p < passes; p++) {
            do_write(c, w.get(), m, p);
            barrier();
        }
        if (late_text) w->writeText(m.text);
        // holes at the end do not count unless the number of traces was set
        if (!set_nt) {
            size_t last = 0;
            for (size_t i = 0; i < m.nt; i++)
                if (m.t[i].wr) last = i + 1;
            if (last < m.nt) {
                m.nt = last;
                m.t.resize(last);
            }
        }
    }
    pm::delays(0, 0, 0);
    barrier();
    if (c.rank == 0) disk_check(c, m, path);
    Bytes disk = slurp(path);
    barrier();
    if (disk.size() == segy::fsize(m.nt, m.ns)) {
        auto c2 = gen_cfg(r, m.ns);
        c2.unit = cfg.unit;
        c.sample("ns=" + std::to_string(m.ns) + " nt=" + std::to_string(m.nt) + " write " + cfg.str() + " read " + c2.str());
        {
            auto f = open_reader(piol, path, c2, r.chance(0.5));
            // few characters can be as printable in EBCDIC (C19 judges which)
            if (m.text.size() >= 40)
                c.check(f->readText() == padded(m.text), "C19,C01", "text", "text header read back differs");
        }
        do_reads(c, path, m, c2, piol, disk, r.in(2, 5), "C01");
        barrier();
        if (c.rank == 0) c.check(slurp(path) == disk, "C01", "read-modifies", "reading changed the file");
    }
    c.check(!piol->log->isErr(), "C01,C04", "spurious-error", "an error was recorded although every operation succeeded");
    barrier();
}

// EBCDIC (code page 37) for the characters used in text headers, written from the standard
static unsigned char ebcdic(unsigned char a)
{
    static const char* asc   = " .<(+&*);-/,%_>?:#@'=\"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
    static const int eb[]    = {0x40, 0x4b, 0x4c, 0x4d, 0x4e, 0x50, 0x5c, 0x5d, 0x5e, 0x60, 0x61, 0x6b, 0x6c, 0x6d, 0x6e, 0x6f, 0x7a, 0x7b, 0x7c, 0x7d, 0x7e, 0x7f};
    const char* q = strchr(asc, a);
    if (!q) return 0x6f;
    int i = q - asc;
    if (i < 22) return eb[i];
    i -= 22;
    if (i < 26) return i < 9 ? 0x81 + i : i < 18 ? 0x91 + i - 9 : 0xa2 + i - 18;
    i -= 26;
    if (i < 26) return i < 9 ? 0xc1 + i : i < 18 ? 0xd1 + i - 9 : 0xe2 + i - 18;
    return 0xf0 + i - 26;
}

static Bytes gen_foreign(Rng& r, F& m, std::string* ascii, bool conforming_scalars)
{
    m.ns  = r.chance(0.05) ? 0 : r.chance(0.1) ? 1 : r.in(1, 40);
    m.nt  = r.chance(0.08) ? 0 : r.chance(0.3) ? r.in(1, 5) : r.in(1, 60);
    m.inc = r.chance(0.1) ? 32767 : r.chance(0.1) ? r.in(32768, 65535) : r.in(1, 20000);
    m.fmt = r.chance(0.5) ? 1 : 5;
    static const std::string al = " .<(+&*);-/,%_>?:#@'=\"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
    std::string t;
    for (int i = 0; i < 3200; i++) t += r.chance(0.3) ? ' ' : al[r.next() % al.size()];
    for (int i = 0; i < 40; i++) {  // 40 card images
        t[80 * i]     = 'C';
        t[80 * i + 1] = i < 9 ? ' ' : '0' + (i + 1) / 10;
        t[80 * i + 2] = '0' + (i + 1) % 10;
    }
    *ascii = t;
    if (r.chance(0.5))
        for (auto& ch : t) ch = char(ebcdic(ch));
    Bytes b(segy::fsize(m.nt, m.ns));
    // binary fields the library does not use may hold anything (job, line, ... unassigned)
    for (size_t i = 3200; i < 3600; i++) b[i] = r.chance(0.3) ? r.next() : 0;
    for (int i = 0; i < 3200; i++) b[i] = t[i];
    segy::put16(&b[3216], m.inc);
    segy::put16(&b[3220], m.ns);
    segy::put16(&b[3224], m.fmt);
    segy::put16(&b[3500], r.chance(0.5) ? 0x0100 : 0);
    segy::put16(&b[3502], r.in(0, 1));
    segy::put16(&b[3504], 0);
    static const std::vector<int> scal = {-10000, -1000, -100, -10, -1, 0, 1, 10, 100, 1000, 10000};
    for (size_t k = 0; k < m.nt; k++) {
        unsigned char* p = &b[segy::off(k, m.ns)];
        for (int i = 0; i < 240; i++) p[i] = r.next();
        for (int l : {69, 71, 201})
            if (conforming_scalars || r.chance(0.5)) segy::put16(p + l - 1, r.pick(scal));
        for (size_t s = 0; s < m.ns; s++) {
            uint32_t u = r.chance(0.1) ? uint32_t(r.next()) & 0xff000000u : r.chance(0.5) ? uint32_t(r.next()) : (uint32_t(r.next()) & 0x80ffffff) | uint32_t(r.in(0x3c, 0x46)) << 24;
            if (r.chance(0.1)) u &= ~0x00f80000u;  // unnormalised
            segy::put32(p + 240 + 4 * s, u);
        }
    }
    return b;
}

SCENARIO(file_foreign, "C02,C05,C08,C15,C19,C22", 1, 8, 1)
{
    Rng& r = c.rng;
    F m;
    std::string ascii, path = c.path("x.segy");
    Bytes b = gen_foreign(r, m, &ascii, r.chance(0.8));
    spew0(c, path, b);
    auto piol = new_piol();
    auto cfg  = gen_cfg(r, m.ns);
    if (r.chance(0.3)) pm::delays(0.05, 200, c.lrng.next());
    {
        auto f = open_reader(piol, path, cfg, r.chance(0.5));
        c.check(f->readText() == ascii, "C19,C02", b[0] == 'C' ? "text-ascii" : "text-ebcdic", "text header of a foreign file (%s) decoded differently", b[0] == 'C' ? "ASCII" : "EBCDIC");
        c.count(b[0] == 'C' ? "text_ascii" : "text_ebcdic");
        f.reset();
    }
    do_reads(c, path, m, cfg, piol, b, r.in(2, 5), "C02");
    pm::delays(0, 0, 0);
    c.count(m.fmt == 1 ? "ibm_files" : "ieee_files");
    c.sample("foreign file ns=" + std::to_string(m.ns) + " nt=" + std::to_string(m.nt) + " format " + std::to_string(m.fmt) + " " + cfg.str());
    c.check(!piol->log->isErr(), "C02,C04", "spurious-error", "an error was recorded although every operation succeeded");
    barrier();
}

// headers carried through the library with the copy entry
SCENARIO(file_copy, "C08,C15,C22", 1, 8, 1)
{
    Rng& r = c.rng;
    F m;
    std::string ascii, path = c.path("in.segy"), out = c.path("out.segy");
    Bytes b = gen_foreign(r, m, &ascii, true);
    if (m.nt == 0) {
        m.nt = r.in(1, 20);
        b.resize(segy::fsize(m.nt, m.ns));
        for (size_t i = 3600; i < b.size(); i++) b[i] = r.next();
        for (size_t k = 0; k < m.nt; k++)
            for (int l : {69, 71, 201}) segy::put16(&b[segy::off(k, m.ns)] + l - 1, 1);
    }
    spew0(c, path, b);
    auto piol = new_piol();
    auto ci = gen_cfg(r, m.ns), co = gen_cfg(r, m.ns);
    if (r.chance(0.1)) co.unit = 1e-7;
    if (r.chance(0.3)) pm::delays(0.05, 200, c.lrng.next());
    RuleSpec rs = gen_rule(r, false);
    rs.copy     = true;
    RuleSpec ws = r.chance(0.5) ? rs : gen_rule(r, false);
    ws.copy     = true;
    // which fields are set explicitly afterwards (a subset of the write rule)
    std::vector<size_t> setm;
    for (auto x : ws.metas)
        if (r.chance(0.4)) setm.push_back(x);
    // output trace j holds input trace perm[j]
    std::vector<size_t> perm(m.nt);
    for (size_t i = 0; i < m.nt; i++) perm[i] = i;
    int how = r.in(0, 2);
    if (how == 2)
        for (auto& x : perm) x = r.next() % m.nt;
    auto sh = shares(r, m.nt, c.np);
    size_t a = 0;
    for (int p = 0; p < c.rank; p++) a += sh[p];
    size_t n = sh[c.rank];
    std::vector<size_t> mine(perm.begin() + a, perm.begin() + a + n);
    bool with_trc = r.chance(0.5);
    std::vector<Trc> want(m.nt);
    {
        auto f = open_reader(piol, path, ci, r.chance(0.5));
        auto w = open_writer(piol, out, co, r.chance(0.5));
        w->writeNs(m.ns);
        w->writeInc(m.inc * co.unit);
        w->writeText("x");
        w->writeNt(m.nt);
        Param p(rs.make(), n);
        poison(&p, c.seed);
        std::vector<float> trc(n * m.ns);
        float* tp = with_trc ? trc.data() : const_cast<float*>(TRACE_NULL);
        size_t o = n ? mine[0] : 0;
        if (how == 0 && with_trc) f->readTrace(o, n, tp, &p);
        else if (how == 0) f->readParam(o, n, &p);
        else if (how == 1 && with_trc) f->readTraceNonContiguous(n, mine.data(), tp, &p);
        else if (how == 1) f->readParamNonContiguous(n, mine.data(), &p);
        else f->readTraceNonMonotonic(n, mine.data(), tp, &p);
        // optionally through another structure, with the same or another rule
        bool via = r.chance(0.6) || ws.metas != rs.metas;
        Param q(ws.make(), n + 2);
        poison(&q, c.seed + 1);
        Param* wp   = &p;
        size_t skip = 0;
        if (via) {
            skip = r.in(0, 2);
            for (size_t i = 0; i < n; i++) param_utils::cpyPrm(i, &p, i + skip, &q);
            wp = &q;
        }
        // expected: copied bytes, with the listed parameters' values
        for (size_t j = 0; j < m.nt; j++) {
            const unsigned char* md = &b[segy::off(perm[j], m.ns)];
            Trc& t = want[j];
            t.hw   = true;
            t.rs   = ws;
            t.h.copy.assign(md, md + 240);
            Rng q2(c.seed + j);
            Hdr g = gen_hdr(q2, ws);
            for (auto x : ws.metas) {
                auto* fd = segy::field(x);
                bool st  = std::find(setm.begin(), setm.end(), x) != setm.end();
                if (fd->kind == 'f') t.h.f[x] = st ? g.f[x] : double(segy::decode(md, *fd));
                else t.h.i[x] = st ? g.i[x] : int64_t(segy::decode(md, *fd));
            }
            if (j >= a && j < a + n)
                for (auto x : setm) {
                    size_t k = skip + j - a;
                    auto* fd = segy::field(x);
                    if (fd->kind == 'f') param_utils::setPrm(k, x, t.h.f[x], wp);
                    else if (fd->kind == 'l') param_utils::setPrm(k, x, exseis::utils::Integer(t.h.i[x]), wp);
                    else param_utils::setPrm(k, x, int16_t(t.h.i[x]), wp);
                }
        }
        std::vector<size_t> dst(n);
        for (size_t i = 0; i < n; i++) dst[i] = a + i;
        int hw = r.in(0, 1);
        if (with_trc) {
            if (hw) w->writeTrace(a, n, trc.data(), wp, skip);
            else w->writeTraceNonContiguous(n, dst.data(), trc.data(), wp, skip);
        }
        else {
            if (hw) w->writeParam(a, n, wp, skip);
            else w->writeParamNonContiguous(n, dst.data(), wp, skip);
        }
        c.count(via ? "via_copy" : "direct");
        c.count("set_fields", setm.size() * n);
        c.evaluation(splitmix(c.seed + c.rank), n > 0);
    }
    pm::delays(0, 0, 0);
    barrier();
    if (c.rank == 0) {
        Bytes d = slurp(out);
        if (c.check(d.size() == segy::fsize(m.nt, m.ns), "C08,C01", "copy-size", "output has %zu bytes, expected %zu", d.size(), segy::fsize(m.nt, m.ns))) {
            int bad = 0;
            for (size_t j = 0; j < m.nt && bad < 3; j++) {
                std::string w, e = cmp_header(&d[segy::off(j, m.ns)], want[j], &w);
                if (!e.empty()) {
                    c.check(false, "C08", ("copy-" + w).c_str(), "output trace %zu (copied from %zu; read rule %s, write rule %s, %zu fields set): %s", j, perm[j], rs.name.c_str(), ws.name.c_str(), setm.size(), e.c_str());
                    bad++;
                }
            }
            c.count("copied_headers_checked", m.nt);
        }
        c.sample("copy of " + std::to_string(m.nt) + " headers, read rule " + rs.name + ", write rule " + ws.name + ", " + std::to_string(setm.size()) + " fields set, access " + std::to_string(how));
    }
    c.check(!piol->log->isErr(), "C08,C04", "spurious-error", "an error was recorded although every operation succeeded");
    barrier();
}

// C16: any bytes of any length, opened and read as SEG-Y
SCENARIO(malformed, "C16,C15", 1, 4, 1)
{
    Rng& r = c.rng;
    F m;
    std::string ascii, path = c.path("m.segy"), how;
    Bytes b;
    int base = r.in(0, 9);
    if (base == 0) {
        b.resize(r.chance(0.5) ? r.in(0, 3700) : r.in(0, 20000));
        for (auto& x : b) x = r.next();
        how = "random bytes";
    }
    else {
        b   = gen_foreign(r, m, &ascii, r.chance(0.3));
        how = "generated file";
    }
    auto u16 = [&] {
        static const std::vector<int> e = {0, 1, 2, 0x7fff, 0x8000, 0x8001, 0xffff, 0xff00, 0xffc4, 0xffc3, 240, 3600, 255, 256};
        return r.chance(0.5) ? r.pick(e) : r.chance(0.5) ? int(r.in(0, 300)) : int(r.in(0, 0xffff));
    };
    for (int k = r.in(0, 3); k > 0; k--) {
        int w = r.in(0, 7);
        if (w == 0 && b.size() >= 3222) { segy::put16(&b[3220], u16()); how += ", ns"; }
        else if (w == 1 && b.size() >= 3226) { segy::put16(&b[3224], r.chance(0.5) ? int(r.in(0, 20)) : u16()); how += ", format"; }
        else if (w == 2 && b.size() >= 3218) { segy::put16(&b[3216], u16()); how += ", interval"; }
        else if (w == 3) {
            size_t t = segy::dosz(m.ns);
            size_t n = r.chance(0.3) ? r.next() % (b.size() + 1) : r.chance(0.3) ? std::min<size_t>(b.size(), r.in(3190, 3610)) : b.size() - std::min<size_t>(b.size(), r.in(0, 2 * t));
            b.resize(n);
            how += ", cut to " + std::to_string(n);
        }
        else if (w == 4) {
            size_t n = r.chance(0.2) ? r.in(0, 70000) : r.in(0, 600);
            for (size_t i = 0; i < n; i++) b.push_back(r.next());
            how += ", " + std::to_string(n) + " bytes appended";
        }
        else if (w == 5 && b.size()) {
            for (int i = r.in(1, 40); i > 0; i--) b[r.next() % b.size()] = r.next();
            how += ", bytes changed";
        }
        else if (w == 6 && b.size() > 3600) {  // trace headers with extreme values
            for (size_t i = 3600; i < b.size(); i++)
                if (r.chance(0.3)) b[i] = r.chance(0.5) ? 0xff : r.chance(0.5) ? 0x80 : 0;
            how += ", extreme headers";
        }
        else if (w == 7 && b.size() >= 3600) {  // samples per trace that divide the rest exactly, or just do not
            size_t left = b.size() - 3600, n = r.in(1, 4);
            if (left / n >= 240) segy::put16(&b[3220], int(std::min<size_t>((left / n - 240) / 4 + r.in(0, 1), 0xffff)));
            how += ", ns fitted";
        }
    }
    spew0(c, path, b);
    auto piol = new_piol();
    DataCfg cfg;
    size_t ns = 0, nt = 0;
    {
        auto f = open_reader(piol, path, cfg, r.chance(0.5));
        ns     = f->readNs();
        nt     = f->readNt();
        size_t tx = f->readText().size();
        c.check(ns <= 0xffff, "C16", "ns", "%s: %zu samples per trace", how.c_str(), ns);
        c.check(tx == 0 || tx == 3200, "C16", "text-size", "%s: a text header of %zu bytes", how.c_str(), tx);
        size_t room = b.size() >= 3600 && ns <= 0xffff ? (b.size() - 3600) / segy::dosz(ns) : 0;
        if (!c.check(nt <= room, "C16", "nt", "%s: %zu traces of %zu samples reported, a file of %zu bytes has room for %zu", how.c_str(), nt, ns, b.size(), room)) return;
        f.reset();
    }
    size_t want = b.size() >= 3600 ? unsigned(segy::get16(&b[3220])) & 0xffff : 0;
    bool err    = piol->log->isErr();
    if (!c.check(err || ns == want, "C16", "ns-value", "%s: %zu samples per trace, the header says %zu", how.c_str(), ns, want)) return;
    m.ns  = ns;
    m.nt  = nt;
    m.inc = b.size() >= 3600 ? unsigned(segy::get16(&b[3216])) & 0xffff : 0;
    m.fmt = b.size() >= 3600 ? segy::get16(&b[3224]) : 5;
    cfg   = gen_cfg(r, m.ns);
    if (!err) do_reads(c, path, m, cfg, piol, b, r.in(2, 6), "C16");
    // what is built upon it
    if (!err && r.chance(nt ? 0.6 : 0.3)) {
        auto f = open_reader(piol, path, cfg, r.chance(0.5));
        auto v = getIlXlGathers(piol.get(), f->in());
        c.check(v.size() >= (nt ? 1 : 0) && v.size() <= nt, "C16", "gathers", "%s: %zu gathers in %zu traces", how.c_str(), size_t(v.size()), nt);
        auto rm  = makeFile<ReadSEGYModel>(piol, path);
        size_t n = c.lrng.in(0, 5);
        std::vector<size_t> l(n);
        for (auto& x : l) x = c.lrng.next() % std::max<size_t>(v.size(), 1);
        auto got = rm->readModel(n, l.data(), v);
        c.check(got.size() == n * ns, "C16", "model-size", "%s: %zu samples for %zu gathers of %zu", how.c_str(), got.size(), n, ns);
        c.count("models");
        barrier();
    }
    c.count(nt ? "readable_files" : b.size() >= 3600 ? "files_without_traces" : "short_files");
    if (want > 0x7fff) c.count("files_ns_above_32767");
    c.evaluation(hash_vec(b) ^ splitmix(c.np), !b.empty());
    if (c.rank == 0) c.sample(how + ": " + std::to_string(nt) + "x" + std::to_string(ns));
    barrier();
}
