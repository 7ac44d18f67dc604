// C01 C02 C03 C11: files far larger than memory (sparse), positions around and
// beyond 2^31 and 2^32 bytes, and trace numbers beyond 2^32
#include "model.hh"

#include <fcntl.h>
#include <sys/stat.h>
using namespace model;

namespace {
const size_t P = 4096;
// a sparse image: the bytes ever set, by page; everything else is zero
struct Sparse {
    std::map<size_t, Bytes> pg;
    size_t size = 0;
    void put(size_t at, const void* d, size_t n)
    {
        auto s = static_cast<const unsigned char*>(d);
        for (size_t i = 0; i < n;) {
            size_t k = std::min(n - i, P - (at + i) % P);
            auto& b  = pg[(at + i) / P];
            if (b.empty()) b.resize(P, 0);
            memcpy(&b[(at + i) % P], s + i, k);
            i += k;
        }
        if (n) size = std::max(size, at + n);
    }
    void get(size_t at, void* d, size_t n) const
    {
        auto s = static_cast<unsigned char*>(d);
        for (size_t i = 0; i < n;) {
            size_t k = std::min(n - i, P - (at + i) % P);
            auto it  = pg.find((at + i) / P);
            if (it == pg.end()) memset(s + i, 0, k);
            else memcpy(s + i, &it->second[(at + i) % P], k);
            i += k;
        }
    }
    void resize(size_t n)
    {
        size = n;
        pg.erase(pg.lower_bound((n + P - 1) / P), pg.end());
        if (n % P && pg.count(n / P)) std::fill(pg[n / P].begin() + n % P, pg[n / P].end(), 0);
    }
    // first difference between the file and this image over all that either holds
    std::string diff(const std::string& f, size_t* bytes) const
    {
        int fd = open(f.c_str(), O_RDONLY);
        if (fd < 0) return "the file does not exist";
        struct stat st;
        fstat(fd, &st);
        std::string r;
        if (size_t(st.st_size) != size) r = "the file has " + std::to_string(st.st_size) + " bytes, expected " + std::to_string(size);
        auto page = [&](size_t p) {
            unsigned char a[P] = {0}, b[P];
            size_t n = std::min(P, std::min<size_t>(size, st.st_size) - p * P);
            ssize_t got = pread(fd, a, n, p * P);
            get(p * P, b, P);
            *bytes += n;
            if (got == ssize_t(n) && !memcmp(a, b, n)) return;
            for (size_t i = 0; i < n && r.empty(); i++)
                if (a[i] != b[i]) {
                    char t[120];
                    snprintf(t, sizeof t, "file byte %zu is 0x%02x, expected 0x%02x", p * P + i, a[i], b[i]);
                    r = t;
                }
        };
        // what the image holds is in the file
        if (r.empty())
            for (auto& p : pg)
                if (p.first * P < size) page(p.first);
        // and what the file holds anywhere is in the image
        for (off_t at = 0; r.empty();) {
            off_t a = lseek(fd, at, SEEK_DATA);
            if (a < 0) break;
            off_t e = lseek(fd, a, SEEK_HOLE);
            if (e < 0 || e > st.st_size) e = st.st_size;
            if (e - a > (64 << 20)) {
                r = "the file holds data from byte " + std::to_string(a) + " to " + std::to_string(e);
                break;
            }
            for (size_t p = a / P; p * P < size_t(e) && r.empty(); p++)
                if (!pg.count(p)) page(p);
            at = e;
        }
        close(fd);
        return r;
    }
    void spew(const std::string& f) const
    {
        int fd = open(f.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (fd < 0 || ftruncate(fd, size)) abort();
        for (auto& p : pg)
            if (p.first * P < size && pwrite(fd, p.second.data(), std::min(P, size - p.first * P), p.first * P) < 0) abort();
        close(fd);
    }
};
constexpr size_t G1 = size_t(1) << 30;

// a position near one of the limits of narrower arithmetic
size_t near_limit(Rng& r, size_t spread)
{
    static const int e[] = {30, 31, 31, 32, 32, 33, 34, 35};
    size_t x = size_t(1) << e[r.in(0, 7)];
    if (r.chance(0.15)) x = x * 3 / 2;
    return x - spread / 2 + r.next() % (spread + 1);
}
}  // namespace

// Open MPI's aggregating collective I/O fills the gaps of such a file, which would need as much memory
static bool sparse_ok() { return getenv("OMPI_MCA_fcoll") != nullptr; }

SCENARIO(data_far, "C03,C15,C22", 1, 6, 0.25)
{
    if (!sparse_ok()) return;
    Rng& r = c.rng;
    Sparse img;
    img.size = r.chance(0.1) ? near_limit(r, 10) : near_limit(r, 3000) + r.in(0, 4) * G1;
    for (int k = r.in(2, 12); k > 0; k--) {
        Bytes b(r.in(1, 3000));
        for (auto& x : b) x = r.next();
        size_t at = r.chance(0.6) ? near_limit(r, 4000) : r.next() % img.size;
        if (at + b.size() <= img.size) img.put(at, b.data(), b.size());
    }
    std::string f = c.path("d"), err;
    if (!c.rank) img.spew(f);
    barrier();
    DataCfg cfg;
    cfg.coll    = r.chance(0.7);
    auto piol   = new_piol();
    size_t seen = 0, beyond = 0;
    uint64_t h  = splitmix(img.size);
    {
        auto d = open_data(piol, f, cfg, FileMode::ReadWrite);
        c.check(!d->isFileNull(), "C03", "open", "could not open");
        for (int op = r.in(2, 5); op > 0; op--) {
            if (r.chance(0.15)) {
                size_t nl = near_limit(r, 3000) + r.in(0, 8) * G1;
                d->setFileSz(nl);
                img.resize(nl);
                barrier();
            }
            size_t gs = d->getFileSz();
            c.check(gs == img.size, "C03", "file-size", "reported size %zu, true size %zu", gs, img.size);
            int kind   = r.in(0, 2);
            bool write = r.chance(0.5);
            // blocks of every process; written ones are disjoint
            std::vector<std::vector<size_t>> at(c.np);
            size_t bsz, osz = 0;
            if (kind == 0) {
                bsz      = r.in(1, 5000);
                size_t x = near_limit(r, bsz * (c.np + 1));
                if (!write && r.chance(0.5)) x = img.size;  // up to the end
                x = std::min(x, img.size > bsz * c.np ? img.size - bsz * c.np : 0);
                for (int p = 0; p < c.np; p++)
                    if (!r.chance(0.15)) at[p].push_back(x + p * bsz);
            }
            else if (kind == 1) {
                bsz = r.in(1, 400);
                // as many blocks as the limit on one operation allows, or several operations
                osz = r.chance(0.4) ? r.in(G1 / 8, 536869888) : r.chance(0.5) ? r.in(1 << 20, G1 / 8) : r.in(bsz, 200000);
                osz = std::max(osz, bsz);
                size_t n = std::min<size_t>(img.size / osz, r.in(1, 24));
                size_t room = img.size / osz - n;
                size_t a    = room ? r.next() % (room + 1) : 0, in = r.next() % (osz - bsz + 1);
                if (room && r.chance(0.5)) a = std::min<size_t>(room, near_limit(r, osz * n) / osz);
                auto s = shares(r, n, c.np);
                size_t k = 0;
                for (int p = 0; p < c.np; p++)
                    for (size_t i = 0; i < s[p]; i++) at[p].push_back((a + k++) * osz + in);
            }
            else {
                bsz = r.in(1, 600);
                std::set<size_t> pos;
                for (int k = r.in(0, 20); k > 0; k--) {
                    size_t x = r.chance(0.6) ? near_limit(r, 6000) : r.next() % img.size;
                    x        = x / bsz * bsz + (bsz > 1 ? 1 : 0);
                    if (x + bsz <= img.size) pos.insert(x);
                }
                for (auto x : pos) at[r.in(0, c.np - 1)].push_back(x);
            }
            auto& my = at[c.rank];
            Guarded g(my.size() * bsz);
            const char* kn[] = {"contiguous", "strided", "list"};
            std::string what = std::string(kn[kind]) + (write ? " write" : " read") + " " + cfg.str() + " " + std::to_string(my.size()) + " blocks of " + std::to_string(bsz) + " stride " + std::to_string(osz) + " from " + std::to_string(my.empty() ? 0 : my[0]) + " of " + std::to_string(img.size);
            if (write) {
                for (int p = 0; p < c.np; p++)
                    for (size_t i = 0; i < at[p].size(); i++) {
                        Bytes b(bsz);
                        for (auto& x : b) x = r.next();
                        img.put(at[p][i], b.data(), bsz);
                        if (p == c.rank) memcpy(g.data() + i * bsz, b.data(), bsz);
                    }
                if (kind == 0) d->write(my.empty() ? 0 : my[0], my.empty() ? 0 : bsz, g.data());
                else if (kind == 1) d->write(my.empty() ? 0 : my[0], bsz, osz, my.size(), g.data());
                else d->write(bsz, my.size(), my.data(), g.data());
                barrier();
                err = img.diff(f, &seen);
                c.check(err.empty(), "C03", (std::string("write-") + kn[kind]).c_str(), "%s: %s", what.c_str(), err.c_str());
            }
            else {
                if (kind == 0) d->read(my.empty() ? 0 : my[0], my.empty() ? 0 : bsz, g.data());
                else if (kind == 1) d->read(my.empty() ? 0 : my[0], bsz, osz, my.size(), g.data());
                else d->read(bsz, my.size(), my.data(), g.data());
                for (size_t i = 0; i < my.size(); i++) {
                    Bytes b(bsz);
                    img.get(my[i], b.data(), bsz);
                    if (!c.check(!memcmp(b.data(), g.data() + i * bsz, bsz), "C03", (std::string("read-") + kn[kind]).c_str(), "%s: block %zu (file byte %zu) differs from the file", what.c_str(), i, my[i])) break;
                }
            }
            c.check(g.intact(), "C03", "read-overrun", "%s wrote outside its buffer", what.c_str());
            barrier();
            for (auto x : my) beyond += x >= 2 * G1 - 1;
            h = hash_bytes(what.data(), what.size(), h);
            c.count(std::string("far_") + kn[kind] + (write ? "_write" : "_read"));
            c.evaluation(h, !my.empty());
            if (op == 2) c.sample(what);
        }
        c.check(!piol->log->isErr(), "C03,C04", "spurious-error", "an error was recorded although every operation succeeded");
    }
    barrier();
    err = img.diff(f, &seen);
    c.check(err.empty(), "C03", "final-image", "after closing: %s", err.c_str());
    c.count("far_blocks_beyond_2GiB", beyond);
    c.count("far_bytes_compared", seen);
    barrier();
}

// one request of up to more than 2^31 bytes, which the library must split
SCENARIO(data_huge, "C03", 1, 2, 0.012)
{
    if (!sparse_ok()) return;
    Rng& r   = c.rng;
    // the library's limit for one transfer is about 2^29 bytes
    size_t n = r.chance(0.3) ? 2 * G1 + r.in(-2, 3) + (r.chance(0.5) ? r.in(1, 200000000) : 0) : 536869888 * size_t(r.in(1, 2)) + r.in(-2, 3) + (r.chance(0.5) ? r.in(1, 200000000) : 0);
    Sparse img;
    img.size  = n + r.in(0, 5000);
    size_t at = r.next() % (img.size - n + 1);
    for (int k = 0; k < 12; k++) {
        Bytes b(r.in(1, 3000));
        for (auto& x : b) x = r.next();
        size_t w = k == 0 ? at : k == 1 ? at + n - b.size() : k < 6 ? G1 / 2 * r.in(1, 4) - 3000 + r.in(0, 3000) : r.next() % n;
        if (w + b.size() <= img.size) img.put(w, b.data(), b.size());
    }
    std::string f = c.path("d");
    if (!c.rank) img.spew(f);
    barrier();
    auto piol = new_piol();
    DataCfg cfg;
    cfg.coll = r.chance(0.5);
    int who  = r.in(0, c.np - 1);
    {
        auto d    = open_data(piol, f, cfg, FileMode::Read);
        size_t my = c.rank == who ? n : r.in(0, 100);
        std::unique_ptr<unsigned char[]> b(new unsigned char[my + 64]);
        memset(b.get() + my, 0x5c, 64);
        d->read(at, my, b.get());
        bool guard = true;
        for (int i = 0; i < 64; i++) guard &= b[my + i] == 0x5c;
        c.check(guard, "C03", "read-overrun", "a read of %zu bytes wrote outside its buffer", my);
        Bytes w(P);
        size_t bad = my;
        for (size_t i = 0; i < my && bad == my;) {
            size_t k = std::min(my - i, P);
            img.get(at + i, w.data(), k);
            if (memcmp(w.data(), b.get() + i, k)) bad = i;
            i += k;
        }
        c.check(bad == my, "C03", "read-contiguous", "one read of %zu bytes at %zu: the buffer differs after byte %zu", my, at, bad);
        c.check(!piol->log->isErr(), "C03,C04", "spurious-error", "an error was recorded although the read succeeded");
        c.count("huge_read_bytes", my);
        c.evaluation(splitmix(n + at), my > 0);
    }
    barrier();
}

// SEG-Y files with traces far into the file
SCENARIO(file_far, "C01,C02,C15,C22", 1, 6, 0.2)
{
    if (!sparse_ok()) return;
    Rng& r = c.rng;
    // few long traces or extremely many short ones
    size_t ns = r.chance(0.5) ? r.in(8000, 32767) : r.in(0, 60), rec = 240 + 4 * ns;
    std::map<size_t, Trc> m;
    int inc  = r.in(1, 32767);
    auto pos = [&](size_t spread) {
        if (ns < 100 && r.chance(0.3)) return near_limit(r, spread);  // as a trace number
        return near_limit(r, spread * rec) / rec;
    };
    size_t nt = 0;
    std::string f = c.path("f.segy"), err;
    DataCfg cfg;
    cfg.coll  = r.chance(0.7);
    auto piol = new_piol();
    auto rs   = gen_rule(r, true);
    uint64_t h = splitmix(ns * 77 + inc);
    auto content = [&](Trc& t, bool ws, bool wh) {
        t.s.resize(ns, 0);
        if (ws)
            for (auto& v : t.s) v = gen_sample(r);
        if (wh) {
            t.hw = true;
            t.rs = rs;
            t.h  = gen_hdr(r, rs);
        }
    };
    auto spread = [&](const std::vector<size_t>& tr, bool run) {
        std::vector<std::vector<size_t>> d(c.np);
        if (run) {
            auto s    = shares(r, tr.size(), c.np);
            size_t at = 0;
            for (int p = 0; p < c.np; p++) {
                d[p].assign(tr.begin() + at, tr.begin() + at + s[p]);
                at += s[p];
            }
        }
        else
            for (auto x : tr) d[r.in(0, c.np - 1)].push_back(x);
        return d;
    };
    {
        auto w = open_writer(piol, f, cfg, r.chance(0.5));
        w->writeNs(ns);
        w->writeInc(inc * 1e-6);
        w->writeText("far");
        if (r.chance(0.5)) {
            nt = pos(2000) + r.in(0, 3) * (G1 / rec + 1);
            w->writeNt(nt);
        }
        for (int k = r.in(1, 4); k > 0; k--) {
            bool run = r.chance(0.5);
            std::set<size_t> set;
            if (run) {
                size_t n = r.in(1, ns > 100 ? 4 : 40), a = pos(n + 2);
                for (size_t i = 0; i < n; i++) set.insert(a + i);
            }
            else
                for (int i = r.in(0, ns > 100 ? 5 : 30); i > 0; i--) set.insert(pos(30));
            std::vector<size_t> tr(set.begin(), set.end());
            int what = r.in(0, 3);
            bool ws = what != 3, wh = what != 2;
            for (auto x : tr) {
                content(m[x], ws, wh);
                nt = std::max(nt, x + 1);
            }
            auto my = spread(tr, run)[c.rank];
            size_t n = my.size();
            Param prm(rs.make(), n);
            std::vector<float> trc(n * ns + 1);
            for (size_t i = 0; i < n; i++) {
                if (wh) fill_param(m[my[i]].h, rs, i, &prm);
                if (ws) memcpy(trc.data() + i * ns, m[my[i]].s.data(), ns * 4);
            }
            size_t o = n ? my[0] : 0;
            if (run && ws) w->writeTrace(o, n, trc.data(), wh ? &prm : PIOL_PARAM_NULL);
            else if (run) w->writeParam(o, n, &prm);
            else if (ws) w->writeTraceNonContiguous(n, my.data(), trc.data(), wh ? &prm : PIOL_PARAM_NULL);
            else w->writeParamNonContiguous(n, my.data(), &prm);
            h = hash_vec(tr, h + what);
            c.count("far_traces_written", n);
        }
    }
    c.check(!piol->log->isErr(), "C01,C04", "spurious-error", "an error was recorded although every operation succeeded");
    barrier();
    // the bytes, on every process: written traces, and nothing elsewhere
    Sparse img;
    Bytes hd = segy::header(std::string("far") + std::string(3197, '\0'), ns, inc, 5);
    img.put(0, hd.data(), hd.size());
    size_t seen = 0;
    int fd = open(f.c_str(), O_RDONLY);
    for (auto& x : m) {
        Bytes b(rec);
        // the header as found, once it is seen to hold what the model says
        ssize_t got = pread(fd, b.data(), 240, segy::off(x.first, ns));
        std::string wh, e = got == 240 ? cmp_header(b.data(), x.second, &wh) : got < 0 ? "unreadable" : "beyond the end of the file";
        if (!c.check(e.empty(), wh == "coord" ? "C01,C02,C06" : "C01,C02", ("far-" + wh).c_str(), "trace %zu of %zu samples (rule %s): %s", x.first, ns, rs.name.c_str(), e.c_str())) break;
        for (size_t i = 0; i < ns; i++) segy::put32(&b[240 + 4 * i], int32_t(x.second.s[i]));
        img.put(segy::off(x.first, ns), b.data(), rec);
    }
    close(fd);
    img.size = segy::fsize(nt, ns);
    err      = img.diff(f, &seen);
    c.check(err.empty(), "C01,C02", "far-disk", "%zu traces of %zu samples, %zu written: %s", nt, ns, m.size(), err.c_str());
    // reading
    {
        auto rd = open_reader(piol, f, cfg, r.chance(0.5));
        c.check(rd->readNt() == nt && rd->readNs() == ns, "C01,C02", "far-size", "%zu traces of %zu samples read as %zu of %zu", nt, ns, rd->readNt(), rd->readNs());
        for (int k = nt ? r.in(1, 5) : 0; k > 0; k--) {
            std::vector<size_t> my;
            int how = r.in(0, 3);  // 0 contiguous 1 list 2 any order 3 parameters, list
            Rng& l  = c.lrng;
            size_t most = ns > 100 ? 5 : 40;
            auto any = [&]() -> size_t {
                if (!m.empty() && l.chance(0.7)) {
                    auto it = m.lower_bound(l.next() % nt);
                    if (l.chance(0.5) || it == m.end()) {
                        it = m.begin();
                        std::advance(it, l.next() % m.size());
                    }
                    return it->first;
                }
                return l.chance(0.2) ? nt - 1 : l.next() % nt;
            };
            if (how == 0) {
                size_t a = any(), n = l.in(0, std::min<size_t>(most, nt - a));
                for (size_t i = 0; i < n; i++) my.push_back(a + i);
            }
            else {
                for (int i = l.in(0, most); i > 0; i--) my.push_back(any());
                if (how != 2) {
                    std::sort(my.begin(), my.end());
                    my.erase(std::unique(my.begin(), my.end()), my.end());
                }
            }
            size_t n = my.size();
            bool wp  = r.chance(0.6) || how == 3;
            Param prm(rs.make(), n);
            poison(&prm, c.seed);
            GuardedT<float> trc(n * ns);
            Param* pp = wp ? &prm : PIOL_PARAM_NULL;
            if (how == 0) rd->readTrace(n ? my[0] : 0, n, trc.data(), pp);
            else if (how == 1) rd->readTraceNonContiguous(n, my.data(), trc.data(), pp);
            else if (how == 2) rd->readTraceNonMonotonic(n, my.data(), trc.data(), pp);
            else rd->readParamNonContiguous(n, my.data(), &prm);
            std::string bad;
            for (size_t i = 0; i < n && bad.empty(); i++) {
                Bytes b(rec);
                img.get(segy::off(my[i], ns), b.data(), rec);
                if (how != 3)
                    for (size_t s = 0; s < ns && bad.empty(); s++) {
                        uint32_t v;
                        memcpy(&v, &trc[i * ns + s], 4);
                        if (v != uint32_t(segy::get32(&b[240 + 4 * s]))) bad = "sample " + std::to_string(s) + " of trace " + std::to_string(my[i]);
                    }
                if (wp && bad.empty()) {
                    bad = cmp_param(b.data(), rs, i, &prm);
                    if (!bad.empty()) bad = "trace " + std::to_string(my[i]) + ": " + bad;
                }
            }
            c.check(bad.empty() && trc.intact(), "C01,C02", "far-read", "%s read of %zu traces (%zu traces of %zu samples): %s", how == 0 ? "contiguous" : how == 1 ? "list" : how == 2 ? "unordered" : "parameter", n, nt, ns, bad.c_str());
            c.count("far_traces_read", n);
        }
    }
    c.check(!piol->log->isErr(), "C01,C04", "spurious-error", "an error was recorded although every operation succeeded");
    c.count("far_bytes_compared", seen);
    c.evaluation(h, !m.empty());
    c.sample(std::to_string(nt) + " traces of " + std::to_string(ns) + " samples, " + std::to_string(m.size()) + " written, " + cfg.str());
    barrier();
}
