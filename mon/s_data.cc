// C03: byte layer.  C04: failures recorded.  C15/C22 audited by the driver.
#include "lib.hh"
using namespace mon;
using namespace lib;

namespace {
struct Op {
    int kind;  // 0 contiguous 1 strided 2 list
    bool write;
    // per process
    std::vector<size_t> off, bsz, osz, nb;
    std::vector<std::vector<size_t>> list;
    std::vector<std::vector<size_t>> pos;  // byte positions of the blocks
};
}

// positions touched by process p: list of (offset, length)
static std::vector<std::pair<size_t, size_t>> blocks(const Op& o, int p)
{
    std::vector<std::pair<size_t, size_t>> b;
    if (o.kind == 0) {
        if (o.nb[p]) b.push_back({o.off[p], o.nb[p]});
    }
    else if (o.kind == 1)
        for (size_t i = 0; i < o.nb[p]; i++) b.push_back({o.off[p] + i * o.osz[p], o.bsz[p]});
    else
        for (auto x : o.list[p]) b.push_back({x, o.bsz[p]});
    return b;
}

static Op gen(Ctx& c, size_t L, bool write, size_t maxSize)
{
    Op o;
    Rng& r = c.rng;
    int np = c.np;
    o.kind = r.in(0, 2);
    o.write = write;
    o.off.assign(np, 0);
    o.bsz.assign(np, 1);
    o.osz.assign(np, 1);
    o.nb.assign(np, 0);
    o.list.assign(np, {});
    if (o.kind == 0) {
        if (write) {
            size_t n = r.next() % (L + 1), st = r.next() % (L - n + 1);
            auto s = shares(r, n, np);
            for (int p = 0; p < np; p++) {
                o.off[p] = st;
                o.nb[p]  = s[p];
                st += s[p];
            }
        }
        else
            for (int p = 0; p < np; p++) {
                if (r.chance(0.2) || L == 0) continue;
                o.off[p] = r.next() % L;
                o.nb[p]  = r.chance(0.3) ? L - o.off[p] : r.next() % (L - o.off[p] + 1);
            }
    }
    else {
        // the same block geometry on every process, as the upper layers use it
        size_t cap = maxSize ? maxSize / 2 : size_t(1) << 20;
        size_t osz = 1 + r.next() % std::min<size_t>({cap, L + 1, r.chance(0.5) ? size_t(64) : size_t(3000)});
        size_t bsz = r.chance(0.25) ? osz : 1 + r.next() % osz;
        size_t in  = r.next() % (osz - bsz + 1);
        size_t slots = L / osz;
        if (o.kind == 1) {
            if (write) {
                auto s    = shares(r, slots ? r.next() % (slots + 1) : 0, np);
                size_t at = 0;
                for (int p = 0; p < np; p++) {
                    o.bsz[p] = bsz;
                    o.osz[p] = osz;
                    o.off[p] = at * osz + in;
                    o.nb[p]  = s[p];
                    at += s[p];
                }
            }
            else
                for (int p = 0; p < np; p++) {
                    o.bsz[p] = bsz;
                    o.osz[p] = osz;
                    if (!slots || r.chance(0.2)) continue;
                    size_t a = r.next() % slots;
                    o.off[p] = a * osz + in;
                    o.nb[p]  = r.next() % (slots - a + 1);
                }
        }
        else {
            std::vector<size_t> sl;
            double d = r.uni();
            for (size_t i = 0; i < slots; i++)
                if (r.chance(d)) sl.push_back(i * osz + in);
            for (int p = 0; p < np; p++) o.bsz[p] = bsz;
            if (write) {
                if (r.chance(0.5)) {  // interleaved ownership
                    for (auto x : sl) o.list[r.in(0, np - 1)].push_back(x);
                }
                else {
                    auto s    = shares(r, sl.size(), np);
                    size_t at = 0;
                    for (int p = 0; p < np; p++) {
                        o.list[p].assign(sl.begin() + at, sl.begin() + at + s[p]);
                        at += s[p];
                    }
                }
            }
            else
                for (int p = 0; p < np; p++) {
                    if (r.chance(0.2)) continue;
                    for (auto x : sl)
                        if (r.chance(0.7)) o.list[p].push_back(x);
                }
            for (int p = 0; p < np; p++) o.nb[p] = o.list[p].size();
        }
    }
    return o;
}

SCENARIO(data_rw, "C03,C15,C22", 1, 8, 1)
{
    Rng& r   = c.rng;
    size_t L = r.chance(0.1) ? r.next() % 20 : r.next() % (r.chance(0.3) ? 60000 : 4000);
    Bytes img(L);
    for (auto& x : img) x = r.next();
    std::string f = c.path("d");
    spew0(c, f, img);
    DataCfg cfg;
    cfg.coll    = r.chance(0.7);
    cfg.maxSize = r.chance(0.25) ? 0 : r.chance(0.5) ? r.in(2, 40) : r.in(20, 3000);
    // few, small transfers only on small files (time)
    if (cfg.maxSize && L / cfg.maxSize > 400) cfg.maxSize = L / 400 + 2;
    if (r.chance(0.4)) pm::delays(0.05, 300, c.lrng.next());
    auto piol = new_piol();
    {
        auto d = open_data(piol, f, cfg, FileMode::ReadWrite);
        c.check(!d->isFileNull(), "C03", "open", "could not open");
        int nops = r.in(2, 7);
        uint64_t h = hash_bytes(f.data(), 0);
        for (int k = 0; k < nops; k++) {
            if (r.chance(0.12)) {
                size_t nl = r.chance(0.5) ? L + r.next() % 500 : r.next() % (L + 1);
                d->setFileSz(nl);
                img.resize(nl, 0);
                L = nl;
                barrier();
            }
            size_t gs = d->getFileSz();
            c.check(gs == L, "C03", "file-size", "reported size %zu, true size %zu", gs, L);
            Op o = gen(c, L, r.chance(0.5), cfg.maxSize);
            auto b       = blocks(o, c.rank);
            size_t bytes = 0;
            for (auto& x : b) bytes += x.second;
            Guarded g(bytes);
            const char* kn[] = {"contiguous", "strided", "list"};
            std::string what = std::string(kn[o.kind]) + (o.write ? " write" : " read") + " " + cfg.str() + " off=" + std::to_string(o.off[c.rank]) + " bsz=" + std::to_string(o.bsz[c.rank]) + " osz=" + std::to_string(o.osz[c.rank]) + " nb=" + std::to_string(o.nb[c.rank]) + " L=" + std::to_string(L);
            h = hash_bytes(what.data(), what.size(), h);
            if (o.write) {
                // content known to everybody
                for (int p = 0; p < c.np; p++) {
                    Rng w(c.seed ^ (k * 1000 + p));
                    size_t at = 0;
                    for (auto& x : blocks(o, p))
                        for (size_t i = 0; i < x.second; i++) {
                            unsigned char v = w.next();
                            if (x.first + i >= img.size()) continue;
                            img[x.first + i] = v;
                            if (p == c.rank) g.data()[at] = v;
                            at++;
                        }
                }
                Bytes before(g.data(), g.data() + bytes);
                if (o.kind == 0) d->write(o.off[c.rank], o.nb[c.rank], g.data());
                else if (o.kind == 1) d->write(o.off[c.rank], o.bsz[c.rank], o.osz[c.rank], o.nb[c.rank], g.data());
                else d->write(o.bsz[c.rank], o.nb[c.rank], o.list[c.rank].data(), g.data());
                c.check(memcmp(before.data(), g.data(), bytes) == 0 && g.intact(), "C03", "write-buffer", "%s changed the caller's buffer", what.c_str());
                barrier();
                Bytes got = slurp(f);
                size_t at = 0;
                while (at < got.size() && at < img.size() && got[at] == img[at]) at++;
                c.check(got == img, "C03", std::string(std::string("write-") + kn[o.kind]).c_str(), "%s: file differs at byte %zu (size %zu, expected %zu)", what.c_str(), at, got.size(), img.size());
                barrier();
            }
            else {
                if (o.kind == 0) d->read(o.off[c.rank], o.nb[c.rank], g.data());
                else if (o.kind == 1) d->read(o.off[c.rank], o.bsz[c.rank], o.osz[c.rank], o.nb[c.rank], g.data());
                else d->read(o.bsz[c.rank], o.nb[c.rank], o.list[c.rank].data(), g.data());
                size_t at = 0;
                bool ok   = true;
                for (auto& x : b)
                    for (size_t i = 0; i < x.second; i++, at++)
                        if (ok && g.data()[at] != img[x.first + i]) {
                            ok = false;
                            c.check(false, "C03", std::string(std::string("read-") + kn[o.kind]).c_str(), "%s: byte %zu of the buffer (file byte %zu) is %d, file has %d", what.c_str(), at, x.first + i, g.data()[at], img[x.first + i]);
                        }
                c.check(g.intact(), "C03", "read-overrun", "%s wrote outside its buffer", what.c_str());
                // a later write of another process must not overtake this read
                barrier();
            }
            c.count("bytes", bytes);
            c.count(std::string("op_") + kn[o.kind] + (o.write ? "_write" : "_read"));
            c.evaluation(splitmix(h + k * 77 + c.rank), bytes > 0);
            if (k == 0) c.sample(what);
        }
        c.check(!piol->log->isErr(), "C03,C04", "spurious-error", "an error was recorded although every operation succeeded");
    }
    pm::delays(0, 0, 0);
    barrier();
    Bytes got = slurp(f);
    c.check(got == img, "C03", "final-image", "file differs from the expected bytes after closing");
    c.count("conserved_bytes", img.size());
}

// sequential writes that extend a new file; several files open at once
SCENARIO(data_new, "C03,C15,C22", 1, 8, 0.3)
{
    Rng& r = c.rng;
    auto piol = new_piol();
    DataCfg cfg;
    cfg.coll    = r.chance(0.7);
    cfg.maxSize = r.chance(0.4) ? 0 : r.in(16, 400);
    size_t n    = r.in(0, 3000);
    auto s      = shares(r, n, c.np);
    size_t off  = r.in(0, 50), o0 = off;
    for (int p = 0; p < c.rank; p++) off += s[p];
    Bytes img(n ? o0 + n : 0, 0);
    for (size_t i = 0; i < n; i++) img[o0 + i] = r.next();
    {
        auto a = open_data(piol, c.path("a"), cfg, FileMode::Write);
        auto b = open_data(piol, c.path("b"), cfg, FileMode::Test);
        Bytes mine(img.begin() + std::min(off, img.size()), img.begin() + std::min(off + s[c.rank], img.size()));
        Guarded g(mine.size());
        std::copy(mine.begin(), mine.end(), g.data());
        b->write(off, mine.size(), g.data());
        a->write(off, mine.size(), g.data());
        barrier();
        c.check(a->getFileSz() == img.size() && b->getFileSz() == img.size(), "C03", "file-size", "size after writing %zu bytes at %zu: %zu and %zu", n, o0, a->getFileSz(), b->getFileSz());
        Guarded q(img.size());
        b->read(0, img.size(), q.data());
        c.check(memcmp(q.data(), img.data(), img.size()) == 0 && q.intact(), "C03", "read-contiguous", "reading back %zu bytes", img.size());
        barrier();
    }
    barrier();
    c.check(slurp(c.path("a")) == img, "C03", "final-image", "new file differs");
    c.check(!file_exists(c.path("b")), "C03", "test-mode", "a test-mode file survived its closing");
    c.check(!piol->log->isErr(), "C03,C04", "spurious-error", "an error was recorded although every operation succeeded");
    c.evaluation(splitmix(n * 31 + o0 + cfg.maxSize), n > 0);
}
