// C04: failures of the MPI-IO layer, misuse and the error latch.
#include "lib.hh"
#include <fcntl.h>
using namespace mon;
using namespace lib;

static const int ERRS[] = {MPI_ERR_IO, MPI_ERR_NO_SPACE, MPI_ERR_ACCESS, MPI_ERR_QUOTA, MPI_ERR_OTHER, MPI_ERR_ARG, MPI_ERR_READ_ONLY, MPI_ERR_NO_SUCH_FILE, MPI_ERR_FILE};
static int pick_err(Rng& r) { return ERRS[r.next() % (sizeof(ERRS) / sizeof(int))]; }

// after an operation: an error is recorded exactly where one was injected
static void judge(Ctx& c, Piol& piol, int hits, const char* key, const std::string& what)
{
    bool e = piol->log->isErr();
    if (hits) c.check(e, "C04", (std::string("unreported-") + key).c_str(), "%s failed on process %d, but no error is recorded", what.c_str(), c.rank);
    else
        c.check(!e, "C04", (std::string("spurious-") + key).c_str(), "%s did not fail on process %d, but an error is recorded", what.c_str(), c.rank);
    c.count(hits ? "failures_observed" : "successes_observed");
}

// one byte-layer operation with at most one failing MPI call per process
SCENARIO(fault_data, "C04", 1, 4, 2)
{
    Rng& r   = c.rng;
    size_t L = r.in(200, 4000);
    Bytes img(L, 7);
    std::string f = c.path("d");
    spew0(c, f, img);
    DataCfg cfg;
    cfg.coll    = r.chance(0.6);
    cfg.maxSize = r.chance(0.3) ? 0 : r.in(64, 600);
    // a failed view or type makes the audit of handles and call matching meaningless
    c.skip_audit = true;
    auto piol = new_piol();
    int hits  = 0;
    std::string hist;
    {
        // opening: MPI_File_open and the initial view
        std::shared_ptr<DataMPIIO> d;
        {
            int err = pick_err(r), how = r.in(0, 11);
            if (how == 0) pm::fault("OPEN", 1, err);
            if (how == 1) pm::fault("VIEW", 1, err);
            d = open_data(piol, f, cfg, FileMode::ReadWrite);
            if (how < 2) hits += pm::faults_hit();
            pm::fault_clear();
            judge(c, piol, hits, "open", how == 0 ? "opening the file" : "setting the initial view");
            c.evaluation(splitmix(how * 977 + err), how < 2);
            if (how == 0) return;  // no file to go on with
        }
        int nops = r.in(1, 4), kf = r.in(0, nops - 1);  // one failure, somewhere
        for (int k = 0; k < nops; k++) {
            int kind   = r.in(0, 7);  // 0 read 1 write 2 readv 3 writev 4 list read 5 list write 6 size 7 resize
            size_t bsz = r.in(1, 20), osz = bsz + r.in(0, 12);
            size_t nbm = std::min<size_t>(L / osz, 120);
            std::vector<size_t> n;
            for (int p = 0; p < c.np; p++) n.push_back(r.chance(0.15) ? 0 : r.next() % (nbm + 1));
            size_t m = n[c.rank];
            std::vector<unsigned char> b(L + 64, 9);
            std::vector<size_t> list;
            for (size_t i = 0; i < m; i++) list.push_back(i * osz);
            static const char* grp[8][3] = {{"READ", "READ", "READ"}, {"WRITE", "WRITE", "WRITE"}, {"READ", "VIEW", "TYPE"}, {"WRITE", "VIEW", "TYPE"}, {"READ", "VIEW", "TYPE"}, {"WRITE", "VIEW", "TYPE"}, {"SIZE", "SIZE", "SIZE"}, {"RESIZE", "RESIZE", "RESIZE"}};
            const char* g = grp[kind][r.in(0, 2)];
            int nth = r.chance(0.5) ? 1 : r.in(1, 8), err = pick_err(r);
            bool inject = k == kf && r.chance(0.9);
            // a process that skips the rest of a collective operation would keep
            // the others waiting: then all fail alike
            bool all  = g[0] == 'T' || (g[0] == 'V' && kind >= 4) || r.chance(0.4);
            bool mine = false;
            for (int p = 0; p < c.np; p++) {
                bool x = all || r.chance(0.5);
                if (p == c.rank) mine = x;
            }
            if (inject && mine) pm::fault(g, nth, err);
            switch (kind) {
                case 0: d->read(r.next() % 20, std::min(m * osz, L - 20), b.data()); break;
                case 1: d->write(r.next() % 20, std::min(m * osz, L - 20), b.data()); break;
                case 2: d->read(3, bsz, osz, m, b.data()); break;
                case 3: d->write(3, bsz, osz, m, b.data()); break;
                case 4: d->read(bsz, m, list.data(), b.data()); break;
                case 5: d->write(bsz, m, list.data(), b.data()); break;
                case 6: d->getFileSz(); break;
                case 7: d->setFileSz(L); break;
            }
            int now = inject && mine ? pm::faults_hit() : 0;
            hits += now;
            pm::fault_clear();
            static const char* nm[] = {"contiguous read", "contiguous write", "strided read", "strided write", "list read", "list write", "size query", "resize"};
            std::string what = std::string(nm[kind]) + " (call " + std::to_string(nth) + " of kind " + g + ", " + cfg.str() + ", " + std::to_string(m) + " blocks)";
            static const char* key[] = {"read", "write", "strided-read", "strided-write", "list-read", "list-write", "size", "resize"};
            judge(c, piol, hits, key[kind], what);
            if (now) c.distinct("failing_call_sites", splitmix(kind * 100 + g[0] + cfg.coll * 1000 + nth * 10000));
            c.evaluation(splitmix(kind + 10 * nth + 100 * g[0] + 100000 * cfg.coll + 1000000 * inject) ^ splitmix(cfg.maxSize) ^ m * 31, inject);
            if (k == 0) c.sample(what + (now ? " failed" : ""));
        }
        if (r.chance(0.2)) {
            pm::fault("CLOSE", 1, MPI_ERR_IO);
            d.reset();
            hits += pm::faults_hit();
            pm::fault_clear();
            judge(c, piol, hits, "close", "closing the file");
        }
    }
    judge(c, piol, hits, "latched", "an operation before");
    barrier();
}

// the same through the file layer; every process fails at the same point
SCENARIO(fault_file, "C04", 1, 3, 2)
{
    Rng& r    = c.rng;
    size_t ns = r.in(1, 20), nt = r.in(1, 40);
    std::string f = c.path("s");
    {
        Bytes b = segy::header(std::string(3200, ' '), ns, 1000, 5);
        b.resize(segy::fsize(nt, ns), 0);
        spew0(c, f, b);
    }
    DataCfg cfg;
    cfg.coll    = r.chance(0.6);
    cfg.maxSize = r.chance(0.5) ? 0 : r.in(2 * int(240 + 4 * ns), 3000);
    c.skip_audit = true;
    auto piol    = new_piol();
    int hits     = 0;
    auto inject  = [&](const std::function<void()>& op, std::vector<const char*> g, const char* key, const std::string& what) {
        const char* q = g[r.next() % g.size()];
        int nth = r.chance(0.6) ? 1 : r.in(1, 6), err = pick_err(r);
        bool on = r.chance(0.7);
        if (on) pm::fault(q, nth, err);
        op();
        int now = on ? pm::faults_hit() : 0;
        hits += now;
        pm::fault_clear();
        judge(c, piol, hits, key, what + " (call " + std::to_string(nth) + " of kind " + q + ", " + cfg.str() + ")");
        if (now) c.distinct("failing_call_sites", hash_bytes(key, strlen(key)) ^ splitmix(q[0] + 1000 * nth + 100000 * cfg.coll));
        c.evaluation(hash_bytes(key, strlen(key)) ^ splitmix(q[0] * 7 + nth * 1000 + on) ^ splitmix(ns * 100 + nt), on);
        c.sample(what + (now ? " failed" : ""));
        return now != 0;
    };
    // if only some failed, the remaining collective calls of destructors would
    // not match; let all agree
    auto agree = [&] {
        if (any(piol->log->isErr()) && !piol->log->isErr()) {
            piol->log->record("", Logger::Layer::PIOL, Logger::Status::Error, "agreed", PIOL_VERBOSITY_NONE);
            hits++;
        }
    };
    auto s = shares(r, nt, c.np);
    size_t o = 0;
    for (int p = 0; p < c.rank; p++) o += s[p];
    size_t n = s[c.rank];
    if (r.chance(0.5)) {
        std::unique_ptr<ReadSEGY> rd;
        inject([&] { rd = open_read(piol, f, cfg); }, {"SIZE", "READ", "VIEW", "READ"}, "open-read", "opening a SEG-Y file for reading");
        agree();
        // the sizes of a file that could not be read mean nothing
        int nops = any(piol->log->isErr()) ? 0 : r.in(1, 3);
        for (int k = 0; k < nops; k++) {
            std::vector<float> t(n * ns + 1);
            Param p(n);
            std::vector<size_t> l(n);
            for (size_t i = 0; i < n; i++) l[i] = o + i;
            int kind = r.in(0, 5);
            inject([&] {
                switch (kind) {
                    case 0: rd->readTrace(o, n, t.data(), &p); break;
                    case 1: rd->readTrace(o, n, t.data()); break;
                    case 2: rd->readParam(o, n, &p); break;
                    case 3: rd->readTraceNonContiguous(n, l.data(), t.data(), &p); break;
                    case 4: rd->readTraceNonMonotonic(n, l.data(), t.data(), &p); break;
                    case 5: rd->readParamNonContiguous(n, l.data(), &p); break;
                }
            }, kind == 0 ? std::vector<const char*>{"READ"} : std::vector<const char*>{"READ", "VIEW", "TYPE"}, "file-read", "reading traces, pattern " + std::to_string(kind));
            agree();
        }
    }
    else {
        std::unique_ptr<WriteSEGY> w;
        inject([&] { w = open_write(piol, f, cfg); }, {"VIEW"}, "open-write", "opening a SEG-Y file for writing");
        agree();
        w->writeNs(ns);
        w->writeInc(1e-3);
        int nops = r.in(1, 3);
        for (int k = 0; k < nops; k++) {
            std::vector<float> t(n * ns + 1);
            Param p(n);
            std::vector<size_t> l(n);
            for (size_t i = 0; i < n; i++) l[i] = o + i;
            int kind = r.in(0, 4);
            inject([&] {
                switch (kind) {
                    case 0: w->writeTrace(o, n, t.data(), &p); break;
                    case 1: w->writeTrace(o, n, t.data()); break;
                    case 2: w->writeParam(o, n, &p); break;
                    case 3: w->writeTraceNonContiguous(n, l.data(), t.data(), &p); break;
                    case 4: w->writeParamNonContiguous(n, l.data(), &p); break;
                }
            }, kind == 0 ? std::vector<const char*>{"WRITE"} : std::vector<const char*>{"WRITE", "VIEW", "TYPE"}, "file-write", "writing traces, pattern " + std::to_string(kind));
            agree();
        }
        inject([&] { w.reset(); }, {"RESIZE", "WRITE"}, "finish", "completing the file (size and file header)");
    }
    agree();
    barrier();
}

// real failures: files that cannot be opened, operations the mode forbids
SCENARIO(real_fail, "C04", 1, 3, 0.5)
{
    Rng& r = c.rng;
    c.skip_audit = true;
    DataCfg cfg;
    cfg.coll = r.chance(0.6);
    std::string f = c.path("x");
    spew0(c, f, Bytes(5000, 1));
    int how = r.in(0, 5);
    auto piol = new_piol();
    std::vector<unsigned char> b(600, 3);
    size_t m = r.in(1, 500);
    const char* what = "";
    bool expect = true;
    if (how == 0) {
        what = "opening a missing file for reading";
        auto d = open_data(piol, c.path("missing"), cfg, FileMode::Read);
        c.check(d->isFileNull(), "C04", "missing-file-open", "a missing file was opened");
        c.check(!file_exists(c.path("missing")), "C04", "missing-file-created", "opening for reading created the file");
    }
    else if (how == 1) {
        what = "opening a file in a missing directory for writing";
        auto d = open_data(piol, c.path("nodir/f"), cfg, FileMode::Write);
    }
    else if (how == 2) {
        what = "writing to a file opened for reading";
        auto d = open_data(piol, f, cfg, FileMode::Read);
        d->write(0, m, b.data());
    }
    else if (how == 3) {
        what = "reading from a file opened for writing";
        auto d = open_data(piol, f, cfg, FileMode::Write);
        d->read(0, m, b.data());
    }
    else if (how == 4) {
        what = "resizing a file opened for reading";
        auto d = open_data(piol, f, cfg, FileMode::Read);
        d->setFileSz(m);
    }
    else {
        what   = "reading an existing file";
        expect = false;
        auto d = open_data(piol, f, cfg, FileMode::Read);
        d->read(0, m, b.data());
        d->getFileSz();
    }
    barrier();
    bool e = piol->log->isErr();
    c.check(e == expect, "C04", expect ? "unreported-real" : "spurious-real", "%s (%s): %s", what, cfg.str().c_str(), e ? "an error is recorded" : "no error is recorded");
    if (how == 2 || how == 4) {
        c.check(slurp(f) == Bytes(5000, 1), "C04", "forbidden-effect", "%s changed the file", what);
    }
    c.evaluation(splitmix(how * 1000 + m + cfg.coll * 7), expect);
    c.count(expect ? "failures_observed" : "successes_observed");
    barrier();
}

// misuse of the writer: what SEG-Y cannot hold must be reported
SCENARIO(misuse, "C04", 1, 2, 0.5)
{
    Rng& r = c.rng;
    c.skip_audit = true;
    DataCfg cfg;
    auto piol = new_piol();
    bool bad  = false;
    std::string what;
    {
        auto w = open_write(piol, c.path("m"), cfg);
        int k  = r.in(0, 3);
        size_t ns = r.chance(0.5) ? r.in(0, 32767) : r.chance(0.5) ? size_t(32768) + r.next() % 100000 : (r.chance(0.5) ? size_t(32767) : size_t(1) << r.in(15, 63));
        double inc = 1e-3;
        if (k == 0) {
            w->writeNs(ns);
            bad  = ns > 32767;
            what = "sample count " + std::to_string(ns);
        }
        else if (k == 1) {
            static const double v[] = {0.0, -0.0, INFINITY, -INFINITY, NAN, 5e-324, 1e-310, 1e-3, 4e-3, 0.032, 1e-6, 2.5e-4,
                                       0.065535, 0.065536, 4.0, -4e-3, -1e-6, 4e-7, 6e-7, 1e300, 0.0655354, 9300000};
            inc  = v[r.in(0, 21)];
            bad  = !std::isnormal(inc) || !(inc > 5e-7 && inc < 0.0655355);
            what = "interval " + std::to_string(inc);
            w->writeInc(inc);
        }
        else if (k == 2) {
            std::vector<float> t(8, 1.f);
            size_t n = c.rank == 0 ? 1 : 0, at = r.in(0, 3);
            auto rule = std::make_shared<Rule>(true, true);
            Param p(rule, 1);
            int how = r.in(0, 3);
            if (how == 0) w->writeTrace(at, n, t.data());
            if (how == 1) w->writeTraceNonContiguous(n, &at, t.data());
            if (how == 2) w->writeTrace(at, n, t.data(), &p);
            if (how == 3) w->writeTraceNonContiguous(n, &at, t.data(), &p);
            bad  = true;
            what = "trace before the sample count (" + std::to_string(how) + ")";
        }
        else {
            std::vector<float> t(8, 1.f);
            w->writeNs(4);
            w->writeTrace(size_t(c.rank), 1, t.data());
            what = "trace after the sample count";
        }
        c.check(piol->log->isErr() == bad, "C04", bad ? "unreported-misuse" : "spurious-misuse", "%s: %s", what.c_str(), bad ? "no error is recorded" : "an error is recorded");
    }
    c.evaluation(hash_bytes(what.data(), what.size()), bad);
    c.count(bad ? "failures_observed" : "successes_observed");
    barrier();
}

// the error latch and the log list against a model
SCENARIO(log_model, "C04", 1, 1, 1)
{
    Rng& r = c.rng;
    int maxl = r.in(0, 4);
    // the log is printed when it is processed
    int fd = dup(2);
    if (!freopen("/dev/null", "w", stderr)) return;
    {
        Logger lg{Verbosity(maxl)};
        size_t cnt[10] = {0};
        bool err = false, bad = false;
        int n = r.in(0, 20);
        std::string why;
        uint64_t h = maxl;
        for (int i = 0; i < n && !bad; i++) {
            int st = r.in(0, 3), vb = r.in(0, 4), how = r.in(0, 9);
            h = splitmix(h * 131 + st * 20 + vb * 100 + how);
            auto S_ = st == 0 ? Logger::Status::Error : st == 1 ? Logger::Status::Warning : Logger::Status::Request;
            // from any layer
            auto L_ = std::vector<Logger::Layer>{Logger::Layer::Data, Logger::Layer::Object, Logger::Layer::File, Logger::Layer::Set, Logger::Layer::Ops, Logger::Layer::PIOL, Logger::Layer::Comm, Logger::Layer::API, Logger::Layer::Log, Logger::Layer::MPI}[r.in(0, 9)];
            std::string file(r.chance(0.5) ? "f" : ""), msg(r.chance(0.8) ? "message" : "");
            bool cond = r.chance(0.5), rec = true;
            if (how == 9) {
                lg.procLog();
                for (auto& x : cnt) x = 0;
                rec = false;
            }
            else if (how > 5) {
                lg.record(file, L_, S_, msg, Verbosity(vb), cond);
                rec = cond;
            }
            else
                lg.record(file, L_, S_, msg, Verbosity(vb));
            if (rec) {
                if (S_ == Logger::Status::Error) err = true;
                if (vb <= maxl) cnt[size_t(S_) % 10]++;
            }
            if (lg.isErr() != err) bad = true, why = err ? "the error is gone" : "an error without record";
            for (auto q : {Logger::Status::Error, Logger::Status::Warning, Logger::Status::Request})
                if (lg.numStat(q) != cnt[size_t(q) % 10]) bad = true, why = "wrong number of records";
        }
        fflush(stderr);
        dup2(fd, 2);
        c.check(!bad, "C04", "log-latch", "verbosity limit %d, after %d records: %s", maxl, n, why.c_str());
        c.evaluation(h, n > 0);
        int f2 = open("/dev/null", 1);
        dup2(f2, 2);
        close(f2);
    }
    fflush(stderr);
    dup2(fd, 2);
    close(fd);
}
