// C22: communicators, handles and lifetimes.
#include "geo.hh"

#include "ExSeisDat/Flow.hh"
#include "ExSeisDat/PIOL/operations/sort.hh"

#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
using namespace mon;
using namespace lib;

// groups of processes run different work at the same time, each through an
// instance of its own; the work is that of the other scenarios, with their
// oracles
SCENARIO(groups, "C22!,C15", 2, 8, 2)
{
    static const std::set<std::string> usable = {"data_rw", "file_rw",     "file_foreign", "file_copy", "flow",       "model_read", "to_angle",  "gathers",
                                                 "minmax_array", "minmax_set", "sort_prm", "sort_check",   "distvec",   "text_write", "text_read",  "reductions"};
    Rng& r    = c.rng;
    int ng    = r.in(2, std::min(c.np, 3));
    std::vector<int> col(c.np), sz(ng, 0);
    for (int p = 0; p < c.np; p++) col[p] = p < ng ? p : int(r.in(0, ng - 1));
    r.shuffle(col);
    for (int x : col) sz[x]++;
    bool rev   = r.chance(0.4);
    bool idle  = r.chance(0.15);  // the last group has nothing to do
    int mine   = col[c.rank];
    MPI_Comm sub;
    {
        pm::Off o;
        PMPI_Comm_split(MPI_COMM_WORLD, mine, rev ? -c.rank : c.rank, &sub);
    }
    std::string name = "g" + std::to_string(mine);
    pm::name_comm(sub, name);
    std::string what;
    std::vector<const Scenario*> l;
    for (auto& s : registry())
        if (usable.count(s.name)) l.push_back(&s);
    std::sort(l.begin(), l.end(), [](const Scenario* a, const Scenario* b) { return a->name < b->name; });
    std::vector<std::vector<const Scenario*>> prog(ng);
    for (int g = 0; g < ng; g++) {
        int steps = idle && g == ng - 1 ? 0 : int(r.in(1, 3));
        while (int(prog[g].size()) < steps) {
            auto* s = r.pick(l);
            if (sz[g] >= s->min_np && sz[g] <= s->max_np) prog[g].push_back(s);
        }
        what += (g ? " | " : "") + std::to_string(sz[g]) + " processes:";
        for (auto* s : prog[g]) what += " " + s->name;
    }
    uint64_t before = pm::world_traffic();
    Ctx q        = c;
    q.also       = ",C22";
    q.audit_only = true;
    PMPI_Comm_rank(sub, &q.rank);
    PMPI_Comm_size(sub, &q.np);
    world(sub);
    int step = 0;
    for (auto* s : prog[mine]) {
        q.seed = splitmix(c.seed ^ splitmix(mine * 16 + step));
        q.rng  = Rng(q.seed);
        q.lrng = Rng(q.seed * 31 + q.rank + 1);
        q.dir  = c.path(name + "." + std::to_string(step++));
        if (q.rank == 0) mkdir(q.dir.c_str(), 0700);
        barrier();
        s->fn(q);
        barrier();
    }
    world(MPI_COMM_WORLD);
    pm::delays(0, 0, 0);
    uint64_t w = pm::world_traffic() - before;
    c.check(w == 0, "C22", "outside-traffic", "%s: %lu operations involved processes outside of the communicator", what.c_str(), (unsigned long)w);
    c.count("grouped_programs", prog[mine].size());
    c.evaluation(splitmix(hash_bytes(what.data(), what.size()) ^ hash_vec(col)) + c.rank, !prog[mine].empty());
    if (c.rank == 0) c.sample(what);
    barrier();
    pm::forget_comm(sub);
    PMPI_Comm_free(&sub);
}

static double clk()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}

SCENARIO(reductions, "C22!,C15", 1, 8, 1)
{
    Rng& r    = c.rng;
    auto piol = new_piol();
    c.check(int(piol->getRank()) == c.rank && int(piol->getNumRank()) == c.np && piol->comm->getRank() == piol->getRank() && piol->comm->getNumRank() == piol->getNumRank(), "C22", "rank", "process %d of %d is given as %zu of %zu", c.rank, c.np, size_t(piol->getRank()), size_t(piol->getNumRank()));
    for (int k = r.in(1, 5); k > 0; k--) {
        uint64_t big = r.chance(0.3) ? uint64_t(-1) : r.chance(0.3) ? (1ull << 40) : 100;
        uint64_t v   = c.lrng.chance(0.1) ? big : c.lrng.next() % big;
        if (r.chance(0.1)) v = 7;
        auto all     = allgather64(v);
        uint64_t sum = 0, mx = 0, mn = uint64_t(-1), off = 0;
        for (int p = 0; p < c.np; p++) {
            if (p < c.rank) off += all[p];
            sum += all[p];
            mx = std::max(mx, all[p]);
            mn = std::min(mn, all[p]);
        }
        if (r.chance(0.4)) pm::delays(0.1, 200, c.lrng.next());
        switch (r.in(0, 5)) {
            case 0: { auto g = piol->comm->sum(v); c.check(g == sum, "C22", "sum", "sum is %zu, expected %zu", size_t(g), size_t(sum)); break; }
            case 1: { auto g = r.chance(0.5) ? piol->max(v) : piol->comm->max(v); c.check(g == mx, "C22", "max", "maximum is %zu, expected %zu", size_t(g), size_t(mx)); break; }
            case 2: { auto g = piol->comm->min(v); c.check(g == mn, "C22", "min", "minimum is %zu, expected %zu", size_t(g), size_t(mn)); break; }
            case 3: { auto g = piol->comm->offset(v); c.check(g == off, "C22", "offset", "offset of process %d is %zu, expected %zu", c.rank, size_t(g), size_t(off)); break; }
            case 4: {
                size_t n = r.in(0, 4);
                std::vector<size_t> u(n);
                std::vector<exseis::utils::Integer> i(n);
                std::vector<float> f(n);
                std::vector<double> d(n);
                std::vector<uint64_t> w;
                for (size_t j = 0; j < n; j++) {
                    uint64_t x = c.lrng.next();
                    u[j] = x; i[j] = int64_t(x); f[j] = float(int64_t(x >> 40)); d[j] = double(int64_t(x)) / 3;
                    w.push_back(x);
                }
                auto e  = allgatherv64(w);
                bool ok = true;
                int t   = r.in(0, 3);
                auto cmp = [&](auto got, auto conv) {
                    ok = got.size() == e.size();
                    for (size_t j = 0; ok && j < e.size(); j++) ok = got[j] == conv(e[j]);
                };
                if (t == 0) cmp(piol->comm->gather(u), [](uint64_t x) { return size_t(x); });
                else if (t == 1) cmp(piol->comm->gather(i), [](uint64_t x) { return exseis::utils::Integer(int64_t(x)); });
                else if (t == 2) cmp(piol->comm->gather(f), [](uint64_t x) { return float(int64_t(x >> 40)); });
                else cmp(piol->comm->gather(d), [](uint64_t x) { return double(int64_t(x)) / 3; });
                c.check(ok, "C22", "gather", "gather %d of %zu values per process differs", t, n);
                break;
            }
            default: {
                if (c.lrng.chance(0.3)) usleep(c.lrng.in(0, 2000));
                double in = clk();
                piol->barrier();
                double out = clk();
                auto a     = allgatherd({in, out});
                double last = 0, first = 1e300;
                for (int p = 0; p < c.np; p++) {
                    last  = std::max(last, a[2 * p]);
                    first = std::min(first, a[2 * p + 1]);
                }
                c.check(first >= last, "C22,C15", "barrier", "a process left the barrier %.6f s before another entered it", last - first);
            }
        }
        pm::delays(0, 0, 0);
        c.count("reductions");
    }
    c.check(!piol->log->isErr(), "C22,C04", "spurious-error", "an error was recorded although every operation succeeded");
    c.evaluation(c.seed + c.rank);
    barrier();
}

// library objects created, shared and destroyed in any order; after each step
// the number of open files and info objects is that of the objects alive
SCENARIO(lifetimes, "C22!,C15", 1, 4, 1)
{
    Rng& r = c.rng;
    size_t ns = r.in(0, 4);
    auto g = geo::gen(r, r.in(0, 9));
    Bytes b = geo::file(g, ns, 1000, [](size_t, size_t s) { return float(s); });
    spew0(c, c.path("in.segy"), b);
    struct Obj {
        Piol piol;
        std::shared_ptr<DataInterface> data;
        std::shared_ptr<ObjectInterface> obj;
        std::shared_ptr<ReadInterface> rd;
        std::shared_ptr<WriteInterface> wr;
        std::shared_ptr<exseis::Flow::Set> set;
        std::shared_ptr<ReadDirect> rdd;
        std::shared_ptr<WriteDirect> wrd;
        int files = 0;  // files this holds open
        std::string path;
    };
    std::vector<Obj> o;
    std::vector<Piol> piols;
    std::string hist;
    int nf = 0;
    size_t expect = 0;
    auto live = [&] {
        auto m = pm::live();
        c.check(m["file"] == expect, "C22", "open-files", "%s: %zu files are open, %zu objects use one", hist.c_str(), m["file"], expect);
        c.check(m["type"] == 0, "C22", "datatypes", "%s: %zu datatypes are left over", hist.c_str(), m["type"]);
        c.check(m["win"] == 0, "C22", "windows", "%s: %zu windows are left over", hist.c_str(), m["win"]);
        c.check(m["comm"] == 0, "C22", "communicators", "%s: %zu communicators are left over", hist.c_str(), m["comm"]);
        c.check(m["info"] <= expect, "C22", "infos", "%s: %zu info objects for %zu files", hist.c_str(), m["info"], expect);
        c.count("lifetime_steps");
    };
    auto share = [&] {
        if (piols.empty() || r.chance(0.4)) piols.push_back(new_piol());
        return r.pick(piols);
    };
    int steps = r.in(3, 16);
    for (int k = 0; k < steps; k++) {
        int a = r.in(0, 9);
        if (a <= 4) {
            Obj x;
            auto p = share();
            x.path = a == 1 || a == 3 ? c.path("out" + std::to_string(nf++) + ".segy") : c.path("in.segy");
            x.files = 1;
            bool dir = r.chance(0.3);
            if (a == 0) {
                auto f = makeFile<ReadSEGY>(p, x.path);
                x.rd   = std::move(f);
                hist += " read";
            }
            else if (a == 1 && dir) {
                x.wrd = std::make_shared<WriteDirect>(p, x.path);
                x.wrd->writeNs(ns);
                x.wrd->writeNt(1);
                hist += " writedirect";
            }
            else if (a == 1) {
                auto f = makeFile<WriteSEGY>(p, x.path);
                f->writeNs(ns);
                f->writeNt(1);
                x.wr = std::move(f);
                hist += " write";
            }
            else if (a == 2 && dir) {
                x.rdd = std::make_shared<ReadDirect>(p, x.path);
                hist += " readdirect";
            }
            else if (a == 2) {
                auto f = std::make_shared<exseis::Flow::Set>(p);
                int n  = r.in(0, 2);
                for (int i = 0; i < n; i++) f->add(makeFile<ReadSEGY>(p, x.path));
                x.files = n;
                x.set   = f;
                hist += " set" + std::to_string(n);
            }
            else {
                // the layers held separately, and shared
                auto mode = a == 3 ? FileMode::Write : FileMode::Read;
                x.data    = open_data(p, x.path, DataCfg(), mode);
                if (r.chance(0.7)) x.obj = std::make_shared<ObjectSEGY>(p, x.path, ObjectSEGY::Opt(), x.data, mode);
                if (x.obj && a == 4 && r.chance(0.7)) x.rd = std::make_shared<ReadSEGY>(p, x.path, ReadSEGY::Opt(), x.obj);
                if (r.chance(0.5) && x.obj) x.data.reset();
                hist += " layers";
            }
            if (r.chance(0.3)) x.piol = p;
            expect += x.files;
            o.push_back(x);
        }
        else if (a == 5 && !piols.empty()) {
            // the instance is given up before its files
            piols.erase(piols.begin() + r.next() % piols.size());
            hist += " -piol";
        }
        else if (a == 6 && !o.empty()) {
            // a second holder: nothing is released twice or early
            auto x = r.pick(o);
            Obj y  = x;
            hist += " copy+drop";
            y = Obj();
        }
        else if (a == 7 && !o.empty()) {
            auto& x = r.pick(o);
            if (x.rd) {
                std::vector<size_t> l(std::min<size_t>(g.size(), 2));
                for (size_t i = 0; i < l.size(); i++) l[i] = i;
                std::vector<float> t(l.size() * ns + 1);
                Param prm(l.size());
                x.rd->readTraceNonContiguous(l.size(), l.data(), t.data(), &prm);
                for (size_t i = 0; i < l.size(); i++) c.check(param_utils::getPrm<exseis::utils::Integer>(i, PIOL_META_il, &prm) == g[i].il, "C22,C01", "read", "%s: a read returned line %lld, expected %lld", hist.c_str(), (long long)param_utils::getPrm<exseis::utils::Integer>(i, PIOL_META_il, &prm), (long long)g[i].il);
                hist += " use";
            }
            if (x.wr) {
                std::vector<float> t(ns + 1, 1.f);
                x.wr->writeTrace(0, c.rank == 0 ? 1 : 0, t.data());
                hist += " use";
            }
        }
        else if (!o.empty()) {
            size_t i = r.next() % o.size();
            expect -= o[i].files;
            o.erase(o.begin() + i);
            hist += " -" + std::to_string(i);
        }
        live();
    }
    // the rest, in any order
    while (!o.empty() || !piols.empty()) {
        if (!piols.empty() && (o.empty() || r.chance(0.5))) piols.pop_back();
        else {
            size_t i = r.next() % o.size();
            expect -= o[i].files;
            o.erase(o.begin() + i);
        }
        hist += " ~";
        live();
    }
    auto m = pm::live();
    for (auto& x : m) c.check(x.second == 0, "C22", "left-over", "%s: %zu objects of kind %s are left over", hist.c_str(), x.second, x.first.c_str());
    int fin = 0;
    PMPI_Finalized(&fin);
    c.check(!fin, "C22", "finalised", "%s: MPI, initialised by the program, was finalised by the library", hist.c_str());
    c.evaluation(hash_bytes(hist.data(), hist.size()) ^ splitmix(c.np * 8 + c.rank));
    if (c.rank == 0) c.sample(hist.substr(0, 160));
    barrier();
}
