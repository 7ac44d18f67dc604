// Driver of the in-process monitors: runs randomised cases of the scenarios
// registered for a property and records what the oracles observed.
#include "core.hh"

#include <dirent.h>
#include <fcntl.h>
#include <ftw.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <time.h>

#include <cstdlib>
#include <sstream>

namespace mon {
std::vector<Scenario>& registry()
{
    static std::vector<Scenario> r;
    return r;
}
static std::string g_out;
static FILE* g_viol = nullptr;
static int g_nviol  = 0;
static std::map<std::string, uint64_t> g_count;
static std::map<std::string, std::set<uint64_t>> g_distinct;
static std::vector<std::string> g_samples;
static uint64_t g_evals = 0;
static std::set<uint64_t> g_eval_distinct;

static std::string js(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') {
            o += '\\';
            o += ch;
        }
        else if (ch < 32 || ch > 126) {
            char b[8];
            snprintf(b, 8, "\\u%04x", ch);
            o += b;
        }
        else
            o += ch;
    }
    return o + "\"";
}

static void record(const Ctx& c, const std::string& prop, const std::string& key, const std::string& msg)
{
    // listed findings (of the property being decided) do not use up the report
    static const std::set<std::string> known = split_props(getenv("MON_KNOWN") ? getenv("MON_KNOWN") : "");
    if (known.count(key) && split_props(prop.c_str()).count(c.prop)) {
        static std::map<std::string, int> n;
        g_count["known_finding_" + key]++;
        if (n[key]++ >= 2) return;
    }
    else if (g_nviol++ > 200)
        return;
    if (!g_viol) g_viol = fopen((g_out + "/viol." + std::to_string(c.rank) + ".jsonl").c_str(), "a");
    if (!g_viol) return;
    fprintf(g_viol, "{\"prop\":%s,\"key\":%s,\"msg\":%s,\"scen\":%s,\"case\":%lu,\"np\":%d,\"rank\":%d}\n", js(prop).c_str(),
            js(key).c_str(), js(msg).c_str(), js(c.scen).c_str(), (unsigned long)c.case_no, c.np, c.rank);
    fflush(g_viol);
}

bool Ctx::check(bool ok, const char* p, const char* key, const char* fmt, ...)
{
    if (ok) return true;
    char b[1200];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    record(*this, std::string(p) + also, key, b);
    return false;
}
void Ctx::count(const std::string& k, uint64_t n) { g_count[k] += n; }
void Ctx::distinct(const std::string& s, uint64_t h)
{
    auto& d = g_distinct[s];
    if (d.size() < 200000) d.insert(h);
}
void Ctx::sample(const std::string& s)
{
    if (g_samples.size() < 12) g_samples.push_back(scen + ": " + s);
}
void Ctx::evaluation(uint64_t h, bool nt)
{
    if (audit_only) return;
    g_evals++;
    if (nt && g_eval_distinct.size() < 500000) g_eval_distinct.insert(h);
}

static MPI_Comm g_world = MPI_COMM_WORLD;
MPI_Comm world() { return g_world; }
void world(MPI_Comm c) { g_world = c; }
void barrier(MPI_Comm m)
{
    pm::Off off;
    PMPI_Barrier(m == MPI_COMM_NULL ? world() : m);
}
uint64_t bcast64(uint64_t v, int root)
{
    pm::Off off;
    PMPI_Bcast(&v, 8, MPI_BYTE, root, world());
    return v;
}
std::vector<uint64_t> allgather64(uint64_t v)
{
    pm::Off off;
    int n;
    PMPI_Comm_size(world(), &n);
    std::vector<uint64_t> r(n);
    PMPI_Allgather(&v, 8, MPI_BYTE, r.data(), 8, MPI_BYTE, world());
    return r;
}
template<class T>
static std::vector<T> agv(const std::vector<T>& v)
{
    pm::Off off;
    int n, k = v.size() * sizeof(T), tot = 0;
    PMPI_Comm_size(world(), &n);
    std::vector<int> sz(n), of(n);
    PMPI_Allgather(&k, 1, MPI_INT, sz.data(), 1, MPI_INT, world());
    for (int i = 0; i < n; i++) {
        of[i] = tot;
        tot += sz[i];
    }
    std::vector<T> r(tot / sizeof(T) + 1);
    std::vector<T> in(v);
    in.resize(v.size() + 1);
    PMPI_Allgatherv(in.data(), k, MPI_BYTE, r.data(), sz.data(), of.data(), MPI_BYTE, world());
    r.resize(tot / sizeof(T));
    return r;
}
std::vector<double> allgatherd(const std::vector<double>& v) { return agv(v); }
std::vector<uint64_t> allgatherv64(const std::vector<uint64_t>& v) { return agv(v); }
bool any(bool b)
{
    for (auto x : allgather64(b))
        if (x) return true;
    return false;
}

std::vector<std::string> list_dir(const std::string& d)
{
    std::vector<std::string> v;
    if (DIR* h = opendir(d.c_str())) {
        while (auto* e = readdir(h)) v.push_back(e->d_name);
        closedir(h);
    }
    std::sort(v.begin(), v.end());
    return v;
}
bool file_exists(const std::string& p)
{
    struct stat s;
    return stat(p.c_str(), &s) == 0;
}
size_t file_size(const std::string& p)
{
    struct stat s;
    return stat(p.c_str(), &s) == 0 ? s.st_size : 0;
}
Bytes slurp(const std::string& p)
{
    Bytes b;
    FILE* f = fopen(p.c_str(), "rb");
    if (!f) return b;
    fseek(f, 0, SEEK_END);
    long n = ftell(f);
    fseek(f, 0, SEEK_SET);
    b.resize(n);
    if (n && fread(b.data(), 1, n, f) != size_t(n)) b.clear();
    fclose(f);
    return b;
}
void spew(const std::string& p, const Bytes& b)
{
    FILE* f = fopen(p.c_str(), "wb");
    if (!f) {
        perror(p.c_str());
        _exit(97);
    }
    if (b.size() && fwrite(b.data(), 1, b.size(), f) != b.size()) _exit(97);
    fclose(f);
}
void spew0(Ctx& c, const std::string& p, const Bytes& b)
{
    if (c.rank == 0) spew(p, b);
    barrier();
}
}  // namespace mon

using namespace mon;

static int rm_one(const char* p, const struct stat*, int, struct FTW*)
{
    return remove(p);
}
static void remove_tree(const std::string& p)
{
    nftw(p.c_str(), rm_one, 16, FTW_DEPTH | FTW_PHYS);
}
static double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}

int main(int argc, char** argv)
{
    std::string prop, dir = "/tmp", only;
    uint64_t seed = 1;
    long cases = 10, only_case = -1, case_from = 0;
    double tlimit = 60;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--prop") prop = v;
        else if (a == "--out") g_out = v;
        else if (a == "--dir") dir = v;
        else if (a == "--seed") seed = strtoull(v.c_str(), 0, 10);
        else if (a == "--cases") cases = atol(v.c_str());
        else if (a == "--time") tlimit = atof(v.c_str());
        else if (a == "--scen") only = v;
        else if (a == "--case") only_case = atol(v.c_str());
        else if (a == "--from") case_from = atol(v.c_str());
        else {
            fprintf(stderr, "bad option %s\n", a.c_str());
            return 98;
        }
    }
    signal(SIGPIPE, SIG_IGN);
    PMPI_Init(&argc, &argv);
    Ctx c;
    PMPI_Comm_rank(MPI_COMM_WORLD, &c.rank);
    PMPI_Comm_size(MPI_COMM_WORLD, &c.np);
    pm::attach(g_out + "/status." + std::to_string(c.rank));
    auto* st = pm::status();
    st->np   = c.np;
    strncpy(st->prop, prop.c_str(), 15);
    std::vector<const Scenario*> sc;
    for (auto& s : registry()) {
        if (!s.props.count(prop) || c.np < s.min_np || c.np > s.max_np) continue;
        if (!only.empty() && s.name != only) continue;
        sc.push_back(&s);
    }
    // registration order depends on link order: make it stable
    std::sort(sc.begin(), sc.end(), [](const Scenario* a, const Scenario* b) { return a->name < b->name; });
    st->phase   = 1;
    st->harness = 1;
    double t0   = now();
    size_t n_cases = 0, total = 0;
    bool stopped = false;
    // round-robin with weights: scenario s runs round(cases*weight) cases
    std::vector<long> want(sc.size()), done(sc.size(), 0);
    for (size_t i = 0; i < sc.size(); i++) want[i] = std::max(1L, std::lround(cases * sc[i]->weight));
    if (only_case >= 0) {
        for (auto& d : done) d = only_case;
        for (auto& w : want) w = only_case + 1;
    }
    else
        for (size_t i = 0; i < sc.size(); i++) {
            done[i] = case_from;
            want[i] += case_from;
        }
    for (long round = 0; !stopped; round++) {
        bool progress = false;
        for (size_t i = 0; i < sc.size() && !stopped; i++) {
            // spread the cases of a scenario over the rounds
            long lim = want[i] - (only_case >= 0 ? only_case : case_from);
            long upto = std::min<long>(lim, std::lround(double(lim) * (round + 1) / 10.0));
            if (upto < 1) upto = 1;
            upto += (only_case >= 0 ? only_case : case_from);
            if (upto > want[i]) upto = want[i];
            while (done[i] < upto) {
                progress = true;
                uint64_t stop = bcast64((now() - t0) > tlimit ? 1 : 0);
                if (stop) {
                    stopped = true;
                    break;
                }
                const Scenario& s = *sc[i];
                c.prop    = prop;
                c.scen    = s.name;
                c.case_no = done[i]++;
                c.seed    = splitmix(splitmix(seed) ^ hash_bytes(s.name.data(), s.name.size()) ^ splitmix(c.case_no * 131 + c.np));
                c.rng     = Rng(c.seed);
                c.lrng    = Rng(c.seed * 31 + c.rank + 1);
                c.handles_balanced = true;
                c.skip_audit       = false;
                c.dir              = dir + "/" + s.name + "." + std::to_string(c.case_no);
                strncpy(st->scen, s.name.c_str(), 63);
                st->case_no = c.case_no;
                if (c.rank == 0) mkdir(c.dir.c_str(), 0700);
                barrier();
                pm::case_begin();
                st->harness = 0;
                st->cases   = st->cases + 1;
                // the properties about the MPI boundary are decided by the audit below
                c.audit_only = (prop == "C15" || prop == "C22") && !s.own.count(prop);
                if (prop == "C15" && c.np > 1 && c.rng.chance(0.5)) pm::delays(0.04, 300, c.lrng.next());
                s.fn(c);
                pm::delays(0, 0, 0);
                c.audit_only = false;
                st->harness = 1;
                g_count["mpi_events"] += pm::case_events();
                barrier();
                auto probs = pm::case_end(c.handles_balanced);
                if (!c.skip_audit) {
                    for (auto& p : probs) {
                        const char* pr = p.kind == "handle" ? "C22" : p.kind == "rma" ? "C14,C12" : "C15";
                        c.check(false, pr, ("audit-" + p.kind).c_str(), "%s", p.what.c_str());
                    }
                    auto sg = allgather64(pm::case_sig());
                    uint64_t h = 3;
                    for (auto x : sg) h = splitmix(h ^ x);
                    if (c.rank == 0) {
                        c.distinct("event_histories", h);
                        c.distinct("scenarios", hash_bytes(s.name.data(), s.name.size()));
                        g_count["audited_cases"]++;
                    }
                    if (prop == "C15" || prop == "C22") c.evaluation(splitmix(h + c.rank), pm::case_events() > 0);
                }
                pm::fault_clear();
                if (c.rank == 0) {
                    // only ever a directory this driver created below --dir
                    if (c.dir.compare(0, dir.size() + 1, dir + "/") == 0) remove_tree(c.dir);
                }
                n_cases++;
                if (any(g_nviol > 60)) stopped = true;
            }
        }
        if (!progress && round >= 10) break;
        if (only_case >= 0) break;
    }
    total = n_cases;
    // results
    FILE* f = fopen((g_out + "/result." + std::to_string(c.rank) + ".json").c_str(), "w");
    if (f) {
        fprintf(f, "{\"rank\":%d,\"np\":%d,\"cases\":%zu,\"scenarios\":%zu,\"stopped\":%s,\"evaluations\":%lu,\"counts\":{", c.rank, c.np, total,
                sc.size(), stopped ? "true" : "false", (unsigned long)g_evals);
        bool first = true;
        for (auto& k : pm::counters()) g_count["call." + k.first] = k.second;
        for (auto& k : g_count) {
            fprintf(f, "%s%s:%lu", first ? "" : ",", js(k.first).c_str(), (unsigned long)k.second);
            first = false;
        }
        fprintf(f, "},\"distinct_eval\":[");
        first = true;
        size_t lim = 0;
        for (auto h : g_eval_distinct) {
            if (lim++ > 60000) break;
            fprintf(f, "%s\"%lx\"", first ? "" : ",", (unsigned long)h);
            first = false;
        }
        fprintf(f, "],\"distinct\":{");
        first = true;
        for (auto& d : g_distinct) {
            fprintf(f, "%s%s:[", first ? "" : ",", js(d.first).c_str());
            bool f2 = true;
            lim     = 0;
            for (auto h : d.second) {
                if (lim++ > 30000) break;
                fprintf(f, "%s\"%lx\"", f2 ? "" : ",", (unsigned long)h);
                f2 = false;
            }
            fprintf(f, "]");
            first = false;
        }
        fprintf(f, "},\"samples\":[");
        first = true;
        for (auto& s : g_samples) {
            fprintf(f, "%s%s", first ? "" : ",", js(s).c_str());
            first = false;
        }
        fprintf(f, "],\"scen_names\":[");
        first = true;
        for (auto* s : sc) {
            fprintf(f, "%s%s", first ? "" : ",", js(s->name).c_str());
            first = false;
        }
        fprintf(f, "]}\n");
        fclose(f);
    }
    st->phase = 2;
    barrier();
    {
        pm::Off off;
        PMPI_Finalize();
    }
    fflush(nullptr);
    _exit(g_nviol ? 10 : 0);
}
