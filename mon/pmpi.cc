#include "pmpi.hh"

#include <fcntl.h>
#include <sanitizer/asan_interface.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <set>
#include <sstream>

namespace pm {
static Status dummy;
static Status* st = &dummy;
Status* status() { return st; }
static int off_depth = 0;
Off::Off() { ++off_depth; }
Off::~Off() { --off_depth; }

static inline uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    return h ^ (h >> 32);
}
static uint64_t hbytes(const void* p, size_t n)
{
    const unsigned char* b = static_cast<const unsigned char*>(p);
    uint64_t h             = 0x1234567 + n;
    for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ULL;
    return h;
}
static uint64_t hstr(const char* s) { return hbytes(s, strlen(s)); }

struct Req {
    bool send;
    int src, dst, tag;
    std::string comm;
    MPI_Comm c;
    const void* buf;
    size_t bytes;
    uint64_t hash;
};
struct Obj {
    std::vector<int> members;
    std::vector<std::string> log;
};
struct State {
    std::map<std::string, Obj> seq;
    std::map<MPI_Request, Req> reqs;
    std::map<std::string, long> msgs;  // "comm|src>dst" sent(+)/received(-)
    std::set<MPI_Datatype> types;
    std::set<MPI_Win> wins;
    std::set<MPI_File> files;
    std::set<MPI_Info> infos;
    std::set<MPI_Comm> comms;
    std::map<MPI_File, std::string> fname;
    std::map<MPI_Win, std::string> wname;
    std::map<MPI_Comm, std::string> cname;
    std::map<std::string, int> ordinal;
    std::vector<Problem> prob;
    std::map<std::pair<MPI_Win, int>, std::vector<Req>> puts;
    uint64_t ev = 0, sig = 0, wtraffic = 0;
    double dprob    = 0;
    unsigned dus    = 0;
    uint64_t drng   = 1;
    std::string ffn;
    int fnth = 0, ferr = 0, fhit = 0;
    std::map<std::string, uint64_t> cnt;
};
static State& S()
{
    static State* s = new State;  // never destroyed: used up to process exit
    return *s;
}
std::map<std::string, uint64_t>& counters() { return S().cnt; }
std::map<std::string, size_t> live()
{
    auto& s = S();
    return {{"type", s.types.size()}, {"win", s.wins.size()}, {"file", s.files.size()},
            {"info", s.infos.size()}, {"comm", s.comms.size()}, {"request", s.reqs.size()}};
}
uint64_t world_traffic() { return S().wtraffic; }
uint64_t case_events() { return S().ev; }
uint64_t case_sig() { return S().sig; }

void attach(const std::string& path)
{
    int fd = open(path.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd < 0) return;
    if (ftruncate(fd, 4096) == 0) {
        void* p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p != MAP_FAILED) {
            st        = static_cast<Status*>(p);
            st->magic = 0x4d4f4e31;
        }
    }
    close(fd);
}

static const char* auto_out() { return getenv("MON_PMPI_OUT"); }
struct AutoAttach {
    AutoAttach()
    {
        const char* d = auto_out();
        const char* r = getenv("OMPI_COMM_WORLD_RANK");
        if (d != nullptr) attach(std::string(d) + "/status." + (r ? r : "0"));
        if (d != nullptr) st->phase = 1;
        const char* sd = getenv("MON_DELAY_US");
        if (sd != nullptr) {
            delays(0.05, atoi(sd), 77 + (r ? atoi(r) : 0));
        }
    }
};
static AutoAttach auto_attach;
static int n_init = 0, n_fin = 0, after_fin = 0;
static std::string after_fin_what;

void delays(double p, unsigned us, uint64_t seed)
{
    S().dprob = p;
    S().dus   = us;
    S().drng  = seed * 2654435761u + 88172645463325252ULL;
}
static uint64_t rnd()
{
    uint64_t& x = S().drng;
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    return x;
}
void fault(const std::string& fn, int nth, int err)
{
    S().ffn  = fn;
    S().fnth = nth;
    S().ferr = err;
    S().fhit = 0;
}
int faults_hit() { return S().fhit; }
void fault_clear() { S().fnth = 0; }

// TYPE VIEW READ WRITE SIZE RESIZE OPEN CLOSE
static std::string fault_group(const char* fn)
{
    if (!strncmp(fn, "MPI_Type_", 9)) return "TYPE";
    if (!strncmp(fn, "MPI_File_", 9)) {
        const char* q = fn + 9;
        if (!strncmp(q, "read", 4)) return "READ";
        if (!strncmp(q, "write", 5)) return "WRITE";
        if (!strcmp(q, "get_size")) return "SIZE";
        if (!strcmp(q, "set_size")) return "RESIZE";
        if (!strcmp(q, "set_view")) return "VIEW";
        if (!strcmp(q, "open")) return "OPEN";
        if (!strcmp(q, "close")) return "CLOSE";
    }
    return "?";
}
static bool fault_now(const char* fn)
{
    State& s = S();
    if (off_depth || s.fnth <= 0) return false;
    if (s.ffn != fn && s.ffn != fault_group(fn)) return false;
    if (--s.fnth == 0) {
        s.fhit++;
        return true;
    }
    return false;
}

// entry/exit bracket of every interposed call
struct Call {
    bool on;
    const char* fn;
    Call(const char* f) : on(off_depth == 0), fn(f)
    {
        if (!on) return;
        if (n_fin) {
            after_fin++;
            after_fin_what = f;
        }
        State& s = S();
        s.ev++;
        s.cnt[f]++;
        s.sig = mix(s.sig, hstr(f));
        if (s.dprob > 0 && (rnd() % 10000) < s.dprob * 10000) {
            usleep(rnd() % (s.dus + 1));
        }
        strncpy(st->call, f, sizeof(st->call) - 1);
        st->events = st->events + 1;
        st->in_mpi = 1;
    }
    ~Call()
    {
        if (!on) return;
        st->in_mpi = 0;
        st->events = st->events + 1;
    }
};

static std::vector<int> members_of(MPI_Comm c)
{
    std::vector<int> out;
    MPI_Group g, w;
    PMPI_Comm_group(c, &g);
    PMPI_Comm_group(MPI_COMM_WORLD, &w);
    int n;
    PMPI_Group_size(g, &n);
    std::vector<int> r(n);
    for (int i = 0; i < n; i++) r[i] = i;
    out.resize(n);
    PMPI_Group_translate_ranks(g, n, r.data(), w, out.data());
    PMPI_Group_free(&g);
    PMPI_Group_free(&w);
    return out;
}
static std::string cid(MPI_Comm c)
{
    if (c == MPI_COMM_WORLD) return "W";
    if (c == MPI_COMM_SELF) return "self";
    auto it = S().cname.find(c);
    if (it != S().cname.end()) return it->second;
    std::string n = "anon";
    for (int m : members_of(c)) n += "." + std::to_string(m);
    return n;
}
void name_comm(MPI_Comm c, const std::string& n) { S().cname[c] = n; }
void forget_comm(MPI_Comm c) { S().cname.erase(c); }

static void log_coll(const std::string& obj, MPI_Comm c, const std::string& what)
{
    if (off_depth) return;
    auto& o = S().seq[obj];
    if (o.members.empty() && c != MPI_COMM_NULL) o.members = members_of(c);
    if (o.log.size() < 20000) o.log.push_back(what);
    S().sig = mix(S().sig, hstr(what.c_str()));
    S().cnt["collectives"]++;
}
static int tsize(MPI_Datatype t)
{
    int n = 0;
    PMPI_Type_size(t, &n);
    return n;
}
static std::string opn(MPI_Op o)
{
    if (o == MPI_SUM) return "sum";
    if (o == MPI_MAX) return "max";
    if (o == MPI_MIN) return "min";
    if (o == MPI_LAND) return "land";
    if (o == MPI_LOR) return "lor";
    if (o == MPI_PROD) return "prod";
    return "op";
}
static void prob(const std::string& k, const std::string& w)
{
    if (off_depth) return;
    if (S().prob.size() < 50) S().prob.push_back({k, w});
}
static void use_comm(MPI_Comm c)
{
    if (off_depth) return;
    if (c == MPI_COMM_WORLD) S().wtraffic++;
}
static int wrank(MPI_Comm c, int r)
{
    if (r < 0) return r;
    if (c == MPI_COMM_WORLD) return r;
    auto m = members_of(c);
    return r < int(m.size()) ? m[r] : -9;
}
static int me()
{
    int r = 0;
    PMPI_Comm_rank(MPI_COMM_WORLD, &r);
    return r;
}
static void msg(MPI_Comm c, int src, int dst, long d)
{
    S().msgs[cid(c) + "|" + std::to_string(src) + ">" + std::to_string(dst)] += d;
    S().cnt[d > 0 ? "messages_sent" : "messages_received"]++;
}

void case_begin()
{
    State& s = S();
    s.seq.clear();
    s.msgs.clear();
    s.prob.clear();
    s.ordinal.clear();
    s.puts.clear();
    s.reqs.clear();
    s.types.clear();
    s.wins.clear();
    s.files.clear();
    s.infos.clear();
    s.comms.clear();
    s.ev = 0;
    s.sig = 17;
    s.wtraffic = 0;
    s.dprob    = 0;
    s.fnth     = 0;
}

static std::vector<std::string> gather_strings(const std::string& mine)
{
    int np, r;
    PMPI_Comm_size(MPI_COMM_WORLD, &np);
    PMPI_Comm_rank(MPI_COMM_WORLD, &r);
    int n = mine.size();
    std::vector<int> sz(np), off(np);
    PMPI_Gather(&n, 1, MPI_INT, sz.data(), 1, MPI_INT, 0, MPI_COMM_WORLD);
    int tot = 0;
    for (int i = 0; i < np; i++) {
        off[i] = tot;
        tot += sz[i];
    }
    std::vector<char> all(tot + 1);
    PMPI_Gatherv(const_cast<char*>(mine.data()), n, MPI_CHAR, all.data(), sz.data(), off.data(), MPI_CHAR, 0,
                 MPI_COMM_WORLD);
    std::vector<std::string> out;
    if (r == 0) {
        for (int i = 0; i < np; i++) out.emplace_back(all.data() + off[i], sz[i]);
    }
    return out;
}

std::vector<Problem> case_end(bool balanced)
{
    Off off;
    State& s = S();
    std::ostringstream o;
    // local problems
    if (!s.reqs.empty()) {
        auto& q = s.reqs.begin()->second;
        s.prob.push_back({"request", std::to_string(s.reqs.size()) + " request(s) never completed, e.g. "
                                       + (q.send ? "send to " + std::to_string(q.dst) : "receive from " + std::to_string(q.src))});
    }
    if (balanced) {
        auto rep = [&](const char* k, size_t n) {
            if (n) s.prob.push_back({"handle", std::to_string(n) + " MPI " + k + " handle(s) created and not released"});
        };
        rep("datatype", s.types.size());
        rep("window", s.wins.size());
        rep("file", s.files.size());
        rep("info", s.infos.size());
        rep("communicator", s.comms.size());
    }
    for (auto& p : s.prob) o << "P\t" << p.kind << "\t" << p.what << "\n";
    for (auto& m : s.msgs) o << "M\t" << m.first << "\t" << m.second << "\n";
    for (auto& q : s.seq) {
        o << "S\t" << q.first << "\t";
        for (int m : q.second.members) o << m << ",";
        o << "\t";
        for (auto& l : q.second.log) o << l << ";";
        o << "\n";
    }
    auto all = gather_strings(o.str());
    std::vector<Problem> out;
    int r = me();
    if (r != 0) return out;
    std::map<std::string, long> msgs;
    struct SQ {
        std::map<int, std::string> by;
        std::string mem;
    };
    std::map<std::string, SQ> sq;
    for (size_t i = 0; i < all.size(); i++) {
        std::istringstream is(all[i]);
        std::string line;
        while (std::getline(is, line)) {
            std::vector<std::string> f;
            size_t p = 0;
            for (;;) {
                size_t q = line.find('\t', p);
                f.push_back(line.substr(p, q == std::string::npos ? q : q - p));
                if (q == std::string::npos) break;
                p = q + 1;
            }
            if (f[0] == "P") out.push_back({f[1], "process " + std::to_string(i) + ": " + f[2]});
            if (f[0] == "M") msgs[f[1]] += atol(f[2].c_str());
            if (f[0] == "S") {
                sq[f[1]].by[i] = f[3];
                sq[f[1]].mem   = f[2];
            }
        }
    }
    for (auto& m : msgs) {
        if (m.second != 0) {
            out.push_back({"unmatched", "messages " + m.first + ": " + std::to_string(m.second)
                                          + (m.second > 0 ? " sent but never received" : " received more than sent")});
        }
    }
    for (auto& q : sq) {
        if (q.first == "self" || q.first.compare(0, 5, "self:") == 0) continue;
        std::vector<int> mem;
        std::istringstream is(q.second.mem);
        std::string t;
        while (std::getline(is, t, ',')) mem.push_back(atoi(t.c_str()));
        if (mem.empty()) continue;
        std::string ref = q.second.by.count(mem[0]) ? q.second.by[mem[0]] : "";
        for (int m : mem) {
            std::string x = q.second.by.count(m) ? q.second.by[m] : "";
            if (x != ref) {
                // first difference
                auto split = [](const std::string& z) {
                    std::vector<std::string> v;
                    std::istringstream zs(z);
                    std::string u;
                    while (std::getline(zs, u, ';')) v.push_back(u);
                    return v;
                };
                auto a = split(ref), b = split(x);
                size_t k = 0;
                while (k < a.size() && k < b.size() && a[k] == b[k]) k++;
                out.push_back({"seq", "collective sequences on " + q.first + " differ at call " + std::to_string(k)
                                        + ": process " + std::to_string(mem[0]) + " " + (k < a.size() ? a[k] : "-")
                                        + " vs process " + std::to_string(m) + " " + (k < b.size() ? b[k] : "-")
                                        + " (" + std::to_string(a.size()) + " vs " + std::to_string(b.size()) + " calls)"});
                break;
            }
        }
    }
    return out;
}

static void complete(const Req& q, const MPI_Status* stt)
{
    if (q.send) {
        if (q.bytes && hbytes(q.buf, q.bytes) != q.hash) {
            prob("buffer", "send buffer changed before the send to " + std::to_string(q.dst) + " completed");
        }
        return;
    }
    int src = q.src;
    if (stt && (src < 0)) src = wrank(q.c, stt->MPI_SOURCE);
    msg(q.c, src, me(), -1);
}
}  // namespace pm

using namespace pm;
#define ON (off_depth == 0)

extern "C" {

// ---------------------------------------------------------------- lifetime
// MON_FAULT=GROUP:occurrence makes the calls of a monitored executable fail
static void env_fault()
{
    const char* e = getenv("MON_FAULT");
    const char* q = e ? strchr(e, ':') : nullptr;
    if (q && !S().fnth) fault(std::string(e, q - e), atoi(q + 1), MPI_ERR_OTHER);
}
static void report_auto()
{
    const char* d = auto_out();
    if (d == nullptr) return;
    auto probs = case_end(true);
    int r      = me();
    std::ostringstream o;
    for (auto& p : probs) o << p.kind << "\t" << p.what << "\n";
    FILE* f = fopen((std::string(d) + "/audit." + std::to_string(r)).c_str(), "w");
    if (f) {
        fputs(o.str().c_str(), f);
        for (auto& c : counters()) fprintf(f, "#count\t%s\t%lu\n", c.first.c_str(), (unsigned long)c.second);
        fprintf(f, "#world\t%lu\n", (unsigned long)S().wtraffic);
        fclose(f);
    }
}
static void report_exit()
{
    const char* d = auto_out();
    if (d == nullptr) return;
    const char* r = getenv("OMPI_COMM_WORLD_RANK");
    FILE* f       = fopen((std::string(d) + "/life." + (r ? r : "0")).c_str(), "w");
    if (f) {
        fprintf(f, "init %d\nfinalize %d\nfaults %d\nafter %d %s\n", n_init, n_fin, faults_hit(), after_fin, after_fin_what.c_str());
        fclose(f);
    }
}
struct AtExit {
    ~AtExit() { report_exit(); }
};
static AtExit at_exit_obj;

int MPI_Init(int* a, char*** v)
{
    n_init++;
    env_fault();
    Call c("MPI_Init");
    return PMPI_Init(a, v);
}
int MPI_Init_thread(int* a, char*** v, int q, int* p)
{
    n_init++;
    env_fault();
    Call c("MPI_Init_thread");
    return PMPI_Init_thread(a, v, q, p);
}
int MPI_Finalize(void)
{
    if (n_fin == 0 && n_init == 1) report_auto();
    Call c("MPI_Finalize");
    n_fin++;
    report_exit();
    return PMPI_Finalize();
}

// ---------------------------------------------------------------- collectives
int MPI_Barrier(MPI_Comm c)
{
    Call k("MPI_Barrier");
    use_comm(c);
    log_coll(cid(c), c, "Barrier");
    return PMPI_Barrier(c);
}
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c)
{
    Call k("MPI_Bcast");
    use_comm(c);
    log_coll(cid(c), c, "Bcast " + std::to_string(long(n) * tsize(t)) + " r" + std::to_string(root));
    return PMPI_Bcast(b, n, t, root, c);
}
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c)
{
    Call k("MPI_Allreduce");
    use_comm(c);
    log_coll(cid(c), c, "Allreduce " + std::to_string(n) + "x" + std::to_string(tsize(t)) + opn(o));
    return PMPI_Allreduce(s, r, n, t, o, c);
}
int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c)
{
    Call k("MPI_Reduce");
    use_comm(c);
    log_coll(cid(c), c, "Reduce " + std::to_string(n) + "x" + std::to_string(tsize(t)) + opn(o) + std::to_string(root));
    return PMPI_Reduce(s, r, n, t, o, root, c);
}
int MPI_Exscan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c)
{
    Call k("MPI_Exscan");
    use_comm(c);
    log_coll(cid(c), c, "Exscan " + std::to_string(n) + "x" + std::to_string(tsize(t)) + opn(o));
    return PMPI_Exscan(s, r, n, t, o, c);
}
int MPI_Scan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c)
{
    Call k("MPI_Scan");
    use_comm(c);
    log_coll(cid(c), c, "Scan " + std::to_string(n) + "x" + std::to_string(tsize(t)) + opn(o));
    return PMPI_Scan(s, r, n, t, o, c);
}
int MPI_Allgather(const void* s, int sn, MPI_Datatype stt, void* r, int rn, MPI_Datatype rt, MPI_Comm c)
{
    Call k("MPI_Allgather");
    use_comm(c);
    log_coll(cid(c), c, "Allgather " + std::to_string(long(rn) * tsize(rt)));
    return PMPI_Allgather(s, sn, stt, r, rn, rt, c);
}
int MPI_Allgatherv(const void* s, int sn, MPI_Datatype stt, void* r, const int rn[], const int d[], MPI_Datatype rt, MPI_Comm c)
{
    Call k("MPI_Allgatherv");
    use_comm(c);
    log_coll(cid(c), c, "Allgatherv");
    return PMPI_Allgatherv(s, sn, stt, r, rn, d, rt, c);
}
int MPI_Gather(const void* s, int sn, MPI_Datatype stt, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{
    Call k("MPI_Gather");
    use_comm(c);
    log_coll(cid(c), c, "Gather " + std::to_string(long(sn) * tsize(stt)) + " r" + std::to_string(root));
    return PMPI_Gather(s, sn, stt, r, rn, rt, root, c);
}
int MPI_Alltoall(const void* s, int sn, MPI_Datatype stt, void* r, int rn, MPI_Datatype rt, MPI_Comm c)
{
    Call k("MPI_Alltoall");
    use_comm(c);
    log_coll(cid(c), c, "Alltoall " + std::to_string(long(sn) * tsize(stt)));
    return PMPI_Alltoall(s, sn, stt, r, rn, rt, c);
}
int MPI_Alltoallv(const void* s, const int sn[], const int sd[], MPI_Datatype stt, void* r, const int rn[], const int rd[], MPI_Datatype rt, MPI_Comm c)
{
    Call k("MPI_Alltoallv");
    use_comm(c);
    log_coll(cid(c), c, "Alltoallv");
    return PMPI_Alltoallv(s, sn, sd, stt, r, rn, rd, rt, c);
}

static void new_comm(MPI_Comm parent, MPI_Comm n)
{
    if (!ON || n == MPI_COMM_NULL) return;
    std::string nm = cid(parent) + "/" + std::to_string(S().ordinal["c" + cid(parent)]++);
    for (int m : members_of(n)) nm += "." + std::to_string(m);
    S().cname[n] = nm;
    S().comms.insert(n);
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* n)
{
    Call k("MPI_Comm_dup");
    use_comm(c);
    log_coll(cid(c), c, "Comm_dup");
    int e = PMPI_Comm_dup(c, n);
    if (e == MPI_SUCCESS) new_comm(c, *n);
    return e;
}
int MPI_Comm_split(MPI_Comm c, int col, int key, MPI_Comm* n)
{
    Call k("MPI_Comm_split");
    use_comm(c);
    log_coll(cid(c), c, "Comm_split");
    int e = PMPI_Comm_split(c, col, key, n);
    if (e == MPI_SUCCESS) new_comm(c, *n);
    return e;
}
int MPI_Comm_free(MPI_Comm* c)
{
    Call k("MPI_Comm_free");
    if (ON) {
        if (*c != MPI_COMM_NULL && !S().comms.erase(*c)) prob("handle", "communicator released that was not created here");
        S().cname.erase(*c);
    }
    return PMPI_Comm_free(c);
}

// ---------------------------------------------------------------- point to point
int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c)
{
    Call k("MPI_Send");
    use_comm(c);
    if (ON && d >= 0) msg(c, me(), wrank(c, d), 1);
    return PMPI_Send(b, n, t, d, tag, c);
}
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c)
{
    Call k("MPI_Ssend");
    use_comm(c);
    if (ON && d >= 0) msg(c, me(), wrank(c, d), 1);
    return PMPI_Ssend(b, n, t, d, tag, c);
}
int MPI_Recv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status* stp)
{
    Call k("MPI_Recv");
    use_comm(c);
    MPI_Status l;
    int e = PMPI_Recv(b, n, t, s, tag, c, &l);
    if (stp != MPI_STATUS_IGNORE) *stp = l;
    if (ON && e == MPI_SUCCESS && l.MPI_SOURCE >= 0) msg(c, wrank(c, l.MPI_SOURCE), me(), -1);
    return e;
}
int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype stt, int d, int stag, void* rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status* stp)
{
    Call k("MPI_Sendrecv");
    use_comm(c);
    MPI_Status l;
    if (ON && d >= 0) msg(c, me(), wrank(c, d), 1);
    int e = PMPI_Sendrecv(sb, sn, stt, d, stag, rb, rn, rt, s, rtag, c, &l);
    if (stp != MPI_STATUS_IGNORE) *stp = l;
    if (ON && e == MPI_SUCCESS && l.MPI_SOURCE >= 0) msg(c, wrank(c, l.MPI_SOURCE), me(), -1);
    return e;
}
static void new_req(MPI_Request q, bool send, MPI_Comm c, int peer, int tag, const void* b, size_t bytes)
{
    if (!ON || q == MPI_REQUEST_NULL) return;
    Req r;
    r.send  = send;
    r.src   = send ? me() : wrank(c, peer);
    r.dst   = send ? wrank(c, peer) : me();
    r.tag   = tag;
    r.comm  = cid(c);
    r.c     = c;
    r.buf   = b;
    r.bytes = bytes;
    r.hash  = send && bytes ? hbytes(b, bytes) : 0;
    // OpenMPI hands out the same pre-completed request for zero-byte/eager sends
    if (S().reqs.count(q)) complete(S().reqs[q], nullptr);
    S().reqs[q] = r;
    if (send) msg(c, r.src, r.dst, 1);
}
int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* q)
{
    Call k("MPI_Isend");
    use_comm(c);
    int e = PMPI_Isend(b, n, t, d, tag, c, q);
    if (e == MPI_SUCCESS && d >= 0) new_req(*q, true, c, d, tag, b, size_t(n) * tsize(t));
    return e;
}
int MPI_Irecv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request* q)
{
    Call k("MPI_Irecv");
    use_comm(c);
    int e = PMPI_Irecv(b, n, t, s, tag, c, q);
    if (e == MPI_SUCCESS && s != MPI_PROC_NULL) new_req(*q, false, c, s, tag, b, size_t(n) * tsize(t));
    return e;
}
static void done_req(MPI_Request q, const MPI_Status* l)
{
    if (!ON || q == MPI_REQUEST_NULL) return;
    auto it = S().reqs.find(q);
    if (it == S().reqs.end()) return;
    complete(it->second, l);
    S().reqs.erase(it);
}
int MPI_Wait(MPI_Request* q, MPI_Status* stp)
{
    Call k("MPI_Wait");
    MPI_Request o = *q;
    MPI_Status l;
    int e = PMPI_Wait(q, &l);
    if (stp != MPI_STATUS_IGNORE) *stp = l;
    if (e == MPI_SUCCESS) done_req(o, &l);
    return e;
}
int MPI_Waitall(int n, MPI_Request q[], MPI_Status stp[])
{
    Call k("MPI_Waitall");
    std::vector<MPI_Request> o(q, q + n);
    std::vector<MPI_Status> l(n + 1);
    int e = PMPI_Waitall(n, q, l.data());
    if (stp != MPI_STATUSES_IGNORE) std::copy(l.begin(), l.begin() + n, stp);
    if (e == MPI_SUCCESS) {
        for (int i = 0; i < n; i++) done_req(o[i], &l[i]);
    }
    return e;
}
int MPI_Waitany(int n, MPI_Request q[], int* ix, MPI_Status* stp)
{
    Call k("MPI_Waitany");
    std::vector<MPI_Request> o(q, q + n);
    MPI_Status l;
    int e = PMPI_Waitany(n, q, ix, &l);
    if (stp != MPI_STATUS_IGNORE) *stp = l;
    if (e == MPI_SUCCESS && *ix >= 0) done_req(o[*ix], &l);
    return e;
}
int MPI_Test(MPI_Request* q, int* fl, MPI_Status* stp)
{
    Call k("MPI_Test");
    MPI_Request o = *q;
    MPI_Status l;
    int e = PMPI_Test(q, fl, &l);
    if (stp != MPI_STATUS_IGNORE) *stp = l;
    if (e == MPI_SUCCESS && *fl) done_req(o, &l);
    return e;
}

// ---------------------------------------------------------------- handles
int MPI_Info_create(MPI_Info* i)
{
    Call k("MPI_Info_create");
    int e = PMPI_Info_create(i);
    if (ON && e == MPI_SUCCESS) S().infos.insert(*i);
    return e;
}
int MPI_Info_dup(MPI_Info a, MPI_Info* i)
{
    Call k("MPI_Info_dup");
    int e = PMPI_Info_dup(a, i);
    if (ON && e == MPI_SUCCESS) S().infos.insert(*i);
    return e;
}
int MPI_Info_free(MPI_Info* i)
{
    Call k("MPI_Info_free");
    if (ON && !S().infos.erase(*i)) prob("handle", "info released that is not live");
    return PMPI_Info_free(i);
}
#define NEWTYPE(e, t) \
    if (ON && (e) == MPI_SUCCESS) S().types.insert(*(t))
int MPI_Type_create_hvector(int n, int b, MPI_Aint s, MPI_Datatype o, MPI_Datatype* t)
{
    Call k("MPI_Type_create_hvector");
    if (fault_now("MPI_Type_create_hvector")) return S().ferr;
    int e = PMPI_Type_create_hvector(n, b, s, o, t);
    NEWTYPE(e, t);
    return e;
}
int MPI_Type_create_hindexed(int n, const int b[], const MPI_Aint d[], MPI_Datatype o, MPI_Datatype* t)
{
    Call k("MPI_Type_create_hindexed");
    if (fault_now("MPI_Type_create_hindexed")) return S().ferr;
    int e = PMPI_Type_create_hindexed(n, b, d, o, t);
    NEWTYPE(e, t);
    return e;
}
int MPI_Type_create_hindexed_block(int n, int b, const MPI_Aint d[], MPI_Datatype o, MPI_Datatype* t)
{
    Call k("MPI_Type_create_hindexed_block");
    if (fault_now("MPI_Type_create_hindexed_block")) return S().ferr;
    int e = PMPI_Type_create_hindexed_block(n, b, d, o, t);
    NEWTYPE(e, t);
    return e;
}
int MPI_Type_vector(int n, int b, int s, MPI_Datatype o, MPI_Datatype* t)
{
    Call k("MPI_Type_vector");
    if (fault_now("MPI_Type_vector")) return S().ferr;
    int e = PMPI_Type_vector(n, b, s, o, t);
    NEWTYPE(e, t);
    return e;
}
int MPI_Type_contiguous(int n, MPI_Datatype o, MPI_Datatype* t)
{
    Call k("MPI_Type_contiguous");
    if (fault_now("MPI_Type_contiguous")) return S().ferr;
    int e = PMPI_Type_contiguous(n, o, t);
    NEWTYPE(e, t);
    return e;
}
int MPI_Type_commit(MPI_Datatype* t)
{
    Call k("MPI_Type_commit");
    if (fault_now("MPI_Type_commit")) return S().ferr;
    return PMPI_Type_commit(t);
}
int MPI_Type_free(MPI_Datatype* t)
{
    Call k("MPI_Type_free");
    if (ON && !S().types.erase(*t)) prob("handle", "datatype released that is not live");
    return PMPI_Type_free(t);
}

// ---------------------------------------------------------------- files
int MPI_File_open(MPI_Comm c, const char* n, int m, MPI_Info i, MPI_File* f)
{
    Call k("MPI_File_open");
    use_comm(c);
    log_coll(cid(c), c, "File_open " + std::to_string(m));
    bool fl = fault_now("MPI_File_open");
    int e;
    if (fl) {
        // every process of the communicator must take the same path here
        e  = S().ferr;
        *f = MPI_FILE_NULL;
        return e;
    }
    e = PMPI_File_open(c, n, m, i, f);
    if (ON && e == MPI_SUCCESS) {
        S().files.insert(*f);
        std::string nm  = cid(c) + ":f" + std::to_string(S().ordinal["f" + cid(c)]++);
        S().fname[*f]   = nm;
        auto& o         = S().seq[nm];
        o.members       = members_of(c);
    }
    return e;
}
static std::string fid(MPI_File f)
{
    auto it = S().fname.find(f);
    return it == S().fname.end() ? std::string("self:unknown") : it->second;
}
int MPI_File_close(MPI_File* f)
{
    Call k("MPI_File_close");
    log_coll(fid(*f), MPI_COMM_NULL, "close");
    if (ON && !S().files.erase(*f)) prob("handle", "file closed that is not open");
    S().fname.erase(*f);
    bool fl = fault_now("MPI_File_close");
    int e   = PMPI_File_close(f);
    return fl ? S().ferr : e;
}
int MPI_File_get_size(MPI_File f, MPI_Offset* s)
{
    Call k("MPI_File_get_size");
    if (fault_now("MPI_File_get_size")) return S().ferr;
    return PMPI_File_get_size(f, s);
}
int MPI_File_set_size(MPI_File f, MPI_Offset s)
{
    Call k("MPI_File_set_size");
    log_coll(fid(f), MPI_COMM_NULL, "set_size " + std::to_string((long long)s));
    bool fl = fault_now("MPI_File_set_size");
    int e   = PMPI_File_set_size(f, s);
    return fl ? S().ferr : e;
}
int MPI_File_set_view(MPI_File f, MPI_Offset d, MPI_Datatype et, MPI_Datatype ft, const char* r, MPI_Info i)
{
    Call k("MPI_File_set_view");
    log_coll(fid(f), MPI_COMM_NULL, "set_view " + std::to_string(tsize(et)));
    bool fl = fault_now("MPI_File_set_view");
    int e   = PMPI_File_set_view(f, d, et, ft, r, i);
    return fl ? S().ferr : e;
}
int MPI_File_read_at(MPI_File f, MPI_Offset o, void* b, int n, MPI_Datatype t, MPI_Status* s)
{
    Call k("MPI_File_read_at");
    if (ON) S().cnt["bytes_read"] += size_t(n) * tsize(t);
    if (fault_now("MPI_File_read_at")) return S().ferr;
    return PMPI_File_read_at(f, o, b, n, t, s);
}
int MPI_File_read_at_all(MPI_File f, MPI_Offset o, void* b, int n, MPI_Datatype t, MPI_Status* s)
{
    Call k("MPI_File_read_at_all");
    if (ON) S().cnt["bytes_read"] += size_t(n) * tsize(t);
    log_coll(fid(f), MPI_COMM_NULL, "read_at_all");
    if (fault_now("MPI_File_read_at_all")) {
        PMPI_File_read_at_all(f, o, b, 0, t, s);
        return S().ferr;
    }
    return PMPI_File_read_at_all(f, o, b, n, t, s);
}
int MPI_File_write_at(MPI_File f, MPI_Offset o, const void* b, int n, MPI_Datatype t, MPI_Status* s)
{
    Call k("MPI_File_write_at");
    if (ON) S().cnt["bytes_written"] += size_t(n) * tsize(t);
    if (fault_now("MPI_File_write_at")) return S().ferr;
    return PMPI_File_write_at(f, o, b, n, t, s);
}
int MPI_File_write_at_all(MPI_File f, MPI_Offset o, const void* b, int n, MPI_Datatype t, MPI_Status* s)
{
    Call k("MPI_File_write_at_all");
    if (ON) S().cnt["bytes_written"] += size_t(n) * tsize(t);
    log_coll(fid(f), MPI_COMM_NULL, "write_at_all");
    if (fault_now("MPI_File_write_at_all")) {
        PMPI_File_write_at_all(f, o, b, 0, t, s);
        return S().ferr;
    }
    return PMPI_File_write_at_all(f, o, b, n, t, s);
}

#define RWALL(name, kind, CV)                                                       \
    int MPI_File_##name(MPI_File f, CV void* b, int n, MPI_Datatype t, MPI_Status* s) \
    {                                                                               \
        Call k("MPI_File_" #name);                                                  \
        if (ON) S().cnt[kind] += size_t(n) * tsize(t);                              \
        if (fault_now("MPI_File_" #name)) {                                         \
            PMPI_File_##name(f, b, 0, t, s);                                        \
            return S().ferr;                                                        \
        }                                                                           \
        return PMPI_File_##name(f, b, n, t, s);                                     \
    }
RWALL(read, "bytes_read", )
RWALL(read_all, "bytes_read", )
RWALL(write, "bytes_written", const)
RWALL(write_all, "bytes_written", const)

// ---------------------------------------------------------------- one-sided
static void new_win(MPI_Comm c, MPI_Win w)
{
    if (!ON) return;
    S().wins.insert(w);
    S().wname[w] = cid(c) + ":w" + std::to_string(S().ordinal["w" + cid(c)]++);
    S().seq[S().wname[w]].members = members_of(c);
}
}  // extern "C"
static const size_t WGUARD = 256;
static std::map<MPI_Win, std::vector<std::pair<int64_t, int64_t>>> wsize;
static std::map<MPI_Win, unsigned char*> wguard;
static std::map<MPI_Win, MPI_Comm> wcomm;
static void win_sizes(MPI_Comm c, MPI_Win w, MPI_Aint s, int d)
{
    if (!ON) return;
    int n = 0;
    PMPI_Comm_size(c, &n);
    int64_t mine[2] = {int64_t(s), d};
    std::vector<int64_t> all(2 * n);
    MPI_Comm k;
    PMPI_Comm_dup(c, &k);
    PMPI_Allgather(mine, 2, MPI_INT64_T, all.data(), 2, MPI_INT64_T, k);
    wcomm[w] = k;
    for (int i = 0; i < n; i++) wsize[w].push_back({all[2 * i], all[2 * i + 1]});
}
static void win_range(const char* what, MPI_Win w, int r, MPI_Aint d, int n, MPI_Datatype t)
{
    auto it = wsize.find(w);
    if (it == wsize.end()) return;
    if (r < 0 || size_t(r) >= it->second.size()) { prob("rma", std::string(what) + " on a rank outside the window"); return; }
    auto q     = it->second[r];
    int64_t lo = int64_t(d) * q.second, hi = lo + int64_t(n) * int64_t(tsize(t));
    if (n && (lo < 0 || hi > q.first)) prob("rma", std::string(what) + " of bytes " + std::to_string(lo) + " to " + std::to_string(hi) + " of a window of " + std::to_string(q.first));
}
extern "C" {
int MPI_Win_create(void* b, MPI_Aint s, int d, MPI_Info i, MPI_Comm c, MPI_Win* w)
{
    Call k("MPI_Win_create");
    use_comm(c);
    log_coll(cid(c), c, "Win_create");
    int e = PMPI_Win_create(b, s, d, i, c, w);
    if (e == MPI_SUCCESS) new_win(c, *w);
    if (e == MPI_SUCCESS) win_sizes(c, *w, s, d);
    return e;
}
int MPI_Win_allocate(MPI_Aint s, int d, MPI_Info i, MPI_Comm c, void* b, MPI_Win* w)
{
    Call k("MPI_Win_allocate");
    use_comm(c);
    log_coll(cid(c), c, "Win_allocate");
    // a guard behind the window's memory, poisoned for direct accesses and
    // holding a pattern for remote ones
    int e = PMPI_Win_allocate(s + (ON ? WGUARD : 0), d, i, c, b, w);
    if (e == MPI_SUCCESS) new_win(c, *w);
    if (e == MPI_SUCCESS && ON) {
        win_sizes(c, *w, s, d);
        unsigned char* g = *static_cast<unsigned char**>(b) + s;
        memset(g, 0xC7, WGUARD);
        wguard[*w] = g;
        ASAN_POISON_MEMORY_REGION(g, WGUARD);
    }
    return e;
}
int MPI_Win_fence(int a, MPI_Win w)
{
    Call k("MPI_Win_fence");
    log_coll(S().wname[w], MPI_COMM_NULL, "fence");
    return PMPI_Win_fence(a, w);
}
int MPI_Win_free(MPI_Win* w)
{
    Call k("MPI_Win_free");
    if (ON) {
        log_coll(S().wname[*w], MPI_COMM_NULL, "free");
        if (!S().wins.erase(*w)) prob("handle", "window released that is not live");
        S().wname.erase(*w);
        wsize.erase(*w);
        auto g = wguard.find(*w);
        if (g != wguard.end()) {
            PMPI_Barrier(wcomm[*w]);
            ASAN_UNPOISON_MEMORY_REGION(g->second, WGUARD);
            for (size_t i = 0; i < WGUARD; i++)
                if (g->second[i] != 0xC7) { prob("rma", "memory behind a window was written"); break; }
            wguard.erase(g);
        }
        auto k = wcomm.find(*w);
        if (k != wcomm.end()) { PMPI_Comm_free(&k->second); wcomm.erase(k); }
    }
    return PMPI_Win_free(w);
}
int MPI_Win_lock(int t, int r, int a, MPI_Win w)
{
    Call k("MPI_Win_lock");
    return PMPI_Win_lock(t, r, a, w);
}
static void put_done(MPI_Win w, int r)
{
    auto it = S().puts.find({w, r});
    if (it == S().puts.end()) return;
    for (auto& q : it->second) {
        if (q.bytes && hbytes(q.buf, q.bytes) != q.hash) prob("buffer", "origin buffer of a put changed before the epoch ended");
    }
    S().puts.erase(it);
}
int MPI_Win_unlock(int r, MPI_Win w)
{
    Call k("MPI_Win_unlock");
    if (ON) put_done(w, r);
    return PMPI_Win_unlock(r, w);
}
int MPI_Get(void* b, int n, MPI_Datatype t, int r, MPI_Aint d, int tn, MPI_Datatype tt, MPI_Win w)
{
    Call k("MPI_Get");
    if (ON) S().cnt["rma"]++;
    if (ON) win_range("get", w, r, d, tn, tt);
    return PMPI_Get(b, n, t, r, d, tn, tt, w);
}
int MPI_Put(const void* b, int n, MPI_Datatype t, int r, MPI_Aint d, int tn, MPI_Datatype tt, MPI_Win w)
{
    Call k("MPI_Put");
    if (ON) {
        S().cnt["rma"]++;
        win_range("put", w, r, d, tn, tt);
        Req q{};
        q.buf   = b;
        q.bytes = size_t(n) * tsize(t);
        q.hash  = hbytes(b, q.bytes);
        S().puts[{w, r}].push_back(q);
    }
    return PMPI_Put(b, n, t, r, d, tn, tt, w);
}
}  // extern "C"
