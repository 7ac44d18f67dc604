#pragma once
#include "pmpi.hh"

#include <mpi.h>
#include <unistd.h>

#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace mon {

inline uint64_t splitmix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ULL)
{
    const unsigned char* b = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ULL;
    return h;
}
template<class T>
uint64_t hash_vec(const std::vector<T>& v, uint64_t h = 99)
{
    return hash_bytes(v.data(), v.size() * sizeof(T), splitmix(h + v.size()));
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(splitmix(seed)) {}
    uint64_t next()
    {
        s = splitmix(s);
        return s;
    }
    // uniform in [a, b]
    int64_t in(int64_t a, int64_t b) { return a + int64_t(next() % uint64_t(b - a + 1)); }
    bool chance(double p) { return double(next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    double uni() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
    template<class T>
    const T& pick(const std::vector<T>& v)
    {
        return v[next() % v.size()];
    }
    template<class T>
    void shuffle(std::vector<T>& v)
    {
        for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[next() % i]);
    }
};

struct Ctx {
    int rank = 0, np = 1;
    uint64_t case_no = 0, seed = 0;
    Rng rng;   // the same stream on every process
    Rng lrng;  // a different stream per process
    std::string dir;   // scratch directory shared by the processes
    std::string prop;  // property being decided
    std::string scen;
    bool handles_balanced = true;  // audit handle release at the end of this case
    bool skip_audit       = false;
    bool audit_only       = false;  // the scenario's own evaluations do not count
    std::string also;               // further properties its checks belong to

    std::string path(const std::string& n) const { return dir + "/" + n; }

    // --- verdicts.  prop: the property the failed check belongs to; key: a
    // stable name of what failed (matched against known findings).
    bool check(bool ok, const char* prop, const char* key, const char* fmt, ...) __attribute__((format(printf, 5, 6)));
    // --- evidence
    void count(const std::string& k, uint64_t n = 1);
    void distinct(const std::string& set, uint64_t h);
    void sample(const std::string& s);
    // one oracle decision (an evaluation); h identifies a distinct non-trivial one
    void evaluation(uint64_t h, bool nontrivial = true);
};

typedef std::function<void(Ctx&)> Fn;
struct Scenario {
    std::string name;
    std::set<std::string> props, own;  // own: decided by the scenario's checks as well (written C22!)
    int min_np, max_np;
    double weight;
    Fn fn;
};
std::vector<Scenario>& registry();
inline std::set<std::string> split_props(const char* p)
{
    std::set<std::string> r;
    std::string t;
    for (; ; ++p) {
        if (*p == ',' || *p == 0) {
            if (!t.empty()) r.insert(t);
            t.clear();
            if (!*p) break;
        }
        else if (*p != ' ')
            t += *p;
    }
    return r;
}
struct Reg {
    Reg(const char* name, const char* props, int min_np, int max_np, double weight, Fn fn)
    {
        Scenario s{name, {}, {}, min_np, max_np, weight, std::move(fn)};
        for (auto p : split_props(props)) {
            if (p.back() == '!') {
                p.pop_back();
                s.own.insert(p);
            }
            s.props.insert(p);
        }
        registry().push_back(s);
    }
};
// SCENARIO(id, "C01,C15", min_np, max_np, weight) { ... uses c ... }
#define SCENARIO(id, props, mn, mx, w)                                   \
    static void scen_##id(mon::Ctx& c);                                  \
    static mon::Reg reg_##id(#id, props, mn, mx, w, scen_##id);          \
    static void scen_##id(mon::Ctx& c)

// --- harness communication (not monitored)
// the communicator a scenario runs on: the processes of c.np, ranks as c.rank
MPI_Comm world();
void world(MPI_Comm c);
void barrier(MPI_Comm m = MPI_COMM_NULL);
uint64_t bcast64(uint64_t v, int root = 0);
std::vector<uint64_t> allgather64(uint64_t v);
std::vector<double> allgatherd(const std::vector<double>& v);  // equal or unequal sizes
std::vector<uint64_t> allgatherv64(const std::vector<uint64_t>& v);
bool any(bool b);

// --- raw files (POSIX; independent of the library)
typedef std::vector<unsigned char> Bytes;
bool file_exists(const std::string& p);
Bytes slurp(const std::string& p);
void spew(const std::string& p, const Bytes& b);
void spew0(Ctx& c, const std::string& p, const Bytes& b);  // process 0 writes, then all synchronise
size_t file_size(const std::string& p);
std::vector<std::string> list_dir(const std::string& d);

}  // namespace mon
