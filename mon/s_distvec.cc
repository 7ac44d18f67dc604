// C14: distributed vector against an array held by every process.
#include "lib.hh"

#include "ExSeisDat/PIOL/operations/gather.hh"
#include "ExSeisDat/utils/mpi/MPI_Distributed_vector.hh"
#include <cassert>
using namespace mon;
using namespace lib;
using exseis::utils::Distributed_vector;
using exseis::utils::MPI_Distributed_vector;

namespace {
struct Big { uint64_t w[40]; };
struct Odd { unsigned char b[5]; };
template<class T> T make(uint64_t v);
template<> size_t make<size_t>(uint64_t v) { return v * 0x9e3779b97f4a7c15ULL; }
template<> double make<double>(uint64_t v) { return double(v) * 1.5 - 7; }
template<> char make<char>(uint64_t v) { return char(v * 37 + 11); }
template<> Big make<Big>(uint64_t v)
{
    Big b;
    for (auto& x : b.w) x = v * 0x9e3779b97f4a7c15ULL + 1;
    return b;
}
template<> Odd make<Odd>(uint64_t v)
{
    Odd o;
    for (int i = 0; i < 5; i++) o.b[i] = (unsigned char)(v >> (8 * i)) ^ 0x5a;
    return o;
}
template<> Gather_info make<Gather_info>(uint64_t v)
{
    Gather_info g;
    g.num_traces = v;
    g.inline_    = int64_t(v) * -3;
    g.crossline  = int64_t(v) + 5;
    return g;
}
template<class T>
bool same(const T& a, const T& b) { return !memcmp(&a, &b, sizeof(T)); }
template<class T>
std::string show(const T& a)
{
    uint64_t v = 0;
    memcpy(&v, &a, std::min(sizeof(T), sizeof(v)));
    char buf[32];
    snprintf(buf, sizeof buf, "%llx", (unsigned long long)v);
    return buf;
}

template<class T>
void work(Ctx& c, const char* tn, MPI_Comm comm)
{
    Rng& r = c.rng;
    int np, me;
    PMPI_Comm_size(comm, &np);
    PMPI_Comm_rank(comm, &me);
    size_t n = r.chance(0.1) ? 0 : r.chance(0.4) ? r.in(1, 2 * np) : r.in(1, 200) * (r.chance(0.05) ? r.in(5, 100) : 1);
    MPI_Distributed_vector<T> made(n, comm);
    Distributed_vector<T> v = std::move(made);
    c.check(v.size() == n, "C14", "size", "a vector of %zu elements says %zu", n, v.size());
    std::vector<T> m(n);
    std::vector<char> known(n, 0);
    auto sync = [&] { pm::Off o; PMPI_Barrier(comm); };
    auto check_all = [&](const char* when) {
        for (size_t k = 0; k < n; k++) {
            size_t i = (k * 7 + me * 3) % n;
            if (n % 7 == 0) i = k;
            if (!known[i]) continue;
            T x = c.rng.s & 1 ? v.get(i) : v[i];
            if (!c.check(same(x, m[i]), "C14", "value", "%s of %zu elements (%s) on %d processes, %s: element %zu read by process %d is %s, stored %s", "vector", n, tn, np, when, i, me, show(x).c_str(), show(m[i]).c_str())) return;
        }
        c.count("elements_read", n);
    };
    uint64_t gen = 1;
    int rounds   = r.in(1, 3);
    if (r.chance(0.5)) pm::delays(0.02, 200, c.lrng.next());
    for (int q = 0; q < rounds; q++) {
        // disjoint stores of all or some elements, reads of the others meanwhile
        double p = q == 0 ? 1.0 : r.uni();
        std::vector<std::pair<size_t, int>> st;
        std::vector<char> touched(n, 0);
        int style = r.in(0, 2);
        for (size_t i = 0; i < n; i++)
            if (r.chance(p)) { st.push_back({i, style == 0 ? int(r.next() % np) : style == 1 ? 0 : int(i % np)}); touched[i] = 1; }
        r.shuffle(st);
        sync();
        std::vector<T> old = m;
        for (auto& s : st) {
            m[s.first] = make<T>(gen);
            if (s.second == me) {
                T val = make<T>(gen);
                v.set(s.first, val);
                memset(&val, 0xEE, sizeof val);
                c.count("stores");
            }
            known[s.first] = 1;
            gen++;
            if (n && c.lrng.chance(0.5)) {
                size_t j = c.lrng.next() % n;
                if (!touched[j] && known[j]) c.check(same(v.get(j), old[j]), "C14", "disturbed", "element %zu of %zu (%s) changed while others were stored", j, n, tn);
            }
        }
        sync();
        check_all("after a round of stores");
        sync();
    }
    // contended stores and reads: values of 3-word tags, any stored one is fine
    if (n && r.chance(0.7)) {
        std::vector<size_t> hot;
        for (int k = 0; k < 3; k++) hot.push_back(r.next() % n);
        int per   = sizeof(T) > 16 ? r.in(10, 120) : r.in(3, 40);
        auto code = [&](int p, int k, size_t h) { return 1000000u + (uint64_t(p) * 128 + k) * 8 + h; };
        auto prev = m;
        std::vector<std::vector<uint64_t>> last(np);
        sync();
        int bad = 0;
        size_t reads = 0;
        for (int k = 0; k < per; k++) {
            size_t h = c.lrng.next() % hot.size();
            if (me % 2 == 0 || np < 3) v.set(hot[h], make<T>(code(me, k, h)));
            size_t g = c.lrng.next() % hot.size();
            T x      = v.get(hot[g]);
            reads++;
            bool ok = same(x, prev[hot[g]]);
            for (int p = 0; p < np && !ok; p++)
                for (int j = 0; j < per && !ok; j++)
                    for (size_t f = 0; f < hot.size() && !ok; f++)
                        if (hot[f] == hot[g]) ok = same(x, make<T>(code(p, j, f)));
            if (!ok && !bad++) c.check(false, "C14", "torn", "element %zu of %zu (%s) read during stores is %s, which nobody stored", hot[g], n, tn, show(x).c_str());
        }
        c.count("contended_reads", reads);
        sync();
        for (size_t h : hot) {
            T x = v.get(h);
            std::vector<uint64_t> bits;
            uint64_t hs = hash_bytes(&x, sizeof x);
            std::vector<uint64_t> all(np);
            { pm::Off o; PMPI_Allgather(&hs, 1, MPI_UINT64_T, all.data(), 1, MPI_UINT64_T, comm); }
            for (auto y : all) c.check(y == all[0], "C14", "disagree", "processes read different values of element %zu after synchronising", h);
            m[h] = x;
        }
        sync();
        check_all("after contended stores");
        sync();
    }
    // outside the vector: nothing changes
    if (r.chance(0.5)) {
        for (size_t i : {n, n + 1, 2 * n + 3, size_t(-1), size_t(-1) / 2}) {
            if (me == int(r.next() % np)) v.set(i, make<T>(424242));
            (void)v.get(i);
        }
        sync();
        check_all("after accesses outside");
        c.count("outside_accesses", 5);
    }
    pm::delays(0, 0, 0);
    c.distinct("shapes", hash_vec(std::vector<size_t>{n, size_t(np), sizeof(T)}));
    c.evaluation(hash_vec(std::vector<size_t>{n, size_t(np), sizeof(T), size_t(gen)}) ^ c.seed, n > 0);
    if (c.rank == 0) c.sample(std::string(tn) + ", " + std::to_string(n) + " elements on " + std::to_string(np));
}
}  // namespace

SCENARIO(distvec, "C14,C22", 1, 8, 1)
{
    Rng& r = c.rng;
    MPI_Comm comm = world();
    bool sub = r.chance(0.3);
    if (sub) {
        pm::Off o;
        int np = c.np;
        int colour = c.rank < int(r.in(1, np)) ? 0 : 1;
        PMPI_Comm_split(world(), colour, r.chance(0.5) ? c.rank : -c.rank, &comm);
    }
    switch (r.in(0, 5)) {
        case 0: work<size_t>(c, "size_t", comm); break;
        case 1: work<double>(c, "double", comm); break;
        case 2: work<char>(c, "char", comm); break;
        case 3: work<Big>(c, "320-byte struct", comm); break;
        case 4: work<Odd>(c, "5-byte struct", comm); break;
        default: work<Gather_info>(c, "Gather_info", comm);
    }
    if (sub) PMPI_Comm_free(&comm);
    barrier();
}
