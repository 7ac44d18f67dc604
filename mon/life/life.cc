// C22, C04: whole programs.  Argument 1 is the mode, argument 2 a directory.
#include "ExSeisDat/Flow.hh"
#include "ExSeisDat/PIOL.hh"
#include "ExSeisDat/utils/Distributed_vector.hh"

#include <mpi.h>

#include <cstdlib>
#include <cstring>
#include <iostream>
using namespace exseis::PIOL;
using exseis::utils::Integer;
using exseis::utils::Trace_value;

namespace exseis { namespace PIOL { void manageMPI(bool manage); } }

static std::string dir;
static const size_t NS = 3, NT = 8;

static void write_file(std::shared_ptr<ExSeis> p, const std::string& n)
{
    WriteDirect f(p, n);
    f.writeText("life");
    f.writeNs(NS);
    f.writeNt(NT);
    f.writeInc(0.004);
    size_t lo = NT * p->getRank() / p->getNumRank(), hi = NT * (p->getRank() + 1) / p->getNumRank();
    std::vector<Trace_value> t((hi - lo) * NS + 1);
    Param prm(hi - lo);
    for (size_t i = lo; i < hi; i++) {
        for (size_t s = 0; s < NS; s++) t[(i - lo) * NS + s] = 10 * i + s;
        param_utils::setPrm(i - lo, PIOL_META_il, Integer(NT - i), &prm);
        param_utils::setPrm(i - lo, PIOL_META_xSrc, double(NT - i), &prm);
    }
    f.writeTrace(lo, hi - lo, t.data(), &prm);
}
static bool read_file(std::shared_ptr<ExSeis> p, const std::string& n, bool sorted = false)
{
    ReadDirect f(p, n);
    if (f.readNt() != NT || f.readNs() != NS) return false;
    std::vector<Trace_value> t(NT * NS);
    Param prm(NT);
    f.readTrace(0, NT, t.data(), &prm);
    for (size_t i = 0; i < NT; i++) {
        size_t k = sorted ? NT - 1 - i : i;
        for (size_t s = 0; s < NS; s++)
            if (t[i * NS + s] != 10 * k + s) return false;
        if (param_utils::getPrm<Integer>(i, PIOL_META_il, &prm) != Integer(NT - k)) return false;
    }
    return true;
}
static void set_work(std::shared_ptr<ExSeis> p)
{
    exseis::Flow::Set s(p, dir + "/a.segy", dir + "/sorted");
    s.sort(PIOL_SORTTYPE_SrcRcv);
    s.output(dir + "/sorted");
}
static int work(std::shared_ptr<ExSeis> p)
{
    write_file(p, dir + "/a.segy");
    p->barrier();
    if (!read_file(p, dir + "/a.segy")) return 21;
    p->isErr("nothing went wrong");
    return 0;
}
struct G {
    std::shared_ptr<ExSeis> p;
    std::unique_ptr<ReadDirect> f;
};
static G& global()
{
    static G g;
    return g;
}
struct Early {
    // an instance from static initialisation on, until the end of the program
    std::shared_ptr<ExSeis> p;
    Early()
    {
        if (getenv("LIFE_EARLY")) p = ExSeis::New();
    }
};
static Early early;

int main(int argc, char** argv)
{
    if (argc < 3) return 20;
    std::string m = argv[1];
    dir           = argv[2];
    int rc        = 0, ini = 0, fin = 0;
    if (m == "plain") rc = work(ExSeis::New());
    else if (m == "early") rc = work(early.p);
    else if (m == "user") {
        MPI_Init(&argc, &argv);
        rc = work(ExSeis::New());
        MPI_Finalized(&fin);
        if (fin) return 22;
        MPI_Finalize();
    }
    else if (m == "thread") {
        int prov;
        MPI_Init_thread(&argc, &argv, MPI_THREAD_FUNNELED, &prov);
        {
            auto p = ExSeis::New();
            rc     = work(p);
        }
        MPI_Finalized(&fin);
        if (fin) return 22;
        MPI_Finalize();
    }
    else if (m == "unmanaged") {
        manageMPI(false);
        MPI_Init(&argc, &argv);
        rc = work(ExSeis::New());
        MPI_Finalize();
    }
    else if (m == "managed") {
        manageMPI(true);
        MPI_Init(&argc, &argv);
        rc = work(ExSeis::New());
    }
    else if (m == "many") {
        for (int k = 0; k < 3 && rc == 0; k++) {
            auto a = ExSeis::New(), b = ExSeis::New();
            rc = work(a);
            a.reset();
            if (!rc) rc = work(b);
        }
        MPI_Initialized(&ini);
        MPI_Finalized(&fin);
        if (!ini || fin) return 23;
        if (!rc) rc = work(ExSeis::New());
    }
    else if (m == "global") {
        global().p = ExSeis::New();
        rc         = work(global().p);
    }
    else if (m == "exit") {
        auto p = ExSeis::New();
        rc     = work(p);
        if (!rc) std::exit(3);
    }
    else if (m == "set") {
        auto p = ExSeis::New();
        rc     = work(p);
        set_work(p);
        p->barrier();
        if (!rc && !read_file(p, dir + "/sorted.segy", true)) rc = 24;
    }
    else if (m == "late") {
        MPI_Init(&argc, &argv);
        auto p = ExSeis::New();
        rc     = work(p);
        Param prm(4);
        MPI_Finalize();
        // the instance and its parameters go after the end of MPI
    }
    else if (m == "ended" || m == "ended_late" || m == "ended_managed") {
        // MPI is the library's to end, but the program does it before
        if (m == "ended_managed") {
            manageMPI(true);
            MPI_Init(&argc, &argv);
        }
        auto p = ExSeis::New();
        rc     = work(p);
        if (m == "ended") p.reset();
        MPI_Finalize();
    }
    else if (m == "latched" || m == "latched_one") {
        auto p = ExSeis::New();
        rc     = work(p);
        if (m == "latched" || p->getRank() == 0) {
            // a failure, then something that works
            if (m == "latched") ReadDirect f(p, dir + "/missing.segy");
            else p->log->record("", Logger::Layer::API, Logger::Status::Error, "reported by the user", PIOL_VERBOSITY_NONE);
            std::cout << "ERRSET" << std::endl;
        }
        if (m == "latched") write_file(p, dir + "/b.segy");
        p->isErr("the program checks");
        std::cout << "CONTINUED" << std::endl;
        p->barrier();
    }
    else if (m == "warned") {
        auto p = ExSeis::New();
        rc     = work(p);
        p->log->record("", Logger::Layer::API, Logger::Status::Warning, "only a warning", PIOL_VERBOSITY_NONE);
        p->isErr("the program checks");
        std::cout << "CONTINUED" << std::endl;
    }
    else
        return 20;
    if (rc == 0) std::cout << "DONE" << std::endl;
    return rc;
}
