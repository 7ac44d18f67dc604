// Thin helpers over the library's public interface.
#pragma once
#include "core.hh"
#include "segy.hh"

#include "ExSeisDat/PIOL.hh"

namespace lib {
using namespace exseis::PIOL;
typedef std::shared_ptr<ExSeis> Piol;

inline Piol new_piol(MPI_Comm comm = mon::world()) { return ExSeis::New(PIOL_VERBOSITY_NONE, comm); }

struct DataCfg {
    bool coll      = true;
    size_t maxSize = 0;  // 0: the library's default
    MPI_Comm comm  = MPI_COMM_NULL;  // the library's default
    double unit    = 1e-6;           // of the interval in the file, in seconds
    std::string str() const { return std::string(coll ? "collective" : "independent") + " maxSize=" + std::to_string(maxSize); }
};
inline std::shared_ptr<DataMPIIO> open_data(Piol p, const std::string& name, const DataCfg& cfg, FileMode mode)
{
    DataMPIIO::Opt o;
    o.coll = cfg.coll;
    if (cfg.maxSize) o.maxSize = cfg.maxSize;
    if (cfg.comm != MPI_COMM_NULL) o.fcomm = cfg.comm;
    return std::make_shared<DataMPIIO>(p, name, o, mode);
}
inline std::unique_ptr<ReadSEGY> open_read(Piol p, const std::string& name, const DataCfg& cfg)
{
    auto d = open_data(p, name, cfg, FileMode::Read);
    auto o = std::make_shared<ObjectSEGY>(p, name, ObjectSEGY::Opt(), d, FileMode::Read);
    ReadSEGY::Opt so;
    so.incFactor = cfg.unit;
    return std::make_unique<ReadSEGY>(p, name, so, o);
}
inline std::unique_ptr<WriteSEGY> open_write(Piol p, const std::string& name, const DataCfg& cfg, FileMode mode = FileMode::Write)
{
    auto d = open_data(p, name, cfg, mode);
    auto o = std::make_shared<ObjectSEGY>(p, name, ObjectSEGY::Opt(), d, mode);
    WriteSEGY::Opt so;
    so.incFactor = cfg.unit;
    return std::make_unique<WriteSEGY>(p, name, so, o);
}
// A file through the facade classes ReadDirect and WriteDirect. They have no skip; calls with one go to the interface below.
struct Reader {
    std::unique_ptr<ReadDirect> d;
    bool via;
    ReadInterface* in() const { return d->operator->(); }
    const std::string& readText() const { return via ? d->readText() : (*d)->readText(); }
    const std::string& readName() const { return (*d)->readName(); }
    size_t readNs() const { return via ? d->readNs() : (*d)->readNs(); }
    size_t readNt() const { return via ? d->readNt() : (*d)->readNt(); }
    double readInc() const { return via ? d->readInc() : (*d)->readInc(); }
    void readParam(size_t o, size_t n, Param* p, size_t skip = 0) const { via && !skip ? d->readParam(o, n, p) : in()->readParam(o, n, p, skip); }
    void readParamNonContiguous(size_t n, const size_t* o, Param* p, size_t skip = 0) const { via && !skip ? d->readParamNonContiguous(n, o, p) : in()->readParamNonContiguous(n, o, p, skip); }
    void readTrace(size_t o, size_t n, float* t, Param* p = PIOL_PARAM_NULL, size_t skip = 0) const { via && !skip ? d->readTrace(o, n, t, p) : in()->readTrace(o, n, t, p, skip); }
    void readTraceNonContiguous(size_t n, const size_t* o, float* t, Param* p = PIOL_PARAM_NULL, size_t skip = 0) const { via && !skip ? d->readTraceNonContiguous(n, o, t, p) : in()->readTraceNonContiguous(n, o, t, p, skip); }
    void readTraceNonMonotonic(size_t n, const size_t* o, float* t, Param* p = PIOL_PARAM_NULL, size_t skip = 0) const { via && !skip ? d->readTraceNonMonotonic(n, o, t, p) : in()->readTraceNonMonotonic(n, o, t, p, skip); }
};
struct Writer {
    std::unique_ptr<WriteDirect> d;
    bool via;
    WriteInterface* in() const { return &static_cast<WriteInterface&>(*d); }
    void writeText(std::string t) { via ? d->writeText(t) : in()->writeText(t); }
    void writeNs(size_t n) { via ? d->writeNs(n) : in()->writeNs(n); }
    void writeNt(size_t n) { via ? d->writeNt(n) : in()->writeNt(n); }
    void writeInc(double i) { via ? d->writeInc(i) : in()->writeInc(i); }
    void writeParam(size_t o, size_t n, const Param* p, size_t skip = 0) { via && !skip ? d->writeParam(o, n, p) : in()->writeParam(o, n, p, skip); }
    void writeParamNonContiguous(size_t n, const size_t* o, const Param* p, size_t skip = 0) { via && !skip ? d->writeParamNonContiguous(n, o, p) : in()->writeParamNonContiguous(n, o, p, skip); }
    void writeTrace(size_t o, size_t n, float* t, const Param* p = PIOL_PARAM_NULL, size_t skip = 0) { via && !skip ? d->writeTrace(o, n, t, p) : in()->writeTrace(o, n, t, p, skip); }
    void writeTraceNonContiguous(size_t n, const size_t* o, float* t, const Param* p = PIOL_PARAM_NULL, size_t skip = 0) { via && !skip ? d->writeTraceNonContiguous(n, o, t, p) : in()->writeTraceNonContiguous(n, o, t, p, skip); }
};
inline bool usual(const DataCfg& c) { return c.coll && !c.maxSize && c.comm == MPI_COMM_NULL && c.unit == 1e-6; }
inline std::unique_ptr<Reader> open_reader(Piol p, const std::string& name, const DataCfg& cfg, bool via)
{
    auto r = std::make_unique<Reader>();
    r->via = via;
    if (via && usual(cfg)) r->d = std::make_unique<ReadDirect>(p, name);
    else if (via) {
        DataMPIIO::Opt o;
        o.coll = cfg.coll;
        if (cfg.maxSize) o.maxSize = cfg.maxSize;
        if (cfg.comm != MPI_COMM_NULL) o.fcomm = cfg.comm;
        ReadSEGY::Opt so;
        so.incFactor = cfg.unit;
        r->d = std::make_unique<ReadDirect>(p, name, o, ObjectSEGY::Opt(), so);
    }
    else r->d = std::make_unique<ReadDirect>(std::shared_ptr<ReadInterface>(open_read(p, name, cfg)));
    return r;
}
inline std::unique_ptr<Writer> open_writer(Piol p, const std::string& name, const DataCfg& cfg, bool via)
{
    auto r = std::make_unique<Writer>();
    r->via = via;
    if (via && usual(cfg)) r->d = std::make_unique<WriteDirect>(p, name);
    else if (via) {
        DataMPIIO::Opt o;
        o.coll = cfg.coll;
        if (cfg.maxSize) o.maxSize = cfg.maxSize;
        if (cfg.comm != MPI_COMM_NULL) o.fcomm = cfg.comm;
        WriteSEGY::Opt so;
        so.incFactor = cfg.unit;
        r->d = std::make_unique<WriteDirect>(p, name, o, ObjectSEGY::Opt(), so);
    }
    else r->d = std::make_unique<WriteDirect>(std::shared_ptr<WriteInterface>(open_write(p, name, cfg)));
    return r;
}
// a buffer with guard zones that must stay intact
struct Guarded {
    static constexpr size_t G = 64;
    std::vector<unsigned char> v;
    size_t n;
    explicit Guarded(size_t n_, unsigned char fill = 0xa5) : v(n_ + 2 * G, 0x5c), n(n_) { memset(v.data() + G, fill, n); }
    unsigned char* data() { return v.data() + G; }
    bool intact() const
    {
        for (size_t i = 0; i < G; i++)
            if (v[i] != 0x5c || v[G + n + i] != 0x5c) return false;
        return true;
    }
};
template<class T>
struct GuardedT {
    Guarded g;
    explicit GuardedT(size_t n) : g(n * sizeof(T)) {}
    T* data() { return reinterpret_cast<T*>(g.data()); }
    T& operator[](size_t i) { return data()[i]; }
    bool intact() const { return g.intact(); }
};
// how n items are shared among np processes: per-process counts, some unequal or empty
inline std::vector<size_t> shares(mon::Rng& r, size_t n, int np)
{
    std::vector<size_t> s(np, 0);
    int how = r.in(0, 4);
    if (how == 0) {  // even
        for (int i = 0; i < np; i++) s[i] = n / np + (size_t(i) < n % np);
    }
    else if (how == 1) {  // all on one
        s[r.in(0, np - 1)] = n;
    }
    else if (how == 2) {  // random cuts
        std::vector<size_t> c = {0, n};
        for (int i = 1; i < np; i++) c.push_back(n ? r.next() % (n + 1) : 0);
        std::sort(c.begin(), c.end());
        for (int i = 0; i < np; i++) s[i] = c[i + 1] - c[i];
    }
    else if (how == 3) {  // some processes have nothing
        std::vector<int> who;
        for (int i = 0; i < np; i++)
            if (r.chance(0.5)) who.push_back(i);
        if (who.empty()) who.push_back(r.in(0, np - 1));
        for (size_t i = 0; i < who.size(); i++) s[who[i]] = n / who.size() + (i < n % who.size());
    }
    else {  // geometric
        size_t left = n;
        for (int i = 0; i < np; i++) {
            s[i] = i + 1 == np ? left : (left + 1) / 2;
            left -= s[i];
        }
        if (r.chance(0.5)) std::reverse(s.begin(), s.end());
    }
    return s;
}
}  // namespace lib
