// C21: the same generated program through the C functions and through the C++
// classes; every value returned, every error and every file must be the same,
// and the C program may not leave more memory behind than the C++ program.
#include "geo.hh"

#include "ExSeisDat/Flow.h"
#include "ExSeisDat/Flow/Set.hh"
#include "ExSeisDat/PIOL.h"
#include "ExSeisDat/utils/signal_processing/AGC.h"
#include "ExSeisDat/utils/signal_processing/taper.h"

extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));

using namespace mon;
using namespace lib;
typedef exseis::utils::Trace_value TV;
typedef exseis::utils::Integer Int;

// --- the two interfaces
struct C_api {
    static const bool is_c = true;
    typedef PIOL_ExSeis* P;
    typedef PIOL_File_Rule* R;
    typedef PIOL_File_Param* M;
    typedef PIOL_File_ReadDirect* Rd;
    typedef PIOL_File_WriteDirect* Wr;
    typedef PIOL_Set* S;
    static P piol(PIOL_Verbosity v) { return PIOL_ExSeis_new(v); }
    static void del(P p) { PIOL_ExSeis_delete(p); }
    static size_t rank(P p) { return PIOL_ExSeis_getRank(p); }
    static size_t num(P p) { return PIOL_ExSeis_getNumRank(p); }
    static size_t max(P p, size_t n) { return PIOL_ExSeis_max(p, n); }
    static void barrier(P p) { PIOL_ExSeis_barrier(p); }
    static void check(P p, const char* m) { PIOL_ExSeis_isErr(p, m); }
    static ExSeis& get(P p) { return **p; }

    static R rule(bool d) { return PIOL_File_Rule_new(d); }
    static R rule(const Meta* m, size_t n) { return PIOL_File_Rule_new_from_list(m, n); }
    static void del(R r) { PIOL_File_Rule_delete(r); }
    static void al(R r, Meta m, Tr l) { PIOL_File_Rule_addLong(r, m, l); }
    static void as(R r, Meta m, Tr l) { PIOL_File_Rule_addShort(r, m, l); }
    static void af(R r, Meta m, Tr l, Tr s) { PIOL_File_Rule_addSEGYFloat(r, m, l, s); }
    static void ai(R r, Meta m) { PIOL_File_Rule_addIndex(r, m); }
    static void ac(R r) { PIOL_File_Rule_addCopy(r); }
    static void rm(R r, Meta m) { PIOL_File_Rule_rmRule(r, m); }
    static bool am(R r, Meta m) { return PIOL_File_Rule_addRule_Meta(r, m); }
    static bool ar(R r, R q) { return PIOL_File_Rule_addRule_Rule(r, q); }
    static size_t extent(R r) { return PIOL_File_Rule_extent(r); }
    static size_t usage(R r) { return PIOL_File_Rule_memUsage(r); }
    static size_t pmem(R r) { return PIOL_File_Rule_paramMem(r); }
    static Rule& get(R r) { return **r; }

    static M param(R r, size_t n) { return PIOL_File_Param_new(r, n); }
    static void del(M m) { PIOL_File_Param_delete(m); }
    static size_t size(M m) { return PIOL_File_Param_size(m); }
    static size_t usage(M m) { return PIOL_File_Param_memUsage(m); }
    static int16_t gs(size_t i, Meta e, M m) { return PIOL_File_getPrm_short(i, e, m); }
    static Int gi(size_t i, Meta e, M m) { return PIOL_File_getPrm_Integer(i, e, m); }
    static double gd(size_t i, Meta e, M m) { return PIOL_File_getPrm_double(i, e, m); }
    static void ss(size_t i, Meta e, int16_t v, M m) { PIOL_File_setPrm_short(i, e, v, m); }
    static void si(size_t i, Meta e, Int v, M m) { PIOL_File_setPrm_Integer(i, e, v, m); }
    static void sd(size_t i, Meta e, double v, M m) { PIOL_File_setPrm_double(i, e, v, m); }
    static void cpy(size_t i, M s, size_t j, M d) { PIOL_File_cpyPrm(i, s, j, d); }

    static Rd rd(P p, const char* n) { return PIOL_File_ReadDirect_new(p, n); }
    static Wr wr(P p, const char* n) { return PIOL_File_WriteDirect_new(p, n); }
    static void del(Rd r) { PIOL_File_ReadDirect_delete(r); }
    static void del(Wr w) { PIOL_File_WriteDirect_delete(w); }
    static std::string text(Rd r) { return PIOL_File_ReadDirect_readText(r); }
    static size_t ns(Rd r) { return PIOL_File_ReadDirect_readNs(r); }
    static size_t nt(Rd r) { return PIOL_File_ReadDirect_readNt(r); }
    static double inc(Rd r) { return PIOL_File_ReadDirect_readInc(r); }
    static void text(Wr w, const char* t) { PIOL_File_WriteDirect_writeText(w, t); }
    static void ns(Wr w, size_t n) { PIOL_File_WriteDirect_writeNs(w, n); }
    static void nt(Wr w, size_t n) { PIOL_File_WriteDirect_writeNt(w, n); }
    static void inc(Wr w, double i) { PIOL_File_WriteDirect_writeInc(w, i); }
    static void wt(Wr w, size_t o, size_t n, TV* t, M m) { PIOL_File_WriteDirect_writeTrace(w, o, n, t, m); }
    static void wp(Wr w, size_t o, size_t n, M m) { PIOL_File_WriteDirect_writeParam(w, o, n, m); }
    static void wtl(Wr w, size_t n, const size_t* o, TV* t, M m) { PIOL_File_WriteDirect_writeTraceNonContiguous(w, n, o, t, m); }
    static void wpl(Wr w, size_t n, const size_t* o, M m) { PIOL_File_WriteDirect_writeParamNonContiguous(w, n, o, m); }
    static void rt(Rd r, size_t o, size_t n, TV* t, M m) { PIOL_File_ReadDirect_readTrace(r, o, n, t, m); }
    static void rp(Rd r, size_t o, size_t n, M m) { PIOL_File_ReadDirect_readParam(r, o, n, m); }
    static void rtl(Rd r, size_t n, const size_t* o, TV* t, M m) { PIOL_File_ReadDirect_readTraceNonContiguous(r, n, o, t, m); }
    static void rtm(Rd r, size_t n, const size_t* o, TV* t, M m) { PIOL_File_ReadDirect_readTraceNonMonotonic(r, n, o, t, m); }
    static void rpl(Rd r, size_t n, const size_t* o, M m) { PIOL_File_ReadDirect_readParamNonContiguous(r, n, o, m); }
    static void mm(P p, size_t o, size_t n, Meta a, Meta b, M m, CoordElem* e) { PIOL_File_getMinMax(p, o, n, a, b, m, e); }

    static S set(P p, const char* n) { return PIOL_Set_new(p, n); }
    static void del(S s) { PIOL_Set_delete(s); }
    static void mm(S s, Meta a, Meta b, CoordElem* e) { PIOL_Set_getMinMax(s, a, b, e); }
    static void sort(S s, SortType t) { PIOL_Set_sort(s, t); }
    static void sort(S s, bool (*f)(const Param*, size_t, size_t)) { PIOL_Set_sort_fn(s, f); }
    static void taper(S s, exseis_Taper_function f, size_t a, size_t b) { PIOL_Set_taper(s, f, a, b); }
    static void agc(S s, exseis_Gain_function f, size_t w, TV t) { PIOL_Set_AGC(s, f, w, t); }
    static void output(S s, const char* n) { PIOL_Set_output(s, n); }
    static void text(S s, const char* t) { PIOL_Set_text(s, t); }
    static void summary(S s) { PIOL_Set_summary(s); }
    static void add(S s, const char* n) { PIOL_Set_add(s, n); }
    static exseis_Taper_function tf(int k) { return k == 0 ? exseis::utils::exseis_linear_taper : k == 1 ? exseis::utils::exseis_cosine_taper : exseis::utils::exseis_cosine_square_taper; }
    static exseis_Gain_function gf(int k) { return k == 0 ? exseis::utils::exseis_rectangular_RMS_gain : k == 1 ? exseis::utils::exseis_triangular_RMS_gain : k == 2 ? exseis::utils::exseis_mean_abs_gain : exseis::utils::exseis_median_gain; }
    static void agc(std::vector<TV>& t, int k, size_t w, TV a) { exseis::utils::exseis_AGC(t.size(), t.data(), gf(k), w, a); }
    static void taper(std::vector<TV>& t, int k, size_t a, size_t b) { exseis::utils::exseis_taper(t.size(), t.data(), tf(k), a, b); }
    static size_t tsz() { return PIOL_SEGY_utils_getTextSz(); }
    static size_t dsz(size_t n) { return PIOL_SEGY_utils_getDFSz(n); }
    static size_t fsz(size_t n, size_t m) { return PIOL_SEGY_utils_getFileSz(n, m); }
    static size_t msz() { return PIOL_SEGY_utils_getMDSz(); }
    static std::pair<size_t, size_t> block(size_t n, size_t p, size_t r)
    {
        auto d = exseis::utils::exseis_block_decomposition(n, p, r);
        return {d.global_offset, d.local_size};
    }
};
struct X_api {
    static const bool is_c = false;
    typedef std::shared_ptr<ExSeis> P;
    typedef std::shared_ptr<Rule> R;
    typedef std::shared_ptr<Param> M;
    typedef std::shared_ptr<ReadDirect> Rd;
    typedef std::shared_ptr<WriteDirect> Wr;
    typedef std::shared_ptr<exseis::Flow::Set> S;
    static P piol(PIOL_Verbosity v) { return ExSeis::New(v); }
    template<class T>
    static void del(std::shared_ptr<T>& t)
    {
        t.reset();
    }
    static size_t rank(P& p) { return p->getRank(); }
    static size_t num(P& p) { return p->getNumRank(); }
    static size_t max(P& p, size_t n) { return p->max(n); }
    static void barrier(P& p) { p->barrier(); }
    static void check(P& p, const char* m) { m ? p->isErr(m) : p->isErr(); }
    static ExSeis& get(P& p) { return *p; }

    static R rule(bool d) { return std::make_shared<Rule>(true, d); }
    static R rule(const Meta* m, size_t n) { return std::make_shared<Rule>(std::vector<Meta>(m, m + n)); }
    static void al(R& r, Meta m, Tr l) { r->addLong(m, l); }
    static void as(R& r, Meta m, Tr l) { r->addShort(m, l); }
    static void af(R& r, Meta m, Tr l, Tr s) { r->addSEGYFloat(m, l, s); }
    static void ai(R& r, Meta m) { r->addIndex(m); }
    static void ac(R& r) { r->addCopy(); }
    static void rm(R& r, Meta m) { r->rmRule(m); }
    static bool am(R& r, Meta m) { return r->addRule(m); }
    static bool ar(R& r, R& q) { return r->addRule(*q); }
    static size_t extent(R& r) { return r->extent(); }
    static size_t usage(R& r) { return r->memUsage(); }
    static size_t pmem(R& r) { return r->paramMem(); }
    static Rule& get(R& r) { return *r; }

    static M param(R r, size_t n) { return r ? std::make_shared<Param>(r, n) : std::make_shared<Param>(n); }
    static size_t size(M& m) { return m->size(); }
    static size_t usage(M& m) { return m->memUsage(); }
    static int16_t gs(size_t i, Meta e, M& m) { return param_utils::getPrm<int16_t>(i, e, m.get()); }
    static Int gi(size_t i, Meta e, M& m) { return param_utils::getPrm<Int>(i, e, m.get()); }
    static double gd(size_t i, Meta e, M& m) { return param_utils::getPrm<double>(i, e, m.get()); }
    static void ss(size_t i, Meta e, int16_t v, M& m) { param_utils::setPrm(i, e, v, m.get()); }
    static void si(size_t i, Meta e, Int v, M& m) { param_utils::setPrm(i, e, v, m.get()); }
    static void sd(size_t i, Meta e, double v, M& m) { param_utils::setPrm(i, e, v, m.get()); }
    static void cpy(size_t i, M& s, size_t j, M& d) { param_utils::cpyPrm(i, s.get(), j, d.get()); }

    static Rd rd(P& p, const char* n) { return std::make_shared<ReadDirect>(p, n); }
    static Wr wr(P& p, const char* n) { return std::make_shared<WriteDirect>(p, n); }
    static std::string text(Rd& r) { return r->readText().c_str(); }
    static size_t ns(Rd& r) { return r->readNs(); }
    static size_t nt(Rd& r) { return r->readNt(); }
    static double inc(Rd& r) { return r->readInc(); }
    static void text(Wr& w, const char* t) { w->writeText(t); }
    static void ns(Wr& w, size_t n) { w->writeNs(n); }
    static void nt(Wr& w, size_t n) { w->writeNt(n); }
    static void inc(Wr& w, double i) { w->writeInc(i); }
    static void wt(Wr& w, size_t o, size_t n, TV* t, M& m) { m ? w->writeTrace(o, n, t, m.get()) : w->writeTrace(o, n, t); }
    static void wp(Wr& w, size_t o, size_t n, M& m) { w->writeParam(o, n, m.get()); }
    static void wtl(Wr& w, size_t n, const size_t* o, TV* t, M& m) { m ? w->writeTraceNonContiguous(n, o, t, m.get()) : w->writeTraceNonContiguous(n, o, t); }
    static void wpl(Wr& w, size_t n, const size_t* o, M& m) { w->writeParamNonContiguous(n, o, m.get()); }
    static void rt(Rd& r, size_t o, size_t n, TV* t, M& m) { m ? r->readTrace(o, n, t, m.get()) : r->readTrace(o, n, t); }
    static void rp(Rd& r, size_t o, size_t n, M& m) { r->readParam(o, n, m.get()); }
    static void rtl(Rd& r, size_t n, const size_t* o, TV* t, M& m) { m ? r->readTraceNonContiguous(n, o, t, m.get()) : r->readTraceNonContiguous(n, o, t); }
    static void rtm(Rd& r, size_t n, const size_t* o, TV* t, M& m) { m ? r->readTraceNonMonotonic(n, o, t, m.get()) : r->readTraceNonMonotonic(n, o, t); }
    static void rpl(Rd& r, size_t n, const size_t* o, M& m) { r->readParamNonContiguous(n, o, m.get()); }
    static void mm(P& p, size_t o, size_t n, Meta a, Meta b, M& m, CoordElem* e) { getMinMax(p.get(), o, n, a, b, m.get(), e); }

    static S set(P& p, const char* n) { return std::make_shared<exseis::Flow::Set>(p, std::string(n)); }
    static void mm(S& s, Meta a, Meta b, CoordElem* e) { s->getMinMax(a, b, e); }
    static void sort(S& s, SortType t) { s->sort(t); }
    static void sort(S& s, bool (*f)(const Param*, size_t, size_t)) { s->sort(f); }
    static void taper(S& s, exseis::utils::Taper_function f, size_t a, size_t b) { s->taper(f, a, b); }
    static void agc(S& s, exseis::utils::Gain_function f, size_t w, TV t) { s->AGC(f, w, t); }
    static void output(S& s, const char* n) { s->output(n); }
    static void text(S& s, const char* t) { s->text(t); }
    static void summary(S& s) { s->summary(); }
    static void add(S& s, const char* n) { s->add(std::string(n)); }
    static exseis::utils::Taper_function tf(int k) { return k == 0 ? exseis::utils::linear_taper : k == 1 ? exseis::utils::cosine_taper : exseis::utils::cosine_square_taper; }
    static exseis::utils::Gain_function gf(int k) { return k == 0 ? exseis::utils::rectangular_RMS_gain : k == 1 ? exseis::utils::triangular_RMS_gain : k == 2 ? exseis::utils::mean_abs_gain : exseis::utils::median_gain; }
    static void agc(std::vector<TV>& t, int k, size_t w, TV a) { exseis::utils::AGC(t.size(), t.data(), gf(k), w, a); }
    static void taper(std::vector<TV>& t, int k, size_t a, size_t b) { exseis::utils::taper(t.size(), t.data(), tf(k), a, b); }
    static size_t tsz() { return SEGY_utils::getTextSz(); }
    static size_t dsz(size_t n) { return SEGY_utils::getDFSz<float>(n); }
    static size_t fsz(size_t n, size_t m) { return SEGY_utils::getFileSz<float>(n, m); }
    static size_t msz() { return SEGY_utils::getMDSz(); }
    static std::pair<size_t, size_t> block(size_t n, size_t p, size_t r)
    {
        auto d = exseis::utils::block_decomposition(n, p, r);
        return {d.global_offset, d.local_size};
    }
};

// what a program observed
struct Trail {
    std::vector<std::string> v;
    void add(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
    {
        char b[600];
        va_list a;
        va_start(a, fmt);
        vsnprintf(b, sizeof b, fmt, a);
        va_end(a);
        v.push_back(b);
    }
};
static bool by_line(const Param* p, size_t i, size_t j)
{
    return param_utils::getPrm<Int>(i, PIOL_META_il, p) < param_utils::getPrm<Int>(j, PIOL_META_il, p);
}
static bool by_y_desc(const Param* p, size_t i, size_t j)
{
    return param_utils::getPrm<double>(i, PIOL_META_yRcv, p) > param_utils::getPrm<double>(j, PIOL_META_yRcv, p);
}
static uint64_t cells(const Param& m)
{
    return hash_vec(m.c, hash_vec(m.t, hash_vec(m.s, hash_vec(m.i, hash_vec(m.f)))));
}

// a floating-point value the type of entry e can hold
static double fits(const Param& m, size_t e, double v)
{
    auto x = m.r->getEntry(Meta(e));
    if (x && x->type() == RuleEntry::MdType::Index) return std::fabs(v);
    if (x && x->type() == RuleEntry::MdType::Short) return std::fmod(v, 32767);
    return v;
}
template<class A>
static typename A::R some_rule(Rng& r, Trail& t, std::vector<size_t>* metas)
{
    typename A::R q;
    if (r.chance(0.5)) {
        bool d = r.chance(0.5);
        q      = A::rule(d);
        t.add("rule(%d)", int(d));
    }
    else {
        std::vector<Meta> l;
        double most = r.chance(0.15) ? 0 : 0.4;
        for (auto& f : segy::fields())
            if (r.chance(most)) l.push_back(f.meta);
        if (r.chance(most * 0.75)) l.push_back(PIOL_META_COPY);
        r.shuffle(l);
        l.reserve(l.size() + 1);
        q = A::rule(l.data(), l.size());
        t.add("rule from a list of %zu", l.size());
    }
    int n = r.in(0, 8);
    for (int k = 0; k < n; k++) {
        auto& f = r.pick(segy::fields());
        auto& g = r.pick(segy::fields());
        int a   = r.in(0, 7);
        if (a == 0 && f.kind == 'l') A::al(q, f.meta, Tr(f.loc)), t.add("addLong %s", f.name);
        if (a == 0 && f.kind == 's') A::as(q, f.meta, Tr(f.loc)), t.add("addShort %s", f.name);
        if (a <= 1 && f.kind == 'f') A::af(q, f.meta, Tr(f.loc), Tr(f.scal)), t.add("addSEGYFloat %s", f.name);
        if (a == 2) A::al(q, f.meta, Tr(g.kind == 's' ? size_t(PIOL_TR_il) : size_t(g.loc))), t.add("addLong %s at %s", f.name, g.name);
        if (a == 3) A::as(q, f.meta, Tr(g.loc)), t.add("addShort %s at %s", f.name, g.name);
        if (a == 4) A::rm(q, f.meta), t.add("rmRule %s", f.name);
        if (a == 5) t.add("addRule %s: %d", f.name, int(A::am(q, f.meta)));
        if (a == 6 && r.chance(0.5)) A::ai(q, PIOL_META_gtn), t.add("addIndex gtn");
        else if (a == 6) A::ac(q), t.add("addCopy");
        if (a == 7) {
            std::vector<Meta> l = {Meta(f.meta), Meta(g.meta)};
            auto o = A::rule(l.data(), l.size());
            t.add("addRule of a rule: %d", int(A::ar(q, o)));
            A::del(o);
        }
        t.add("extent %zu memUsage %zu paramMem %zu", A::extent(q), A::usage(q), A::pmem(q));
    }
    for (auto& e : A::get(q).translate) metas->push_back(e.first);
    std::sort(metas->begin(), metas->end());
    for (auto m : *metas) t.add("has %zu type %d num %zu loc %zu", m, int(A::get(q).getEntry(Meta(m))->type()), A::get(q).getEntry(Meta(m))->num, size_t(A::get(q).getEntry(Meta(m))->loc));
    return q;
}

template<class A>
static void params(Rng r, Rng l, Trail& t)
{
    std::vector<size_t> ma, mb;
    typename A::R ra{}, rb{};
    if (r.chance(0.85)) ra = some_rule<A>(r, t, &ma);
    else
        ma = segy::default_metas();
    bool same = r.chance(0.5);
    if (!same) rb = some_rule<A>(r, t, &mb);
    size_t n = r.in(1, 6), m = r.in(1, 6);
    auto a = A::param(ra, n);
    auto b = A::param(same ? ra : rb, m);
    if (same) mb = ma;
    bool early = r.chance(0.5);
    auto drop  = [&] {
        // a parameter structure keeps its rule
        if (ra) A::del(ra);
        if (rb) A::del(rb);
        t.add("rules deleted");
    };
    if (early) drop();
    t.add("sizes %zu %zu usage %zu %zu", A::size(a), A::size(b), A::usage(a), A::usage(b));
    int steps = r.in(1, 30);
    for (int k = 0; k < steps; k++) {
        size_t i = r.next() % n, j = r.next() % m;
        int x    = r.in(0, 8);
        if (x == 6) {
            A::cpy(i, a, j, b);
            t.add("cpy %zu %zu", i, j);
        }
        else if (x == 7) {
            A::cpy(j, b, i, a);
            t.add("cpy back %zu %zu", j, i);
        }
        else if (x == 8 && same) {
            A::cpy(i, a, r.next() % n, a);
        }
        else if (!ma.empty()) {
            Meta e = Meta(r.pick(ma));
            if (e == PIOL_META_COPY) continue;
            if (x == 0) A::ss(i, e, int16_t(l.next()), a);
            if (x == 1) A::si(i, e, l.in(-2000000000, 2000000000), a);
            if (x == 2) A::sd(i, e, fits(*a, e, l.in(-2000000000, 2000000000) / 100.0), a);
            if (x == 3) t.add("short %zu: %d", size_t(e), std::fabs(A::gd(i, e, a)) < 32767 ? int(A::gs(i, e, a)) : 0);
            if (x == 4) t.add("integer %zu: %lld", size_t(e), (long long)A::gi(i, e, a));
            if (x == 5) t.add("double %zu: %a", size_t(e), A::gd(i, e, a));
        }
        t.add("cells %lx %lx", cells(*a), cells(*b));
    }
    if (r.chance(0.5)) A::del(a), A::del(b);
    else
        A::del(b), A::del(a);
    if (!early) drop();
}

template<class A>
static void files(Ctx& c, Rng r, Rng l, Trail& t, const std::string& tag)
{
    auto p = A::piol(PIOL_VERBOSITY_NONE);
    t.add("rank %zu of %zu", A::rank(p), A::num(p));
    size_t v = l.in(0, 1000000);
    t.add("max %zu", A::max(p, v));
    A::barrier(p);
    std::string name = c.path(tag + "file.segy");
    size_t ns = r.in(0, 6), nt = r.in(0, 14);
    double inc = double(r.in(1, 20000)) * 1e-6;
    std::vector<size_t> metas;
    typename A::R ru{};
    if (r.chance(0.6)) ru = some_rule<A>(r, t, &metas);
    else
        metas = segy::default_metas();
    // --- write
    {
        auto w = A::wr(p, name.c_str());
        if (r.chance(0.8)) {
            std::string tx(r.in(0, 90), 'x');
            for (auto& ch : tx) ch = char(r.in(32, 126));
            A::text(w, tx.c_str());
        }
        A::ns(w, ns);
        if (r.chance(0.8)) A::nt(w, nt);
        A::inc(w, inc);
        bool gone = r.chance(0.4);
        if (gone) A::del(p);  // the file keeps the instance
        auto sh   = lib::shares(r, nt, c.np);
        size_t lo = 0;
        for (int k = 0; k < c.rank; k++) lo += sh[k];
        size_t n = sh[c.rank];
        std::vector<TV> s(n * ns + 1);
        for (auto& x : s) x = float(l.in(-100000, 100000)) / 8;
        int rounds = r.in(1, 3);
        for (int k = 0; k < rounds; k++) {
            int how = r.in(0, 5);
            typename A::M m{};
            if (how >= 2 || r.chance(0.7)) {
                m = A::param(ru, n);
                for (size_t i = 0; i < n; i++)
                    for (auto e : metas) {
                        if (e == PIOL_META_COPY) continue;
                        if (l.chance(0.5)) A::sd(i, Meta(e), fits(*m, e, double(l.in(-100000, 100000)) / 10), m);
                        else
                            A::si(i, Meta(e), l.in(-30000, 30000), m);
                    }
            }
            std::vector<size_t> o(n + 1);
            for (size_t i = 0; i < n; i++) o[i] = lo + i;
            if (how <= 1) {
                if (l.chance(0.5) || true) A::wt(w, lo, n, s.data(), m);
            }
            else if (how == 2) A::wt(w, lo, n, s.data(), m);
            else if (how == 3) A::wtl(w, n, o.data(), s.data(), m);
            else if (how == 4) A::wp(w, lo, n, m);
            else
                A::wpl(w, n, o.data(), m);
            t.add("write %d", how);
            if (m) A::del(m);
        }
        if (r.chance(0.3) && nt) {
            // without headers
            std::vector<size_t> o(n + 1);
            for (size_t i = 0; i < n; i++) o[i] = lo + i;
            typename A::M m{};
            A::wtl(w, n, o.data(), s.data(), m);
        }
        t.add("samples %lx", hash_vec(s));
        A::del(w);
        if (gone) p = A::piol(PIOL_VERBOSITY_NONE);
    }
    A::check(p, nullptr);
    barrier();
    // --- read
    {
        auto f = A::rd(p, name.c_str());
        bool gone = r.chance(0.4);
        if (gone) A::del(p);
        t.add("ns %zu nt %zu inc %a", A::ns(f), A::nt(f), A::inc(f));
        t.add("text %.400s", A::text(f).c_str());
        size_t have = A::nt(f);
        int rounds  = r.in(1, 4);
        for (int k = 0; k < rounds; k++) {
            int how   = r.in(0, 6);
            size_t lo = have ? l.next() % have : 0, n = have ? l.next() % (have - lo + 1) : 0;
            typename A::M m{};
            if (how >= 4 || r.chance(0.7)) m = A::param(ru, n);
            std::vector<TV> s(n * A::ns(f) + 1, -1.f);
            std::vector<size_t> o(n + 1);
            for (size_t i = 0; i < n; i++) o[i] = have - n + i;
            if (how == 0 || how == 1) A::rt(f, lo, n, s.data(), m);
            else if (how == 2) A::rtl(f, n, o.data(), s.data(), m);
            else if (how == 3 || how == 6) {
                for (size_t i = 0; i < n; i++) o[i] = l.next() % have;
                A::rtm(f, n, o.data(), s.data(), m);
            }
            else if (how == 4) A::rp(f, lo, n, m);
            else
                A::rpl(f, n, o.data(), m);
            t.add("read %d of %zu: %lx %lx", how, n, hash_vec(s), m ? cells(*m) : 0);
            if (m) {
                for (size_t i = 0; i < n && i < 3; i++)
                    for (auto e : metas)
                        if (e != PIOL_META_COPY) t.add("%zu: %d %lld %a", e, std::fabs(A::gd(i, Meta(e), m)) < 32767 ? int(A::gs(i, Meta(e), m)) : 0, (long long)A::gi(i, Meta(e), m), A::gd(i, Meta(e), m));
                if (how >= 4 && !gone && metas.size() > 1) {
                    CoordElem x[4] = {};
                    size_t o2 = n ? l.next() % n : 0;
                    Meta a = Meta(r.pick(metas)), b = Meta(r.pick(metas));
                    if (a != PIOL_META_COPY && b != PIOL_META_COPY) {
                        A::mm(p, o2, n, a, b, m, x);
                        for (auto& q : x) t.add("minmax %zu %a", q.num, q.val);
                    }
                }
                A::del(m);
            }
        }
        if (r.chance(0.3) && gone) {
            A::del(f);
            p = A::piol(PIOL_VERBOSITY_NONE);
        }
        else {
            A::del(f);
            if (gone) p = A::piol(PIOL_VERBOSITY_NONE);
        }
    }
    if (ru) A::del(ru);
    A::check(p, "checked");
    if (r.chance(0.2)) {
        // an error is recorded the same way
        auto f = A::rd(p, c.path("missing.segy").c_str());
        t.add("error recorded: %d", int(A::get(p).log->isErr()));
        A::del(f);
    }
    A::del(p);
}

template<class A>
static void sets(Ctx& c, Rng r, Trail& t, const std::string& tag)
{
    auto p = A::piol(PIOL_VERBOSITY_NONE);
    auto s = A::set(p, c.path("in_a*.segy").c_str());
    if (r.chance(0.5)) A::add(s, c.path("in_b0.segy").c_str());
    bool gone = r.chance(0.4);
    if (gone) A::del(p);
    int n = r.in(0, 5);
    for (int k = 0; k < n; k++) {
        switch (r.in(0, 6)) {
            case 0: {
                CoordElem x[4] = {};
                Meta a = Meta(r.pick(segy::default_metas())), b = Meta(r.pick(segy::default_metas()));
                A::mm(s, a, b, x);
                for (auto& q : x) t.add("set minmax %zu %a", q.num, q.val);
                break;
            }
            case 1: A::sort(s, SortType(r.pick(geo::sort_types))); break;
            case 2: A::sort(s, r.chance(0.5) ? by_line : by_y_desc); break;
            case 3: {
                int f = r.in(0, 2);
                size_t a = r.in(0, 4), b = r.in(0, 4);
                A::taper(s, A::tf(f), a, b);
                break;
            }
            case 4: {
                int f = r.in(0, 3);
                size_t w = r.in(3, 8);
                A::agc(s, A::gf(f), w, float(r.in(-3, 8)) / 2);
                break;
            }
            case 5: {
                std::string x;
                size_t n = r.chance(0.3) ? 3200 + r.in(-2, 200) : r.in(0, 400);
                for (size_t i = 0; i < n; i++) x += char(r.in(32, 126));
                A::text(s, x.c_str());
                break;
            }
            default: A::summary(s);
        }
    }
    if (r.chance(0.8)) A::output(s, c.path(tag + "out").c_str());
    if (r.chance(0.3)) {
        int f = r.in(0, 2);
        A::taper(s, A::tf(f), 2, 3);
        A::output(s, c.path(tag + "two").c_str());
    }
    A::del(s);
    if (!gone) {
        A::check(p, "sets");
        A::del(p);
    }
}

template<class A>
static void small(Rng r, Trail& t)
{
    for (int k = 0; k < 6; k++) {
        size_t a = r.next() >> r.in(30, 63), b = r.in(0, 100000), q = r.in(1, 70);
        t.add("sizes %zu %zu %zu %zu", A::tsz(), A::msz(), A::dsz(b), A::fsz(a, b));
        auto d = A::block(a, q, r.next() % q);
        t.add("block %zu %zu", d.first, d.second);
        std::vector<TV> x(r.in(8, 60));
        for (auto& y : x) y = float(r.in(-1000, 1000)) / 16;
        if (r.chance(0.5)) A::agc(x, r.in(0, 3), r.in(3, 7), float(r.in(-3, 9)) / 2);
        else {
            int f = r.in(0, 2);
            size_t u = r.in(0, 4), w = r.in(0, 4);
            A::taper(x, f, u, w);
        }
        t.add("trace %lx", hash_vec(x));
    }
}

template<class A>
static void program(Ctx& c, int kind, uint64_t seed, Trail& t, const std::string& tag)
{
    Rng r(seed), l(seed * 1000003 + c.rank);
    if (kind == 0) small<A>(r, t);
    if (kind == 1) params<A>(r, l, t);
    if (kind == 2) files<A>(c, r, l, t, tag);
    if (kind == 3) sets<A>(c, r, t, tag);
}

SCENARIO(capi, "C21!,C22", 1, 8, 1)
{
    Rng& r    = c.rng;
    int kind  = r.chance(0.1) ? 0 : r.chance(0.3) ? 1 : r.chance(0.5) ? 2 : 3;
    uint64_t seed = r.next();
    if (kind == 3) {
        size_t ns = r.in(9, 20);
        auto mk = [&](const std::string& n, size_t ns2) {
            auto g = geo::gen(r, r.in(0, 20));
            Rng v(r.next());
            spew0(c, c.path(n), geo::file(g, ns2, 2000, [&](size_t, size_t) { return float(v.in(-1000, 1000)) / 4; }));
        };
        mk("in_a1.segy", ns);
        if (r.chance(0.5)) mk("in_a2.segy", r.chance(0.6) ? ns : ns + 1);
        mk("in_b0.segy", ns);
    }
    barrier();
    Trail x, y;
    program<X_api>(c, kind, seed, x, "x");
    barrier();
    program<C_api>(c, kind, seed, y, "c");
    barrier();
    c.check(x.v.size() == y.v.size(), "C21", "length", "program kind %d: %zu observations in C, %zu in C++", kind, y.v.size(), x.v.size());
    for (size_t i = 0; i < std::min(x.v.size(), y.v.size()); i++)
        if (!c.check(x.v[i] == y.v[i], "C21", "value", "observation %zu is \"%s\" in C and \"%s\" in C++ (after \"%s\")", i, y.v[i].c_str(), x.v[i].c_str(), i ? x.v[i - 1].c_str() : "")) break;
    c.count("observations", y.v.size());
    // files
    if (c.rank == 0) {
        std::set<std::string> names;
        for (auto& n : list_dir(c.dir)) {
            bool cc = n[0] == 'c', xx = n[0] == 'x';
            if (cc || xx) names.insert(n.substr(1));
        }
        for (auto& n : names) {
            std::string cf = c.path("c" + n), xf = c.path("x" + n);
            if (!c.check(file_exists(cf) && file_exists(xf), "C21", "files", "%s was written only in %s", n.c_str(), file_exists(cf) ? "C" : "C++")) continue;
            Bytes a = slurp(cf), b = slurp(xf);
            size_t k = 0;
            while (k < a.size() && k < b.size() && a[k] == b[k]) k++;
            c.check(a == b, "C21", "bytes", "%s: %zu bytes written in C, %zu in C++, the first difference at byte %zu", n.c_str(), a.size(), b.size(), k);
            c.count("files_compared");
        }
    }
    uint64_t h = splitmix(seed + kind);
    for (auto& s : y.v) h = hash_bytes(s.data(), s.size(), h);
    c.evaluation(h, !y.v.empty());
    if (c.rank == 0) c.sample("kind " + std::to_string(kind) + ": " + std::to_string(y.v.size()) + " observations, e.g. " + (y.v.empty() ? "" : y.v[y.v.size() / 2]));
    // memory: repeated runs may not grow more in C than in C++
    if (__sanitizer_get_current_allocated_bytes && r.chance(0.35)) {
        auto grow = [&](bool cc, int reps) {
            int64_t least = INT64_MAX;
            for (int k = 0; k < reps; k++) {
                int64_t a = __sanitizer_get_current_allocated_bytes();
                {
                    Trail z;
                    if (cc) program<C_api>(c, kind, seed, z, "c");
                    else
                        program<X_api>(c, kind, seed, z, "x");
                }
                barrier();
                least = std::min<int64_t>(least, int64_t(__sanitizer_get_current_allocated_bytes()) - a);
            }
            return least;
        };
        int64_t gx = grow(false, 2), gc = grow(true, 2);
        if (any(gc > 0 && gc > gx)) {
            // settle: what MPI allocates at irregular times is not repeated
            gx = std::max(gx, std::max<int64_t>(0, grow(false, 6)));
            gc = grow(true, 8);
            c.check(!(gc > 0 && gc > gx), "C21", "leak", "program kind %d: every run leaves %ld more bytes allocated in C, %ld in C++", kind, long(gc), long(gx));
        }
        c.count("memory_comparisons");
    }
}
