// One type configuration of the driver: compiled once per CFG, with
//   -DCFG=<id> [-DFLAGS=<mask of option combinations>] [-DLITE]
#include "driver.hpp"
#include "configs.hpp"
#include PIGO_HEADER

#ifndef FLAGS
#define FLAGS 1
#endif
#ifndef CROSS
#define CROSS -1
#endif

namespace drv {
namespace {

typedef ById<CFG>::type T;
typedef T::L L; typedef T::O O; typedef T::W W;
typedef T::SL SL; typedef T::SO SO; typedef T::SW SW;

template <class S> struct At;
template <class V> struct At<V*> {
    static V& get(V*& s, size_t i) { return s[i]; }
    static bool any(V*& s) { return s != nullptr; }
};
template <class V> struct At<std::vector<V>> {
    // less storage than the object says it has: this process is over
    static V& get(std::vector<V>& s, size_t i) { if (i >= s.size()) abort(); return s[i]; }
    static bool any(std::vector<V>& s) { return !s.empty(); }
};
template <class V> struct At<std::shared_ptr<V>> {
    static V& get(std::shared_ptr<V>& s, size_t i) { return s.get()[i]; }
    static bool any(std::shared_ptr<V>& s) { return s.get() != nullptr; }
};
template <class S> bool any(S& s) { return At<S>::any(s); }
template <class S> auto at(S& s, size_t i) -> decltype(At<S>::get(s, i)) { return At<S>::get(s, i); }

template <class TT> void log_type(Out& o, int flags) {
    typedef typename TT::W TW;
    o.raw("{\"L\":"); o.integer(sizeof(typename TT::L));
    o.raw(std::is_signed<typename TT::L>::value ? ",\"Ls\":true" : ",\"Ls\":false");
    o.raw(",\"O\":"); o.integer(sizeof(typename TT::O));
    o.raw(",\"W\":");
    o.raw(!TT::wgt ? "\"n\"" : std::is_floating_point<TW>::value ? "\"f\""
            : std::is_signed<TW>::value ? "\"i\"" : "\"u\"");
    o.raw(",\"Wb\":"); o.integer(TT::wgt ? sizeof(TW) : 0);
    o.raw(",\"sym\":"); o.raw(flags & 1 ? "true" : "false");
    o.raw(",\"ut\":"); o.raw(flags & 2 ? "true" : "false");
    o.raw(",\"sl\":"); o.raw(flags & 4 ? "true" : "false");
    o.raw("}");
}
template <class TT> struct TypeTo {
    static void op(Out& o, int flags, int target) {
#if CROSS >= 0
        if (target == CROSS) { log_type<ById<CROSS>::type>(o, flags); return; }
#endif
        (void)target;
        log_type<TT>(o, flags);
    }
};

template <class X> void sep(Out& o, X& first) { if (!first) o.raw(","); first = false; }

// ---------------------------------------------------------------------------
template <class TT, class C> void proj_csr(Out& o, C& c, bool freed, bool views) {
    if (freed) { o.raw("{\"k\":\"freed\"}"); return; }
    o.raw("{\"k\":\"csr\",\"n\":"); log_num(o, c.n());
    o.raw(",\"nr\":"); log_num(o, c.nrows());
    o.raw(",\"nc\":"); log_num(o, c.ncols());
    o.raw(",\"m\":"); o.integer((long long)c.m());
    size_t rows = (size_t)(c.nrows() > c.n() ? c.nrows() : c.n());
    size_t m = (size_t)c.m();
    bool f = true;
    o.raw(",\"off\":[");
    // an empty object need not have any storage
    if (!(rows == 0 && m == 0) || any(c.offsets()))
        for (size_t i = 0; i <= rows; ++i) { sep(o, f); log_num(o, at(c.offsets(), i)); }
    else log_num(o, (typename TT::O)0);
    o.raw("],\"e\":[");
    f = true;
    for (size_t i = 0; i < m; ++i) {
        sep(o, f);
        o.raw("["); log_num(o, at(c.endpoints(), i));
        if (TT::wgt) { o.raw(","); log_num(o, at(c.weights(), i)); }
        o.raw("]");
    }
    o.raw("]");
    (void)views;
}
template <class G> void proj_views(Out& o, G& g, bool freed) {
    if (freed) return;
    size_t rows = (size_t)(g.nrows() > g.n() ? g.nrows() : g.n());
    size_t m = (size_t)g.m();
    bool f = true;
    // only a graph whose row starts are in order has views
    bool good = !(rows == 0 && m == 0) || any(g.offsets());
    for (size_t v = 0; good && v <= rows; ++v) {
        size_t x = (size_t)at(g.offsets(), v);
        good = x <= m && (v == 0 || (size_t)at(g.offsets(), v-1) <= x);
    }
    if (!good) { o.raw(",\"deg\":[],\"at\":[],\"nbr\":[]"); return; }
    o.raw(",\"deg\":[");
    for (size_t v = 0; v < rows; ++v) { sep(o, f); o.integer((long long)g.degree((L)v)); }
    o.raw("],\"at\":[");
    f = true;
    for (size_t v = 0; v < rows; ++v) {
        sep(o, f);
        o.raw("["); log_num(o, g.neighbor_start((L)v));
        o.raw(","); log_num(o, g.neighbor_end((L)v)); o.raw("]");
    }
    o.raw("],\"nbr\":[");
    f = true;
    for (size_t v = 0; v < rows; ++v) {
        sep(o, f);
        o.raw("[");
        bool f2 = true;
        size_t count = 0;
        for (auto u : g.neighbors((L)v)) {
            if (count++ > m) break;             // never more than there are entries
            sep(o, f2); log_num(o, u);
        }
        o.raw("]");
    }
    o.raw("]");
}

typedef pigo::CSR<L, O, SL, SO, T::wgt, W, SW> CSR_;
typedef pigo::BaseGraph<L, O, SL, SO, T::wgt, W, SW> Gra_;
typedef pigo::DiGraph<L, O, SL, SO, T::wgt, W, SW> Dig_;
typedef pigo::Matrix<L, O, SL, SO, T::wgt, W, SW> Mat_;
typedef pigo::Tensor<L, O, SL, W, SW, T::wgt> Ten_;
template <int F> struct CooT {
    typedef pigo::COO<L, O, SL, (F&1)!=0, (F&2)!=0, (F&4)!=0, T::wgt, W, SW> type;
};

template <int F> struct CooObj;
Obj* mk_csr(CSR_&& c);

// A CSR (or graph, which is one)
template <class C, bool graph> struct CsrObj : Obj {
    C c;
    bool freed;
    template <class... A> CsrObj(A&&... a) : c(std::forward<A>(a)...), freed(false) {}
    const char* kind() const override { return graph ? "gra" : "csr"; }
    void type(Out& o) const override { log_type<T>(o, 0); }
    void typeTo(Out& o, int flags, int target) const override { TypeTo<T>::op(o, flags, target); }
    void proj(Out& o) override;
    void release() override { if (!freed) c.free(); freed = true; }
    void free_() override { c.free(); freed = true; }
    void save(const std::string& fn) override { c.save(fn); }
    void savef(void* f) override { c.save(*static_cast<pigo::File*>(f)); }
    long long saveSize() override { return (long long)static_cast<const C&>(c).save_size(); }
    void sort() override { c.sort(); }
    Obj* dedup(int target) override;
    Obj* toCoo(int flags, int target) override;
    bool find(unsigned long long x, unsigned long long y) override {
        for (O i = at(c.offsets(), x); i < at(c.offsets(), x+1); ++i)
            if ((unsigned long long)at(c.endpoints(), i) == y) return true;
        return false;
    }
    void poke(size_t i, int f, const std::string& v) override {
        if (f == 0) at(c.endpoints(), i) = parse_num<L>(v);
        else at(c.weights(), i) = parse_num<W>(v);
    }
};
template <bool graph> struct Views { template <class C> static void op(Out&, C&, bool) {} };
template <> struct Views<true> { template <class C> static void op(Out& o, C& c, bool f) { proj_views(o, c, f); } };
template <class C, bool graph> void CsrObj<C, graph>::proj(Out& o) {
    proj_csr<T>(o, c, freed, graph);
    Views<graph>::op(o, c, freed);
    if (!freed) o.raw("}");
}

#if CROSS >= 0
typedef ById<CROSS>::type T2;
static_assert(T2::wgt == T::wgt, "conversion keeps the weights");
typedef pigo::CSR<T2::L, T2::O, T2::SL, T2::SO, T2::wgt, T2::W, T2::SW> CSR2_;
typedef pigo::COO<T2::L, T2::O, T2::SL, false, false, false, T2::wgt, T2::W, T2::SW> COO2_;
// objects of the other configuration can be inspected and freed only
template <class C> struct Csr2Obj : Obj {
    C c; bool freed;
    template <class... A> Csr2Obj(A&&... a) : c(std::forward<A>(a)...), freed(false) {}
    const char* kind() const override { return "csr"; }
    void type(Out& o) const override { log_type<T2>(o, 0); }
    void proj(Out& o) override { proj_csr<T2>(o, c, freed, false); if (!freed) o.raw("}"); }
    void release() override { if (!freed) c.free(); freed = true; }
    void free_() override { c.free(); freed = true; }
    void sort() override { c.sort(); }
    void save(const std::string& fn) override { c.save(fn); }
};
#endif

template <class TT, class C> void proj_coo(Out& o, C& c) {
    o.raw("{\"k\":\"coo\",\"n\":"); log_num(o, c.n());
    o.raw(",\"nr\":"); log_num(o, c.nrows());
    o.raw(",\"nc\":"); log_num(o, c.ncols());
    o.raw(",\"m\":"); o.integer((long long)c.m());
    o.raw(",\"e\":[");
    bool f = true;
    for (size_t i = 0; i < (size_t)c.m(); ++i) {
        sep(o, f);
        o.raw("["); log_num(o, at(c.x(), i));
        o.raw(","); log_num(o, at(c.y(), i));
        if (TT::wgt) { o.raw(","); log_num(o, at(c.w(), i)); }
        o.raw("]");
    }
    o.raw("]}");
}
#if CROSS >= 0
struct Coo2Obj : Obj {
    COO2_ c;
    template <class... A> Coo2Obj(A&&... a) : c(std::forward<A>(a)...) {}
    const char* kind() const override { return "coo"; }
    void type(Out& o) const override { log_type<T2>(o, 0); }
    void proj(Out& o) override { proj_coo<T2>(o, c); }
    void release() override { c.free(); }
    void free_() override { c.free(); }
    void save(const std::string& fn) override { c.save(fn); }
    void write(const std::string& fn) override { c.write(fn); }
};
#endif

#ifndef LITE
struct DigObj : Obj {
    Dig_ c; bool freed;
    template <class... A> DigObj(A&&... a) : c(std::forward<A>(a)...), freed(false) {}
    const char* kind() const override { return "dig"; }
    void type(Out& o) const override { log_type<T>(o, 0); }
    void typeTo(Out& o, int flags, int target) const override { TypeTo<T>::op(o, flags, target); }
    void proj(Out& o) override {
        if (freed) { o.raw("{\"k\":\"freed\"}"); return; }
        o.raw("{\"k\":\"dig\",\"n\":"); log_num(o, (L)c.n());
        o.raw(",\"nr\":"); log_num(o, (L)c.nrows());
        o.raw(",\"nc\":"); log_num(o, (L)c.ncols());
        o.raw(",\"m\":"); o.integer((long long)c.m());
        o.raw(",\"out\":"); proj_csr<T>(o, c.out(), false, true); proj_views(o, c.out(), false);
        o.raw("},\"in\":"); proj_csr<T>(o, c.in(), false, true); proj_views(o, c.in(), false);
        o.raw("}}");
    }
    void release() override { if (!freed) c.free(); freed = true; }
    void free_() override { c.free(); freed = true; }
    void save(const std::string& fn) override { c.save(fn); }
};

struct MatObj : Obj {
    Mat_ c; bool freed;
    template <class... A> MatObj(A&&... a) : c(std::forward<A>(a)...), freed(false) {}
    const char* kind() const override { return "mat"; }
    void type(Out& o) const override { log_type<T>(o, 0); }
    void typeTo(Out& o, int flags, int target) const override { TypeTo<T>::op(o, flags, target); }
    void proj(Out& o) override {
        if (freed) { o.raw("{\"k\":\"freed\"}"); return; }
        o.raw("{\"k\":\"mat\",\"nr\":"); log_num(o, (L)c.nrows());
        o.raw(",\"nc\":"); log_num(o, (L)c.ncols());
        o.raw(",\"csr\":"); proj_csr<T>(o, c.csr(), false, false);
        o.raw("},\"csc\":"); proj_csr<T>(o, c.csc(), false, false);
        o.raw("}}");
    }
    void release() override { if (!freed) c.free(); freed = true; }
    void free_() override { c.free(); freed = true; }
};

struct TenObj : Obj {
    Ten_ c;
    template <class... A> TenObj(A&&... a) : c(std::forward<A>(a)...) {}
    const char* kind() const override { return "ten"; }
    void type(Out& o) const override { log_type<T>(o, 0); }
    void typeTo(Out& o, int flags, int target) const override { TypeTo<T>::op(o, flags, target); }
    void proj(Out& o) override {
        o.raw("{\"k\":\"ten\",\"ord\":"); o.integer((long long)c.order());
        o.raw(",\"m\":"); o.integer((long long)c.m());
        o.raw(",\"e\":[");
        size_t ord = (size_t)c.order();
        bool f = true;
        for (size_t i = 0; i < (size_t)c.m(); ++i) {
            sep(o, f);
            o.raw("[");
            bool f2 = true;
            for (size_t d = 0; d < ord; ++d) { sep(o, f2); log_num(o, at(c.c(), i*ord+d)); }
            if (T::wgt) { sep(o, f2); log_num(o, at(c.w(), i)); }
            o.raw("]");
        }
        o.raw("],\"mx\":"); maxLabels(o);
        o.raw("}");
    }
    void release() override { c.free(); }
    void free_() override { c.free(); }
    void save(const std::string& fn) override { c.save(fn); }
    void write(const std::string& fn) override { c.write(fn); }
    void maxLabels(Out& o) override {
        bool f = true;
        std::vector<L> mx = c.max_labels();
        o.raw("[");
        for (L l : mx) { sep(o, f); log_num(o, l); }
        o.raw("]");
    }
    Obj* copy() override { return new TenObj(static_cast<const Ten_&>(c)); }
    void assign(Obj& o) override { c = dynamic_cast<TenObj&>(o).c; }
    void poke(size_t i, int f, const std::string& v) override {
        if ((size_t)f < (size_t)c.order()) at(c.c(), i*(size_t)c.order()+f) = parse_num<L>(v);
        else at(c.w(), i) = parse_num<W>(v);
    }
};
#endif

template <int F> struct CooObj : Obj {
    typedef typename CooT<F>::type C;
    C c;
    template <class... A> CooObj(A&&... a) : c(std::forward<A>(a)...) {}
    const char* kind() const override { return "coo"; }
    void type(Out& o) const override { log_type<T>(o, F); }
    void typeTo(Out& o, int flags, int target) const override { TypeTo<T>::op(o, flags, target); }
    void proj(Out& o) override { proj_coo<T>(o, c); }
    void release() override { c.free(); }
    void free_() override { c.free(); }
    void save(const std::string& fn) override { c.save(fn); }
    void write(const std::string& fn) override { c.write(fn); }
    void transpose() override {
        C& r = c.transpose();
        if (&r != &c) throw std::runtime_error("transpose returned another object");
    }
    Obj* copy() override { return new CooObj<F>(static_cast<const C&>(c)); }
    void assign(Obj& o) override { c = dynamic_cast<CooObj<F>&>(o).c; }
    Obj* toCsr(int target) override {
#if CROSS >= 0
        if (target == CROSS) return new Csr2Obj<CSR2_>(c);
#endif
        (void)target;
        return new CsrObj<CSR_, false>(c);
    }
#ifndef LITE
    Obj* toGraph() override { return new CsrObj<Gra_, true>(c); }
    Obj* toDi() override { return new DigObj(c); }
    Obj* toMat() override { return new MatObj(c); }
#endif
    void setSize(int f, const std::string& v) override {
        if (f == 0) c.set_n(parse_num<L>(v));
        else if (f == 1) c.set_nrows(parse_num<L>(v));
        else c.set_ncols(parse_num<L>(v));
    }
    void poke(size_t i, int f, const std::string& v) override {
        if (f == 0) at(c.x(), i) = parse_num<L>(v);
        else if (f == 1) at(c.y(), i) = parse_num<L>(v);
        else at(c.w(), i) = parse_num<W>(v);
    }
};

template <class OBJ, class C> Obj* keep(C c) {
    try { return new OBJ(c); } catch (...) { c.free(); throw; }
}
Obj* mk_csr(CSR_&& c) { return keep<CsrObj<CSR_, false>>(c); }

template <class C, bool graph> Obj* CsrObj<C, graph>::dedup(int target) {
#if CROSS >= 0
    if (target == CROSS)
        return keep<Csr2Obj<CSR2_>>(c.template new_csr_without_dups<
            T2::L, T2::O, T2::SL, T2::SO, T2::wgt, T2::W, T2::SW>());
#endif
    (void)target;
    return mk_csr(c.new_csr_without_dups());
}

template <class C, bool graph> Obj* CsrObj<C, graph>::toCoo(int flags, int target) {
#if CROSS >= 0
    if (target == CROSS) return new Coo2Obj(static_cast<CSR_&>(c));
#endif
    (void)target;
    switch (flags) {
#define X(F) case F: if ((FLAGS >> F) & 1) return new CooObj<((FLAGS >> F) & 1) ? F : 0>(static_cast<CSR_&>(c)); break;
    X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7)
#undef X
    }
    throw BadScript("option combination not compiled");
}

// Src: a file name or an open file
template <class Src> Obj* do_load(const std::string& kind, int flags, Src& f, int ft, bool one_arg) {
    pigo::FileType t = (pigo::FileType)ft;
    if (kind == "coo") switch (flags) {
#define X(F) case F: if ((FLAGS >> F) & 1) { constexpr int G = ((FLAGS >> F) & 1) ? F : 0; return new CooObj<G>(f, t); } break;
    X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7)
#undef X
    }
    if (kind == "csr") return new CsrObj<CSR_, false>(f, t);
#ifndef LITE
    if (kind == "gra") return new CsrObj<Gra_, true>(f, t);
    if (kind == "dig") return new DigObj(f, t);
    if (kind == "ten") return new TenObj(f, t);
#endif
    (void)one_arg;
    throw BadScript("cannot load " + kind);
}
// the constructors that only take a name
Obj* do_load1(const std::string& kind, int flags, const std::string& f) {
    if (kind == "coo") switch (flags) {
#define X(F) case F: if ((FLAGS >> F) & 1) { constexpr int G = ((FLAGS >> F) & 1) ? F : 0; return new CooObj<G>(f); } break;
    X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7)
#undef X
    }
    if (kind == "csr") return new CsrObj<CSR_, false>(f);
#ifndef LITE
    if (kind == "gra") return new CsrObj<Gra_, true>(f);
    if (kind == "dig") return new DigObj(f);
    if (kind == "mat") return new MatObj(f);
    if (kind == "ten") return new TenObj(f);
#endif
    throw BadScript("cannot load " + kind);
}

template <int F> Obj* make_coo(const Args& a) {
    if (a.empty()) return new CooObj<F>();
    size_t m = std::stoul(a[3]);
    auto* o = new CooObj<F>(parse_num<L>(a[0]), parse_num<L>(a[1]), parse_num<L>(a[2]), (O)m);
        Held held(o);
    size_t p = 4;
    for (size_t i = 0; i < m; ++i) {
        at(o->c.x(), i) = parse_num<L>(a.at(p++));
        at(o->c.y(), i) = parse_num<L>(a.at(p++));
        if (T::wgt) at(o->c.w(), i) = parse_num<W>(a.at(p++));
    }
    return held.out();
}
Obj* do_make(const std::string& kind, int flags, const Args& a) {
    if (kind == "coo") switch (flags) {
#define X(F) case F: if ((FLAGS >> F) & 1) { constexpr int G = ((FLAGS >> F) & 1) ? F : 0; return make_coo<G>(a); } break;
    X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7)
#undef X
    }
    if (kind == "csr") {
        if (a.empty()) return new CsrObj<CSR_, false>();
        // n nr nc m, offsets, elements
        size_t m = std::stoul(a[3]), off = std::stoul(a[4]);
        auto* o = new CsrObj<CSR_, false>(parse_num<L>(a[0]), (O)m, parse_num<L>(a[1]), parse_num<L>(a[2]));
        Held held(o);
        size_t p = 5;
        for (size_t i = 0; i < off; ++i) at(o->c.offsets(), i) = parse_num<O>(a.at(p++));
        for (size_t i = 0; i < m; ++i) {
            at(o->c.endpoints(), i) = parse_num<L>(a.at(p++));
            if (T::wgt) at(o->c.weights(), i) = parse_num<W>(a.at(p++));
        }
        return held.out();
    }
#ifndef LITE
    if (kind == "ten") {
        if (a.empty()) return new TenObj();
        size_t ord = std::stoul(a[0]), m = std::stoul(a[1]);
        auto* o = new TenObj((O)ord, (O)m);
        Held held(o);
        size_t p = 2;
        for (size_t i = 0; i < m; ++i) {
            for (size_t d = 0; d < ord; ++d) at(o->c.c(), i*ord+d) = parse_num<L>(a.at(p++));
            if (T::wgt) at(o->c.w(), i) = parse_num<W>(a.at(p++));
        }
        return held.out();
    }
#endif
    throw BadScript("cannot make " + kind);
}

struct Register {
    Register() {
        Cfg c;
        c.load = [](const std::string& k, int fl, const std::string& fn, int ft) -> Obj* {
            if (ft < 0) return do_load1(k, fl, fn);
            return do_load(k, fl, fn, ft, false);
        };
        c.loadf = [](const std::string& k, int fl, void* f, int ft) -> Obj* {
            return do_load(k, fl, *static_cast<pigo::File*>(f), ft, false);
        };
        c.make = do_make;
        c.type = [](Out& o, int fl) { log_type<T>(o, fl); };
        cfgs()[CFG] = c;
    }
} reg;

}
}
