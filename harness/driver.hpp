// Interpreter of operation scripts over the real library: common part.
// Every public operation is executed with its arguments taken from a script, and
// the full projected state (objects and files) that changed is logged as one event.
#ifndef VERIF_DRIVER_HPP
#define VERIF_DRIVER_HPP
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#ifndef PIGO_HEADER
#define PIGO_HEADER "pigo.hpp"
#endif

namespace drv {

enum Mode { SMALL, WIDE, RAW };
extern Mode mode;

typedef std::vector<std::string> Args;

// ---------------------------------------------------------------------------
// Logged values
struct Out {
    std::string s;
    void raw(const std::string& t) { s += t; }
    void raw(const char* t) { s += t; }
    void integer(long long v) { s += std::to_string(v); }
    void str(const std::string& t) {
        s += '"';
        for (char c : t) {
            if (c == '"' || c == '\\') { s += '\\'; s += c; }
            else if ((unsigned char)c < 32) s += '?';
            else s += c;
        }
        s += '"';
    }
    void bytes(const char* p, size_t n) {
        s += '[';
        for (size_t i = 0; i < n; ++i) {
            if (i) s += ',';
            s += std::to_string((int)(unsigned char)p[i]);
        }
        s += ']';
    }
};

const long long SENTINEL = 2100000000LL;   // "not representable": matches nothing

inline void log_digits(Out& o, bool neg, std::string digits) {
    o.raw(neg ? "[1" : "[0");
    for (char c : digits) { o.raw(","); o.s += c; }
    o.raw("]");
}

template <class T>
typename std::enable_if<std::is_integral<T>::value>::type log_num(Out& o, T v) {
    if (mode == RAW) { o.bytes((const char*)&v, sizeof(T)); return; }
    if (mode == WIDE) {
        bool neg = std::is_signed<T>::value && v < 0;
        unsigned long long u = neg ? 0ULL - (unsigned long long)(long long)v
                                   : (unsigned long long)v;
        log_digits(o, neg, std::to_string(u));
        return;
    }
    bool fits = std::is_signed<T>::value
        ? ((long long)v > -SENTINEL && (long long)v < SENTINEL)
        : ((unsigned long long)v < (unsigned long long)SENTINEL);
    // the smallest 32-bit value is of interest in itself
    if (std::is_signed<T>::value && (long long)v == -2147483648LL) fits = false;
    o.integer(fits ? (long long)v : SENTINEL);
}

template <class T>
typename std::enable_if<std::is_floating_point<T>::value>::type log_num(Out& o, T v) {
    if (mode == RAW) { o.bytes((const char*)&v, sizeof(T)); return; }
    double d = (double)v;
    if (mode == WIDE) {
        char buf[400];
        std::snprintf(buf, sizeof buf, "%.6f", d);
        std::string t = buf;
        char sci[64];
        std::snprintf(sci, sizeof sci, "%.8e", std::fabs(d));
        long long m = 0; int e = 0;
        if (std::isfinite(d) && d != 0) {
            for (const char* p = sci; *p && *p != 'e'; ++p)
                if (*p != '.') m = m*10 + (*p-'0');
            e = std::atoi(std::strchr(sci, 'e')+1) + 1;
        } else if (!std::isfinite(d)) { m = SENTINEL; }
        o.raw("{\"neg\":"); o.raw(d < 0 ? "true" : "false");
        o.raw(",\"m\":"); o.integer(m); o.raw(",\"e\":"); o.integer(m ? e : 0);
        o.raw(",\"t\":"); o.bytes(t.data(), t.size()); o.raw("}");
        return;
    }
    double k = std::round(d*64);
    double tol = 1e-6*std::fmax(1.0, std::fabs(d));
    if (std::isfinite(d) && std::fabs(k) < 2e9 && std::fabs(d - k/64) <= tol)
        o.integer((long long)k);
    else
        o.integer(SENTINEL);
}

// Script values: decimal (floating point in 1/64) or, in mode raw, hex bytes
inline std::string unhex(const std::string& h) {
    std::string r;
    auto v = [](char c) { return c <= '9' ? c-'0' : c-'a'+10; };
    for (size_t i = 0; i+1 < h.size(); i += 2) r += (char)(v(h[i])*16 + v(h[i+1]));
    return r;
}
template <class T> T parse_num(const std::string& a) {
    T r = T();
    if (mode == RAW) {
        std::string b = unhex(a);
        std::memcpy(&r, b.data(), b.size() < sizeof(T) ? b.size() : sizeof(T));
        return r;
    }
    if (std::is_floating_point<T>::value) {
        if (mode == WIDE) return (T)std::strtod(a.c_str(), nullptr);
        return (T)((double)std::atoll(a.c_str())/64.0);
    }
    if (a[0] == '-') return (T)std::strtoll(a.c_str(), nullptr, 10);
    return (T)std::strtoull(a.c_str(), nullptr, 10);
}

// ---------------------------------------------------------------------------
// Objects
struct BadScript : std::runtime_error { using std::runtime_error::runtime_error; };

struct Obj {
    virtual ~Obj() {}
    virtual void proj(Out&) = 0;
    virtual const char* kind() const = 0;
    virtual void type(Out&) const = 0;
    // the types of what is made of it in configuration target (-1: its own)
    virtual void typeTo(Out& o, int, int) const { type(o); }
    virtual void release() = 0;                     // at the end of a scenario
    virtual void save(const std::string&) { bad("save"); }
    virtual void savef(void*) { bad("savef"); }     // into an open file
    virtual long long saveSize() { return -1; }      // the size announced, if it is
    virtual void write(const std::string&) { bad("write"); }
    virtual void free_() { bad("free"); }
    virtual void transpose() { bad("tr"); }
    virtual void sort() { bad("sort"); }
    virtual void assign(Obj&) { bad("asg"); }
    virtual Obj* copy() { bad("copy"); return nullptr; }
    virtual Obj* dedup(int) { bad("dd"); return nullptr; }
    virtual Obj* toCsr(int) { bad("c2s"); return nullptr; }
    virtual Obj* toGraph() { bad("c2g"); return nullptr; }
    virtual Obj* toDi() { bad("c2d"); return nullptr; }
    virtual Obj* toMat() { bad("c2m"); return nullptr; }
    virtual Obj* toCoo(int, int) { bad("s2c"); return nullptr; }
    virtual void setSize(int, const std::string&) { bad("set"); }
    virtual void poke(size_t, int, const std::string&) { bad("poke"); }
    virtual bool find(unsigned long long, unsigned long long) { bad("find"); return false; }
    virtual void maxLabels(Out&) { bad("mx"); }
    void bad(const char* op) { throw BadScript(std::string("no ") + op + " on " + kind()); }
};
// An object that nobody has yet: it goes when it cannot be handed over
struct Held {
    Obj* o;
    explicit Held(Obj* o_) : o(o_) {}
    ~Held() { if (o) { o->release(); delete o; } }
    Obj* out() { Obj* r = o; o = nullptr; return r; }
};


struct OpenFile;        // main.cpp

struct Cfg {
    // kind, flags, name, file type (as the library's enum)
    std::function<Obj*(const std::string&, int, const std::string&, int)> load;
    // the same from an open file
    std::function<Obj*(const std::string&, int, void*, int)> loadf;
    // kind, flags, numbers
    std::function<Obj*(const std::string&, int, const Args&)> make;
    std::function<void(Out&, int)> type;
};
std::map<int, Cfg>& cfgs();

}
#endif
