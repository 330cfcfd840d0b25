// Interpreter of operation scripts: reads scenarios from a file, executes them on the
// real library in a scratch directory and logs one event per operation.
//
//   driver SCRIPT LOG SCRATCHDIR [first scenario]
#include "driver.hpp"
#include PIGO_HEADER
#include <csignal>
#include <deque>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <set>
#include <sched.h>
#include <sys/mman.h>
#include <sys/mount.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <thread>
#include <unistd.h>
#ifdef _OPENMP
#include <omp.h>
#endif

#ifdef VERIF_SCHED
#include "sched.hpp"
#endif

#ifdef VERIF_FAULTS
#include "faults.hpp"
#endif

#ifdef VERIF_OWN_NEW
// allocations that are refused end in bad_alloc, as usual, and not the process
#include <new>
#include <cstdlib>
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
#endif

namespace drv {
Mode mode = SMALL;
std::map<int, Cfg>& cfgs() { static std::map<int, Cfg> m; return m; }
struct OpenFile {
    std::unique_ptr<pigo::File> f;
    pigo::FilePos base;
    bool wr;
    std::string fn;
};
}
using namespace drv;
using std::string;

static int log_fd = -1;
static string dir;
static bool watch = false;                    // log descriptors and mappings
static bool dyn = false;                      // the caller allows team sizes to be adjusted
static int inner = 0;                         // calls are made within a team of this size
static bool mute = false;                     // the second run of a scenario: only counted
static bool together = false;                 // several operations are running at once

static void emit(const string& s) {
    if (mute) return;
    size_t p = 0;
    while (p < s.size()) {
        ssize_t k = ::write(log_fd, s.data()+p, s.size()-p);
        if (k <= 0) _exit(97);
        p += (size_t)k;
    }
}
static void on_signal(int sig) {
    const char* t = sig == SIGALRM ? "\n#HANG\n" : "\n#CRASH\n";
    ssize_t r = ::write(log_fd, t, strlen(t)); (void)r;
    _exit(sig == SIGALRM ? 98 : 99);
}

// ---------------------------------------------------------------------------
// The files of the scratch directory
struct FState { char t; string data; };       // 'f' file, 'd' directory
static std::map<string, FState> known;
static std::map<string, std::unique_ptr<Obj>> objs;
static std::map<string, string> projected;
static std::map<string, OpenFile> files;

static std::map<string, FState> scan() {
    std::map<string, FState> r;
    DIR* d = opendir(dir.c_str());
    while (dirent* e = readdir(d)) {
        string n = e->d_name;
        if (n == "." || n == "..") continue;
        struct stat st;
        string p = dir + "/" + n;
        if (stat(p.c_str(), &st) != 0) continue;
        if (S_ISDIR(st.st_mode)) { r[n] = FState {'d', ""}; continue; }
        bool open_for_write = false;
        for (auto& f : files) if (f.second.wr && f.second.fn == n && f.second.f) open_for_write = true;
        if (open_for_write) { r[n] = FState {'w', ""}; continue; }
        if (st.st_size > (8 << 20)) { r[n] = FState {'f', "too big"}; continue; }
        std::ifstream in(p, std::ios::binary);
        std::stringstream b; b << in.rdbuf();
        r[n] = FState {'f', b.str()};
    }
    closedir(d);
    return r;
}
static void clean() {
    for (auto& f : scan()) {
        string p = dir + "/" + f.first;
        if (f.second.t == 'd') rmdir(p.c_str()); else unlink(p.c_str());
    }
}

// only: changes to this file (or object) only, when others are still to be logged
static void log_files(Out& o, const string* only = nullptr) {
    auto now = scan();
    bool f = true;
    if (only) {
        auto was = known;
        if (now.count(*only)) was[*only] = now[*only]; else was.erase(*only);
        now.swap(was);
    }
    o.raw(",\"files\":[");
    for (auto& x : now) {
        auto k = known.find(x.first);
        if (k != known.end() && k->second.t == x.second.t && k->second.data == x.second.data) continue;
        if (!f) o.raw(",");
        f = false;
        o.raw("["); o.str(x.first); o.raw(",");
        o.str(x.second.t == 'f' ? "file" : x.second.t == 'd' ? "dir" : "open"); o.raw(",");
        o.bytes(x.second.data.data(), x.second.data.size());
        o.raw("]");
    }
    o.raw("],\"fgone\":[");
    f = true;
    for (auto& x : known)
        if (!now.count(x.first)) { if (!f) o.raw(","); f = false; o.str(x.first); }
    o.raw("]");
    known = now;
}
static void log_objs(Out& o, const std::set<string>* only = nullptr) {
    bool f = true;
    o.raw(",\"objs\":[");
    std::map<string, string> now;
    if (only) { now = projected; for (auto& h : *only) now.erase(h); }
    for (auto& x : objs) {
        if (only && !only->count(x.first)) continue;
        Out p;
        x.second->proj(p);
        now[x.first] = p.s;
        auto k = projected.find(x.first);
        if (k != projected.end() && k->second == p.s) continue;
        if (!f) o.raw(",");
        f = false;
        o.raw("["); o.str(x.first); o.raw(","); o.raw(p.s); o.raw("]");
    }
    o.raw("],\"gone\":[");
    f = true;
    for (auto& x : projected)
        if (!now.count(x.first)) { if (!f) o.raw(","); f = false; o.str(x.first); }
    o.raw("]");
    projected = now;
}

// descriptors on, and mappings of, files of the scratch directory
static int fds_before = 0, maps_before = 0;   // when the scenario starts
static int count_fds() {
    int c = -fds_before;
    DIR* d = opendir("/proc/self/fd");
    while (dirent* e = readdir(d)) {
        char buf[4096];
        string p = string("/proc/self/fd/") + e->d_name;
        ssize_t k = readlink(p.c_str(), buf, sizeof buf - 1);
        if (k > 0 && string(buf, (size_t)k).compare(0, dir.size()+1, dir+"/") == 0) ++c;
    }
    closedir(d);
    return c;
}
static int count_maps() {
    std::ifstream in("/proc/self/maps");
    string l; int c = -maps_before;
    while (std::getline(in, l)) if (l.find(dir+"/") != string::npos) ++c;
    return c;
}

// ---------------------------------------------------------------------------
static const char* ft_names[] = { "MATRIX_MARKET", "EDGE_LIST", "PIGO_COO_BIN", "PIGO_CSR_BIN",
    "PIGO_DIGRAPH_BIN", "PIGO_TENSOR_BIN", "GRAPH", "AUTO" };
static int ft_of(const string& s) {
    if (s == "NONE") return -1;                // the constructor without a type
    const pigo::FileType v[] = { pigo::MATRIX_MARKET, pigo::EDGE_LIST, pigo::PIGO_COO_BIN,
        pigo::PIGO_CSR_BIN, pigo::PIGO_DIGRAPH_BIN, pigo::PIGO_TENSOR_BIN, pigo::GRAPH, pigo::AUTO };
    for (int i = 0; i < 8; ++i) if (s == ft_names[i]) return (int)v[i];
    throw BadScript("file type " + s);
}

static void key(Out& o, const char* k, const string& v) { o.raw(",\""); o.raw(k); o.raw("\":"); o.str(v); }

static Obj& obj(const string& h) {
    auto it = objs.find(h);
    if (it == objs.end()) throw BadScript("no object " + h);
    return *it->second;
}
static void put_obj(const string& h, Obj* o) {
    Held held(o);
    auto& x = objs[h];
    if (x) x->release();
    x.reset(held.out());
}
static string path(const string& fn) { return dir + "/" + fn; }

// Runs an operation and logs how it ended
template <class F> static void ended(F f, string& err, string& ret, std::exception_ptr& script) {
    try { ret = f(); }
    catch (pigo::NotYetImplemented&) { err = "NYI"; }
    catch (pigo::Error&) { err = "Error"; }
    catch (BadScript&) { script = std::current_exception(); }
    catch (std::exception& e) { err = "std"; }
    catch (...) { err = "other"; }
}
template <class F> static void guarded(Out& o, F f) {
    string err;
    string ret;
    std::exception_ptr script;
#ifdef VERIF_FAULTS
    faults::arm();
#endif
#ifdef _OPENMP
    omp_set_dynamic(dyn);
#endif
#ifdef VERIF_SCHED
    if (!together) sched_enable(true);
#endif
#ifdef _OPENMP
    if (inner > 0) {
        #pragma omp parallel num_threads(inner)
        {
            #pragma omp single
            ended(f, err, ret, script);
        }
    } else
#endif
    ended(f, err, ret, script);
#ifdef VERIF_SCHED
    if (!together) sched_enable(false);
#endif
#ifdef VERIF_FAULTS
    long hits = faults::disarm();
    if (hits) { o.raw(",\"hit\":"); o.integer(hits); }
#endif
    if (script) std::rethrow_exception(script);
    o.raw(",\"err\":"); o.str(err);
    if (!ret.empty()) { o.raw(","); o.raw(ret); }
}

static string posinfo(OpenFile& f) {
    Out o;
    o.raw("\"pos\":"); o.integer(f.f->fp() - f.base);
    o.raw(",\"size\":"); o.integer((long long)f.f->size());
    return o.s;
}

// the size that an object announces for its saved form
static string announced(const string& op, Obj& x) {
    if (op == "write" || x.saveSize() < 0) return string();
    Out o; o.raw("\"ssz\":"); o.integer(x.saveSize());
    return o.s;
}

template <class T> static string fread_as(OpenFile& f) {
    T v = f.f->read<T>();
    Out o; o.raw("\"val\":"); o.bytes((const char*)&v, sizeof v);
    return o.s;
}
template <class T> static void fwrite_as(OpenFile& f, const string& b) {
    T v; memcpy(&v, b.data(), sizeof v);
    f.f->write(v);
}

#include "prims.hpp"

// A disk of few pages: a file system of our own over the scratch directory
static bool disk = false;
static void small_disk(long pages) {
    auto tell = [](const char* f, const string& t) {
        int fd = open(f, O_WRONLY);
        if (fd < 0) return false;
        bool ok = write(fd, t.data(), t.size()) == (ssize_t)t.size();
        close(fd);
        return ok;
    };
    string u = std::to_string(getuid()), g = std::to_string(getgid());
    if (unshare(CLONE_NEWUSER | CLONE_NEWNS) != 0) return;
    tell("/proc/self/setgroups", "deny");
    if (!tell("/proc/self/uid_map", u + " " + u + " 1") || !tell("/proc/self/gid_map", g + " " + g + " 1")) return;
    if (mount("none", "/", nullptr, MS_REC | MS_PRIVATE, nullptr) != 0) return;
    string o = "size=" + std::to_string(pages * 4096);
    disk = mount("tmpfs", dir.c_str(), "tmpfs", MS_NOSUID | MS_NODEV | MS_NOEXEC, o.c_str()) == 0;
}
// what is left of it for a file, if that replaces one of its name
static void room(Out& o, const string& fn) {
    if (!disk) return;
    struct statvfs v;
    struct stat s;
    if (statvfs(dir.c_str(), &v) != 0) return;
    long long n = (long long)v.f_bavail * v.f_bsize;
    if (stat(path(fn).c_str(), &s) == 0 && S_ISREG(s.st_mode)) n += s.st_blocks * 512LL;
    o.raw(",\"room\":"); o.integer(n);
}

static bool has(const char* ops, const string& x) {
    return (string(" ") + ops + " ").find(" " + x + " ") != string::npos;
}
// operations on objects that an earlier operation failed to make are left out
static bool left_out(const Args& a) {
    const string& op = a[0];
    if (has("c2s c2g c2d c2m copy dd s2c asg", op) && !objs.count(a[2])) return true;
    if (has("asg sort tr free drop set poke save savef write find mx", op) && !objs.count(a[1])) return true;
    if (op == "loadf" && !files.count(a[5])) return true;
    if (op == "savef" && !files.count(a[2])) return true;
    if (has("fread freads fwrite fwrites fpw fpr fseek freader fguess fmove fmasg fclose", op) && !files.count(a[1])) return true;
    if (op == "fmasg" && !files.count(a[2])) return true;
    return false;
}

static void run_op(const Args& a, Out& o) {
    const string& op = a[0];
    if (!together && left_out(a)) return;
    o.raw("{\"op\":"); o.str(op);
    auto ty = [&](int cfg, int flags) { o.raw(",\"ty\":"); cfgs().at(cfg).type(o, flags); };
    auto flush_head = [&]() { if (!together) { emit(o.s); o.s.clear(); } };
    auto oty = [&](const string& h) { o.raw(",\"ty\":"); obj(h).type(o); };
    auto tyto = [&](const string& h, int flags, int target) { o.raw(",\"ty\":"); obj(h).typeTo(o, flags, target); };
    if (op == "put" || op == "mkdir" || op == "rm" || op == "cut" || op == "byte" || op == "add") {
        // the environment: files made, changed or removed by others
        key(o, "fn", a[1]);
        flush_head();
        string p = path(a[1]);
        if (op == "put") {
            std::ofstream f(p, std::ios::binary | std::ios::trunc);
            f << unhex(a.size() > 2 ? a[2] : "");
        } else if (op == "mkdir") ::mkdir(p.c_str(), 0755);
        else if (op == "cut" || op == "byte" || op == "add") {
            // shorten the file, change a byte, add bytes
            auto fs = scan();
            if (fs.count(a[1]) && fs[a[1]].t == 'f') {
                string b = fs[a[1]].data;
                size_t n = op == "add" ? 0 : std::stoul(a[2]);
                if (op == "cut" && n < b.size()) b.resize(n);
                if (op == "byte" && n < b.size()) b[n] = (char)std::stoi(a[3]);
                if (op == "add") b += unhex(a[2]);
                std::ofstream f(p, std::ios::binary | std::ios::trunc);
                f << b;
            }
        }
        else { if (::unlink(p.c_str())) ::rmdir(p.c_str()); }
        o.raw(",\"err\":\"\"");
    } else if (op == "T") {
#ifdef _OPENMP
        omp_set_num_threads(std::stoi(a[1]));
#endif
        o.s.clear();            // no event: the outcome must not depend on it
        return;
    } else if (op == "sched") {
#ifdef VERIF_SCHED
        std::vector<const char*> v;
        for (size_t i = 1; i < a.size(); ++i) v.push_back(a[i].c_str());
        sched_set((int)v.size(), v.data());
#endif
        o.s.clear();            // no event: the outcome must not depend on it either
        return;
    } else if (op == "omp") {
        // omp D N: let team sizes be adjusted, and call from within a team of N
        dyn = a[1] == "1";
        inner = std::stoi(a[2]);
        o.s.clear();
        return;
    } else if (op == "fail") {
        // fail A|S N COUNT: resources that the next operation does not get
#ifdef VERIF_FAULTS
        faults::plan(a[1][0], std::stol(a[2]), std::stol(a[3]));
#endif
        o.s.clear();            // no event: the next one tells whether any failed
        return;
    } else if (op == "watch") {
        watch = a[1] == "1";
        key(o, "arg", a[1]);
        o.raw(",\"err\":\"\"");
    } else if (op == "load") {
        // load H kind cfg flags file type
        int cfg = std::stoi(a[3]), flags = std::stoi(a[4]);
        key(o, "h", a[1]); key(o, "kind", a[2]); ty(cfg, flags); key(o, "fn", a[5]);
        o.raw(",\"nm\":"); o.bytes(a[5].data(), a[5].size());
        key(o, "ft", a[6]);
        flush_head();
        guarded(o, [&]() {
            put_obj(a[1], cfgs().at(cfg).load(a[2], flags, path(a[5]), ft_of(a[6])));
            return string(); });
    } else if (op == "loadf") {
        // loadf H kind cfg flags openfile type
        int cfg = std::stoi(a[3]), flags = std::stoi(a[4]);
        OpenFile& f = files.at(a[5]);
        key(o, "h", a[1]); key(o, "kind", a[2]); ty(cfg, flags); key(o, "f", a[5]);
        o.raw(",\"nm\":"); o.bytes(f.fn.data(), f.fn.size());
        key(o, "ft", a[6]);
        flush_head();
        guarded(o, [&]() {
            put_obj(a[1], cfgs().at(cfg).loadf(a[2], flags, f.f.get(), ft_of(a[6])));
            return string(); });
        o.raw(","); o.raw(posinfo(f));
    } else if (op == "mk") {
        int cfg = std::stoi(a[3]), flags = std::stoi(a[4]);
        key(o, "h", a[1]); key(o, "kind", a[2]); ty(cfg, flags);
        o.raw(",\"a\":[");
        if (mode == SMALL)
            for (size_t i = 5; i < a.size(); ++i) { if (i > 5) o.raw(","); o.raw(a[i]); }
        o.raw("]");
        flush_head();
        guarded(o, [&]() {
            put_obj(a[1], cfgs().at(cfg).make(a[2], flags, Args(a.begin()+5, a.end())));
            return string(); });
    } else if (op == "c2s" || op == "c2g" || op == "c2d" || op == "c2m" || op == "copy") {
        // c2s H2 H [target cfg]
        key(o, "h", a[1]); key(o, "src", a[2]); tyto(a[2], 0, a.size() > 3 ? std::stoi(a[3]) : -1);
        flush_head();
        guarded(o, [&]() {
            Obj& s = obj(a[2]);
            Obj* r = op == "c2s" ? s.toCsr(a.size() > 3 ? std::stoi(a[3]) : -1)
                : op == "c2g" ? s.toGraph() : op == "c2d" ? s.toDi()
                : op == "c2m" ? s.toMat() : s.copy();
            put_obj(a[1], r);
            return string(); });
    } else if (op == "dd") {
        key(o, "h", a[1]); key(o, "src", a[2]); tyto(a[2], 0, a.size() > 3 ? std::stoi(a[3]) : -1);
        flush_head();
        guarded(o, [&]() {
            put_obj(a[1], obj(a[2]).dedup(a.size() > 3 ? std::stoi(a[3]) : -1));
            return string(); });
    } else if (op == "s2c") {
        // s2c H2 H flags [target cfg]
        int flags = std::stoi(a[3]);
        key(o, "h", a[1]); key(o, "src", a[2]);
        tyto(a[2], flags, a.size() > 4 ? std::stoi(a[4]) : -1);
        flush_head();
        guarded(o, [&]() {
            put_obj(a[1], obj(a[2]).toCoo(flags, a.size() > 4 ? std::stoi(a[4]) : -1));
            return string(); });
    } else if (op == "asg") {
        key(o, "h", a[1]); key(o, "src", a[2]);
        flush_head();
        guarded(o, [&]() { obj(a[1]).assign(obj(a[2])); return string(); });
    } else if (op == "sort" || op == "tr" || op == "free" || op == "drop") {
        key(o, "h", a[1]);
        flush_head();
        guarded(o, [&]() {
            if (op == "sort") obj(a[1]).sort();
            else if (op == "tr") obj(a[1]).transpose();
            else if (op == "free") obj(a[1]).free_();
            else { obj(a[1]).release(); objs.erase(a[1]); }
            return string(); });
    } else if (op == "set") {
        // set H n|nr|nc value
        key(o, "h", a[1]); key(o, "fld", a[2]);
        o.raw(",\"val\":"); log_num(o, (uint32_t)std::stoul(a[3]));
        flush_head();
        guarded(o, [&]() {
            obj(a[1]).setSize(a[2] == "n" ? 0 : a[2] == "nr" ? 1 : 2, a[3]); return string(); });
    } else if (op == "poke") {
        // poke H element field value
        key(o, "h", a[1]);
        o.raw(",\"i\":" + a[2] + ",\"fld\":" + a[3] + ",\"val\":" + a[4]);
        flush_head();
        guarded(o, [&]() { obj(a[1]).poke(std::stoul(a[2]), std::stoi(a[3]), a[4]); return string(); });
    } else if (op == "save" || op == "write") {
        key(o, "h", a[1]); oty(a[1]); key(o, "fn", a[2]);
        room(o, a[2]);
        flush_head();
        guarded(o, [&]() {
            if (op == "save") obj(a[1]).save(path(a[2])); else obj(a[1]).write(path(a[2]));
            return announced(op, obj(a[1])); });
    } else if (op == "savef") {
        // savef H openfile
        OpenFile& f = files.at(a[2]);
        key(o, "h", a[1]); oty(a[1]); key(o, "f", a[2]);
        flush_head();
        guarded(o, [&]() { obj(a[1]).savef(f.f.get()); return announced(op, obj(a[1])); });
        o.raw(","); o.raw(posinfo(f));
    } else if (op == "find") {
        key(o, "h", a[1]);
        o.raw(",\"x\":" + a[2] + ",\"y\":" + a[3]);
        flush_head();
        guarded(o, [&]() {
            bool r = obj(a[1]).find(std::stoull(a[2]), std::stoull(a[3]));
            return string("\"ret\":") + (r ? "true" : "false"); });
    } else if (op == "mx") {
        key(o, "h", a[1]);
        flush_head();
        guarded(o, [&]() { Out r; r.raw("\"ret\":"); obj(a[1]).maxLabels(r); return r.s; });
    } else if (op == "guess") {
        key(o, "fn", a[1]);
        o.raw(",\"nm\":"); o.bytes(a[1].data(), a[1].size());
        flush_head();
        guarded(o, [&]() {
            pigo::ROFile f {path(a[1])};
            Out r; r.raw("\"ret\":");
            int t = (int)f.guess_file_type();
            string nm = "?";
            for (auto n : ft_names) if (ft_of(n) == t) nm = n;
            r.str(nm);
            return r.s; });
    } else if (op == "fopen") {
        // fopen F r|w|R|W file [size]      R, W: the derived classes
        key(o, "f", a[1]); key(o, "md", a[2] == "r" || a[2] == "R" ? "r" : "w"); key(o, "fn", a[3]);
        long sz = a.size() > 4 ? std::stol(a[4]) : 0;
        o.raw(",\"n\":"); o.integer(sz);
        if (a[2] == "w" || a[2] == "W") room(o, a[3]);
        flush_head();
        guarded(o, [&]() {
            OpenFile f;
            if (a[2] == "r") f.f.reset(new pigo::File(path(a[3]), pigo::READ, (size_t)sz));
            else if (a[2] == "w") f.f.reset(new pigo::File(path(a[3]), pigo::WRITE, (size_t)sz));
            else if (a[2] == "R") f.f.reset(new pigo::ROFile(path(a[3])));
            else f.f.reset(new pigo::WFile(path(a[3]), (size_t)sz));
            f.base = f.f->fp();
            f.wr = a[2] == "w" || a[2] == "W";
            f.fn = a[3];
            string r = posinfo(f);
            files[a[1]] = std::move(f);
            return r; });
    } else if (op[0] == 'f' && op != "find" && op != "free") {
        OpenFile& f = files.at(a[1]);
        key(o, "f", a[1]);
        if (op == "fread") {                   // fread F bytes
            int n = std::stoi(a[2]);
            o.raw(",\"n\":"); o.integer(n);
            flush_head();
            guarded(o, [&]() { return n == 1 ? fread_as<uint8_t>(f) : n == 2 ? fread_as<uint16_t>(f)
                    : n == 4 ? fread_as<uint32_t>(f) : fread_as<uint64_t>(f); });
        } else if (op == "freads") {           // freads F hex
            string s = unhex(a.size() > 2 ? a[2] : "");
            o.raw(",\"val\":"); o.bytes(s.data(), s.size());
            flush_head();
            guarded(o, [&]() { f.f->read(s); return string(); });
        } else if (op == "fwrite") {           // fwrite F hex
            string s = unhex(a[2]);
            o.raw(",\"val\":"); o.bytes(s.data(), s.size());
            flush_head();
            guarded(o, [&]() {
                if (s.size() == 1) fwrite_as<uint8_t>(f, s);
                else if (s.size() == 2) fwrite_as<uint16_t>(f, s);
                else if (s.size() == 4) fwrite_as<uint32_t>(f, s);
                else fwrite_as<uint64_t>(f, s);
                return string(); });
        } else if (op == "fwrites") {
            string s = unhex(a.size() > 2 ? a[2] : "");
            o.raw(",\"val\":"); o.bytes(s.data(), s.size());
            flush_head();
            guarded(o, [&]() { f.f->write(s); return string(); });
        } else if (op == "fpw") {
            string s = unhex(a.size() > 2 ? a[2] : "");
            o.raw(",\"val\":"); o.bytes(s.data(), s.size());
            flush_head();
            guarded(o, [&]() { f.f->parallel_write(&s[0], s.size()); return string(); });
        } else if (op == "fpr") {
            size_t n = std::stoul(a[2]);
            o.raw(",\"n\":"); o.integer((long long)n);
            flush_head();
            guarded(o, [&]() {
                string s(n+16, '\x5a');
                f.f->parallel_read(&s[0], n);
                Out r; r.raw("\"val\":"); r.bytes(s.data(), n);
                // nothing written behind the requested bytes
                for (size_t i = n; i < n+16; ++i) if (s[i] != '\x5a') r.raw(",\"over\":1");
                return r.s; });
        } else if (op == "fseek") {
            o.raw(",\"n\":" + a[2]);
            flush_head();
            guarded(o, [&]() { f.f->seek((size_t)std::stoull(a[2])); return string(); });
        } else if (op == "freader") {
            flush_head();
            guarded(o, [&]() {
                pigo::FileReader r = f.f->reader();
                Out x; x.raw("\"val\":"); x.bytes(r.d, r.size());
                return x.s; });
        } else if (op == "fguess") {
            o.raw(",\"nm\":"); o.bytes(path(f.fn).data(), path(f.fn).size());
            flush_head();
            guarded(o, [&]() {
                int t = (int)f.f->guess_file_type();
                Out r; r.raw("\"ret\":");
                string nm = "?";
                for (auto n : ft_names) if (ft_of(n) == t) nm = n;
                r.str(nm);
                return r.s; });
        } else if (op == "fmove" || op == "fmasg") {
            // fmove F F2: F2 made from F; fmasg F F2: F2 = move(F)
            key(o, "to", a[2]);
            flush_head();
            guarded(o, [&]() {
                if (op == "fmove") {
                    OpenFile g;
                    g.f.reset(new pigo::File(std::move(*f.f)));
                    g.base = f.base; g.wr = f.wr; g.fn = f.fn;
                    files[a[2]] = std::move(g);
                } else {
                    OpenFile& g = files.at(a[2]);
                    *g.f = std::move(*f.f);
                    if (a[1] != a[2]) { g.base = f.base; g.wr = f.wr; g.fn = f.fn; }
                }
                if (a[1] != a[2]) { f.f.reset(); files.erase(a[1]); }
                return string(); });
        } else if (op == "fclose") {
            flush_head();
            guarded(o, [&]() { f.f.reset(); files.erase(a[1]); return string(); });
        } else throw BadScript("operation " + op);
        // where every open file stands now
        if (op != "fclose") {
            OpenFile& g = files.at(op == "fmove" || op == "fmasg" ? a[2] : a[1]);
            o.raw(","); o.raw(posinfo(g));
        }
    } else if (op == "prim" || op == "offs") {
        prim_op(a, o, flush_head);
    } else throw BadScript("operation " + op);

    if (together) return;
    log_objs(o);
    log_files(o);
    if (watch) {
        o.raw(",\"fds\":"); o.integer(count_fds());
        o.raw(",\"maps\":"); o.integer(count_maps());
    }
    o.raw("}\n");
}

// Operations run at once by threads of their own: each makes or changes one object or file
// that no other of them uses.  They are logged one after the other.
static void run_together(const std::vector<Args>& all) {
    std::vector<Args> ops;
    for (auto& a : all) {
        if (!has("load loadf mk c2s c2g c2d c2m copy dd s2c asg sort tr free save savef write find mx guess"
                 " fread freads fwrite fwrites fpr fpw fseek freader fguess prim offs", a[0])) throw BadScript("cannot run together: " + a[0]);
        if (!left_out(a)) ops.push_back(a);
    }
    size_t n = ops.size();
    std::vector<Out> outs(n);
    std::vector<std::exception_ptr> bad(n);
    for (auto& a : ops) if (has("load loadf mk c2s c2g c2d c2m copy dd s2c", a[0])) objs[a[1]];
    auto one = [&](size_t i) {
        try { run_op(ops[i], outs[i]); }
        catch (...) { bad[i] = std::current_exception(); }
    };
    together = true;
#ifdef _OPENMP
    const int team = omp_get_max_threads();
#endif
#ifdef VERIF_SCHED
    sched_enable(true);
    #pragma omp parallel num_threads((int)n)
    {
        size_t k = (size_t)omp_get_num_threads();
        for (size_t i = (size_t)omp_get_thread_num(); i < n; i += k) one(i);
    }
    sched_enable(false);
#else
    std::vector<std::thread> t;
    for (size_t i = 0; i < n; ++i) t.emplace_back([&, i]() {
#ifdef _OPENMP
        omp_set_num_threads(team);
#endif
        one(i);
    });
    for (auto& x : t) x.join();
#endif
    together = false;
    for (auto it = objs.begin(); it != objs.end();)
        if (it->second) ++it; else it = objs.erase(it);
    static const string none;
    for (size_t i = 0; i < n; ++i) {
        if (bad[i]) std::rethrow_exception(bad[i]);
        const Args& a = ops[i];
        // what it changes
        std::set<string> obj;
        const string* file = &none;
        if (has("load loadf mk c2s c2g c2d c2m copy dd s2c asg sort tr free", a[0])) obj.insert(a[1]);
        if (a[0] == "dd") obj.insert(a[2]);
        if (has("save write", a[0])) file = &a[2];
        if (has("fwrite fwrites fpw", a[0])) file = &files.at(a[1]).fn;
        if (a[0] == "savef") file = &files.at(a[2]).fn;
        log_objs(outs[i], i+1 == n ? nullptr : &obj);
        log_files(outs[i], i+1 == n ? nullptr : file);
        if (watch && i+1 == n) {
            outs[i].raw(",\"fds\":"); outs[i].integer(count_fds());
            outs[i].raw(",\"maps\":"); outs[i].integer(count_maps());
        }
        outs[i].raw("}\n");
        emit(outs[i].s);
    }
}

static void let_go() {
    for (auto& x : objs) x.second->release();
    objs.clear();
    files.clear();
}
static void fresh() {
    clean();
    known.clear(); projected.clear(); watch = false; dyn = false; inner = 0;
}
static Args words(const string& line) {
    Args a;
    std::istringstream ls(line);
    string t;
    while (ls >> t) a.push_back(t);
    return a;
}

// leave: every object is freed and every file closed.  Everything up to here is then done
// once more: what is held after it that was not before is lost (and not something
// that is made once and kept).
static void again(const std::vector<string>& lines) {
    for (size_t i = 0; i+1 < lines.size(); ++i) {
        Args a = words(lines[i]);
        if (a.empty()) continue;
        Out o;
        if (a[0] != "par") { run_op(a, o); continue; }
        std::vector<Args> all((size_t)std::stoul(a[1]));
        for (auto& x : all) x = words(lines[++i]);
        run_together(all);
    }
    let_go();
    known.clear(); projected.clear();
}
static void leave(const std::vector<string>& lines, Out& o) {
    o.raw("{\"op\":\"leave\",\"err\":\"\"");
    emit(o.s); o.s.clear();
    let_go();
    log_objs(o);
    log_files(o);
    if (watch) {
        o.raw(",\"fds\":"); o.integer(count_fds());
        o.raw(",\"maps\":"); o.integer(count_maps());
    }
#ifdef VERIF_FAULTS
    fresh();
    mute = true;
    long before = faults::held();
    again(lines);
    long after = faults::held();
    mute = false;
    o.raw(",\"kept\":"); o.integer(after - before);
#endif
    o.raw("}\n");
}

int main(int argc, char** argv) {
    if (argc < 4) return 2;
    std::ifstream in(argv[1]);
    log_fd = open(argv[2], O_WRONLY | O_CREAT | O_APPEND, 0644);
    dir = argv[3];
    char* rp = realpath(argv[3], nullptr);
    if (rp) { dir = rp; ::free(rp); }
    long first = argc > 4 ? std::atol(argv[4]) : 0;
    if (getenv("VERIF_DISK_PAGES")) small_disk(std::atol(getenv("VERIF_DISK_PAGES")));
    int limit = getenv("VERIF_OP_SECONDS") ? atoi(getenv("VERIF_OP_SECONDS")) : 20;
    // absurd sizes must fail rather than exhaust the machine
    if (getenv("VERIF_MEMORY_MB") && atol(getenv("VERIF_MEMORY_MB")) > 0) {
        struct rlimit rl;
        rl.rlim_cur = rl.rlim_max = (rlim_t)atol(getenv("VERIF_MEMORY_MB")) << 20;
        setrlimit(RLIMIT_AS, &rl);
    }
    // signals on a stack of their own, as a thread may have run out of its
    static char alt[65536];
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGALRM, SIGTRAP}) {
        struct sigaction sa; memset(&sa, 0, sizeof sa);
        sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
        sigaction(s, &sa, nullptr);
    }
    string line;
    long idx = -1;
    bool skip = false;
    std::vector<string> lines;                    // of this scenario so far
    auto next = [&]() {
        if (!std::getline(in, line)) return false;
        lines.push_back(line);
        return true;
    };
    while (next()) {
        Args a = words(line);
        if (a.empty()) continue;
        if (a[0] == "scenario") {
            ++idx;
            lines.clear();
            skip = idx < first;
            if (skip) continue;
            fresh();
            fds_before = maps_before = 0;
            fds_before = count_fds(); maps_before = count_maps();
            mode = a.size() > 2 && a[2] == "wide" ? WIDE : a.size() > 2 && a[2] == "raw" ? RAW : SMALL;
            emit("#S " + std::to_string(idx) + "\n");
#ifdef VERIF_SCHED
            sched_scenario(idx);
#endif
            continue;
        }
        if (skip) continue;
        if (a[0] == "end") {
            let_go();
#ifdef VERIF_SCHED
            sched_end(log_fd);
#endif
            emit("#E\n");
            continue;
        }
        Out o;
        if (a[0] == "par") {
            // par N: the next N operations at once
            std::vector<Args> all((size_t)std::stoul(a[1]));
            for (auto& x : all) {
                next();
                x = words(line);
            }
            alarm((unsigned)limit);
            try { run_together(all); }
            catch (std::exception& e) {
                emit(string("\n#BAD ") + e.what() + " in: " + line.substr(0, 200) + "\n");
                _exit(96);
            }
            alarm(0);
            continue;
        }
        alarm((unsigned)limit);
        try { if (a[0] == "leave") leave(lines, o); else run_op(a, o); }
        catch (std::exception& e) {
            emit(o.s + "\n#BAD " + e.what() + " in: " + line.substr(0, 200) + "\n");
            _exit(96);
        }
        alarm(0);
        emit(o.s);
    }
    clean();
    emit("#DONE\n");
    _exit(0);
}
