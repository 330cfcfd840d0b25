// An OpenMP runtime whose schedules are chosen by the check, and a recorder of memory
// accesses.
//
// The library and the driver are compiled with -fopenmp and -fsanitize=thread but linked
// with neither libgomp nor libtsan: the entry points of both are here.  The threads of a
// team are fibers of one thread of the system; which one runs is decided at every
// instrumented access and every call of the runtime.  What each thread reads and writes
// between two points of synchronisation is summarised as byte ranges of objects (heap
// blocks, mappings, the frames of the function that started the team) and written out for
// validation against spec/OmpMem.tla.
//
// Only constructs the compiler turns into calls or inline code are known here: nothing
// depends on how the library uses them.
#include "sched.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <map>
#include <new>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <ucontext.h>
#include <unistd.h>
#include <vector>

extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
void* __real_memchr(const void*, int, size_t);
size_t __real_strlen(const char*);
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
extern char __data_start, _end, __executable_start;
extern char __libc_single_threaded;
}

namespace {

typedef uintptr_t U;
typedef unsigned long long ull;

bool on = false;                        // library code is running
bool inside = false;                    // this file is running
struct Inside { bool was; Inside() : was(inside) { inside = true; } ~Inside() { inside = was; } };

// ---------------------------------------------------------------- random numbers
uint64_t rng_state = 1;
uint64_t rnd() {
    uint64_t z = (rng_state += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

// ---------------------------------------------------------------- the schedule
enum { UP = 0, DOWN = 1, BLOCK = 2, RANDOM = 3, PCT = 4, CHOICES = 5 };
int kind = UP;
uint64_t seed = 1;
long param = 50, chunk = 0, grant = 0;
bool record = false;
std::vector<int> choices;
size_t choice_at = 0;

// ---------------------------------------------------------------- objects
const size_t ARENA = 768u << 20;
const size_t LARGEST = 16u << 20;       // larger blocks are refused: a million rows need less
const size_t ZONE = 64;
char* arena = nullptr;
size_t arena_at = 0;
struct Block { U lo, hi; int id; bool live; };
// containers of this file must not use the tracked allocator
template <class T> struct Raw {
    typedef T value_type;
    Raw() {}
    template <class V> Raw(const Raw<V>&) {}
    T* allocate(size_t n) { return (T*)__real_malloc(n*sizeof(T)); }
    void deallocate(T* p, size_t) { __real_free(p); }
};
template <class T, class V> bool operator==(const Raw<T>&, const Raw<V>&) { return true; }
template <class T, class V> bool operator!=(const Raw<T>&, const Raw<V>&) { return false; }
template <class T> using Vec = std::vector<T, Raw<T>>;
typedef std::basic_string<char, std::char_traits<char>, Raw<char>> Str;

Vec<Block>& blocks() { static Vec<Block>* v = new (__real_malloc(sizeof(Vec<Block>))) Vec<Block>; return *v; }
struct Map { U lo, hi, rlo, rhi; int id; };
Vec<Map>& maps() { static Vec<Map>* v = new (__real_malloc(sizeof(Vec<Map>))) Vec<Map>; return *v; }
Vec<Map>& gone() { static Vec<Map>* v = new (__real_malloc(sizeof(Vec<Map>))) Vec<Map>; return *v; }
size_t live_blocks = 0;
int next_id = 16;                       // 0: nowhere, 1: globals, 2..: see below
enum { NOWHERE = 0, GLOBALS = 1, ELSEWHERE = 2, FRAMES = 3 };

// ---------------------------------------------------------------- teams
struct Acc { U lo, hi; uint8_t k; };    // half-open range; 0 read 1 write 2 atomic read 3 atomic write
struct ObjAcc { int id; Vec<Acc> a; };
struct Work {
    bool has = false;                   // a loop
    bool single_taken = false;
    ull n = 0, next = 0;
    ull start = 0, incr = 0, end = 0, step = 1;
    long ordered = 0;
};
struct Team;
enum { READY, WAITING, LOCKED, DONE };
struct Fiber {
    ucontext_t ctx;
    int num = 0, state = READY;
    size_t ws = 0;                      // work-sharing constructs met
    void* eh[2] = {nullptr, nullptr};
    U frame = 0;                        // frames above belong to the start of the team
    void* lock = nullptr;
    double prio = 0;
    int nested = 0;                     // teams of one inside the team
    Work alone;
};
struct Team {
    int n = 1;
    Fiber* f = nullptr;
    int cur = 0, arrived = 0;
    Vec<Work*> ws;
    void (*fn)(void*) = nullptr;
    void* data = nullptr;
    void* copy = nullptr;
};
Team* team = nullptr;
Work alone;
int max_threads = 1;
bool dynamic_var = false;
long switch_in = 1;                     // accesses until the next decision
long steps = 0;
Vec<long>& change() { static Vec<long>* v = new (__real_malloc(sizeof(Vec<long>))) Vec<long>; return *v; }

const int MAXT = 64;
const size_t STACK = 1u << 20, STRIDE = STACK+4096;
char* stacks = nullptr;
Fiber fibers[MAXT];
Vec<ObjAcc>& acc(int t) {
    static Vec<ObjAcc>* v = nullptr;
    if (!v) { v = (Vec<ObjAcc>*)__real_malloc(sizeof(Vec<ObjAcc>)*MAXT); for (int i = 0; i < MAXT; ++i) new (v+i) Vec<ObjAcc>; }
    return v[t];
}

// ---------------------------------------------------------------- what was recorded
struct Trace { Str ev; Vec<std::pair<int, std::pair<U, int>>> obj; bool any = false; long segs = 0; };
Trace& tr() { static Trace* t = new (__real_malloc(sizeof(Trace))) Trace; return *t; }
Vec<Str>& lines() { static Vec<Str>* v = new (__real_malloc(sizeof(Vec<Str>))) Vec<Str>; return *v; }
// sizes of objects by id
Vec<U>& sizes() { static Vec<U>* v = new (__real_malloc(sizeof(Vec<U>))) Vec<U>; return *v; }

void put(Str& s, unsigned long x) { char b[32]; snprintf(b, sizeof b, "%lu", x); s += b; }

int canonical(int id) {
    Trace& t = tr();
    for (auto& o : t.obj) if (o.first == id) return o.second.second;
    int n = (int)t.obj.size()+1;
    U sz = id < 16 ? (id == NOWHERE ? 0 : 1000000000u) : sizes()[(size_t)id-16];
    if (sz > 1000000000u) sz = 1000000000u;
    t.obj.push_back({id, {sz, n}});
    return n;
}
void event(const char* what, int a = -1, int b = -1) {
    Str& s = tr().ev;
    if (!s.empty()) s += ",";
    s += "[\""; s += what; s += "\"";
    if (a >= 0) { s += ","; put(s, (unsigned long)a); }
    if (b >= 0) { s += ","; put(s, (unsigned long)b); }
    s += "]";
}
void tidy(Vec<Acc>& a) {
    std::sort(a.begin(), a.end(), [](const Acc& x, const Acc& y) { return x.k != y.k ? x.k < y.k : x.lo < y.lo; });
    size_t n = 0;
    for (size_t i = 0; i < a.size(); ++i) {
        if (n && a[n-1].k == a[i].k && a[i].lo <= a[n-1].hi) a[n-1].hi = std::max(a[n-1].hi, a[i].hi);
        else a[n++] = a[i];
    }
    a.resize(n);
}
// Writes out what thread t did since its last point of synchronisation; only: one object
void flush(int t, int only = -1) {
    if (!record) return;
    Vec<ObjAcc>& v = acc(t);
    bool head = false;
    Str& s = tr().ev;
    std::sort(v.begin(), v.end(), [](const ObjAcc& x, const ObjAcc& y) { return x.id < y.id; });
    for (size_t i = 0; i < v.size(); ++i) {
        if (only >= 0 && v[i].id != only) continue;
        if (v[i].a.empty()) continue;
        tidy(v[i].a);
        // elsewhere: offsets relative to the first byte seen are not comparable
        int c = canonical(v[i].id);
        for (auto& x : v[i].a) {
            if (!head) {
                if (!s.empty()) s += ",";
                s += "[\"seg\","; put(s, (unsigned long)t); s += ",[";
                head = true;
            } else s += ",";
            s += "["; put(s, (unsigned long)c); s += ","; put(s, x.k); s += ",";
            put(s, x.lo > 2000000000u ? 2000000000u : x.lo); s += ",";
            put(s, x.hi > 2000000000u ? 2000000000u : x.hi); s += "]";
        }
        v[i].a.clear();
    }
    if (head) { s += "]]"; tr().any = true; tr().segs++; }
    if (only < 0) v.clear();
}
void flush_all() { int n = team ? team->n : 1; for (int t = 0; t < n; ++t) flush(t); }

// ---------------------------------------------------------------- accesses
U main_lo = 0, main_hi = 0;
int me() { return team ? team->cur : 0; }
bool solo() { return !team || team->f[team->cur].nested > 0; }

// The object of an address: id and offset
bool where(U p, int& id, U& off) {
    if (p >= (U)arena && p < (U)arena+ARENA) {
        Vec<Block>& b = blocks();
        size_t lo = 0, hi = b.size();
        while (lo < hi) { size_t m = (lo+hi)/2; if (b[m].lo <= p) lo = m+1; else hi = m; }
        // before or behind a block: the nearest one, with its size
        if (lo == 0) { id = NOWHERE; off = p-(U)arena; return true; }
        Block& k = b[lo-1];
        if (lo < b.size() && p >= b[lo].lo-ZONE/2) { id = NOWHERE; off = 1; return true; }
        id = k.id; off = p-k.lo;
        return true;
    }
    if (stacks && p >= (U)stacks && p < (U)stacks+MAXT*STRIDE) {
        int t = (int)((p-(U)stacks)/STRIDE);
        if (t == me()) return false;
        id = 4+t%12; off = p-(U)stacks; return true;
    }
    if (p >= main_lo && p < main_hi) {
        if (!team) return false;
        if (p < fibers[0].frame) {
            if (me() == 0) return false;
            id = 4; off = fibers[0].frame-p;
            return true;
        }
        id = FRAMES; off = p-fibers[0].frame;
        return true;
    }
    for (auto& m : maps()) if (p >= m.rlo && p < m.rhi) {
        if (p < m.lo) { id = NOWHERE; off = 2; } else { id = m.id; off = p-m.lo; }
        return true;
    }
    if (p >= (U)&__executable_start && p < (U)&_end) {
        id = GLOBALS; off = p-(U)&__executable_start;
        return true;
    }
    return false;                       // memory of others
}
void switch_from_access(bool atomic);

inline void access(const void* q, size_t n, int k) {
    if (!on || inside || n == 0) return;
    Inside guard;
    if (team) switch_from_access(k >= 2);
    if (!record) return;
    U p = (U)q;
    int id; U off;
    // a range may only be split by its beginning and its end
    if (!where(p, id, off)) return;
    Vec<ObjAcc>& v = acc(me());
    ObjAcc* o = nullptr;
    for (auto& x : v) if (x.id == id) { o = &x; break; }
    if (!o) { v.push_back(ObjAcc {id, {}}); o = &v.back(); }
    Vec<Acc>& a = o->a;
    for (size_t i = a.size(); i-- > 0 && i+4 >= a.size(); ) {
        if (a[i].k == k && off <= a[i].hi && off+n >= a[i].lo) {
            a[i].lo = std::min(a[i].lo, off); a[i].hi = std::max(a[i].hi, off+n);
            return;
        }
        if (i == 0) break;
    }
    a.push_back(Acc {off, off+n, (uint8_t)k});
    if (a.size() > 20000) tidy(a);
}

// ---------------------------------------------------------------- switching
void* eh_globals() { return (void*)abi::__cxa_get_globals(); }

// No thread can go on: reported as a hang
void give_up() { raise(SIGALRM); _exit(98); }

void go(int to) {
    int from = team->cur;
    if (to == from) return;
    Fiber& a = team->f[from];
    Fiber& b = team->f[to];
    memcpy(a.eh, eh_globals(), sizeof a.eh);
    memcpy(eh_globals(), b.eh, sizeof b.eh);
    team->cur = to;
    bool w = inside;
    swapcontext(&a.ctx, &b.ctx);
    inside = w;
}
int runnable(int* r) {
    int n = 0;
    for (int i = 0; i < team->n; ++i) if (team->f[i].state == READY) r[n++] = i;
    return n;
}
// The thread that goes on, the present one not being able to
int choose_blocked() {
    int r[MAXT];
    int n = runnable(r);
    if (n == 0) give_up();
    switch (kind) {
        case UP: return r[0];
        case DOWN: return r[n-1];
        case PCT: {
            int best = r[0];
            for (int i = 1; i < n; ++i) if (team->f[r[i]].prio > team->f[best].prio) best = r[i];
            return best;
        }
        case CHOICES: return r[0];
        default: return r[rnd()%(unsigned)n];
    }
}
void block(int state) {
    Fiber& f = team->f[team->cur];
    f.state = state;
    int to = choose_blocked();
    go(to);
}
void switch_from_access(bool atomic) {
    ++steps;
    if (kind == RANDOM) {
        if (--switch_in > 0) return;
        switch_in = param <= 1 ? 1 : 1+(long)(rnd()%(unsigned long)(2*param));
        int r[MAXT];
        int n = runnable(r);
        go(r[rnd()%(unsigned)n]);
    } else if (kind == PCT) {
        for (size_t i = 0; i < change().size(); ++i) if (change()[i] == steps) {
            team->f[team->cur].prio = -(double)i-1;
            go(choose_blocked());
        }
    } else if (kind == CHOICES && atomic) {
        if (choice_at >= choices.size()) return;
        int want = choices[choice_at++]%team->n;
        if (team->f[want].state == READY) go(want);
    }
}

void barrier() {
    if (solo()) return;
    if (++team->arrived < team->n) { block(WAITING); return; }
    flush_all();
    if (record) event("bar");
    team->arrived = 0;
    for (int i = 0; i < team->n; ++i) if (team->f[i].state == WAITING) team->f[i].state = READY;
    // anyone may be first
    if (kind != UP) { int to = choose_blocked(); go(to); }
}

void fiber_main() {
    inside = false;
    team->fn(team->data);
    inside = true;
    team->f[team->cur].state = DONE;
    bool all = true;
    for (int i = 0; i < team->n; ++i) if (team->f[i].state != DONE) all = false;
    go(all ? 0 : choose_blocked());
    abort();
}

void parallel(void (*fn)(void*), void* data, unsigned num, Work* w) {
    if (team) {                         // nested: a team of one
        Fiber& f = team->f[team->cur];
        Work saved = f.alone;
        if (w) f.alone = *w;
        f.nested++;
        inside = false; fn(data); inside = true;
        Fiber& g = team->f[team->cur];
        g.nested--;
        g.alone = saved;
        return;
    }
    int n = num ? (int)num : max_threads;
    if (grant && n > grant) n = (int)grant;
    if (n > MAXT) n = MAXT;
    if (n < 1) n = 1;
    if (dynamic_var && on) n = 1+(int)(rnd()%(unsigned)n);      // any team is allowed
    if (!on || n == 1) {
        if (w) alone = *w;
        inside = false; fn(data); inside = true;
        return;
    }
    flush(0);
    static Team t;
    t.n = n; t.f = fibers; t.cur = 0; t.arrived = 0; t.fn = fn; t.data = data;
    for (auto x : t.ws) { x->~Work(); __real_free(x); }
    t.ws.clear();
    if (w) { Work* c = new (__real_malloc(sizeof(Work))) Work(*w); t.ws.push_back(c); }
    fibers[0].frame = (U)__builtin_frame_address(0);
    for (int i = 0; i < n; ++i) {
        Fiber& f = fibers[i];
        f.num = i; f.state = READY; f.ws = w ? 1 : 0; f.lock = nullptr; f.nested = 0;
        f.eh[0] = f.eh[1] = nullptr;
        f.prio = (double)(rnd()%1000000)+1;
        if (i == 0) continue;
        if (!stacks) {
            stacks = (char*)__real_mmap(nullptr, MAXT*STRIDE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            for (int k = 0; k < MAXT; ++k) mprotect(stacks+(size_t)k*STRIDE, 4096, PROT_NONE);
        }
        getcontext(&f.ctx);
        f.ctx.uc_stack.ss_sp = stacks+(size_t)i*STRIDE+4096;
        f.ctx.uc_stack.ss_size = STACK;
        f.ctx.uc_link = nullptr;
        makecontext(&f.ctx, fiber_main, 0);
    }
    team = &t;
    switch_in = param <= 1 ? 1 : 1+(long)(rnd()%(unsigned long)(2*param));
    if (record) event("fork", n);
    if (kind != UP) go(choose_blocked());
    inside = false;
    fn(data);
    inside = true;
    team->f[0].state = DONE;
    bool all = true;
    for (int i = 0; i < n; ++i) if (team->f[i].state != DONE) all = false;
    // comes back when all are done
    if (!all) go(choose_blocked());
    flush_all();
    if (record) event("join");
    team = nullptr;
}

// ---------------------------------------------------------------- work sharing
Work& work(bool fresh) {
    if (!team) { if (fresh) alone = Work(); return alone; }
    if (solo()) { Work& w = team->f[team->cur].alone; if (fresh) w = Work(); return w; }
    Fiber& f = team->f[team->cur];
    if (fresh) f.ws++;
    while (team->ws.size() < f.ws) team->ws.push_back(new (__real_malloc(sizeof(Work))) Work());
    return *team->ws[f.ws-1];
}
void set_loop(Work& w, bool up, ull start, ull end, ull incr, ull ch) {
    if (w.has) return;
    w.has = true;
    w.start = start; w.incr = incr; w.end = end;
    if (up) w.n = end > start ? (end-start+incr-1)/incr : 0;
    else { ull d = 0-incr; w.n = start > end ? (start-end+d-1)/d : 0; }
    w.step = chunk ? (ull)chunk : ch ? ch : 1;
}
void set_loop_l(Work& w, long start, long end, long incr, long ch) {
    if (w.has) return;
    w.has = true;
    w.start = (ull)start; w.incr = (ull)incr; w.end = (ull)end;
    if (incr > 0) w.n = end > start ? ((ull)(end-start)+(ull)incr-1)/(ull)incr : 0;
    else { ull d = (ull)-incr; w.n = start > end ? ((ull)(start-end)+d-1)/d : 0; }
    w.step = chunk ? (ull)chunk : ch > 0 ? (ull)ch : 1;
}
template <class T> bool take(Work& w, T* a, T* b) {
    if (w.next >= w.n) return false;
    ull i = w.next, j = std::min(w.n, i+w.step);
    w.next = j;
    *a = (T)(w.start+i*w.incr);
    *b = j == w.n ? (T)w.end : (T)(w.start+j*w.incr);
    return true;
}
void point() { if (team) switch_from_access(true); }

// ---------------------------------------------------------------- locks
struct Lock { void* p; int owner; int depth; int id; };
Vec<Lock>& locks() { static Vec<Lock>* v = new (__real_malloc(sizeof(Vec<Lock>))) Vec<Lock>; return *v; }
Lock& lock_of(void* p) {
    for (auto& l : locks()) if (l.p == p) return l;
    locks().push_back(Lock {p, -1, 0, (int)locks().size()+1});
    return locks().back();
}
void lock(void* p) {
    if (!on || !team) return;
    point();
    while (lock_of(p).owner >= 0 && lock_of(p).owner != me()) {
        team->f[me()].lock = p;
        block(LOCKED);
    }
    Lock& l = lock_of(p);
    l.owner = me(); l.depth++;
    flush(me());
    if (record) event("acq", me(), l.id);
}
void unlock(void* p) {
    if (!on || !team) return;
    Lock& l = lock_of(p);
    flush(me());
    if (record) event("rel", me(), l.id);
    if (--l.depth <= 0) {
        l.owner = -1; l.depth = 0;
        for (int i = 0; i < team->n; ++i)
            if (team->f[i].state == LOCKED && team->f[i].lock == p) team->f[i].state = READY;
    }
    point();
}
bool trylock(void* p) {
    if (!on || !team) return true;
    if (lock_of(p).owner >= 0 && lock_of(p).owner != me()) return false;
    lock(p);
    return true;
}
char atomic_lock, critical_lock;

// ordering of an atomic operation on p
void order(const void* p, int mo, bool ld, bool st) {
    if (!on || !team || mo == 0 || !record) return;
    Inside g;
    int id = lock_of((void*)p).id;
    flush(me());
    if (ld && mo != 3) event("acq", me(), id);
    if (st && mo != 1 && mo != 2) event("rel", me(), id);
}

// ---------------------------------------------------------------- allocation
void* alloc(size_t n, size_t align = 16) {
    Inside g;
    if (!arena) {
        arena = (char*)__real_mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (arena == (char*)MAP_FAILED) { arena = nullptr; return nullptr; }
    }
    if (n > LARGEST) return nullptr;
    if (live_blocks == 0 && arena_at > (64u << 20)) {
        madvise(arena, ARENA, MADV_DONTNEED);
        arena_at = 0; blocks().clear();
    }
    size_t at = (arena_at+ZONE+align-1)/align*align;
    if (at+n+ZONE > ARENA) return nullptr;
    arena_at = at+n;
    U lo = (U)arena+at;
    sizes().push_back(n);
    blocks().push_back(Block {lo, lo+n, next_id++, true});
    ++live_blocks;
    // what is not initialised is not anything in particular
    size_t fill = std::min(n, (size_t)(1u << 20));
    uint64_t x = seed*0x9e3779b97f4a7c15ull+(uint64_t)next_id;
    for (size_t i = 0; i < fill; ++i) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; ((unsigned char*)lo)[i] = (unsigned char)(x | 1); }
    return (void*)lo;
}
bool ours(void* p) { return arena && (U)p >= (U)arena && (U)p < (U)arena+ARENA; }
Block* block_of(void* p) {
    Vec<Block>& b = blocks();
    size_t lo = 0, hi = b.size();
    while (lo < hi) { size_t m = (lo+hi)/2; if (b[m].lo < (U)p) lo = m+1; else hi = m; }
    return lo < b.size() && b[lo].lo == (U)p ? &b[lo] : nullptr;
}
void dealloc(void* p) {
    Inside g;
    Block* b = block_of(p);
    if (!b || !b->live) {
        // freed twice or never allocated
        if (on && record) { event("free", me(), canonical(b ? b->id : NOWHERE)); tr().any = true; }
        else if (on) abort();
        return;
    }
    --live_blocks;
    if (on && record) {
        // only of interest when accesses were, or could still be, recorded
        int n = team ? team->n : 1;
        for (int t = 0; t < n; ++t) flush(t, b->id);
        for (auto& o : tr().obj) if (o.first == b->id) { event("free", me(), o.second.second); break; }
    }
    b->live = false;
    sizes()[(size_t)b->id-16] = 0;
    // what is left behind is not anything in particular either
    size_t m = std::min((size_t)(b->hi-b->lo), (size_t)(1u << 20));
    for (size_t i = 0; i < m; ++i) ((unsigned char*)b->lo)[i] ^= 0x5b;
}

}


void sched_enable(bool x) {
    if (x) {
        if (!main_hi) {
            // the stack of the process
            FILE* f = fopen("/proc/self/maps", "r");
            char b[512];
            U here = (U)__builtin_frame_address(0);
            while (f && fgets(b, sizeof b, f)) {
                unsigned long lo, hi;
                if (sscanf(b, "%lx-%lx", &lo, &hi) == 2 && here >= lo && here < hi) { main_lo = hi-(64u << 20); main_hi = hi; }
            }
            if (f) fclose(f);
            __libc_single_threaded = 0;
        }
        rng_state = seed*7919+1;
        steps = 0; choice_at = 0;
        change().clear();
        unsigned span = (unsigned)(rnd()%9);
        if (kind == PCT) for (long i = 0; i < param; ++i) change().push_back(1+(long)(rnd()%(30ull << span)));
        on = true;
        return;
    }
    on = false;
    Inside g;
    flush(0);
    for (int t = 0; t < MAXT; ++t) acc(t).clear();
    if (record && tr().any) {
        Str s = "{\"size\":[";
        bool first = true;
        for (auto& o : tr().obj) { if (!first) s += ","; first = false; put(s, o.second.first); }
        s += "],\"ev\":["; s += tr().ev; s += "]}";
        lines().push_back(s);
    }
    tr().ev.clear(); tr().obj.clear(); tr().any = false; tr().segs = 0;
}
void sched_scenario(long) {
    kind = UP; seed = 1; param = 50; chunk = 0; grant = 0; record = false; choices.clear();
    lines().clear();
    for (auto& m : gone()) __real_munmap((void*)m.rlo, m.rhi-m.rlo);
    gone().clear();
}
void sched_end(int fd) {
    for (auto& l : lines()) {
        Str s = "#M "; s += l; s += "\n";
        size_t p = 0;
        while (p < s.size()) { ssize_t k = ::write(fd, s.data()+p, s.size()-p); if (k <= 0) _exit(97); p += (size_t)k; }
    }
    lines().clear();
}
void sched_set(int n, const char* const* a) {
    kind = n > 0 ? atoi(a[0]) : UP;
    seed = n > 1 ? (uint64_t)atol(a[1]) : 1;
    param = n > 2 ? atol(a[2]) : 50;
    chunk = n > 3 ? atol(a[3]) : 0;
    grant = n > 4 ? atol(a[4]) : 0;
    record = n > 5 && atoi(a[5]);
    choices.clear();
    if (n > 6) for (const char* p = a[6]; *p; ++p) if (*p >= '0' && *p <= '9') choices.push_back(*p-'0');
}

// ---------------------------------------------------------------- libgomp
extern "C" {

void GOMP_parallel(void (*fn)(void*), void* data, unsigned num, unsigned) { Inside g; parallel(fn, data, num, nullptr); }
void GOMP_barrier() { Inside g; barrier(); }
bool GOMP_single_start() {
    Inside g; point();
    if (solo()) return true;
    Work& w = work(true);
    if (w.single_taken) return false;
    return w.single_taken = true;
}
void* GOMP_single_copy_start() {
    Inside g; point();
    if (solo()) return nullptr;
    Work& w = work(true);
    if (!w.single_taken) { w.single_taken = true; return nullptr; }
    barrier();
    void* r = team->copy;
    barrier();
    return r;
}
void GOMP_single_copy_end(void* d) { Inside g; if (solo()) return; team->copy = d; barrier(); barrier(); }

#define LOOP(NAME) \
bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long* a, long* b) { \
    Inside g; point(); Work& w = work(true); set_loop_l(w, s, e, i, c); return take(w, a, b); } \
bool GOMP_loop_##NAME##_next(long* a, long* b) { Inside g; point(); return take(work(false), a, b); } \
bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull i, ull c, ull* a, ull* b) { \
    Inside g; point(); Work& w = work(true); set_loop(w, up, s, e, i, c); return take(w, a, b); } \
bool GOMP_loop_ull_##NAME##_next(ull* a, ull* b) { Inside g; point(); return take(work(false), a, b); } \
void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { \
    Inside g; Work w; set_loop_l(w, s, e, i, c); parallel(fn, d, n, &w); }
LOOP(dynamic) LOOP(nonmonotonic_dynamic) LOOP(guided) LOOP(nonmonotonic_guided) LOOP(static)
#define LOOPR(NAME) \
bool GOMP_loop_##NAME##_start(long s, long e, long i, long* a, long* b) { \
    Inside g; point(); Work& w = work(true); set_loop_l(w, s, e, i, 1); return take(w, a, b); } \
bool GOMP_loop_##NAME##_next(long* a, long* b) { Inside g; point(); return take(work(false), a, b); } \
bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull i, ull* a, ull* b) { \
    Inside g; point(); Work& w = work(true); set_loop(w, up, s, e, i, 1); return take(w, a, b); } \
bool GOMP_loop_ull_##NAME##_next(ull* a, ull* b) { Inside g; point(); return take(work(false), a, b); } \
void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { \
    Inside g; Work w; set_loop_l(w, s, e, i, 1); parallel(fn, d, n, &w); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { Inside g; barrier(); }
void GOMP_loop_end_nowait() {}
bool GOMP_loop_end_cancel() { Inside g; barrier(); return false; }

unsigned GOMP_sections_start(unsigned n) {
    Inside g; point(); Work& w = work(true);
    if (!w.has) { w.has = true; w.n = n; w.next = 0; }
    return w.next < w.n ? (unsigned)++w.next : 0;
}
unsigned GOMP_sections_next() { Inside g; point(); Work& w = work(false); return w.next < w.n ? (unsigned)++w.next : 0; }
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned c, unsigned) {
    Inside g; Work w; w.has = true; w.n = c; parallel(fn, d, n, &w); }
void GOMP_sections_end() { Inside g; barrier(); }
void GOMP_sections_end_nowait() {}

void GOMP_critical_start() { Inside g; lock(&critical_lock); }
void GOMP_critical_end() { Inside g; unlock(&critical_lock); }
void GOMP_critical_name_start(void** p) { Inside g; lock(p); }
void GOMP_critical_name_end(void** p) { Inside g; unlock(p); }
void GOMP_atomic_start() { Inside g; lock(&atomic_lock); }
void GOMP_atomic_end() { Inside g; unlock(&atomic_lock); }

void GOMP_task(void (*fn)(void*), void* d, void (*cp)(void*, void*), long size, long align, bool, unsigned, void**, int, void*) {
    // at once, by the thread that met it
    if (cp) {
        char* b = (char*)__real_malloc((size_t)(size+align));
        char* p = (char*)(((U)b+(U)align-1)/(U)align*(U)align);
        cp(p, d); fn(p); __real_free(b);
    } else fn(d);
}
// the whole range at once (its bounds are the first two words of the data)
#define TASKLOOP(NAME, INT) \
void NAME(void (*fn)(void*), void* d, void (*cp)(void*, void*), long size, long align, unsigned, unsigned long, int, INT s, INT e, INT) { \
    if (s == e) return; \
    char* b = (char*)__real_malloc((size_t)(size+align)); \
    char* p = (char*)(((U)b+(U)align-1)/(U)align*(U)align); \
    if (cp) cp(p, d); else for (long i = 0; i < size; ++i) p[i] = ((char*)d)[i]; \
    ((INT*)p)[0] = s; ((INT*)p)[1] = e; \
    fn(p); __real_free(b); \
}
TASKLOOP(GOMP_taskloop, long)
TASKLOOP(GOMP_taskloop_ull, ull)
void GOMP_taskwait() {}
void GOMP_taskyield() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}

int omp_get_thread_num() { return solo() ? 0 : team->cur; }
int omp_get_num_threads() { return solo() ? 1 : team->n; }
int omp_get_max_threads() { return max_threads; }
int omp_get_num_procs() { return 8; }
int omp_get_thread_limit() { return MAXT; }
int omp_in_parallel() { return team != nullptr; }
int omp_get_level() { return team ? 1 : 0; }
int omp_get_active_level() { return team != nullptr; }
int omp_get_dynamic() { return dynamic_var; }
void omp_set_dynamic(int d) { dynamic_var = d; }
void omp_set_num_threads(int n) { if (n > 0) max_threads = n > MAXT ? MAXT : n; }
int omp_get_nested() { return 0; }
void omp_set_nested(int) {}
int omp_get_max_active_levels() { return 1; }
void omp_set_max_active_levels(int) {}
int omp_get_ancestor_thread_num(int l) { return l == 0 ? 0 : l == 1 && team ? team->cur : -1; }
int omp_get_team_size(int l) { return l == 0 ? 1 : l == 1 && team ? team->n : -1; }
void omp_set_schedule(int, int) {}
void omp_get_schedule(int* k, int* c) { *k = 2; *c = 1; }
double omp_get_wtime() { return 0; }
double omp_get_wtick() { return 1e-9; }
void omp_init_lock(void*) {}
void omp_destroy_lock(void*) {}
void omp_set_lock(void* l) { Inside g; lock(l); }
void omp_unset_lock(void* l) { Inside g; unlock(l); }
int omp_test_lock(void* l) { Inside g; return trylock(l); }
void omp_init_nest_lock(void*) {}
void omp_destroy_nest_lock(void*) {}
void omp_set_nest_lock(void* l) { Inside g; lock(l); }
void omp_unset_nest_lock(void* l) { Inside g; unlock(l); }
int __wrap_pthread_mutex_lock(void* m) { Inside g; lock(m); return 0; }
int __wrap_pthread_mutex_unlock(void* m) { Inside g; unlock(m); return 0; }
int __wrap_pthread_mutex_trylock(void* m) { Inside g; return trylock(m) ? 0 : EBUSY; }

// ---------------------------------------------------------------- instrumentation
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) \
void __tsan_read##N(void* p) { access(p, N, 0); } \
void __tsan_write##N(void* p) { access(p, N, 1); } \
void __tsan_volatile_read##N(void* p) { access(p, N, 0); } \
void __tsan_volatile_write##N(void* p) { access(p, N, 1); } \
void __tsan_unaligned_read##N(void* p) { access(p, N, 0); } \
void __tsan_unaligned_write##N(void* p) { access(p, N, 1); } \
void __tsan_unaligned_volatile_read##N(void* p) { access(p, N, 0); } \
void __tsan_unaligned_volatile_write##N(void* p) { access(p, N, 1); } \
void __tsan_read_write##N(void* p) { access(p, N, 0); access(p, N, 1); } \
void __tsan_unaligned_read_write##N(void* p) { access(p, N, 0); access(p, N, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, 0); }
void __tsan_write_range(void* p, size_t n) { access(p, n, 1); }
void __tsan_vptr_update(void** p, void*) { access(p, sizeof *p, 1); }
void __tsan_vptr_read(void** p) { access(p, sizeof *p, 0); }

#define ATOMIC(B, T) \
T __tsan_atomic##B##_load(const volatile T* p, int mo) { access((const void*)p, sizeof(T), 2); T r = *p; order((const void*)p, mo, true, false); return r; } \
void __tsan_atomic##B##_store(volatile T* p, T v, int mo) { access((const void*)p, sizeof(T), 3); order((const void*)p, mo, false, true); *p = v; } \
T __tsan_atomic##B##_exchange(volatile T* p, T v, int mo) { access((const void*)p, sizeof(T), 3); order((const void*)p, mo, true, true); T o = *p; *p = v; return o; } \
T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int mo) { access((const void*)p, sizeof(T), 3); order((const void*)p, mo, true, true); T o = *p; *p = (T)(o+v); return o; } \
T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int mo) { access((const void*)p, sizeof(T), 3); order((const void*)p, mo, true, true); T o = *p; *p = (T)(o-v); return o; } \
T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int mo) { access((const void*)p, sizeof(T), 3); order((const void*)p, mo, true, true); T o = *p; *p = (T)(o&v); return o; } \
T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int mo) { access((const void*)p, sizeof(T), 3); order((const void*)p, mo, true, true); T o = *p; *p = (T)(o|v); return o; } \
T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int mo) { access((const void*)p, sizeof(T), 3); order((const void*)p, mo, true, true); T o = *p; *p = (T)(o^v); return o; } \
T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int mo) { access((const void*)p, sizeof(T), 3); order((const void*)p, mo, true, true); T o = *p; *p = (T)~(o&v); return o; } \
bool __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int) { access((const void*)p, sizeof(T), 3); order((const void*)p, mo, true, true); \
    if (*p == *e) { *p = v; return true; } *e = *p; return false; } \
bool __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int) { access((const void*)p, sizeof(T), 3); order((const void*)p, mo, true, true); \
    if (*p == *e) { *p = v; return true; } *e = *p; return false; } \
T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T v, int mo, int) { access((const void*)p, sizeof(T), 3); order((const void*)p, mo, true, true); \
    T o = *p; if (o == e) *p = v; return o; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
typedef unsigned __int128 u128;
ATOMIC(128, u128)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- the C library
void* __wrap_memcpy(void* d, const void* s, size_t n) { access(s, n, 0); access(d, n, 1); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { access(s, n, 0); access(d, n, 1); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { access(d, n, 1); return __real_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { access(a, n, 0); access(b, n, 0); return __real_memcmp(a, b, n); }
void* __wrap_memchr(const void* a, int c, size_t n) {
    void* r = __real_memchr(a, c, n);
    access(a, r ? (size_t)((const char*)r-(const char*)a)+1 : n, 0);
    return r;
}
size_t __wrap_strlen(const char* a) { size_t n = __real_strlen(a); access(a, n+1, 0); return n; }

void* __wrap_malloc(size_t n) { if (!on || inside) return __real_malloc(n); void* p = alloc(n); if (!p) errno = ENOMEM; return p; }
void* __wrap_calloc(size_t a, size_t b) {
    if (!on || inside) return __real_calloc(a, b);
    if (b && a > ARENA/b) { errno = ENOMEM; return nullptr; }
    void* p = alloc(a*b);
    if (p) __real_memset(p, 0, a*b); else errno = ENOMEM;
    return p;
}
void __wrap_free(void* p) { if (!p) return; if (ours(p)) dealloc(p); else __real_free(p); }
void* __wrap_realloc(void* p, size_t n) {
    if (!p) return __wrap_malloc(n);
    if (!ours(p)) return __real_realloc(p, n);
    Block* b = block_of(p);
    void* q = alloc(n);
    if (!q) { errno = ENOMEM; return nullptr; }
    size_t m = b ? std::min(n, (size_t)(b->hi-b->lo)) : 0;
    access(p, m, 0); access(q, m, 1);
    __real_memcpy(q, p, m);
    dealloc(p);
    return q;
}
void* __wrap_mmap(void* at, size_t n, int prot, int flags, int fd, off_t off) {
    if (!on || inside || at || fd < 0 || n == 0) return __real_mmap(at, n, prot, flags, fd, off);
    Inside g;
    size_t pages = (n+4095)/4096*4096;
    char* r = (char*)__real_mmap(nullptr, pages+8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (r == (char*)MAP_FAILED) return MAP_FAILED;
    void* p = __real_mmap(r+4096, n, prot, (flags & ~MAP_POPULATE) | MAP_FIXED, fd, off);
    if (p == MAP_FAILED) { int e = errno; __real_munmap(r, pages+8192); errno = e; return MAP_FAILED; }
    // as much of it as there is of the file
    struct stat st;
    size_t have = n;
    if (fstat(fd, &st) == 0 && S_ISREG(st.st_mode))
        have = st.st_size <= off ? 0 : std::min(n, (size_t)(st.st_size-off));
    sizes().push_back(have);
    maps().push_back(Map {(U)p, (U)p+have, (U)r, (U)r+pages+8192, next_id++});
    return p;
}
int __wrap_munmap(void* p, size_t n) {
    Inside g;
    for (size_t i = 0; i < maps().size(); ++i) if (maps()[i].lo == (U)p) {
        size_t pages = (n+4095)/4096*4096;
        if ((U)p+pages+4096 != maps()[i].rhi) break;      // not all of it
        if (on && record) {
            int k = team ? team->n : 1;
            for (int t = 0; t < k; ++t) flush(t, maps()[i].id);
            for (auto& o : tr().obj) if (o.first == maps()[i].id) { event("free", me(), o.second.second); break; }
        }
        // nothing takes its place before the scenario ends
        __real_mmap((void*)maps()[i].rlo, maps()[i].rhi-maps()[i].rlo, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
        gone().push_back(maps()[i]);
        maps().erase(maps().begin()+(long)i);
        return 0;
    }
    return __real_munmap(p, n);
}
}

static void* make(size_t n, size_t align = 16) {
    if (!on || inside) { void* p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
    void* p = alloc(n, align);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new(size_t n) { return make(n); }
void* operator new[](size_t n) { return make(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return make(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return make(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { __wrap_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { __wrap_free(p); }
