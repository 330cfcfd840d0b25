// See faults.hpp.  The functions are intercepted by the linker (--wrap) in the objects of
// the driver only, which contain the library: the OpenMP runtime and the C library keep
// theirs.
#include "faults.hpp"
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <new>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

namespace {
char planned = 0;
long first = 0, many = 0;
std::atomic<bool> armed(false);
std::atomic<long> seen(0), failed(0);
std::atomic<long> blocks(0);

void* got(void* p) { if (p) ++blocks; return p; }

bool fails(char kind) {
    if (!armed.load() || kind != planned) return false;
    long n = ++seen;
    if (n < first || (many > 0 && n >= first+many)) return false;
    ++failed;
    return true;
}
}
namespace faults {
void plan(char kind, long nth, long count) { planned = kind; first = nth; many = count; }
void arm() { seen = 0; failed = 0; armed = planned != 0; }
long held() { return blocks.load(); }
long disarm() { armed = false; planned = 0; return failed.load(); }
}

extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void __real_free(void*);
void __wrap_free(void* p) { if (p) --blocks; __real_free(p); }
void* __real_realloc(void*, size_t);
void* __real_aligned_alloc(size_t, size_t);
int __real_posix_memalign(void**, size_t, size_t);

void* __wrap_malloc(size_t n) { if (fails('A')) { errno = ENOMEM; return nullptr; } return got(__real_malloc(n)); }
void* __wrap_calloc(size_t n, size_t k) { if (fails('A')) { errno = ENOMEM; return nullptr; } return got(__real_calloc(n, k)); }
void* __wrap_realloc(void* p, size_t n) { if (fails('A')) { errno = ENOMEM; return nullptr; } void* q = __real_realloc(p, n); return p ? q : got(q); }
void* __wrap_aligned_alloc(size_t a, size_t n) { if (fails('A')) { errno = ENOMEM; return nullptr; } return got(__real_aligned_alloc(a, n)); }
int __wrap_posix_memalign(void** p, size_t a, size_t n) { if (fails('A')) return ENOMEM; int r = __real_posix_memalign(p, a, n); if (r == 0) ++blocks; return r; }

#define OPENS(name) \
    int __real_##name(const char*, int, ...); \
    int __wrap_##name(const char* p, int fl, ...) { \
        va_list v; va_start(v, fl); mode_t m = va_arg(v, mode_t); va_end(v); \
        if (fails('S')) { errno = EMFILE; return -1; } \
        return __real_##name(p, fl, m); }
OPENS(open) OPENS(open64)
int __real___open_2(const char*, int);
int __wrap___open_2(const char* p, int fl) { if (fails('S')) { errno = EMFILE; return -1; } return __real___open_2(p, fl); }
int __real___open64_2(const char*, int);
int __wrap___open64_2(const char* p, int fl) { if (fails('S')) { errno = EMFILE; return -1; } return __real___open64_2(p, fl); }

#define CALL(ret, name, bad, err, params, args) \
    ret __real_##name params; \
    ret __wrap_##name params { if (fails('S')) { errno = err; return bad; } return __real_##name args; }
CALL(FILE*, fopen, nullptr, EMFILE, (const char* p, const char* m), (p, m))
CALL(FILE*, fopen64, nullptr, EMFILE, (const char* p, const char* m), (p, m))
CALL(FILE*, fdopen, nullptr, ENOMEM, (int f, const char* m), (f, m))
CALL(int, fseek, -1, EIO, (FILE* f, long o, int w), (f, o, w))
CALL(int, fseeko, -1, EIO, (FILE* f, off_t o, int w), (f, o, w))
CALL(int, fseeko64, -1, EIO, (FILE* f, off_t o, int w), (f, o, w))
CALL(long, ftell, -1, EIO, (FILE* f), (f))
CALL(off_t, ftello, -1, EIO, (FILE* f), (f))
CALL(off_t, ftello64, -1, EIO, (FILE* f), (f))
CALL(int, fputc, EOF, ENOSPC, (int x, FILE* f), (x, f))
CALL(int, putc, EOF, ENOSPC, (int x, FILE* f), (x, f))
CALL(size_t, fwrite, 0, ENOSPC, (const void* d, size_t n, size_t k, FILE* f), (d, n, k, f))
CALL(int, fflush, EOF, ENOSPC, (FILE* f), (f))
CALL(off_t, lseek, -1, EIO, (int f, off_t o, int w), (f, o, w))
CALL(off_t, lseek64, -1, EIO, (int f, off_t o, int w), (f, o, w))
CALL(int, fstat, -1, EIO, (int f, struct stat* s), (f, s))
CALL(int, stat, -1, EIO, (const char* p, struct stat* s), (p, s))
CALL(int, ftruncate, -1, EIO, (int f, off_t n), (f, n))
CALL(int, ftruncate64, -1, EIO, (int f, off_t n), (f, n))
CALL(int, posix_fallocate, ENOSPC, ENOSPC, (int f, off_t o, off_t n), (f, o, n))
CALL(int, fallocate, -1, ENOSPC, (int f, int m, off_t o, off_t n), (f, m, o, n))
CALL(ssize_t, pwrite, -1, ENOSPC, (int f, const void* d, size_t n, off_t o), (f, d, n, o))
CALL(ssize_t, pread, -1, EIO, (int f, void* d, size_t n, off_t o), (f, d, n, o))
CALL(void*, mmap, MAP_FAILED, ENOMEM, (void* a, size_t n, int p, int fl, int f, off_t o), (a, n, p, fl, f, o))
CALL(void*, mmap64, MAP_FAILED, ENOMEM, (void* a, size_t n, int p, int fl, int f, off_t o), (a, n, p, fl, f, o))
CALL(int, madvise, -1, EAGAIN, (void* a, size_t n, int w), (a, n, w))
CALL(int, posix_madvise, EAGAIN, EAGAIN, (void* a, size_t n, int w), (a, n, w))
// these let go of what they were given even if they report a failure
int __real_fclose(FILE*);
int __wrap_fclose(FILE* f) { bool x = fails('S'); int r = __real_fclose(f); if (x) { errno = EIO; return EOF; } return r; }
int __real_close(int);
int __wrap_close(int f) { bool x = fails('S'); int r = __real_close(f); if (x) { errno = EIO; return -1; } return r; }
}

static void* make(size_t n) { return fails('A') ? nullptr : got(__real_malloc(n ? n : 1)); }
void* operator new(size_t n) { void* p = make(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return make(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return make(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
