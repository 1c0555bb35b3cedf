#include "seam.h"
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <unistd.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define POISON(p, n) __asan_poison_memory_region((p), (n))
#define UNPOISON(p, n) __asan_unpoison_memory_region((p), (n))
#define HDR_POISON(h) __asan_poison_memory_region(h, sizeof(Hdr))
#define HDR_UNPOISON(h) __asan_unpoison_memory_region(h, sizeof(Hdr))
#else
#define POISON(p, n) ((void)0)
#define UNPOISON(p, n) ((void)0)
#define HDR_POISON(h) ((void)0)
#define HDR_UNPOISON(h) ((void)0)
#endif
SeamState g_seam;
static unsigned char g_dummy_map[65536];
unsigned char* g_edge_map = g_dummy_map;

void (*g_reenter)(char, u64) = nullptr;
void seam_out(char at, u64 k) {
    const SeamState was = g_seam;
    g_seam.armed = false; g_seam.hook = false; g_seam.steps = g_seam.allocs = 0;
    g_reenter(at, k);
    const SeamState now = g_seam;
    g_seam.f = was.f; g_seam.allocs = was.allocs; g_seam.fired = was.fired; g_seam.huge = was.huge; g_seam.first_k = was.first_k; g_seam.first_serial = was.first_serial;
    g_seam.base_bytes = was.base_bytes + (now.out_bytes - was.out_bytes); g_seam.peak_bytes = was.peak_bytes + (now.out_bytes - was.out_bytes);
    g_seam.sp0 = was.sp0; g_seam.sp_low = was.sp_low; g_seam.steps = was.steps; g_seam.step_limit = was.step_limit; g_seam.path = was.path;
    g_seam.hook = was.hook; g_seam.frees = was.frees; g_seam.devs = was.devs; g_seam.armed = was.armed;
}
void seam_prepare(const AllocFault& f, u64 step_limit) {
    g_seam.total_steps += g_seam.steps; g_seam.total_allocs += g_seam.allocs;
    g_seam.f = f; g_seam.allocs = 0; g_seam.fired = 0; g_seam.huge = 0; g_seam.first_k = 0; g_seam.first_serial = g_seam.serial + 1;
    g_seam.base_bytes = g_seam.peak_bytes = g_seam.out_bytes;
    g_seam.sp0 = g_seam.sp_low = (u64)__builtin_frame_address(0);
    g_seam.steps = 0; g_seam.step_limit = step_limit; g_seam.path = 0; g_seam.hook = false; g_seam.frees = g_seam.devs = 0;
}
enum : u64 { OWN_LIB = 0x51b10c4e11b0a001ull, OWN_SIM = 0x51b10c4e11b0a002ull, OWN_NONE = 0x51b10c4e11b0deadull };
struct Hdr { u64 size; u64 owner; };               // owner: library, harness, or released
extern "C" { void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); }
// released library blocks that are handed out again, most recent first (C22 only)
enum : size_t { REUSE_LISTS = 64 };
static Hdr* g_reuse[REUSE_LISTS]; static bool g_reuse_on = false;
EnvState g_env;
void env_reuse_start() { g_reuse_on = true; }
static u64 env_noise() { u64& x = g_env.noise; x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; }
static size_t reuse_class(size_t n) { return (n + 63) / 64; }
__attribute__((no_sanitize_address)) static void env_fill(unsigned char* p, size_t n) {
    if (g_env.fill == 1) for (size_t i = 0; i < n; ++i) p[i] = 0;
    else if (g_env.fill == 2) for (size_t i = 0; i < n; ++i) p[i] = 0xff;
    else if (g_env.fill == 3) for (size_t i = 0; i < n; ++i) p[i] = (unsigned char)(env_noise() >> 32);
}
static Hdr* env_alloc(size_t n) {
    Hdr* h = nullptr;
    const size_t c = reuse_class(n); const bool small = c < REUSE_LISTS;    // all small blocks of such a process have the size of their class
    const size_t room = (small ? c * 64 : n) + sizeof(Hdr);
    if (small && g_env.place == 1 && g_reuse[c]) { h = g_reuse[c]; HDR_UNPOISON(h); g_reuse[c] = *(Hdr**)h; }
    else {
        if (g_env.place == 2) { void* gap = __real_malloc(16 * (env_noise() >> 40 & 63) + 1); h = (Hdr*)__real_malloc(room); __real_free(gap); }
        else h = (Hdr*)__real_malloc(room);
    }
    if (h && small) { UNPOISON(h + 1, n); POISON((char*)(h + 1) + n, c * 64 - n); }
    if (h) env_fill((unsigned char*)(h + 1), n);
    return h;
}
static void* raw_alloc(size_t n, int owner) {
    Hdr* h = owner == 1 && g_reuse_on ? env_alloc(n) : (Hdr*)__real_malloc(n + sizeof(Hdr));
    if (!h) { fprintf(stderr, "simulator: real allocation failure\n"); _exit(3); }
    h->size = n; h->owner = owner == 1 ? OWN_LIB : OWN_SIM;
    HDR_POISON(h);
    return h + 1;
}
static bool should_fail(size_t n) {
    const AllocFault& f = g_seam.f;
    switch (f.mode) {
        case 'n': return g_seam.allocs == f.k;
        case 'f': return g_seam.allocs >= f.k;
        case 'c': return n > f.k;
        case 'b': return g_seam.out_bytes + n > g_seam.base_bytes + f.k;
        default: return false;
    }
}
static void* lib_alloc(size_t n, bool nothrow) {
    ++g_seam.allocs;
    if (g_seam.hook) seam_out('a', g_seam.allocs);
    if (n > (1ull << 31)) {                        // absurd request: fails, but is not an injected fault
        ++g_seam.huge;
        if (nothrow) return nullptr;
        throw std::bad_alloc();
    }
    if (should_fail(n)) {
        if (!g_seam.fired++) g_seam.first_k = g_seam.allocs;
        ++g_seam.serial;
        if (nothrow) return nullptr;
        g_seam.armed = false;                      // raising the exception is not library work
        switch (g_seam.f.exc) {
            case 1: g_seam.armed = true; throw SimOom(g_seam.serial);
            case 2: g_seam.armed = true; throw SimOomChild(g_seam.serial);
            case 3: g_seam.armed = true; throw std::bad_array_new_length();
            case 4: g_seam.armed = true; throw SimArena(g_seam.serial);
            default: g_seam.armed = true; throw std::bad_alloc();
        }
    }
    void* p = raw_alloc(n, 1);
    ++g_seam.out_blocks; g_seam.out_bytes += n;
    if (g_seam.out_bytes > g_seam.peak_bytes) g_seam.peak_bytes = g_seam.out_bytes;
    return p;
}
__attribute__((no_sanitize_address)) static void any_free(void* p) {
    if (!p) return;
    if (g_seam.hook && g_seam.armed) seam_out('r', ++g_seam.frees);
    Hdr* h = (Hdr*)p - 1;
    if (h->owner == OWN_LIB) { --g_seam.out_blocks; g_seam.out_bytes -= h->size; }
    else if (h->owner != OWN_SIM) {                      // released before, or never handed out
        static const char msg[] = "SIMCRASH bad-free\n";
        ssize_t r = write(2, msg, sizeof msg - 1); (void)r;
        _exit(79);
    }
    HDR_UNPOISON(h);
    const bool lib = h->owner == OWN_LIB; const size_t n = h->size;
    h->owner = OWN_NONE;
    if (lib && g_reuse_on && g_env.place == 1 && reuse_class(n) < REUSE_LISTS && reuse_class(n)) {
        size_t c = reuse_class(n); *(Hdr**)h = g_reuse[c]; g_reuse[c] = h; POISON(h, c * 64 + sizeof(Hdr)); return;
    }
    __real_free(h);
}
// the C allocator, as called from library code (everything else goes straight through)
extern "C" {
void* __wrap_malloc(size_t n) { return g_seam.armed ? lib_alloc(n, true) : __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) {
    if (!g_seam.armed) return __real_calloc(a, b);
    if (b && a > ~(size_t)0 / b) return nullptr;
    void* p = lib_alloc(a * b, true); if (p) memset(p, 0, a * b); return p;
}
__attribute__((no_sanitize_address)) void __wrap_free(void* p) {
    if (!p) return;
    u64 o = ((Hdr*)p - 1)->owner;
    if (o == OWN_LIB || o == OWN_SIM || o == OWN_NONE) any_free(p); else __real_free(p);
}
__attribute__((no_sanitize_address)) void* __wrap_realloc(void* p, size_t n) {
    if (!p) return __wrap_malloc(n);
    const Hdr* h = (Hdr*)p - 1;
    if (h->owner != OWN_LIB) return __real_realloc(p, n);
    if (!n) { any_free(p); return nullptr; }
    void* q = lib_alloc(n, true); if (!q) return nullptr;
    memcpy(q, p, h->size < n ? h->size : n); any_free(p); return q;
}
}
// clocks, random numbers, process identity and environment, as seen from library code
#include <time.h>
#include <sys/time.h>
#include <chrono>
#include <random>
extern "C" {
time_t __real_time(time_t*); clock_t __real_clock(); int __real_clock_gettime(clockid_t, timespec*); int __real_gettimeofday(timeval*, void*);
int __real_rand(); long __real_random(); pid_t __real_getpid(); char* __real_getenv(const char*);
static u64 env_tick() { return g_env.clock += g_env.step; }
static u64 env_rand() { return (g_env.rnd = g_env.rnd * 6364136223846793005ull + 1442695040888963407ull) >> 33; }
time_t __wrap_time(time_t* t) { if (!g_seam.armed) return __real_time(t); time_t v = (time_t)env_tick(); if (t) *t = v; return v; }
clock_t __wrap_clock() { return g_seam.armed ? (clock_t)env_tick() : __real_clock(); }
int __wrap_clock_gettime(clockid_t c, timespec* t) { if (!g_seam.armed) return __real_clock_gettime(c, t); t->tv_sec = (time_t)env_tick(); t->tv_nsec = (long)(env_rand() % 1000000000); return 0; }
int __wrap_gettimeofday(timeval* t, void* z) { if (!g_seam.armed) return __real_gettimeofday(t, z); t->tv_sec = (time_t)env_tick(); t->tv_usec = (long)(env_rand() % 1000000); return 0; }
int __wrap_rand() { return g_seam.armed ? (int)env_rand() : __real_rand(); }
long __wrap_random() { return g_seam.armed ? (long)env_rand() : __real_random(); }
pid_t __wrap_getpid() { return g_seam.armed ? g_env.pid : __real_getpid(); }
char* __wrap_getenv(const char* n) { return g_seam.armed ? (char*)g_env.var : __real_getenv(n); }
std::chrono::steady_clock::time_point __real__ZNSt6chrono3_V212steady_clock3nowEv();
std::chrono::steady_clock::time_point __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return g_seam.armed ? std::chrono::steady_clock::time_point(std::chrono::nanoseconds(env_tick() * 1000)) : __real__ZNSt6chrono3_V212steady_clock3nowEv(); }
std::chrono::system_clock::time_point __real__ZNSt6chrono3_V212system_clock3nowEv();
std::chrono::system_clock::time_point __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return g_seam.armed ? std::chrono::system_clock::time_point(std::chrono::nanoseconds(env_tick() * 1000)) : __real__ZNSt6chrono3_V212system_clock3nowEv(); }
unsigned __real__ZNSt13random_device9_M_getvalEv(void*);
unsigned __wrap__ZNSt13random_device9_M_getvalEv(void* d) { return g_seam.armed ? (unsigned)env_rand() : __real__ZNSt13random_device9_M_getvalEv(d); }
}
void* operator new(size_t n) { return g_seam.armed ? lib_alloc(n, false) : raw_alloc(n, 2); }
void* operator new[](size_t n) { return g_seam.armed ? lib_alloc(n, false) : raw_alloc(n, 2); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return g_seam.armed ? lib_alloc(n, true) : raw_alloc(n, 2); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return g_seam.armed ? lib_alloc(n, true) : raw_alloc(n, 2); }
void operator delete(void* p) noexcept { any_free(p); }
void operator delete[](void* p) noexcept { any_free(p); }
void operator delete(void* p, size_t) noexcept { any_free(p); }
void operator delete[](void* p, size_t) noexcept { any_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { any_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { any_free(p); }

extern "C" char __executable_start;
extern "C" __attribute__((no_sanitize_address)) void __sanitizer_cov_trace_pc() {
    if (!g_seam.armed) return;
    u64 sp = (u64)__builtin_frame_address(0); if (sp < g_seam.sp_low) g_seam.sp_low = sp;
    u64 pc = (u64)__builtin_return_address(0) - (u64)&__executable_start;
    g_seam.path = (g_seam.path ^ pc) * 0x100000001B3ull;
    g_edge_map[(pc ^ (pc >> 16)) & 0xffff] = 1;
    if (++g_seam.steps > g_seam.step_limit && g_seam.step_limit) {
        g_seam.armed = false;
        static const char msg[] = "SIMCRASH step-limit\n";
        ssize_t r = write(2, msg, sizeof msg - 1); (void)r;
        _exit(78);
    }
}
