#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <dlfcn.h>
#include <link.h>
#include <cxxabi.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
typedef unsigned long uptr;
typedef unsigned char u8;
static RtShared g_dummy;
RtShared* g_rt = &g_dummy;

// ---- threads ------------------------------------------------------------------------------------
enum St { FREE, RUNNABLE, BLOCKED, DONE };
struct Th {
    int id; St st; const void* waiting; bool armed; u64 n; u32 vc[MAXT]; unsigned spin;
    AllocFault f; u64 allocs, fired, serial;
    uptr lo, hi; sem_t sem; pthread_t pt; void (*fn)(int); int nextsw;
};
static Th th[MAXT];
static __thread Th* self;
static RtConf cf;
static sem_t main_sem;
static volatile int finished;
static bool phase_on;
static u64 rs, countdown;
static u64 rnd() { rs += 0x9E3779B97F4A7C15ull; return mix64(rs); }
static void draw() { countdown = cf.gap ? 1 + rnd() % (2 * cf.gap) : ~0ull; }

void arm() { if (self) self->armed = true; }
void disarm() { if (self) self->armed = false; }
SeamState g_seam;
void rt_faults(const AllocFault& f) { if (self) { self->f = f; self->allocs = self->fired = 0; } }
u64 rt_fired() { return self ? self->fired : 0; }
u64 rt_allocs() { return self ? self->allocs : 0; }
u64 rt_serial() { return self ? self->serial : 0; }

static int pick_after(int t) { for (int i = 1; i <= cf.threads; ++i) { int u = (t + i) % cf.threads; if (th[u].st == RUNNABLE) return u; } return -1; }
static void hand(Th* me, int to) { sem_post(&th[to].sem); while (sem_wait(&me->sem)) {} }
static void switch_to(Th* me, int to, uptr pc, bool chosen) {
    if (chosen) {
        if (g_rt->nsw < MAXSW) { RtSwitch& s = g_rt->sw[g_rt->nsw]; s.t = me->id; s.n = me->n; s.to = to; g_rt->nsw = g_rt->nsw + 1; }
        u64 k = mix64(pc) & (4096 * 64 - 1); g_rt->pcs[k >> 6] |= 1ull << (k & 63);
    } else g_rt->forced = g_rt->forced + 1;
    hand(me, to);
}
static void block(Th* me, const void* on) {
    me->st = BLOCKED; me->waiting = on;
    int to = pick_after(me->id);
    if (to < 0) rt_violation("deadlock", "every thread waits for another");
    g_rt->forced = g_rt->forced + 1;
    hand(me, to);
}
static void wake(const void* on) { for (int i = 0; i < cf.threads; ++i) if (th[i].st == BLOCKED && th[i].waiting == on) th[i].st = RUNNABLE; }
static inline void event(Th* me, bool special, uptr pc) {
    ++me->n;
    g_rt->events = g_rt->events + 1;
    if (g_rt->events > cf.max_events) rt_violation("no progress", "the run exceeded its step bound");
    if (cf.only) return;
    if (cf.replay) {
        while (me->nextsw < cf.nsw && (cf.sw[me->nextsw].t != me->id || cf.sw[me->nextsw].n < me->n)) ++me->nextsw;
        if (me->nextsw < cf.nsw && cf.sw[me->nextsw].n == me->n) {
            int to = cf.sw[me->nextsw].to % cf.threads; ++me->nextsw;
            if (to != me->id && th[to].st == RUNNABLE) switch_to(me, to, pc, true);
        }
        return;
    }
    bool go = false;
    if (special && cf.special_pct && rnd() % 100 < cf.special_pct) go = true;
    if (--countdown == 0) { go = true; draw(); }
    if (go && g_rt->nsw < cf.max_sw) {
        int c[MAXT], k = 0; for (int i = 0; i < cf.threads; ++i) if (i != me->id && th[i].st == RUNNABLE) c[k++] = i;
        if (k) switch_to(me, c[rnd() % k], pc, true);
    }
}

// ---- shadow memory and clocks ----------------------------------------------------------------------
static const uptr ARENA = 0x100000000000ul, ASIZE = 512ul << 20;
extern "C" { void* __real_malloc(size_t); void __real_free(void*); void* __real_realloc(void*, size_t); }
static bool arena_on; static uptr bump;
struct Cell { u32 wclk[MAXT], rclk[MAXT]; u8 wmask[MAXT], rmask[MAXT], freed; u32 wpc, rpc; };
static Cell* ash;
enum { NG = 1 << 15 };
struct GCell { uptr key; Cell c; };
static GCell* gsh;
static bool in_arena(uptr a) { return a - ARENA < ASIZE; }
struct Seg { uptr lo, hi; };
static Seg segs[64]; static int nsegs;
static int seg_cb(struct dl_phdr_info* i, size_t, void*) {
    for (int k = 0; k < i->dlpi_phnum; ++k) { const ElfW(Phdr)& h = i->dlpi_phdr[k];
        if (h.p_type == PT_LOAD && (h.p_flags & PF_W) && nsegs < 64) { segs[nsegs].lo = i->dlpi_addr + h.p_vaddr; segs[nsegs].hi = segs[nsegs].lo + h.p_memsz; ++nsegs; } }
    return 0;
}
static bool judged(uptr a) { if (in_arena(a)) return true; for (int i = 0; i < nsegs; ++i) if (a - segs[i].lo < segs[i].hi - segs[i].lo) return true; return false; }
static Cell* cell_of(uptr g) {
    uptr a = g << 3;
    if (in_arena(a)) return &ash[(a - ARENA) >> 3];
    for (uptr i = 0, h = mix64(g); i < NG; ++i) { GCell& c = gsh[(h + i) & (NG - 1)]; if (c.key == g) return &c.c; if (!c.key) { c.key = g; return &c.c; } }
    return nullptr;
}
struct Sync { const void* key; u32 vc[MAXT]; int owner; int count; int readers; };
enum { NS = 512 };
static Sync syncs[NS];
static Sync* sync_of(const void* k) { for (uptr i = 0, h = mix64((uptr)k); i < NS; ++i) { Sync& s = syncs[(h + i) & (NS - 1)]; if (s.key == k) return &s; if (!s.key) { s.key = k; s.owner = -1; return &s; } }
    fprintf(stderr, "simulator: too many synchronisation objects\n"); _exit(3); }
static void acq(Th* t, Sync* s) { for (int i = 0; i < MAXT; ++i) if (s->vc[i] > t->vc[i]) t->vc[i] = s->vc[i]; }
static void rel(Th* t, Sync* s) { for (int i = 0; i < MAXT; ++i) if (t->vc[i] > s->vc[i]) s->vc[i] = t->vc[i]; ++t->vc[t->id]; }

static void where(char* o, size_t n, uptr pc) {
    Dl_info i; memset(&i, 0, sizeof i);
    if (pc && dladdr((void*)pc, &i) && i.dli_sname) { int st; char* d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st); snprintf(o, n, "%.160s", d ? d : i.dli_sname); }
    else snprintf(o, n, "code at %#lx", pc);
}
static void race(Th* t, int u, bool write, bool owrite, uptr a, uptr pc, uptr opc) {
    char x[180], y[180], d[600], obj[180]; where(x, sizeof x, pc); where(y, sizeof y, opc);
    if (in_arena(a)) snprintf(obj, sizeof obj, "heap memory"); else where(obj, sizeof obj, a);
    snprintf(d, sizeof d, "thread %d %s %s in %s while thread %d may %s it in %s, without synchronisation", t->id, write ? "writes" : "reads", obj, x, u, owrite ? "write" : "read", y);
    rt_violation("unsynchronised access", d);
}
static void touch(Th* t, uptr a, uptr size, bool write, uptr pc) {
    uptr end = a + size;
    for (uptr g = a >> 3; g <= (end - 1) >> 3; ++g) {
        uptr lo = g << 3, b0 = a > lo ? a - lo : 0, b1 = end < lo + 8 ? end - lo : 8;
        u8 mask = (u8)((0xffu >> (8 - (b1 - b0))) << b0);
        Cell* c = cell_of(g);
        if (!c) return;
        if (c->freed) { char x[180], d[300]; where(x, sizeof x, pc); snprintf(d, sizeof d, "thread %d touches released memory in %s", t->id, x); rt_violation("released memory used", d); }
        if (!cf.race) continue;
        for (int u = 0; u < cf.threads; ++u) {
            if (u == t->id) continue;
            if ((c->wmask[u] & mask) && c->wclk[u] > t->vc[u]) race(t, u, write, true, lo + b0, pc, c->wpc);
            if (write && (c->rmask[u] & mask) && c->rclk[u] > t->vc[u]) race(t, u, true, false, lo + b0, pc, c->rpc);
        }
        u32 now = t->vc[t->id];
        if (write) { if (c->wclk[t->id] != now) { c->wclk[t->id] = now; c->wmask[t->id] = 0; } c->wmask[t->id] |= mask; c->wpc = (u32)pc; }
        else { if (c->rclk[t->id] != now) { c->rclk[t->id] = now; c->rmask[t->id] = 0; } c->rmask[t->id] |= mask; c->rpc = (u32)pc; }
    }
    g_rt->checked = g_rt->checked + 1;
}
static inline void access(uptr a, uptr size, bool write, uptr pc) {
    Th* t = self;
    if (!t || !t->armed || !size) return;
    if (a - t->lo < t->hi - t->lo) return;                  // its own stack or thread-local storage
    if (!judged(a)) return;                                 // constants, exception objects, other threads' stacks
    event(t, write && !in_arena(a), pc);
    t->spin = 0;
    touch(t, a, size, write, pc);
}

// ---- memory -----------------------------------------------------------------------------------------
struct Hdr { u64 size, magic; };
static void* arena_alloc(size_t n) {
    uptr sz = (n + 16 + 15 + 8) & ~15ul;
    uptr p = __atomic_fetch_add(&bump, sz, __ATOMIC_SEQ_CST);
    if (p + sz > ARENA + ASIZE) { _exit(5); }
    Hdr* h = (Hdr*)p; h->size = n; h->magic = 0xA110CA7Eull;
    return h + 1;
}
static void* any_alloc(size_t n, bool nothrow) {
    Th* t = self;
    if (!t || !t->armed) {
        if (arena_on) return arena_alloc(n);
        void* p = __real_malloc(n ? n : 1); if (!p) { fprintf(stderr, "simulator: real allocation failure\n"); _exit(3); } return p;
    }
    event(t, false, (uptr)__builtin_return_address(0));
    ++t->allocs;
    bool bad = false;
    switch (t->f.mode) { case 'n': bad = t->allocs == t->f.k; break; case 'f': bad = t->allocs >= t->f.k; break; case 'c': bad = n > t->f.k; break; }
    if (n > (1ul << 26)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    if (bad) {
        ++t->fired; ++t->serial;
        if (nothrow) return nullptr;
        switch (t->f.exc) { case 1: throw SimOom(t->serial); case 2: throw SimOomChild(t->serial); case 3: throw std::bad_array_new_length(); case 4: throw SimArena(t->serial); default: throw std::bad_alloc(); }
    }
    return arena_alloc(n);
}
static void any_free(void* p) {
    if (!p) return;
    uptr a = (uptr)p;
    if (!in_arena(a)) { __real_free(p); return; }
    Hdr* h = (Hdr*)p - 1; Th* t = self;
    if (t && t->armed) event(t, false, (uptr)__builtin_return_address(0));
    if (h->magic != 0xA110CA7Eull) rt_violation("released memory used", "a block is released twice or was never allocated");
    if (t && t->armed && h->size) touch(t, a, h->size, true, (uptr)__builtin_return_address(0));
    h->magic = 0xDEAD;
    for (uptr g = a >> 3; h->size && g <= (a + h->size - 1) >> 3; ++g) cell_of(g)->freed = 1;
}
void* operator new(size_t n) { return any_alloc(n, false); }
void* operator new[](size_t n) { return any_alloc(n, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return any_alloc(n, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return any_alloc(n, true); }
void operator delete(void* p) noexcept { any_free(p); }
void operator delete[](void* p) noexcept { any_free(p); }
void operator delete(void* p, size_t) noexcept { any_free(p); }
void operator delete[](void* p, size_t) noexcept { any_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { any_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { any_free(p); }

// direct users of the C allocator (library objects only, through the linker's --wrap)
static void* c_alloc(size_t n) {
    Th* t = self;
    if (!t || !t->armed) return arena_on && t ? arena_alloc(n) : __real_malloc(n);
    return any_alloc(n, true);
}
extern "C" void* __wrap_malloc(size_t n) { return c_alloc(n); }
extern "C" void __wrap_free(void* p) { any_free(p); }
extern "C" void* __wrap_calloc(size_t a, size_t b) { void* p = c_alloc(a * b); if (p) memset(p, 0, a * b); return p; }
extern "C" void* __wrap_realloc(void* p, size_t n) {
    if (p && !in_arena((uptr)p)) return __real_realloc(p, n);
    void* q = c_alloc(n); if (!q) return nullptr;
    if (p) { size_t o = ((Hdr*)p - 1)->size; memcpy(q, p, o < n ? o : n); any_free(p); }
    return q;
}

// ---- compiler callbacks -----------------------------------------------------------------------------
#define PC ((uptr)__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* a) { access((uptr)a, n, false, PC); } void __tsan_write##n(void* a) { access((uptr)a, n, true, PC); } \
    void __tsan_unaligned_read##n(void* a) { access((uptr)a, n, false, PC); } void __tsan_unaligned_write##n(void* a) { access((uptr)a, n, true, PC); } \
    void __tsan_volatile_read##n(void* a) { access((uptr)a, n, false, PC); } void __tsan_volatile_write##n(void* a) { access((uptr)a, n, true, PC); } \
    void __tsan_unaligned_volatile_read##n(void* a) { access((uptr)a, n, false, PC); } void __tsan_unaligned_volatile_write##n(void* a) { access((uptr)a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, uptr n) { access((uptr)a, n, false, PC); }
void __tsan_write_range(void* a, uptr n) { access((uptr)a, n, true, PC); }
void __tsan_vptr_update(void* a, void*) { access((uptr)a, 8, true, PC); }
void __tsan_vptr_read(void* a) { access((uptr)a, 8, false, PC); }
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t); int __real_memcmp(const void*, const void*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { access((uptr)s, n, false, PC); access((uptr)d, n, true, PC); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { access((uptr)s, n, false, PC); access((uptr)d, n, true, PC); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { access((uptr)d, n, true, PC); return __real_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { access((uptr)a, n, false, PC); access((uptr)b, n, false, PC); return __real_memcmp(a, b, n); }
}
// atomics: executed one at a time, so any real operation is sequentially consistent; clocks follow the order argument
static Th* atomic_event(uptr pc) {
    Th* t = self;
    if (!t || !phase_on || !t->armed) return nullptr;
    g_rt->syncs = g_rt->syncs + 1;
    event(t, true, pc);
    if (++t->spin > 60 && !cf.only) { t->spin = 0; int to = pick_after(t->id); if (to >= 0 && to != t->id) switch_to(t, to, pc, false); }
    return t;
}
static bool is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static bool is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
#define ATOMIC(bits, T) \
extern "C" T __tsan_atomic##bits##_load(const volatile T* a, int mo) { Th* t = atomic_event(PC); T v = __atomic_load_n(a, 5); if (t && is_acq(mo)) acq(t, sync_of((const void*)a)); return v; } \
extern "C" void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { Th* t = atomic_event(PC); if (t && is_rel(mo)) rel(t, sync_of((const void*)a)); __atomic_store_n(a, v, 5); } \
static void rmw##bits(volatile T* a, int mo, uptr pc) { Th* t = atomic_event(pc); if (t) { Sync* s = sync_of((const void*)a); if (is_acq(mo)) acq(t, s); if (is_rel(mo)) rel(t, s); } } \
extern "C" T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { rmw##bits(a, mo, PC); return __atomic_exchange_n(a, v, 5); } \
extern "C" T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { rmw##bits(a, mo, PC); return __atomic_fetch_add(a, v, 5); } \
extern "C" T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { rmw##bits(a, mo, PC); return __atomic_fetch_sub(a, v, 5); } \
extern "C" T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { rmw##bits(a, mo, PC); return __atomic_fetch_and(a, v, 5); } \
extern "C" T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { rmw##bits(a, mo, PC); return __atomic_fetch_or(a, v, 5); } \
extern "C" T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { rmw##bits(a, mo, PC); return __atomic_fetch_xor(a, v, 5); } \
extern "C" T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { rmw##bits(a, mo, PC); return __atomic_fetch_nand(a, v, 5); } \
extern "C" int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int) { rmw##bits(a, mo, PC); return __atomic_compare_exchange_n(a, e, v, false, 5, 5); } \
extern "C" int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int) { rmw##bits(a, mo, PC); return __atomic_compare_exchange_n(a, e, v, false, 5, 5); } \
extern "C" T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v, int mo, int) { rmw##bits(a, mo, PC); __atomic_compare_exchange_n(a, &e, v, false, 5, 5); return e; }
ATOMIC(8, u8) ATOMIC(16, unsigned short) ATOMIC(32, unsigned int) ATOMIC(64, unsigned long)
extern "C" void __tsan_atomic_thread_fence(int) { atomic_event(PC); }
extern "C" void __tsan_atomic_signal_fence(int) {}

// ---- synchronisation calls --------------------------------------------------------------------------
static Th* simthread() { return phase_on ? self : nullptr; }
static void sync_event(Th* t) { g_rt->syncs = g_rt->syncs + 1; if (t->armed) event(t, true, PC); }
extern "C" int __cxa_guard_acquire(u64* g) {
    volatile u8* b = (volatile u8*)g; Th* t = simthread();
    if (t) sync_event(t);
    for (;;) {
        if (b[0]) { if (t) acq(t, sync_of(g)); return 0; }
        if (!b[1]) { b[1] = 1; if (t) acq(t, sync_of(g)); return 1; }
        if (!t) abort();
        block(t, g);
    }
}
extern "C" void __cxa_guard_release(u64* g) { volatile u8* b = (volatile u8*)g; b[1] = 0; b[0] = 1; if (Th* t = simthread()) { rel(t, sync_of(g)); wake(g); sync_event(t); } }
extern "C" void __cxa_guard_abort(u64* g) { volatile u8* b = (volatile u8*)g; b[1] = 0; if (Th* t = simthread()) { rel(t, sync_of(g)); wake(g); } }
template <class F> static F real(const char* n) { void* p = dlsym(RTLD_NEXT, n); if (!p) abort(); return (F)p; }
#define REAL(name) static __typeof__(&name) r; if (!r) r = real<__typeof__(&name)>(#name)
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
    Th* t = simthread(); if (!t) { REAL(pthread_mutex_lock); return r(m); }
    sync_event(t); Sync* s = sync_of(m);
    if (s->owner == t->id && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) { ++s->count; return 0; }
    while (s->owner >= 0) block(t, m);
    s->owner = t->id; s->count = 1; acq(t, s); return 0;
}
extern "C" int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
    Th* t = simthread(); if (!t) { REAL(pthread_mutex_trylock); return r(m); }
    sync_event(t); Sync* s = sync_of(m);
    if (s->owner == t->id && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) { ++s->count; return 0; }
    if (s->owner >= 0) { if (++t->spin > 60 && !cf.only) { t->spin = 0; int to = pick_after(t->id); if (to >= 0 && to != t->id) switch_to(t, to, PC, false); } return EBUSY; }
    s->owner = t->id; s->count = 1; acq(t, s); return 0;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
    Th* t = simthread(); if (!t) { REAL(pthread_mutex_unlock); return r(m); }
    Sync* s = sync_of(m);
    if (s->owner != t->id) return EPERM;
    if (--s->count == 0) { s->owner = -1; rel(t, s); wake(m); }
    sync_event(t); return 0;
}
extern "C" int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept {
    Th* t = simthread(); if (!t) { REAL(pthread_rwlock_rdlock); return r(m); }
    sync_event(t); Sync* s = sync_of(m);
    while (s->owner >= 0) block(t, m);
    ++s->readers; acq(t, s); return 0;
}
extern "C" int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept {
    Th* t = simthread(); if (!t) { REAL(pthread_rwlock_wrlock); return r(m); }
    sync_event(t); Sync* s = sync_of(m);
    while (s->owner >= 0 || s->readers) block(t, m);
    s->owner = t->id; acq(t, s); return 0;
}
extern "C" int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept {
    Th* t = simthread(); if (!t) { REAL(pthread_rwlock_unlock); return r(m); }
    Sync* s = sync_of(m);
    if (s->owner == t->id) s->owner = -1; else if (s->readers) --s->readers;
    rel(t, s); wake(m); sync_event(t); return 0;
}
extern "C" int pthread_once(pthread_once_t* o, void (*fn)(void)) {
    Th* t = simthread(); if (!t) { REAL(pthread_once); return r(o, fn); }
    sync_event(t); Sync* s = sync_of(o);
    for (;;) {
        if (*(volatile int*)o & 2) { acq(t, s); return 0; }
        if (s->owner < 0) break;
        block(t, o);
    }
    s->owner = t->id; acq(t, s);
    try { fn(); } catch (...) { s->owner = -1; rel(t, s); wake(o); throw; }
    *(volatile int*)o = 2; s->owner = -1; rel(t, s); wake(o);
    return 0;
}
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    Th* t = simthread(); if (!t) { REAL(pthread_cond_wait); return r(c, m); }
    pthread_mutex_unlock(m); block(t, c); pthread_mutex_lock(m); return 0;
}
extern "C" int pthread_cond_signal(pthread_cond_t* c) noexcept { Th* t = simthread(); if (!t) { REAL(pthread_cond_signal); return r(c); } wake(c); sync_event(t); return 0; }
extern "C" int pthread_cond_broadcast(pthread_cond_t* c) noexcept { Th* t = simthread(); if (!t) { REAL(pthread_cond_broadcast); return r(c); } wake(c); sync_event(t); return 0; }
extern "C" int sched_yield() noexcept {
    Th* t = simthread(); if (!t) { REAL(sched_yield); return r(); }
    if (!cf.only) { int to = pick_after(t->id); if (to >= 0 && to != t->id) switch_to(t, to, PC, false); }
    return 0;
}

// ---- phases ---------------------------------------------------------------------------------------------
static const uptr STACKS = 0x110000000000ul, SSIZE = 1ul << 20;
void rt_begin() {
    void* p = mmap((void*)ARENA, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)ARENA) { perror("arena"); _exit(3); }
    ash = (Cell*)mmap(nullptr, (ASIZE >> 3) * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    gsh = (GCell*)mmap(nullptr, NG * sizeof(GCell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (ash == MAP_FAILED || gsh == MAP_FAILED) { perror("shadow"); _exit(3); }
    dl_iterate_phdr(seg_cb, nullptr);
    bump = ARENA + 64; arena_on = true;
}
static void* body(void* p) {
    Th* t = (Th*)p;
    while (sem_wait(&t->sem)) {}
    self = t;
    t->fn(t->id);
    t->armed = false; t->st = DONE; self = nullptr;
    finished = t->id;
    sem_post(&main_sem);
    return nullptr;
}
void rt_phase(const RtConf& c, void (*fn)(int)) {
    cf = c; if (cf.max_sw > MAXSW) cf.max_sw = MAXSW;
    rs = cf.seed; draw();
    memset(syncs, 0, sizeof syncs);
    sem_init(&main_sem, 0, 0);
    phase_on = true;
    int live = 0, first = cf.only ? cf.only_t : 0;
    for (int i = 0; i < MAXT; ++i) th[i].st = FREE;
    for (int i = 0; i < cf.threads; ++i) {
        if (cf.only && i != cf.only_t) continue;
        Th* t = &th[i]; memset((void*)t, 0, sizeof *t);
        t->id = i; t->st = RUNNABLE; t->vc[i] = 1; t->fn = fn; sem_init(&t->sem, 0, 0);
        uptr st = STACKS + (uptr)i * SSIZE * 2;
        void* p = mmap((void*)st, SSIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
        if (p != (void*)st) { perror("stack"); _exit(3); }
        t->lo = st; t->hi = st + SSIZE;
        pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, p, SSIZE);
        if (pthread_create(&t->pt, &a, body, t)) { perror("pthread_create"); _exit(3); }
        ++live;
    }
    sem_post(&th[first].sem);
    while (live) {
        while (sem_wait(&main_sem)) {}
        int f = finished;
        pthread_join(th[f].pt, nullptr);                 // its thread-local objects are gone before anyone else runs
        --live;
        if (!live) break;
        int to = pick_after(f);
        if (to < 0) rt_violation("deadlock", "a thread ended and every other thread waits");
        sem_post(&th[to].sem);
    }
    phase_on = false;
}
