// Simulator-owned seams: memory (replaced global operator new/delete) and execution steps
// (control-flow edges of instrumented code). Faults fire only while a library call is armed.
#ifndef SIM_SEAM_H
#define SIM_SEAM_H
#include <new>
#include <cstddef>
#include "rng.h"
struct AllocFault {            // one attempt of one operation
    char mode = 0;             // 0 none, 'n' k-th allocation only, 'f' k-th and all later, 'c' allocations larger than k bytes, 'b' at most k bytes outstanding
    u64 k = 0;
    int exc = 0;               // 0 std::bad_alloc, 1 SimOom, 2 SimOomChild, 3 std::bad_array_new_length, 4 SimArena (no bad_alloc)
};
struct SimOom : std::bad_alloc { u64 serial; explicit SimOom(u64 s) : serial(s) {} const char* what() const noexcept override { return "simulated out of memory"; } };
struct SimOomChild : SimOom { explicit SimOomChild(u64 s) : SimOom(s) {} };
struct SimArena : std::exception { u64 serial; explicit SimArena(u64 s) : serial(s) {} const char* what() const noexcept override { return "simulated arena exhausted"; } };
enum { NEXC = 5 };
struct SeamState {
    volatile bool armed = false;
    AllocFault f;
    u64 allocs = 0, fired = 0, huge = 0, first_k = 0; // this attempt
    u64 serial = 0, first_serial = 0;
    u64 out_blocks = 0, out_bytes = 0, peak_bytes = 0;           // library-owned blocks outstanding
    u64 base_bytes = 0;
    u64 sp0 = 0, sp_low = 0;                     // stack of this attempt
    u64 steps = 0, step_limit = 0, path = 0;     // this attempt
    bool hook = false; u64 frees = 0, devs = 0;  // the library's calls out of this attempt may lead back into it
    u64 total_steps = 0, total_allocs = 0;
};
extern SeamState g_seam;
// what surrounds the library and must not matter (C22)
struct EnvState {
    int fill = 0;                                // contents of fresh library memory: 0 the allocator's, 1 zeros, 2 ones, 3 noise, 4 what a released block held
    int place = 0;                               // 0 the allocator's choice, 1 the block released last comes first, 2 at odd distances
    u64 noise = 88172645463325252ull;            // for contents and distances
    int round = 0, flush = 0, traps = 0, sticky = 0, err = 0, context = 0;
    u64 clock = 1700000000ull, step = 1, rnd = 12345; int pid = 4242; const char* var = nullptr;
};
extern EnvState g_env;
void env_reuse_start();
extern unsigned char* g_edge_map;                // 65536 cells, shared memory
extern void (*g_reenter)(char at, u64 k);
void seam_out(char at, u64 k);                   // the library has called the client's code
inline void seam_device() { if (g_seam.hook && g_seam.armed) seam_out('d', ++g_seam.devs); }
void seam_prepare(const AllocFault& f, u64 step_limit);
#ifdef SIM_SCHED
void arm();
void disarm();
#else
inline void arm() { g_seam.armed = true; }
inline void disarm() { g_seam.armed = false; }
#endif
struct ArmGuard { ArmGuard() { arm(); } ~ArmGuard() { disarm(); } };
#endif
