// Scheduler runtime: real threads, one running at a time. Every instrumented memory access, allocation,
// release and synchronisation call of armed library code is an event at which the simulator may hand over
// to another thread. Also: vector-clock race detection, deadlock and progress detection, allocation faults.
#ifndef SIM_RT_H
#define SIM_RT_H
#include "../seam.h"
enum { MAXT = 20, MAXSW = 2000 };
struct RtSwitch { int t; u64 n; int to; };
struct RtConf {
    int threads = 0; bool race = false; bool replay = false;
    const RtSwitch* sw = nullptr; int nsw = 0;          // replay
    u64 seed = 0, gap = 0; unsigned special_pct = 0; int max_sw = 0;   // record
    u64 max_events = 0; bool only = false; int only_t = 0;             // run a single thread
};
struct RtShared {                                       // in shared memory: survives a crash of the run
    volatile int nsw; RtSwitch sw[MAXSW];
    volatile u64 events, syncs, forced, checked; volatile u64 pcs[4096];   // bitmap of code locations preempted at
};
extern RtShared* g_rt;
void rt_begin();                                        // from here on operator new uses the run's own arena
void rt_phase(const RtConf& c, void (*fn)(int));
void rt_faults(const AllocFault& f);                    // for the calling thread's next library call
u64 rt_fired(); u64 rt_allocs();
u64 rt_serial();                                        // of the last simulated failure of this thread
void rt_violation(const char* cls, const char* detail) __attribute__((noreturn));   // provided by the harness
#endif
