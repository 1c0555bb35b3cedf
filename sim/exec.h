// Executes one plan against the real library and judges it for one property.
#ifndef SIM_EXEC_H
#define SIM_EXEC_H
#include "plan.h"
struct SharedStats {
    volatile u64 runs, ops, attempts, ok_attempts, failed_attempts, skipped, checks, steps, allocs;
    volatile u64 alloc_faults[4][NEXC];       // [mode n,f,c,b][exception kind]
    volatile u64 stream_faults[6];         // by StreamFault mode
    volatile u64 op_count[NOPKINDS];
    volatile u64 op_fault[NOPKINDS];       // attempts of this kind in which a fault fired
    volatile u64 stages[6], surroundings[8];   // C21: stages entered; C22: changes of the surroundings
    volatile u64 reentries[5], unjudged;   // C23: calls back into the library at allocations, releases, device calls; two levels deep
    volatile u64 inst_runs[16];
    volatile u64 rare[40];                 // rare-condition probes
    volatile u64 max_ratio, max_mem;   // permille of the step bound / of the memory bound
    volatile u64 nfirst[64];               // k-th allocation failed, k<64
    volatile u64 cur_run, cur_op;          // where the child is now
    unsigned char edges[65536];
};
extern const char* const RARE_NAMES[37];
extern SharedStats* g_stats;
struct HashSet { u64 cap; volatile u64* count; volatile u64* slot; };
extern HashSet g_runs_seen, g_paths_seen;
void hs_add(HashSet& s, u64 h);
struct Result { bool bad = false; std::string cls, detail; int op = -1; u64 hash = 0; };
int prop_number(const std::string& id);
Result execute(const Plan& p, int prop);
extern bool g_trace;
extern const char* const INST_NAMES[];
extern const char* const ENV_NAMES[8];
#endif
