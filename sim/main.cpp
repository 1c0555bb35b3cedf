// faultsim: seeded exploration, replay and plan printing.
#include "exec.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <iostream>
#include <map>
#include <vector>
#include <algorithm>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <time.h>
#include <signal.h>
#include <unistd.h>
#include <sys/personality.h>

extern int g_life_fd;
struct EpochOut { volatile u64 hash; volatile u64 run; char cls[128]; char detail[1400]; int op; };
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void* shmem(size_t n) { void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(3); } return p; }
static u64 run_seed(u64 seed, int prop, u64 i) { return mix64(mix64(seed * 1000003ull + (u64)prop) + i); }
static std::string jesc(const std::string& s) { std::string o; char b[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += (char)c; } return o; }
static const u64 EPOCH = 60;

static int explore(int prop, u64 seed, u64 epochs, double seconds, int jobs, const std::string& dir, u64 first_epoch, int tier, bool keep_going) {
    if (prop == 21) {                                         // counted by processes of their own
        g_life_fd = memfd_create("stats", 0);
        if (g_life_fd < 0 || ftruncate(g_life_fd, sizeof(SharedStats))) { perror("memfd"); return 3; }
        g_stats = (SharedStats*)mmap(nullptr, sizeof(SharedStats), PROT_READ | PROT_WRITE, MAP_SHARED, g_life_fd, 0);
        if (g_stats == MAP_FAILED) { perror("mmap"); return 3; }
    } else g_stats = (SharedStats*)shmem(sizeof(SharedStats));
    g_edge_map = g_stats->edges;
    u64* cnt = (u64*)shmem(64); g_runs_seen.count = cnt; g_paths_seen.count = cnt + 1;
    g_runs_seen.cap = 1 << 22; g_runs_seen.slot = (volatile u64*)shmem(8ull << 22);
    g_paths_seen.cap = 1 << 23; g_paths_seen.slot = (volatile u64*)shmem(8ull << 23);
    EpochOut* eo = (EpochOut*)shmem(sizeof(EpochOut) * epochs);
    double t0 = now(); u64 next = 0, done = 0; std::map<pid_t, u64> live; bool stop = false;
    std::map<u64, std::pair<std::string, std::string>> bad;     // epoch -> class, detail
    bool infra = false;
    while ((next < epochs && !stop && now() - t0 < seconds) || !live.empty()) {
        if (next < epochs && !stop && now() - t0 < seconds && (int)live.size() < jobs) {
            u64 e = next++;
            fflush(stdout);
            pid_t pid = fork();
            if (pid == 0) {
                std::string ef = dir + "/e" + std::to_string(e);
                int fd = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
                dup2(fd, 2);
                u64 h = 0;
                for (u64 i = 0; i < EPOCH; ++i) {
                    alarm(150);
                    u64 id = (first_epoch + e) * EPOCH + i;
                    eo[e].run = i;
                    Plan p = generate(prop, run_seed(seed, prop, id), tier);
                    double rt0 = now();
                    Result r = execute(p, prop);
                    if (getenv("FAULTSIM_SLOW")) { FILE* sf = fopen(getenv("FAULTSIM_SLOW"), "a"); fprintf(sf, "%.4f %llu %llu %s\n", now() - rt0, (unsigned long long)e, (unsigned long long)i, p.inst.c_str()); fclose(sf); }
                    h = hash_add(h, r.hash);
                    if (r.bad) { snprintf(eo[e].cls, sizeof eo[e].cls, "%s", r.cls.c_str()); snprintf(eo[e].detail, sizeof eo[e].detail, "%s", r.detail.c_str()); eo[e].op = r.op; _exit(1); }
                }
                eo[e].hash = h;
                _exit(0);
            }
            if (pid < 0) { perror("fork"); return 3; }
            live[pid] = e;
            continue;
        }
        int st; pid_t pid = waitpid(-1, &st, 0);
        if (pid < 0) break;
        u64 e = live[pid]; live.erase(pid);
        std::string ef = dir + "/e" + std::to_string(e);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { ++done; unlink(ef.c_str()); continue; }
        std::string cls, det;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 1) { cls = eo[e].cls; det = eo[e].detail; }
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { infra = true; }
        else { cls = "crash"; det = WIFEXITED(st) ? "exit " + std::to_string(WEXITSTATUS(st)) : "signal " + std::to_string(WTERMSIG(st)); }
        unlink(ef.c_str());
        if (!cls.empty()) { bad[e] = {cls, det}; if (!keep_going) stop = true; }
    }
    double wall = now() - t0;
    u64 edges = 0; for (int i = 0; i < 65536; ++i) edges += g_stats->edges[i];
    std::ostringstream j;
    j << "{\"epochs_done\":" << done << ",\"epochs_asked\":" << epochs << ",\"infra\":" << (infra ? "true" : "false") << ",\"wall\":" << wall
      << ",\"runs\":" << g_stats->runs << ",\"ops\":" << g_stats->ops << ",\"attempts\":" << g_stats->attempts << ",\"ok_attempts\":" << g_stats->ok_attempts
      << ",\"failed_attempts\":" << g_stats->failed_attempts << ",\"skipped\":" << g_stats->skipped << ",\"steps\":" << g_stats->steps << ",\"allocs\":" << g_stats->allocs
      << ",\"distinct_runs\":" << *g_runs_seen.count << ",\"distinct_paths\":" << *g_paths_seen.count << ",\"edges\":" << edges << ",\"max_step_permille\":" << g_stats->max_ratio << ",\"max_memory_permille\":" << g_stats->max_mem;
    static const char* MN[4] = {"single allocation", "persistent from k", "larger than k bytes", "budget of k bytes"};
    static const char* EN[NEXC] = {"bad_alloc", "SimOom", "SimOomChild", "bad_array_new_length", "SimArena"};
    j << ",\"alloc_faults\":{"; bool c = false;
    for (int a = 0; a < 4; ++a) for (int b = 0; b < NEXC; ++b) { j << (c ? "," : "") << "\"" << MN[a] << "/" << EN[b] << "\":" << g_stats->alloc_faults[a][b]; c = true; }
    static const char* SN[6] = {"", "refused for good / end of input", "refused once / temporary end", "threw for good", "threw once", "stream failed beforehand"};
    j << "},\"stream_faults\":{"; for (int a = 1; a < 6; ++a) j << (a > 1 ? "," : "") << "\"" << SN[a] << "\":" << g_stats->stream_faults[a];
    static const char* PN[6] = {"", "main", "thread", "forked child", "exit handler", "static destructor"};
    j << "},\"stages\":{"; for (int a = 1; a < 6; ++a) j << (a > 1 ? "," : "") << "\"" << PN[a] << "\":" << g_stats->stages[a];
    j << "},\"surroundings\":{"; for (int a = 0; a < 8; ++a) j << (a ? "," : "") << "\"" << ENV_NAMES[a] << "\":" << g_stats->surroundings[a];
    static const char* RN[5] = {"at an allocation", "at a release of memory", "at a device call", "two levels deep", "while an exception is on its way"};
    j << "},\"unjudged\":" << g_stats->unjudged << ",\"reentries\":{"; for (int a = 0; a < 5; ++a) j << (a ? "," : "") << "\"" << RN[a] << "\":" << g_stats->reentries[a];
    j << "},\"op_attempts\":{"; c = false; for (int a = 0; a < NOPKINDS; ++a) if (g_stats->op_count[a]) { j << (c ? "," : "") << "\"" << OP_NAMES[a] << "\":" << g_stats->op_count[a]; c = true; }
    j << "},\"op_faulted\":{"; c = false; for (int a = 0; a < NOPKINDS; ++a) if (g_stats->op_fault[a]) { j << (c ? "," : "") << "\"" << OP_NAMES[a] << "\":" << g_stats->op_fault[a]; c = true; }
    j << "},\"instances\":{"; c = false; for (int a = 0; INST_NAMES[a]; ++a) { j << (c ? "," : "") << "\"" << INST_NAMES[a] << "\":" << g_stats->inst_runs[a]; c = true; }
    j << "},\"probes\":{"; for (int a = 0; a < 37; ++a) j << (a ? "," : "") << "\"" << RARE_NAMES[a] << "\":" << g_stats->rare[a];
    j << "},\"failed_at_allocation\":["; for (int a = 0; a < 64; ++a) j << (a ? "," : "") << g_stats->nfirst[a];
    j << "],\"epoch_hashes\":["; for (u64 e = 0; e < next; ++e) j << (e ? "," : "") << "\"" << std::hex << eo[e].hash << std::dec << "\"";
    j << "],\"violations\":["; c = false;
    for (auto& b : bad) {
        j << (c ? "," : "") << "{\"epoch\":" << first_epoch + b.first << ",\"run\":" << eo[b.first].run << ",\"class\":\"" << jesc(b.second.first) << "\",\"detail\":\"" << jesc(b.second.second) << "\",\"op\":" << eo[b.first].op << "}"; c = true;
    }
    j << "]}";
    puts(j.str().c_str());
    return infra ? 3 : bad.empty() ? 0 : 1;
}

bool life_main();
int main(int argc, char** argv) {
    if (life_main()) return 0;
    // the same addresses in every process, as far as the kernel lets us
    if (!getenv("FAULTSIM_FIXED")) {
        setenv("FAULTSIM_FIXED", "1", 1);
        int pz = personality(0xffffffff);
        if (pz != -1 && personality(pz | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    std::map<std::string, std::string> a; std::string mode = argc > 1 ? argv[1] : "";
    for (int i = 2; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    auto num = [&](const char* k, u64 d) { return a.count(k) ? strtoull(a[k].c_str(), nullptr, 10) : d; };
    int prop = prop_number(a["--prop"]);
    if (mode == "explore") return explore(prop, num("--seed", 1), num("--epochs", 10), (double)num("--seconds", 30), (int)num("--jobs", 8), a["--dir"], num("--first", 0), (int)num("--tier", 0), num("--keep", 0));
    if (mode == "plans") {                                    // the runs of one epoch, up to and including --run
        std::cout << "prop " << a["--prop"] << "\n";
        for (u64 i = num("--from", 0); i <= num("--run", 0); ++i) std::cout << plan_text(generate(prop, run_seed(num("--seed", 1), prop, num("--epoch", 0) * EPOCH + i), (int)num("--tier", 0)));
        return 0;
    }
    if (mode == "replay") {
        std::ifstream in(a["--file"]); std::vector<Plan> ps; std::string pid, err;
        if (!in || !parse_plans(in, ps, pid, err)) { fprintf(stderr, "cannot read replay file: %s\n", err.c_str()); return 4; }
        prop = prop_number(pid); g_trace = num("--trace", 0);
        if (prop < 1 || prop > 23) return 4;
        u64 h = 0;
        for (size_t i = 0; i < ps.size(); ++i) {
            alarm(150);
            if (g_trace) fprintf(stderr, "run %zu inst=%s\n", i, ps[i].inst.c_str());
            Result r = execute(ps[i], prop);
            h = hash_add(h, r.hash);
            if (r.bad) { printf("RESULT bad hash=%llx run=%zu op=%d class=%s\nDETAIL %s\n", (unsigned long long)h, i, r.op, r.cls.c_str(), r.detail.c_str()); fflush(stdout); _exit(1); }
        }
        printf("RESULT ok hash=%llx\n", (unsigned long long)h); fflush(stdout); _exit(0);
    }
    fprintf(stderr, "usage: faultsim explore|plans|replay ...\n");
    return 4;
}
