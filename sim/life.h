// C21: the same plan, once entirely inside main and once spread over the stages of a process' life. Each execution is a
// process of its own (this executable again, told by FAULTSIM_LIFE which plan to run and how); the stage changes are part
// of the plan (PHASE operations). Both must print the same event log.
namespace {
struct Life {
    std::vector<Plan> plans; Exec* e = nullptr; size_t next = 0; bool split = false; const char* unit = nullptr; bool at_end = false;
    const Plan& p() const { return plans[0]; }
};
Life* g_life = nullptr;
}
extern int g_life_fd;
static const char* life_unit(const std::string& inst) {
    if (inst[0] == 't') return "inst_tight.cpp"; if (inst == "dq10") return "inst_deque.cpp"; if (inst[0] == 'd') return "inst_dbg.cpp";
    static std::string s; s = "inst_" + inst + ".cpp"; return s.c_str();
}
static void life_say(const char* s) { ssize_t w = write(1, s, strlen(s)); (void)w; }
static void life_finish() {
    g_life->e->m->reset(0);                                     // the last numbers go where the last operation went
    char b[80]; snprintf(b, sizeof b, "LIFE %llx\n", (unsigned long long)g_life->e->h);
    life_say(b);
    _exit(0);
}
static void life_segment() {                                    // up to the next PHASE
    size_t i = g_life->next; while (i < g_life->p().ops.size() && g_life->p().ops[i].kind != PHASE) ++i;
    try { g_life->e->run_ops(g_life->next, i); }
    catch (const Bad& b) { life_say("BAD\n"); _exit(5); }
    g_life->next = i;
}
static int life_stage() { return g_life->next < g_life->p().ops.size() ? g_life->p().ops[g_life->next].d : 6; }
static void life_handler() {
    while (life_stage() == 4) { ++g_life->next; life_segment(); }
    if (life_stage() != 5) life_finish();
}
void life_start(const char* unit) {
    static bool asked = false; static const char* how = nullptr;
    if (!asked) {
        asked = true; how = getenv("FAULTSIM_LIFE");
        if (!how) return;
        g_life = new Life; g_life->split = how[0] == 's';
        if (const char* st = getenv("FAULTSIM_STATS")) { void* m = mmap(nullptr, sizeof(SharedStats), PROT_READ | PROT_WRITE, MAP_SHARED, atoi(st), 0); if (m != MAP_FAILED) { g_stats = (SharedStats*)m; g_edge_map = g_stats->edges; } }
        std::ifstream in(how + 2); std::string prop, err;
        if (!in || !parse_plans(in, g_life->plans, prop, err) || g_life->plans.size() != 1) _exit(4);
    }
    if (!how || !g_life->split) return;
    const char* mine = life_unit(g_life->p().inst); size_t n = strlen(unit), k = strlen(mine);
    if (n < k || strcmp(unit + n - k, mine)) return;
    g_life->unit = unit;
    g_life->e = new Exec(g_life->p(), 21, false); g_life->e->begin();
    life_segment();                                             // before main
}
void life_end(const char* unit) {
    if (!g_life || g_life->unit != unit) return;
    while (life_stage() == 5) { ++g_life->next; life_segment(); }
    life_finish();
}
bool life_main() {
    if (!g_life) return false;
    if (!g_life->split) { g_life->e = new Exec(g_life->p(), 21, false); g_life->e->begin(); while (life_stage() < 6) { life_segment(); if (life_stage() < 6) ++g_life->next; } life_finish(); }
    if (!g_life->e) _exit(4);
    for (;;) {
        int st = life_stage();
        if (st >= 6) life_finish();
        if (st >= 4) break;
        ++g_life->next;
        if (st == 2) { std::thread t(life_segment); t.join(); }
        else if (st == 3) {
            pid_t c = fork();
            if (c) { int s = 0; waitpid(c, &s, 0); if (WIFSIGNALED(s)) { signal(WTERMSIG(s), SIG_DFL); raise(WTERMSIG(s)); } _exit(WEXITSTATUS(s)); }
            alarm(60); life_segment();
        }
        else life_segment();
    }
    if (life_stage() == 4) atexit(life_handler);
    return true;                                                // main returns, the rest happens on the way out
}
namespace { struct LifeRun { std::string out; int status = 0; }; }
static LifeRun life_spawn(int plan_fd, bool split, int prev) {
    (void)prev;
    LifeRun r; int pp[2];
    if (pipe(pp)) _exit(3);
    pid_t c = fork();
    if (c < 0) _exit(3);
    if (!c) {
        dup2(pp[1], 1); close(pp[0]); close(pp[1]);
        setenv("FAULTSIM_LIFE", ((split ? "s:/proc/self/fd/" : "m:/proc/self/fd/") + std::to_string(plan_fd)).c_str(), 1);
        if (split && g_life_fd >= 0) setenv("FAULTSIM_STATS", std::to_string(g_life_fd).c_str(), 1); else unsetenv("FAULTSIM_STATS");
        alarm(60);
        char* const av[] = {(char*)"faultsim", (char*)"life", nullptr};
        execv("/proc/self/exe", av); _exit(3);
    }
    close(pp[1]);
    char b[4096]; ssize_t n; while ((n = read(pp[0], b, sizeof b)) > 0) r.out.append(b, n);
    close(pp[0]); waitpid(c, &r.status, 0);
    return r;
}
static Result life_execute(const Plan& p) {
    Result res;
    std::string text = "prop C21\n" + plan_text(p);
    int fd = memfd_create("plan", 0);
    if (fd < 0 || write(fd, text.data(), text.size()) != (ssize_t)text.size()) { perror("memfd"); _exit(3); }
    LifeRun in = life_spawn(fd, false, 0), sp = life_spawn(fd, true, 0);
    close(fd);
    for (unsigned char c : in.out) res.hash = hash_add(res.hash, c);
    const bool in_ok = WIFEXITED(in.status) && WEXITSTATUS(in.status) == 0 && in.out.find("\nLIFE ") != std::string::npos;
    if (WIFEXITED(sp.status) && (WEXITSTATUS(sp.status) == 3 || WEXITSTATUS(sp.status) == 4)) { fprintf(stderr, "life: no answer (%d)\n", WEXITSTATUS(sp.status)); _exit(3); }
    if (g_stats && in_ok) for (auto& o : p.ops) if (o.kind == PHASE) __sync_fetch_and_add(&g_stats->stages[o.d % 6], 1);
    if (!in_ok || in.out == sp.out) return res;                 // what goes wrong inside main as well is not this property's business
    std::istringstream a(in.out), b(sp.out); std::string x, y; int op = -1; const char* stage = "before main";
    static const char* const S[] = {"", "in main", "in a thread", "in a forked child", "in an exit handler", "in the destructor of a static object"};
    size_t seen = 0; bool more = true;
    while (std::getline(a, x)) { if (!std::getline(b, y)) { y = "(the process ended: " + std::string(WIFSIGNALED(sp.status) ? "signal " + std::to_string(WTERMSIG(sp.status)) : "exit status " + std::to_string(WEXITSTATUS(sp.status))) + ")"; more = false; } if (x != y) break; ++seen; }
    (void)more;
    unsigned long k = 0; if (sscanf(x.c_str(), "OP %lu", &k) == 1) op = (int)k; else op = (int)p.ops.size() - 1;
    for (int i = 0; i <= op && i < (int)p.ops.size(); ++i) if (p.ops[i].kind == PHASE) stage = S[p.ops[i].d % 6];
    res.bad = true; res.op = op; res.cls = std::string("differs ") + stage;
    res.detail = (op >= 0 ? std::string(OP_NAMES[p.ops[op].kind]) : std::string("the run")) + " " + stage + " on " + p.inst + ": event log '" + y + "', inside main '" + x + "'";
    return res;
}
