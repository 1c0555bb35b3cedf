// C22, the two executions (see env.h)
static LifeRun env_spawn(const Plan& p, bool other) {
    LifeRun r; int pp[2];
    if (pipe(pp)) _exit(3);
    pid_t c = fork();
    if (c < 0) _exit(3);
    if (!c) {
        dup2(pp[1], 1); close(pp[0]); close(pp[1]);
        alarm(60);
        env_reuse_start();
        g_env_other = other; if (!other) { g_stats = nullptr; }
        int rc = 0;
        { Exec e(p, 22, false);
          try { e.run_all(); char b[80]; snprintf(b, sizeof b, "END %llx\n", (unsigned long long)e.h); life_say(b); }
          catch (const Bad&) { rc = 5; }
          g_seam.armed = false; }
        machine(p.inst)->reset(0);
        life_say("GONE\n");
        _exit(rc);
    }
    close(pp[1]);
    char b[4096]; ssize_t n; while ((n = read(pp[0], b, sizeof b)) > 0) r.out.append(b, n);
    close(pp[0]); waitpid(c, &r.status, 0);
    return r;
}
static Result env_execute(const Plan& p) {
    Result res;
    if (!machine(p.inst)) { res.bad = true; res.cls = "unknown instance"; return res; }
    LifeRun in = env_spawn(p, false), other = env_spawn(p, true);
    for (unsigned char c : in.out) res.hash = hash_add(res.hash, c);
    for (auto r : {&in, &other}) if (WIFEXITED(r->status) && WEXITSTATUS(r->status) == 3) { fprintf(stderr, "env: no answer\n"); _exit(3); }
    const bool in_ok = WIFEXITED(in.status) && WEXITSTATUS(in.status) == 0 && in.out.size() > 5 && in.out.compare(in.out.size() - 5, 5, "GONE\n") == 0;
    if (!in_ok || in.out == other.out) return res;              // what goes wrong in plain surroundings as well is not this property's business
    std::istringstream a(in.out), b(other.out); std::string x, y; int op = -1;
    while (std::getline(a, x)) { if (!std::getline(b, y)) y = "(the process ended: " + std::string(WIFSIGNALED(other.status) ? "signal " + std::to_string(WTERMSIG(other.status)) : "exit status " + std::to_string(WEXITSTATUS(other.status))) + ")"; if (x != y) break; }
    unsigned long k = 0; if (sscanf(x.c_str(), "OP %lu", &k) == 1) op = (int)k; else op = (int)p.ops.size() - 1;
    std::string env;
    for (int i = 0; i <= op && i < (int)p.ops.size(); ++i) if (p.ops[i].kind == ENVIR) { std::string s = ENV_NAMES[p.ops[i].d % ENV_KINDS]; if (env.find(s) == std::string::npos) env += (env.empty() ? "" : ", ") + s; }
    res.bad = true; res.op = op; res.cls = "depends on the surroundings";
    res.detail = (op >= 0 ? std::string(OP_NAMES[p.ops[op].kind]) : std::string("the run")) + " on " + p.inst + ": event log '" + y + "', in plain surroundings '" + x + "'; changed: " + env;
    return res;
}
