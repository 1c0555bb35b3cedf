// schedsim: seeded exploration, replay and plan printing for concurrent use of shared numbers.
#include "../machine.h"
#include "../plan.h"
#include "rt.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <iostream>
#include <map>
#include <vector>
#include <typeinfo>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <fcntl.h>
#include <time.h>
#include <unistd.h>

struct Inst { const char* n; u64 B; unsigned bits; IMach* (*mk)(); };
static const Inst INSTS[] = {{"lowp", 256, 8, make_lowp}, {"medp", 65536, 16, make_medp}, {"highp", 4294967296ull, 32, make_highp}, {"b2", 2, 1, make_b2},
    {"b8", 8, 3, make_b8}, {"b10", 10, 4, make_b10}, {"b16", 16, 4, make_b16}, {"u256", 256, 8, make_u256}};
enum { NINST = 8, MAXOPS = 16 };
static const Inst* inst_of(const std::string& n) { for (auto& i : INSTS) if (n == i.n) return &i; return nullptr; }
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void* shmem(size_t n) { void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(3); } return p; }
static u64 run_seed(u64 seed, u64 i) { return mix64(mix64(seed * 1000003ull + 13) + i); }
static std::string jesc(const std::string& s) { std::string o; char b[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += (char)c; } return o; }

// ---- what one run leaves behind (shared with the process that forked it) ---------------------------
struct Rec { u64 h; char text[240]; };
struct RunOut {
    volatile int alone_ok, bad, op; char cls[96]; char detail[1600];
    volatile u64 hash, sched_hash; int nrec[MAXT]; Rec rec[MAXT][MAXOPS];
    volatile u64 fired, ops, skipped, failed_ops, retried, op_count[NOPKINDS], op_fault[NOPKINDS], faults[4][NEXC];
    RtShared rt;
};
static RunOut* g_out;
static bool g_trace, g_alone; static FILE* g_err;
void rt_violation(const char* cls, const char* detail) {
    if (!g_alone) { g_out->bad = 1; snprintf(g_out->cls, sizeof g_out->cls, "%s", cls); snprintf(g_out->detail, sizeof g_out->detail, "%s", detail); }
    _exit(g_alone ? 6 : 1);
}

// ---- one thread's program ----------------------------------------------------------------------------
struct Ctx { Plan p; IMach* m; const Inst* in; int shared; std::vector<Op> prog[MAXT], setup; };
static Ctx* cx;
static std::string recs_text(const Rep& r) { return rstr(r); }
static u64 hrep(u64 h, const Rep& r) { h = hash_add(h, r.desc); h = hash_add(h, r.d.size()); for (u64 x : r.d) h = hash_add(h, x); return h; }
static bool own(int t, int r) { return r >= cx->shared + 2 * t && r < cx->shared + 2 * t + 2; }
static bool too_big(const Op& o) {
    Rep a, b; IMach* m = cx->m;
    auto len = [&](int r) { Rep x; m->get(r, x); return (u64)x.d.size(); };
    switch (o.kind) {
        case MULEQ: return len(o.d) + len(o.a) > 64;
        case MUL: return len(o.a) + len(o.b) > 64;
        case DIVEQ: case DIV: {
            u64 na = o.kind == DIV ? len(o.a) : len(o.d), nb = o.kind == DIV ? len(o.b) : len(o.a);
            m->get(o.kind == DIV ? o.b : o.a, b); while (!b.d.empty() && b.d.back() == 0) b.d.pop_back();
            nb = b.d.size();
            u64 q = ((na > nb ? na - nb : 0) + 2) * (cx->in->bits + 1);
            return nb && q * q * (na + nb + 4) > 120000;
        }
        case ADDEQ: case SUBEQ: case ADD: case SUB: return len(o.d) + len(o.a) + len(o.b) > 4000;
        default: return false;
    }
}
static void bumpc(volatile u64& x, u64 n = 1) { __atomic_fetch_add(&x, n, __ATOMIC_RELAXED); }
static void thread_main(int t) {
    IMach* m = cx->m;
    for (size_t k = 0; k < cx->prog[t].size(); ++k) {
        const Op& o = cx->prog[t][k];
        Rec rec; memset((void*)&rec, 0, sizeof rec); rec.h = 7; std::string text;
        const bool mv = o.kind == MOVE || o.kind == MCTOR, query = o.kind == CMP || o.kind == PRINT || o.kind == IDXR;
        Rep sd, sa, res; 
        bool skip = false;
        if (!query && !own(t, o.d)) skip = true;
        if (mv && (!own(t, o.a) || o.a == o.d)) skip = true;
        if (!skip && too_big(o)) skip = true;
        if (o.kind == IDXR || o.kind == POKE || o.kind == POPAT || o.kind == PUSHAT) {
            Rep x; m->get(o.kind == IDXR ? o.a : o.d, x);
            if (o.pos >= x.d.size() && !(o.kind == IDXR && o.b)) skip = true;
            if (o.kind == IDXR && o.b && o.pos < x.d.size()) skip = true;
        }
        if (o.kind == POPB || o.kind == POPF) { Rep x; m->get(o.d, x); if (x.d.empty()) skip = true; }
        if (o.kind == RESIZE && o.pos > 200) skip = true;
        if (skip) { if (!g_alone) bumpc(g_out->skipped); rec.h = 1; text = "skipped"; }
        else {
            m->get(o.d, sd); m->get(o.a, sa);
            for (int attempt = 0; attempt < 2; ++attempt) {
                AllocFault f; if (!attempt && !g_alone && !o.f.empty()) f = o.f[0];
                rt_faults(f);
                rec.h = 7; text.clear();
                try {
                    if (o.kind == CMP) {
                        CmpOut c; m->cmp(o.a, o.b, c);
                        u64 v = c.eq | c.ne << 1 | c.lt << 2 | c.le << 3 | c.gt << 4 | c.ge << 5 | c.pos << 6 | c.neg << 7 | c.inf << 8 | c.nan << 9;
                        rec.h = hash_add(hash_add(hash_add(rec.h, v), c.size), c.desc);
                        text = "comparison answers " + std::to_string(v) + " size " + std::to_string(c.size) + " descriptor " + std::to_string(c.desc);
                    } else if (o.kind == PRINT) {
                        std::ostringstream s; m->print(o.a, s);
                        text = "prints " + s.str(); for (unsigned char ch : s.str()) rec.h = hash_add(rec.h, ch); rec.h = hash_add(rec.h, s.rdstate());
                    } else if (o.kind == IDXR) {
                        u64 v = m->idx_read(o.a, o.pos, 0); rec.h = hash_add(rec.h, v); text = "reads digit " + std::to_string(v);
                    } else {
                        m->run(o);
                    }
                    disarm();
                } catch (const std::exception& e) { disarm(); rec.h = hash_add(rec.h, 99); const char* n = typeid(e).name(); for (const char* c = n; *c; ++c) rec.h = hash_add(rec.h, (u64)*c); text = std::string("throws ") + n; }
                catch (...) { disarm(); rec.h = hash_add(rec.h, 98); text = "throws something"; }
                u64 fired = rt_fired();
                if (!g_alone) { bumpc(g_out->ops); bumpc(g_out->op_count[o.kind]); }
                if (!fired) break;
                int mi = f.mode == 'n' ? 0 : f.mode == 'f' ? 1 : 2;
                bumpc(g_out->fired, fired); bumpc(g_out->op_fault[o.kind]); bumpc(g_out->faults[mi][f.exc % NEXC], fired); bumpc(g_out->failed_ops);
                AllocFault none; rt_faults(none);
                if (own(t, o.d)) m->put(o.d, sd);               // the client starts over from what it kept
                if (own(t, o.a) && o.a != o.d) m->put(o.a, sa);
                bumpc(g_out->retried);
            }
            AllocFault none; rt_faults(none);
            if (!query) { m->get(o.d, res); rec.h = hrep(rec.h, res); text += (text.empty() ? "" : ", ") + recs_text(res); }
            if (mv && o.a != o.d) m->put(o.a, sa);               // what a moved-from number holds is not specified
        }
        snprintf(rec.text, sizeof rec.text, "%s", text.c_str());
        if (g_alone) g_out->rec[t][k] = rec;
        else {
            const Rec& want = g_out->rec[t][k];
            g_out->hash = hash_add(hash_add(g_out->hash, (u64)t * 100 + k), rec.h);
            if (want.h != rec.h) {
                char d[900];
                snprintf(d, sizeof d, "thread %d, its call %d (%s): alone %s; in this schedule %s", t, (int)k + 1, OP_NAMES[o.kind], want.text, rec.text);
                rt_violation("result differs from running alone", d);
            }
        }
        if (g_trace && !g_alone) fprintf(g_err, "  thread %d call %d %s: %s\n", t, (int)k + 1, OP_NAMES[o.kind], rec.text);
    }
}
static void do_setup() {
    cx->m->reset(cx->p.regs);
    for (auto& o : cx->setup) { Rep r; r.desc = o.desc; r.d.assign(o.digits.rbegin(), o.digits.rend()); cx->m->put(o.d, r); }
}
// executes the plan in this process (a fresh fork); g_out is shared with the parent
static void run_alone(Ctx& c) {
    g_alone = true; cx = &c;
    int nul = open("/dev/null", O_WRONLY); dup2(nul, 2);
    rt_begin();
    for (int t = 0; t < c.p.threads; ++t) {
        do_setup();
        RtConf cf; cf.threads = c.p.threads; cf.only = true; cf.only_t = t; cf.max_events = 40000000;
        g_rt->events = 0;
        rt_phase(cf, thread_main);
    }
    _exit(0);
}
static void run_together(Ctx& c, const RtConf& base) {
    g_alone = false; cx = &c;
    { int keep = dup(2); g_err = fdopen(keep, "w"); setvbuf(g_err, nullptr, _IONBF, 0); int nul = open("/dev/null", O_WRONLY); dup2(nul, 2); dup2(nul, 1); }
    rt_begin(); do_setup();
    std::vector<Rep> pre(c.shared), post(c.shared);
    for (int i = 0; i < c.shared; ++i) c.m->get(i, pre[i]);
    RtConf cf = base; cf.threads = c.p.threads; cf.race = true; cf.max_events = 160000000;
    rt_phase(cf, thread_main);
    for (int i = 0; i < c.shared; ++i) {
        c.m->get(i, post[i]); g_out->hash = hrep(g_out->hash, post[i]);
        if (pre[i] != post[i]) rt_violation("shared number changed", ("shared register " + std::to_string(i) + " was " + rstr(pre[i]) + " now " + rstr(post[i])).c_str());
    }
    for (int i = 0; i < g_rt->nsw; ++i) g_out->sched_hash = hash_add(hash_add(hash_add(g_out->sched_hash, g_rt->sw[i].t), g_rt->sw[i].n), g_rt->sw[i].to);
    g_out->hash = hash_add(hash_add(g_out->hash, g_out->sched_hash), g_rt->events);
    _exit(0);
}

// ---- generation ---------------------------------------------------------------------------------------
struct SchedCfg { u64 seed, gap; unsigned special; int max_sw; };
static Plan generate_run(u64 seed, SchedCfg& sc) {
    Rng r(seed); Plan p; p.seed = seed;
    const Inst* in;
    do in = &INSTS[r.below(NINST)]; while (!in->mk());
    p.inst = in->n; u64 B = in->B;
    p.threads = r.pct(50) ? 2 : (int)r.range(2, 4);
    const bool crowd = r.pct(4);                             // more threads than a fixed number of slots can serve
    if (crowd) p.threads = (int)r.range(5, MAXT);
    int S = (int)r.range(1, 3); p.regs = S + 2 * p.threads;
    u64 maxlen = r.pct(40) ? 6 : r.pct(60) ? 16 : 32;
    auto digit = [&]() -> u64 { switch (r.below(6)) { case 0: return 0; case 1: return B - 1; case 2: return 1 % B; default: return r.below(B); } };
    std::vector<std::vector<u64>> pool;
    auto number = [&]() {
        std::vector<u64> v;
        if (!pool.empty() && r.pct(30)) { v = pool[r.below(pool.size())]; if (!v.empty() && r.pct(60)) v[r.below(v.size())] = digit(); }
        else { u64 n = r.pct(50) ? r.below(maxlen + 1) : r.small(maxlen); for (u64 i = 0; i < n; ++i) v.push_back(digit()); if (n && r.pct(90) && !v[0]) v[0] = 1 + r.below(B - 1); }
        if (pool.size() < 6) pool.push_back(v);
        return v;
    };
    auto desc = [&]() { return r.pct(4) ? 2 + (int)r.below(3) : r.pct(40) ? 1 : 0; };
    for (int i = 0; i < p.regs; ++i) { Op o; o.kind = LIT; o.t = -1; o.d = i; o.desc = desc(); if (o.desc < 2) o.digits = number(); if (o.desc == 1 && o.digits.empty()) o.desc = 0; p.ops.push_back(o); }
    unsigned fault_pct = r.pct(40) ? 0 : r.pct(50) ? 15 : 50;
    u64 nops = crowd ? r.range(1, 3) : r.range(1, 8);
    bool same = r.pct(crowd ? 60 : 30);                                   // every thread runs the same kind of call: cold statics meet
    unsigned wmul = r.pct(50) ? 35 : 15, wdiv = r.pct(50) ? 20 : 8;
    std::vector<int> kinds;
    for (u64 k = 0; k < nops; ++k) {
        int x = (int)r.below(100), kind;
        static const int AS[] = {ADDEQ, SUBEQ, ADD, SUB};
        static const int ED[] = {LIT, COPY, CCTOR, MOVE, MCTOR, DEFCTOR, SETDESC, PUSHB, PUSHF, PUSHAT, POPB, POPF, POPAT, RESIZE, CLEAR, POKE};
        if (x < (int)wmul) kind = r.pct(50) ? MUL : MULEQ; else if (x < (int)(wmul + wdiv)) kind = r.pct(50) ? DIV : DIVEQ;
        else if (x < 70) kind = AS[r.below(4)]; else if (x < 78) kind = CMP; else if (x < 85) kind = PRINT; else if (x < 87) kind = IDXR; else kind = ED[r.below(16)];
        kinds.push_back(kind);
    }
    for (int t = 0; t < p.threads; ++t) for (u64 k = 0; k < nops; ++k) {
        Op o; o.t = t; o.kind = kinds[k];
        if (!same && r.pct(70)) { o.kind = kinds[r.below(nops)]; if (r.pct(20)) o.kind = (int)r.below(POKE + 1); if (r.pct(12)) o.kind = r.pct(50) ? CMP : PRINT; }
        int base = S + 2 * t;
        auto src = [&]() { return r.pct(70) ? (int)r.below(S) : base + (int)r.below(2); };
        o.d = base + (int)r.below(2); o.a = src(); o.b = src();
        if (o.kind == MOVE || o.kind == MCTOR) o.a = o.d == base ? base + 1 : base;
        if (o.kind == LIT) { o.desc = desc(); o.digits = number(); if (o.digits.size() > 6) o.digits.resize(6); }
        if (o.kind == SETDESC) o.desc = r.pct(90) ? (int)r.below(2) : 2 + (int)r.below(3);
        if (o.kind >= PUSHB && o.kind <= IDXR) { o.pos = r.below(maxlen / 2 + 1); o.dig = digit(); }
        if (o.kind == RESIZE) o.b = (int)r.below(2);
        if (o.kind == IDXR) { o.b = r.pct(60); if (o.b) o.pos = maxlen * 8 + r.below(1000); }     // b: past the end, reported on the shared diagnostic stream
        if (fault_pct && r.pct(fault_pct)) {
            AllocFault f; f.mode = "nnnffc"[r.below(6)]; f.exc = (int)r.below(NEXC);
            f.k = f.mode == 'c' ? r.below(maxlen * 16) : r.pct(50) ? 1 : r.small(24);
            o.f.push_back(f);
        }
        p.ops.push_back(o);
    }
    static const u64 GAPS[] = {3, 10, 40, 200, 1000, 5000};
    static const unsigned SP[] = {0, 30, 80};
    sc.seed = r.next(); sc.gap = GAPS[r.below(6)]; sc.special = SP[r.below(3)]; sc.max_sw = (int)(r.pct(20) ? r.range(1, 6) : r.range(10, 400));
    return p;
}
static bool prepare(Ctx& c, const Plan& p, std::vector<RtSwitch>& sw) {
    c.p = p; c.in = inst_of(p.inst); if (!c.in) return false;
    if (c.p.threads < 1) c.p.threads = 1;
    if (c.p.threads > MAXT) return false;
    c.shared = p.regs - 2 * p.threads; if (c.shared < 0) return false;
    c.m = c.in->mk(); if (!c.m) return false;
    for (auto& o : p.ops) {
        if (o.kind == SWITCH) { RtSwitch s; s.t = o.t; s.n = o.pos; s.to = o.d; sw.push_back(s); }
        else if (o.t < 0) { if (o.d >= 0 && o.d < p.regs) c.setup.push_back(o); }
        else if (o.t < c.p.threads && c.prog[o.t].size() < MAXOPS && o.d < p.regs && o.a < p.regs && o.b < p.regs) c.prog[o.t].push_back(o);
    }
    return true;
}
static void reset_out(RunOut* o) { memset((void*)o, 0, sizeof *o); }
static int wait_for(pid_t pid) { int st; while (waitpid(pid, &st, 0) < 0) {} return st; }
// forks the alone run, then the simulated run. 0 held, 1 violation (in g_out), 2 skipped (running alone already fails), 3 trouble
static int execute_run(const Plan& p, const SchedCfg* sc) {
    Ctx c; std::vector<RtSwitch> sw;
    if (!prepare(c, p, sw)) return 3;
    g_rt = &g_out->rt;
    fflush(stdout); fflush(stderr);
    pid_t pid = fork(); if (pid < 0) return 3;
    if (!pid) { alarm(100); run_alone(c); }
    int st = wait_for(pid);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3) return 3;
    if (st) return 2;
    g_out->alone_ok = 1; memset((void*)&g_out->rt, 0, sizeof g_out->rt);
    pid = fork(); if (pid < 0) return 3;
    if (!pid) {
        alarm(200);
        RtConf cf;
        if (sc) { cf.seed = sc->seed; cf.gap = sc->gap; cf.special_pct = sc->special; cf.max_sw = sc->max_sw; }
        else { cf.replay = true; cf.sw = sw.data(); cf.nsw = (int)sw.size(); }
        run_together(c, cf);
    }
    st = wait_for(pid);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 1 && g_out->bad) return 1;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3) return 3;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 5) return 2;
    g_out->bad = 1;
    snprintf(g_out->cls, sizeof g_out->cls, "crash or hang under this schedule");
    snprintf(g_out->detail, sizeof g_out->detail, "each thread alone ends normally; together: %s %d", WIFEXITED(st) ? "exit" : "signal", WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st));
    return 1;
}

// ---- exploration ----------------------------------------------------------------------------------------
struct Agg {
    volatile u64 next, stop, runs, skipped_runs, trouble, events, syncs, forced, checked, switches, ops, ops_skipped, fired, failed_ops, op_count[NOPKINDS], op_fault[NOPKINDS], faults[4][NEXC];
    volatile u64 threads[MAXT + 1], inst[NINST], nd, nd_run, sw_hist[12]; volatile u64 pcs[4096];
    volatile u64 bad_run[64]; char bad_cls[64][96]; char bad_det[64][1600]; volatile u64 nbad;
    volatile u64 sched_set[1 << 20], run_set[1 << 20];
};
static bool set_add(volatile u64* s, u64 h) {
    if (!h) h = 1;
    for (u64 i = 0; i < 64; ++i) { volatile u64* p = &s[(mix64(h) + i) & ((1 << 20) - 1)]; u64 v = *p; if (v == h) return false; if (!v && __sync_bool_compare_and_swap(p, 0, h)) return true; if (*p == h) return false; }
    return false;
}
static int explore(u64 seed, u64 first, u64 maxruns, double seconds, int jobs, bool keep) {
    Agg* g = (Agg*)shmem(sizeof(Agg)); volatile u64* hashes = (volatile u64*)shmem(8 * 4096);
    double t0 = now();
    std::vector<pid_t> ws;
    fflush(stdout);
    for (int w = 0; w < jobs; ++w) {
        pid_t pid = fork();
        if (pid) { ws.push_back(pid); continue; }
        g_out = (RunOut*)shmem(sizeof(RunOut));
        while (now() - t0 < seconds && !g->stop) {
            u64 i = __atomic_fetch_add(&g->next, 1, __ATOMIC_SEQ_CST);
            if (i >= maxruns) break;
            SchedCfg sc; Plan p = generate_run(run_seed(seed, first + i), sc);
            reset_out(g_out);
            int v = execute_run(p, &sc);
            if (v == 3) { bumpc(g->trouble); if (g->trouble > 5) break; continue; }
            if (v == 2) { bumpc(g->skipped_runs); if (i < 4096) hashes[i] = 2; continue; }
            if (i < 4096) hashes[i] = g_out->hash | 1;
            bumpc(g->runs); bumpc(g->events, g_out->rt.events); bumpc(g->syncs, g_out->rt.syncs); bumpc(g->forced, g_out->rt.forced); bumpc(g->checked, g_out->rt.checked);
            bumpc(g->switches, g_out->rt.nsw); bumpc(g->ops, g_out->ops); bumpc(g->ops_skipped, g_out->skipped); bumpc(g->fired, g_out->fired); bumpc(g->failed_ops, g_out->failed_ops);
            for (int k = 0; k < NOPKINDS; ++k) { bumpc(g->op_count[k], g_out->op_count[k]); bumpc(g->op_fault[k], g_out->op_fault[k]); }
            for (int a = 0; a < 4; ++a) for (int b = 0; b < NEXC; ++b) bumpc(g->faults[a][b], g_out->faults[a][b]);
            for (int k = 0; k < 4096; ++k) if (g_out->rt.pcs[k]) __atomic_fetch_or(&g->pcs[k], g_out->rt.pcs[k], __ATOMIC_RELAXED);
            bumpc(g->threads[p.threads]); for (int k = 0; k < NINST; ++k) if (p.inst == INSTS[k].n) bumpc(g->inst[k]);
            int lg = 0; for (int n = g_out->rt.nsw; n; n >>= 1) ++lg; bumpc(g->sw_hist[lg < 12 ? lg : 11]);
            if (g_out->sched_hash && set_add(g->sched_set, g_out->sched_hash)) bumpc(g->nd);
            if (set_add(g->run_set, g_out->hash)) bumpc(g->nd_run);
            if (v == 1) {
                u64 k = __atomic_fetch_add(&g->nbad, 1, __ATOMIC_SEQ_CST);
                if (k < 64) { g->bad_run[k] = first + i; memcpy(g->bad_cls[k], g_out->cls, 96); memcpy(g->bad_det[k], g_out->detail, 1600); }
                if (!keep || k > 40) g->stop = 1;
            }
        }
        _exit(0);
    }
    for (pid_t p : ws) wait_for(p);
    double wall = now() - t0; u64 pcs = 0; for (int i = 0; i < 4096; ++i) pcs += __builtin_popcountll(g->pcs[i]);
    std::ostringstream j;
    j << "{\"wall\":" << wall << ",\"runs\":" << g->runs << ",\"skipped_runs\":" << g->skipped_runs << ",\"trouble\":" << g->trouble << ",\"events\":" << g->events << ",\"syncs\":" << g->syncs
      << ",\"forced\":" << g->forced << ",\"checked\":" << g->checked << ",\"switches\":" << g->switches << ",\"ops\":" << g->ops << ",\"ops_skipped\":" << g->ops_skipped << ",\"fired\":" << g->fired
      << ",\"failed_ops\":" << g->failed_ops << ",\"distinct_schedules\":" << g->nd << ",\"distinct_runs\":" << g->nd_run << ",\"preemption_points\":" << pcs;
    bool c = false;
    j << ",\"op_count\":{"; for (int a = 0; a < NOPKINDS; ++a) if (g->op_count[a]) { j << (c ? "," : "") << "\"" << OP_NAMES[a] << "\":" << g->op_count[a]; c = true; }
    c = false; j << "},\"op_fault\":{"; for (int a = 0; a < NOPKINDS; ++a) if (g->op_fault[a]) { j << (c ? "," : "") << "\"" << OP_NAMES[a] << "\":" << g->op_fault[a]; c = true; }
    static const char* MN[4] = {"single allocation", "persistent from k", "larger than k bytes", "-"};
    static const char* EN[NEXC] = {"bad_alloc", "SimOom", "SimOomChild", "bad_array_new_length", "SimArena"};
    c = false; j << "},\"faults\":{"; for (int a = 0; a < 3; ++a) for (int b = 0; b < NEXC; ++b) { j << (c ? "," : "") << "\"" << MN[a] << "/" << EN[b] << "\":" << g->faults[a][b]; c = true; }
    c = false; j << "},\"instances\":{"; for (int a = 0; a < NINST; ++a) { j << (c ? "," : "") << "\"" << INSTS[a].n << "\":" << g->inst[a]; c = true; }
    j << "},\"threads\":{"; c = false; for (int a = 2; a <= MAXT; ++a) { j << (c ? "," : "") << "\"" << a << "\":" << g->threads[a]; c = true; }
    j << "},\"switches_log2_histogram\":["; for (int a = 0; a < 12; ++a) j << (a ? "," : "") << g->sw_hist[a];
    u64 n = g->next < maxruns ? g->next : maxruns; if (n > 4096) n = 4096;
    j << "],\"hashes\":["; for (u64 i = 0; i < n; ++i) j << (i ? "," : "") << "\"" << std::hex << hashes[i] << std::dec << "\"";
    j << "],\"violations\":["; c = false;
    for (u64 k = 0; k < g->nbad && k < 64; ++k) { j << (c ? "," : "") << "{\"run\":" << g->bad_run[k] << ",\"class\":\"" << jesc(g->bad_cls[k]) << "\",\"detail\":\"" << jesc(g->bad_det[k]) << "\"}"; c = true; }
    j << "]}";
    puts(j.str().c_str());
    return g->trouble > 5 ? 3 : 0;
}
int main(int argc, char** argv) {
    if (!getenv("FAULTSIM_FIXED")) {
        setenv("FAULTSIM_FIXED", "1", 1);
        int pz = personality(0xffffffff);
        if (pz != -1 && personality(pz | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    std::map<std::string, std::string> a; std::string mode = argc > 1 ? argv[1] : "";
    for (int i = 2; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    auto num = [&](const char* k, u64 d) { return a.count(k) ? strtoull(a[k].c_str(), nullptr, 10) : d; };
    if (mode == "explore") return explore(num("--seed", 1), num("--first", 0), num("--runs", 100), (double)num("--seconds", 30), (int)num("--jobs", 8), num("--keep", 0));
    g_out = (RunOut*)shmem(sizeof(RunOut));
    if (mode == "plans") {                                    // one seeded run with the schedule it drew
        SchedCfg sc; Plan p = generate_run(run_seed(num("--seed", 1), num("--run", 0)), sc);
        reset_out(g_out);
        execute_run(p, &sc);
        std::cout << "prop C13\n# scheduler: gap " << sc.gap << " special " << sc.special << "% at most " << sc.max_sw << " switches\n" << plan_text(p);
        for (int i = 0; i < g_out->rt.nsw; ++i) { Op o; o.kind = SWITCH; o.t = g_out->rt.sw[i].t; o.pos = g_out->rt.sw[i].n; o.d = g_out->rt.sw[i].to; std::cout << op_text(o) << "\n"; }
        return 0;
    }
    if (mode == "replay") {
        std::ifstream in(a["--file"]); std::vector<Plan> ps; std::string pid, err;
        if (!in || !parse_plans(in, ps, pid, err) || ps.empty()) { fprintf(stderr, "cannot read replay file: %s\n", err.c_str()); return 4; }
        g_trace = num("--trace", 0);
        u64 h = 0;
        for (size_t i = 0; i < ps.size(); ++i) {
            reset_out(g_out);
            int v = execute_run(ps[i], nullptr);
            h = hash_add(h, g_out->hash);
            if (v == 3) return 4;
            if (v == 1) { printf("RESULT bad hash=%llx run=%zu op=0 class=%s\nDETAIL %s\n", (unsigned long long)h, i, g_out->cls, g_out->detail); return 1; }
        }
        printf("RESULT ok hash=%llx\n", (unsigned long long)h); return 0;
    }
    fprintf(stderr, "usage: schedsim explore|plans|replay ...\n");
    return 4;
}
