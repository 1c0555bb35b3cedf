#include "exec.h"
#include "device.h"
#include <cxxabi.h>
#include <new>
#include <locale>
#if defined(__x86_64__)
#include <xmmintrin.h>
#endif
#include <typeinfo>
#include <iostream>
#include <sstream>
#include <map>
#include <cstring>
#include <cstdio>
#include <algorithm>
#include <cmath>
#include "bignum/bn_except.h"
#include <fstream>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <thread>
#include <functional>
#include "env.h"

int g_life_fd = -1;
bool g_trace = false;
SharedStats* g_stats = nullptr;
HashSet g_runs_seen, g_paths_seen;
const char* const INST_NAMES[] = {"lowp", "medp", "highp", "b2", "b8", "b10", "b16", "u256", "u1000", "t10", "tmed", "thigh", "dq10", "d10", "dhigh", nullptr};
const char* const RARE_NAMES[37] = {
    "zero operand", "division by zero", "equal operands divided", "aliased target and operand", "aliased operands", "padded operand",
    "negative zero operand", "infinite operand", "NaN operand", "cancellation to zero", "carry out of the top digit", "borrow shortens the result",
    "quotient of several digits", "operands of 64+ digits", "failure while unwinding target was shorter than operand", "failed operation then reused", "retry after failure succeeded",
    "persistent failure", "allocation beyond the 8th failed", "print cut inside a digit", "print failed at first byte", "input cut inside a digit", "index just past the end", "index near 2^64",
    "sweep reached success", "comparison without memory", "move without memory", "equal values written differently", "product needs carry chain", "device recovered and continued", "self copy", "moved-from number reused", "product of thousands of digits judged by residues",
    "transform after a failed transform", "packed convolution with coefficients above 2^40", "transform of 1024+ points", "call repeated 60000+ times before"};

void hs_add(HashSet& s, u64 h) {
    if (!s.slot) return;
    if (!h) h = 1;
    for (u64 i = 0; i < 64; ++i) {
        volatile u64* p = &s.slot[(mix64(h) + i) % s.cap];
        u64 v = *p;
        if (v == h) return;
        if (v == 0) {
            if (__sync_bool_compare_and_swap(p, 0, h)) { __sync_fetch_and_add(s.count, 1); return; }
            if (*p == h) return;
        }
    }
}
int prop_number(const std::string& id) { return id.size() == 3 && id[0] == 'C' ? atoi(id.c_str() + 1) : 0; }

static IMach* machine(const std::string& n, int level = 0) {
    static std::map<std::pair<std::string, int>, IMach*> ms;
    IMach*& m = ms[{n, level}];
    if (!m) {
        if (n == "lowp") m = make_lowp(); else if (n == "medp") m = make_medp(); else if (n == "highp") m = make_highp();
        else if (n == "b2") m = make_b2(); else if (n == "b8") m = make_b8(); else if (n == "b10") m = make_b10(); else if (n == "b16") m = make_b16();
        else if (n == "u256") m = make_u256(); else if (n == "u1000") m = make_u1000(); else if (n == "t10") m = make_t10();
        else if (n == "tmed") m = make_tmed(); else if (n == "thigh") m = make_thigh(); else if (n == "dq10") m = make_dq10();
        else if (n == "d10") m = make_d10(); else if (n == "dhigh") m = make_dhigh();
    }
    return m;
}
// the documented base of each digit type (what the library itself reports is under test, too)
static u64 known_base(const std::string& n) {
    static const std::map<std::string, u64> b = {{"lowp", 256}, {"medp", 65536}, {"highp", 1ull << 32}, {"b2", 2}, {"b8", 8}, {"b10", 10}, {"b16", 16}, {"u256", 256}, {"u1000", 1000},
        {"t10", 10}, {"tmed", 65536}, {"thigh", 1ull << 32}, {"dq10", 10}, {"d10", 10}, {"dhigh", 1ull << 32}};
    return b.at(n);
}
bool instance_present(const std::string& n) { return machine(n) != nullptr; }
static void bump(volatile u64& x, u64 n = 1) { __sync_fetch_and_add(&x, n); }

namespace {
enum { OK = 0, THROWN = 1 };
#define P(n) (1u << (n))
struct Bad { std::string cls, detail; };

static u64 g_steps0 = 0;                         // steps made before this run began
struct Exec {
    const Plan& p; int prop; IMach* m; u64 B; Result res; u64 h = 0; bool nofault;
    std::vector<Rep> sh; std::vector<char> moved; std::vector<char> wasfailed; int cur = -1;
    // last attempt
    int outcome; std::string etype; u64 eserial; bool efault; u64 fired; bool spurious;

    // C23: operations that run inside others
    int level; bool nested = false; Exec* up = nullptr; std::unique_ptr<Exec> sub; std::vector<size_t> inners; const Op* now = nullptr; std::unique_ptr<Bad> pending;

    Exec(const Plan& pl, int pr, bool nf, int lv = 0) : p(pl), prop(pr), m(machine(pl.inst, lv)), B(known_base(pl.inst)), nofault(nf), level(lv) {}
    static const unsigned ANY = P(1) | P(2) | P(3) | P(4) | P(5) | P(6) | P(7) | P(8) | P(9) | P(12) | P(14) | P(15) | P(17) | P(18) | P(20);
    bool active(unsigned tags) const { return prop == 23 ? (tags & ANY) != 0 : (tags >> prop) & 1; }
    void fail(unsigned tags, const char* what, const std::string& detail) {
        if (g_stats) bump(g_stats->checks);
        if (!active(tags)) return;
        throw Bad{what, detail};
    }
    void snap() { for (int i = 0; i < p.regs; ++i) m->get(i, sh[i]); }
    void rare(int i) { if (g_stats) bump(g_stats->rare[i]); }
    void log(u64 v) { h = hash_add(h, v); }
    void log(const Rep& r) { log(r.desc); log(r.d.size()); for (u64 x : r.d) log(x); }

    static double bits(u64 B) { double b = 0; while (B > 1) { B >>= 1; b += 1; } return b < 1 ? 1 : b; }
    static u64 sig(const Rep& r) { u64 n = r.d.size(); while (n && !r.d[n - 1]) --n; return n; }   // length without leading zeros
    u64 limit(const Op& o, u64 na, u64 nb, u64 nq = 0) const {
        double n = (double)(na + nb + 8), lim = 20000 + 1500 * n;
        if (m->tight()) lim += 60 * n * n;
        switch (o.kind) {
            case MULEQ: case MUL: lim += 100 * n * n + 4000 * n; break;
            case DIVEQ: case DIV: { double q = (nq + 2) * (bits(B) + 1); lim += q * q * (n + 4) * 40 + q * 4000; lim += (bits(B) + 1) * ((double)na + 4) * (n + 4) * (m->tight() ? 200 + 10 * n : 200); if (m->tight()) lim += q * q * n * n * 4; break; }
            case RESIZE: lim += 400.0 * o.pos; break;
            default: break;
        }
        return (u64)lim;
    }
    // bytes an operation may hold on top of what its operands hold
    u64 mem_limit(const Op& o, u64 na, u64 nb, u64 nq) const {
        double n = (double)(na + nb + 8) + (o.kind == RESIZE ? (double)o.pos : 0), lim = 12288 + 768 * n;
        if (o.kind == DIVEQ || o.kind == DIV) lim += ((nq + 2) * (bits(B) + 1)) * n * 64;
        if (o.kind == MULEQ || o.kind == MUL) lim += 64 * n * n;
        return (u64)lim;
    }
    void memory(const Op& o, u64 na, u64 nb, u64 nq) {
        static u64 longest = 0;                            // in this process: what the library keeps may serve later operations
        longest = std::max(longest, na + nb + (o.kind == RESIZE ? o.pos : 0));
        u64 used = g_seam.peak_bytes - g_seam.base_bytes, lim = mem_limit(o, na, nb, nq), kept = g_seam.out_bytes, klim = 8192 + (u64)(p.regs + 1) * (768 + 48 * longest) + 256 * longest;
        u64 stack = g_seam.sp0 - g_seam.sp_low, slim = 65536 + 4096 * (na + nb) + (o.kind == RESIZE ? 4096 * o.pos : 0);
        if (g_stats && lim) { u64 r = std::max(std::max(used * 1000 / lim, kept * 1000 / klim), stack * 1000 / slim); if (r > g_stats->max_mem) g_stats->max_mem = r; }
        if (used > lim) fail(P(19), "operation needed too much memory", std::string(OP_NAMES[o.kind]) + " on " + std::to_string(na) + " and " + std::to_string(nb) + " digits held " + std::to_string(used) + " bytes, bound " + std::to_string(lim));
        if (stack > slim) fail(P(19) | P(16), "operation needed too much stack", std::string(OP_NAMES[o.kind]) + " on " + std::to_string(na) + " and " + std::to_string(nb) + " digits used " + std::to_string(stack) + " bytes of stack, bound " + std::to_string(slim));
        if (kept > klim) fail(P(19), "numbers keep too much memory", std::to_string(p.regs) + " numbers made from at most " + std::to_string(longest) + " digits keep " + std::to_string(kept) + " bytes, bound " + std::to_string(klim));
    }
    // settings of the process that belong to the caller: floating point control, new-handler, global locale
    struct Ambient {
        unsigned fp = 0; std::new_handler nh; std::locale loc;
        Ambient() : nh(std::get_new_handler()) {
#if defined(__x86_64__)
            unsigned short cw; __asm__ volatile("fnstcw %0" : "=m"(cw));
            fp = (unsigned)cw << 16 | (_mm_getcsr() & 0xFFC0);
#endif
        }
        const char* differs(const Ambient& o) const { return fp != o.fp ? "floating point control (rounding, traps, flushing)" : nh != o.nh ? "the new-handler" : !(loc == o.loc) ? "the global locale" : nullptr; }
    };
    // the library called the client's code, which uses the library again
    static Exec* g_inside;
    static void call_back(char at, u64 k) {
        Exec* const e = g_inside;
        for (size_t j : e->inners) if (e->p.ops[j].at == at && e->p.ops[j].atk == k && !e->pending) {
            if (g_stats) { bump(g_stats->reentries[at == 'a' ? 0 : at == 'r' ? 1 : 2]); if (e->level) bump(g_stats->reentries[3]); if (std::uncaught_exception()) bump(g_stats->reentries[4]); }
            try {
                for (Exec* x = e; x; x = x->up) x->midway();
                e->sub->step(j);
                for (Exec* x = e; x; x = x->up) x->midway();
            }
            catch (const Bad& b) { e->pending.reset(new Bad{b.cls, b.detail + " - inside " + op_text(*e->now) + ", at its " + std::to_string(k) + ". " + (at == 'a' ? "allocation" : at == 'r' ? "release of memory" : "device call")}); }
            g_inside = e; g_reenter = call_back;
        }
    }
    // while an operation is under way, everything but its target is as it was
    void midway() {
        const Op& o = *now; int t = o.d, t2 = -1;
        switch (o.kind) { case CMP: case PRINT: case IDXR: case DIAG: case DIGIN: case XFORM: t = -1; break; case IDXW: t = o.a; break; case MOVE: case MCTOR: case SWAP: t2 = o.a; break; default: break; }
        Rep r;
        for (int i = 0; i < p.regs; ++i) if (i != t && i != t2 && !moved[i]) { m->get(i, r); if (r != sh[i]) fail(P(7), "a number is changed while an operation on others is under way", "register " + std::to_string(i) + " was " + rstr(sh[i]) + " now " + rstr(r)); }
    }
    // one armed library call
    template <class F> void attempt(const Op& o, const AllocFault& f0, u64 lim, F call) {
        AllocFault f = f0; if (nofault) f.mode = 0;
        const Ambient before;
        alarm(150);                                                  // for what is not counted in steps (deadlocks)
        seam_prepare(f, lim);
        if (nested && now && now->kind == o.kind && !inners.empty()) { g_inside = this; g_reenter = call_back; g_seam.hook = true; }
        u64 ser0 = g_seam.serial + 1;
        outcome = OK; etype.clear(); eserial = 0; efault = false; spurious = false;
        auto go = [&] {
            try { Surroundings env; call(); g_seam.armed = false; }
            catch (...) {
                g_seam.armed = false;
                outcome = THROWN;
                const std::type_info* t = abi::__cxa_current_exception_type();
                etype = t ? t->name() : "?";
                try { throw; } catch (const SimOom& s) { eserial = s.serial; } catch (const SimArena& s) { eserial = s.serial; } catch (...) {}
            }
        };
        if (g_env_other && g_env.context) in_context(go); else go();
        g_seam.armed = false; g_seam.hook = false;
        if (pending) { Bad b = *pending; pending.reset(); throw b; }
        fired = g_seam.fired;
        if (const char* what = before.differs(Ambient())) fail(P(7), "setting of the process changed", std::string(OP_NAMES[o.kind]) + (outcome == OK ? "" : ", which failed,") + " changed " + what);
        if (outcome == THROWN) {
            static const char* const want[NEXC] = {typeid(std::bad_alloc).name(), typeid(SimOom).name(), typeid(SimOomChild).name(), typeid(std::bad_array_new_length).name(), typeid(SimArena).name()};
            efault = fired && etype == want[f.exc % NEXC] && (f.exc == 0 || f.exc == 3 || (eserial >= ser0 && eserial <= g_seam.serial));
            spurious = !fired;
        }
        if (g_stats) {
            bump(g_stats->attempts); bump(outcome == OK ? g_stats->ok_attempts : g_stats->failed_attempts);
            bump(g_stats->steps, g_seam.steps); bump(g_stats->allocs, g_seam.allocs); bump(g_stats->op_count[o.kind]);
            if (fired) {
                int mi = f.mode == 'n' ? 0 : f.mode == 'f' ? 1 : f.mode == 'c' ? 2 : 3;
                bump(g_stats->alloc_faults[mi][f.exc % NEXC], fired); bump(g_stats->op_fault[o.kind]);
                bump(g_stats->nfirst[g_seam.first_k < 63 ? g_seam.first_k : 63]);
                if (f.mode == 'f') rare(17);
                if (g_seam.first_k > 8) rare(18);
            }
            if (lim) { u64 r = g_seam.steps * 1000 / lim; if (r > g_stats->max_ratio) g_stats->max_ratio = r; }
            hs_add(g_paths_seen, hash_add(g_seam.path, (u64)o.kind * 64 + (u64)outcome));
        }
        log((u64)o.kind << 8 | outcome); if (prop < 21) { log(g_seam.allocs); log(fired); }
        if (g_trace) fprintf(stderr, "    attempt %s fault=%c:%llu fired=%llu allocs=%llu steps=%llu limit=%llu -> %s %s\n", OP_NAMES[o.kind], f.mode ? f.mode : '-',
            (unsigned long long)f.k, (unsigned long long)fired, (unsigned long long)g_seam.allocs, (unsigned long long)g_seam.steps, (unsigned long long)lim, outcome == OK ? "ok" : "threw", etype.c_str());
    }
    void others(const std::vector<Rep>& pre, int d, int d2, unsigned extra) {
        for (int i = 0; i < p.regs; ++i) if (i != d && i != d2 && !moved[i] && pre[i] != sh[i])
            fail(P(7) | extra, "other number changed", "register " + std::to_string(i) + " was " + rstr(pre[i]) + " now " + rstr(sh[i]));
    }
    void range(int i, unsigned extra = 0) {
        const Rep& r = sh[i];
        for (u64 x : r.d) if (x >= B) fail(P(17) | extra, "digit out of range", "register " + std::to_string(i) + " = " + rstr(r));
        if (r.desc < 0 || r.desc > 4) fail(P(17) | P(9) | extra, "invalid descriptor", "register " + std::to_string(i) + " = " + rstr(r));
    }
    static bool okval(const Rep& r, const Val& e) { return value_of(r) == e; }
    // exception judgement shared by all operations that may allocate
    void judge_exception(unsigned optags) {
        if (outcome != THROWN) return;
        if (spurious) fail(optags | P(6) | P(11) | P(16), "failed although nothing went wrong", "exception " + etype + " without any failed allocation");
        else if (!efault) fail(P(6), "original exception lost", "caller saw " + etype);
    }

    void flags(int d, const char* when) {
        CmpOut c; Op o; o.kind = CMP; AllocFault nf; attempt(o, nf, 0, [&] { m->cmp(d, d, c); });
        const Rep& r = sh[d];
        bool inf = r.desc == 3 || r.desc == 4, neg = r.desc == 1 || r.desc == 4, pos = r.desc == 0 || r.desc == 3;
        if (outcome != OK || c.inf != inf || c.nan != (r.desc == 2) || c.neg != neg || c.pos != pos || c.size != r.d.size() || c.desc != r.desc)
            fail(P(5) | P(12) | P(4) | P(9), "accessors disagree", std::string(when) + " " + rstr(r));
    }

    // ---- arithmetic -------------------------------------------------------------------------
    unsigned val_tag(int k) { return k == ADDEQ || k == SUBEQ || k == ADD || k == SUB ? P(1) : k == MULEQ || k == MUL ? P(2) : P(3); }
    bool too_big(const Op& o, const Rep& x, const Rep& y) {
        double na = x.d.size(), nb = y.d.size(), n = na + nb;
        if (prop == 23 && n > 1200 && o.kind != ADD && o.kind != SUB && o.kind != ADDEQ && o.kind != SUBEQ) return true;
        if (n > 400000 && o.kind != MUL && o.kind != MULEQ) return true;
        if (prop == 19 && o.kind <= DIV && o.kind != ADD && o.kind != SUB && o.kind != ADDEQ && o.kind != SUBEQ && n > 300) return true;   // long histories of bounded numbers
        if (o.kind == DIV || o.kind == DIVEQ) { if (n > 6000) return true; }
        if (o.kind == MULEQ || o.kind == MUL) { if (n > 4300 && (m->tight() || (B - 1) * (B - 1) * n > 1ull << 43 || o.sweep || n > 300000)) return true; }
        if (o.kind == DIVEQ || o.kind == DIV) {
            double ta = na, tb = nb; while (ta && !x.d[(size_t)ta - 1]) --ta; while (tb && !y.d[(size_t)tb - 1]) --tb;
            double q = ta >= tb ? (ta - tb + 1) * bits(B) : 1; if (q * q * (na + 2) * (m->tight() ? 3 : 1) > (prop == 19 ? 1e5 : o.sweep || o.f.size() ? 4e5 : 1.2e6)) return true;
        }
        return false;
    }
    void check_arith(const Op& o, const std::vector<Rep>& pre, bool clean_others = true) {
        bool comp = o.kind <= DIVEQ;
        const Rep& x = comp ? pre[o.d] : pre[o.a]; const Rep& y = comp ? pre[o.a] : pre[o.b];
        Val A = value_of(x), Y = value_of(y);
        int k = comp ? o.kind : o.kind - ADD;                       // 0 add 1 sub 2 mul 3 div
        unsigned vt = val_tag(o.kind);
        unsigned retry = o.retry ? P(11) : 0;
        bool fin = A.kind == 0 && Y.kind == 0, dz = fin && k == 3 && Y.zero();
        const bool giant = fin && k == 2 && A.m.size() + Y.m.size() > 4300;   // judged by residues, exactly computing it would take too long
        Val E; int Esign = 2;                                       // 2: any sign
        if (giant) { if (!A.zero() && !Y.zero()) Esign = E.neg = A.neg != Y.neg; }
        else if (fin && !dz) {
            E = k == 0 ? vadd(A, Y, B) : k == 1 ? vsub(A, Y, B) : k == 2 ? vmul(A, Y, B) : vdiv(A, Y, B);
            if (!E.zero()) Esign = E.neg;
        }
        judge_exception(vt | (fin ? 0 : P(12)));
        if (clean_others) others(pre, o.d, -1, 0);
        range(o.d);
        const Rep& r = sh[o.d]; Val V = value_of(r);
        std::string ctx = vstr(A, B) + " " + OP_NAMES[o.kind] + " " + vstr(Y, B) + " gave " + rstr(r);
        if (outcome == OK) {
            if (fin && !dz) {
                if (giant) {
                    std::string why; u64 n = A.m.size() + Y.m.size();
                    if (V.kind != 0) why = "not finite"; else if (A.zero() || Y.zero()) why = V.zero() ? "" : "not zero";
                    else if (V.neg != E.neg) why = "wrong sign"; else if (V.m.size() != n && V.m.size() + 1 != n) why = "wrong length " + std::to_string(V.m.size());
                    else for (u64 q : {(1ull << 61) - 1, (1ull << 62) - 57}) if (mmod(V.m, B, q) != (u64)((unsigned __int128)mmod(A.m, B, q) * mmod(Y.m, B, q) % q)) why = "wrong residue modulo " + std::to_string(q);
                    if (!why.empty()) fail(vt | retry, "wrong result", "product of " + std::to_string(A.m.size()) + " and " + std::to_string(Y.m.size()) + " digits: " + why);
                    rare(32);
                } else if (V != E) fail(vt | retry | (fired ? P(6) : 0) | (fin ? 0 : P(12)), "wrong result", ctx + ", exact " + vstr(E, B));
                if (!padded(x) && !padded(y) && padded(r)) fail(P(17), "padded result", ctx);
            } else if (dz) {
                if (V.kind != 1) fail(P(3) | retry, "division by zero not infinite", ctx);
                else if (!A.zero() && V.neg != ((x.desc == 1) != (y.desc == 1))) fail(P(3) | retry, "division by zero has the wrong sign", ctx);
                if (!r.d.empty()) fail(P(3) | P(17), "infinity with digits", ctx);
            } else {
                if (V.kind == 0) fail(P(12), "non-finite became finite", ctx);
                if ((A.kind == 2 || Y.kind == 2) && V.kind != 2) fail(P(12), "NaN lost", ctx);
                if (A.kind != 2 && Y.kind != 2 && (A.kind != 1 || Y.kind != 1)) {
                    bool neg; bool want = true;
                    if (k == 0) neg = A.kind == 1 ? A.neg : Y.neg;
                    else if (k == 1) neg = A.kind == 1 ? A.neg : !Y.neg;
                    else if (k == 2) { neg = A.neg != Y.neg; want = !(A.zero() || Y.zero()); }
                    else { neg = A.neg != Y.neg; want = A.kind == 1 && !Y.zero(); }
                    if (want && (V.kind != 1 || V.neg != neg)) fail(P(12), "infinity of wrong kind or sign", ctx + ", expected " + (neg ? "-INF" : "+INF"));
                }
                if (!r.d.empty() && V.kind != 0) fail(P(17) | P(12), "non-finite result holds digits", ctx);
            }
        } else {
            if (comp) {
                if (fin) {
                    if (r.desc != 3 && r.desc != 4) fail(P(5), "target not infinite after failure", ctx);
                    else if (!r.d.empty()) fail(P(5) | P(17), "failed target holds digits", ctx);
                    else if (Esign != 2 && (r.desc == 4) != (Esign == 1)) fail(P(5), "failed target has wrong sign", ctx + ", exact result " + vstr(E, B));
                } else if (V.kind == 0) fail(P(12), "non-finite became finite", ctx);
                if (active(P(5))) flags(o.d, "after failure");
            } else if (!m->is_deque() && pre[o.d] != r) fail(P(7), "failed binary operation changed the receiving variable", "was " + rstr(pre[o.d]) + " now " + rstr(r));
        }
        if (fin) {
            if (A.zero() || Y.zero()) rare(0);
            if (dz) rare(1);
            if (k == 3 && !dz && A.m == Y.m && !A.zero()) rare(2);
            if (comp ? o.a == o.d : (o.d == o.a || o.d == o.b)) rare(3);
            if (!comp && o.a == o.b) rare(4);
            if (padded(x) || padded(y)) rare(5);
            if ((x.desc == 1 && A.zero()) || (y.desc == 1 && Y.zero())) rare(6);
            if (k < 2 && E.zero() && !A.zero()) rare(9);
            if (k < 2 && E.m.size() > std::max(A.m.size(), Y.m.size())) rare(10);
            if (k < 2 && E.m.size() < std::max(A.m.size(), Y.m.size())) rare(11);
            if (k == 3 && E.m.size() > 2) rare(12);
            if (A.m.size() >= 64 && Y.m.size() >= 64) rare(13);
            if (outcome == THROWN && comp && A.m.size() < Y.m.size()) rare(14);
            if (k == 2 && E.m.size() > 3 && A.m.size() + Y.m.size() == E.m.size()) rare(28);
        } else { if (A.kind == 1 || Y.kind == 1) rare(7); if (A.kind == 2 || Y.kind == 2) rare(8); }
    }

    // ---- single attempt of a mutating operation, then its checks ---------------------------
    void expect_edit(const Op& o, const Rep& pre, Rep& e) {
        e = pre;
        u64 n = pre.d.size();
        switch (o.kind) {
            case SETDESC: e.desc = o.desc; if (o.desc >= 2) e.d.clear(); break;
            case PUSHB: e.d.push_back(o.dig % B); break;
            case PUSHF: e.d.insert(e.d.begin(), o.dig % B); break;
            case PUSHAT: e.d.insert(e.d.begin() + o.pos % (n + 1), o.dig % B); break;
            case POPB: e.d.pop_back(); break;
            case POPF: e.d.erase(e.d.begin()); break;
            case POPAT: e.d.erase(e.d.begin() + o.pos % n); break;
            case RESIZE: e.d.resize(o.pos, o.b ? 0 : o.dig % B); break;
            case CLEAR: e.desc = 0; e.d.clear(); break;
            case POKE: e.d[o.pos % n] = o.dig % B; break;
            case DEFCTOR: e = Rep(); break;
        }
    }
    void once(const Op& o0, const AllocFault& f, const std::vector<Rep>& pre) {
        Op o = o0; o.dig %= B;
        u64 n = pre[o.d].d.size();
        switch (o.kind) { case PUSHAT: o.pos %= n + 1; break; case POPAT: case POKE: o.pos %= n; break; default: break; }
        for (auto& x : o.digits) x %= B;
        u64 na = o.kind <= DIVEQ ? n : pre[o.a].d.size(), nb = o.kind <= DIVEQ ? pre[o.a].d.size() : o.kind <= DIV ? pre[o.b].d.size() : o.kind == LIT ? o.digits.size() : n;
        u64 nq = 0;                                    // digits the quotient can have
        if (o.kind == DIVEQ || o.kind == DIV) { u64 sa = sig(o.kind == DIVEQ ? pre[o.d] : pre[o.a]), sb = sig(o.kind == DIVEQ ? pre[o.a] : pre[o.b]); nq = sa > sb ? sa - sb : 0; }
        m->ref_ok = true;
        attempt(o, f, limit(o, na, nb, nq), [&] { m->run(o); });
        memory(o, na, nb, nq);
        snap();
        for (int i = 0; i < p.regs; ++i) if (!moved[i]) range(i);
        if (outcome == THROWN) wasfailed[o.d] = 1; else if (wasfailed[o.d]) { wasfailed[o.d] = 0; rare(15); }
        if (!m->ref_ok) fail(o.kind <= DIV ? val_tag(o.kind) : P(8), "assignment returned something else than its target", OP_NAMES[o.kind]);
        if (o.kind <= DIV) { check_arith(o, pre); }
        else switch (o.kind) {
            case COPY: case CCTOR:
                judge_exception(P(8));
                others(pre, o.d, -1, 0);
                if (o.a != o.d && pre[o.a] != sh[o.a]) fail(P(8) | P(7), "copy changed its source", rstr(pre[o.a]) + " now " + rstr(sh[o.a]));
                if (outcome == OK) { if (sh[o.d] != pre[o.a]) fail(P(8) | (o.retry ? P(11) : 0) | (fired ? P(6) : 0), "copy differs from source", "source " + rstr(pre[o.a]) + " copy " + rstr(sh[o.d])); }
                else if (!m->is_deque() && sh[o.d] != pre[o.d]) fail(P(8) | (o.kind == CCTOR ? P(7) : 0), "failed copy changed its target", "was " + rstr(pre[o.d]) + " now " + rstr(sh[o.d]));
                if (o.a == o.d) rare(30);
                break;
            case MOVE: case MCTOR:
                if (outcome == THROWN) { if (!m->is_deque()) fail(P(8) | P(6), "move failed", etype); break; }
                if (sh[o.d] != pre[o.a]) fail(P(8) | (o.retry ? P(11) : 0), "move lost or changed the number", "source " + rstr(pre[o.a]) + " result " + rstr(sh[o.d]));
                others(pre, o.d, o.a, 0);
                moved[o.a] = 1;
                if (f.mode) rare(26);
                break;
            case SWAP:
                if (outcome == THROWN) { if (!m->is_deque()) fail(P(8) | P(6), "exchange failed", etype); break; }
                if (sh[o.d] != pre[o.a] || sh[o.a] != pre[o.d]) fail(P(8), "exchange lost or changed a number", rstr(pre[o.d]) + " and " + rstr(pre[o.a]) + " became " + rstr(sh[o.d]) + " and " + rstr(sh[o.a]));
                others(pre, o.d, o.a, 0);
                break;
            case LIT: {
                judge_exception(P(9));
                others(pre, o.d, -1, 0);
                if (outcome == OK) {
                    Rep a, b; a.desc = b.desc = o.desc; a.d.assign(o.digits.rbegin(), o.digits.rend()); b.d = a.d; mtrim(b.d);
                    if (sh[o.d] != a && sh[o.d] != b) fail(P(9) | (o.retry ? P(11) : 0) | (fired ? P(6) : 0), "number built from a digit list is wrong", "list " + rstr(a) + " number " + rstr(sh[o.d]));
                } else if (!m->is_deque() && sh[o.d] != pre[o.d]) fail(P(9) | P(7), "failed construction had an effect", "was " + rstr(pre[o.d]) + " now " + rstr(sh[o.d]));
                break;
            }
            default: {                                              // digit edits
                judge_exception(P(9));
                others(pre, o.d, -1, P(9));
                Rep e; expect_edit(o, pre[o.d], e);
                if (outcome == OK) { if (sh[o.d] != e) fail(P(9) | (o.retry ? P(11) : 0) | (fired ? P(6) : 0), "edit result wrong", std::string(OP_NAMES[o.kind]) + " on " + rstr(pre[o.d]) + " gave " + rstr(sh[o.d]) + " expected " + rstr(e)); }
                else if (!m->is_deque() && sh[o.d] != pre[o.d]) fail(P(9), "failed edit changed the number", std::string(OP_NAMES[o.kind]) + " on " + rstr(pre[o.d]) + " left " + rstr(sh[o.d]));
                if (o.kind == SETDESC && active(P(9))) flags(o.d, "after set");
            }
        }
        log(sh[o.d]);
    }
    void put_back(const std::vector<Rep>& saved, const Op& o) {
        int how = o.restore % 5;
        if (how == 4 && (saved[o.d].desc >= 2 || padded(saved[o.d]) || value_of(saved[o.d]).zero() || saved[o.d].d.size() == 0)) how = 3;
        AllocFault nf; Op q; q.kind = COPY; q.d = o.d;
        attempt(q, nf, 0, [&] { m->restore(o.d, saved[o.d], how); });
        m->get(o.d, sh[o.d]);
        if (outcome == THROWN || sh[o.d] != saved[o.d]) fail(P(11) | P(8) | P(5), "a failed number cannot be restored", "wanted " + rstr(saved[o.d]) + " got " + rstr(sh[o.d]));
        others(saved, o.d, -1, P(11));
    }
    // operations entered at every allocation of operations swept over all of theirs multiply: a run ends after a number of steps
    bool spent() const { return prop == 23 && g_seam.total_steps - g_steps0 > 250000000; }
    bool skip(const Op& o) {
        if (spent()) return true;
        auto src = [&](int i) { return moved[i] != 0; };
        switch (o.kind) {
            case ADDEQ: case SUBEQ: case MULEQ: case DIVEQ: if (src(o.d) || src(o.a)) return true; return too_big(o, sh[o.d], sh[o.a]);
            case ADD: case SUB: case MUL: case DIV: if (src(o.a) || src(o.b)) return true; return too_big(o, sh[o.a], sh[o.b]);
            case LIT: return o.desc >= 2;
            case COPY: case CCTOR: return src(o.a);
            case MOVE: case MCTOR: return src(o.a) || o.a == o.d;
            case SWAP: return src(o.a) || src(o.d);
            case DEFCTOR: case CLEAR: return false;
            case SETDESC: return src(o.d);
            case PUSHB: case PUSHF: case PUSHAT: return src(o.d) || sh[o.d].desc >= 2 || sh[o.d].d.size() > 20000;
            case RESIZE: return src(o.d) || sh[o.d].desc >= 2 || o.pos > 20000;
            case POPB: case POPF: case POPAT: case POKE: return src(o.d) || sh[o.d].desc >= 2 || sh[o.d].d.empty();
            case CMP: return src(o.a) || src(o.b);
            case PRINT: case IDXR: case IDXW: return src(o.a);
            default: return false;
        }
    }
    void mutate(const Op& o) {
        std::vector<Rep> saved = sh;
        bool was_moved = moved[o.d];
        if (o.sweep && o.kind != MOVE && o.kind != MCTOR && o.kind != SWAP && !nofault) {
            int exc = o.f.empty() ? 1 : o.f[0].exc;
            std::vector<Rep> pre = sh;
            for (u64 k = 1, tries = 0;; k += k < 24 ? 1 : k / 6, ++tries) {
                AllocFault f; f.mode = o.sweep == 2 ? 'f' : 'n'; f.k = k; f.exc = exc;
                if (tries > 60 || spent()) f.mode = 0;
                once(o, f, pre);
                bool was_ok = outcome == OK, was_fired = fired != 0;
                if (was_ok && !was_fired) { rare(24); break; }
                if (tries > 61) break;
                if (!was_moved) { put_back(pre, o); snap(); }
            }
            moved[o.d] = 0; return;
        }
        if (o.retry && !nofault) {
            for (size_t i = 0; i <= o.f.size(); ++i) {
                AllocFault f; if (i < o.f.size()) f = o.f[i];
                once(o, f, saved);
                if (outcome == OK) { if (i) rare(16); moved[o.d] = 0; return; }
                if (!was_moved) { put_back(saved, o); snap(); }
            }
            return;                                                 // a spurious failure was already judged
        }
        AllocFault f; if (!o.f.empty()) f = o.f[0];
        once(o, f, saved);
        if (outcome == OK || !was_moved) { if (was_moved) rare(31); moved[o.d] = 0; }
    }

    // ---- a long past: the same call many times, on the same numbers, some of them failing -----
    struct Redirect {
        struct One {
            std::ostream& s; std::streambuf* b; std::ios_base::iostate st, mask;
            One(std::ostream& o, std::streambuf* n) : s(o), st(o.rdstate()), mask(o.exceptions()) { s.exceptions(std::ios_base::goodbit); b = s.rdbuf(n); s.clear(); }
            ~One() { s.exceptions(std::ios_base::goodbit); s.rdbuf(b); s.clear(st); try { s.exceptions(mask); } catch (...) {} }
        } e, c;
        Redirect(std::streambuf* ne, std::streambuf* nc) : e(std::cerr, ne), c(std::cout, nc) {}
    };
    // how the client set up the streams that take diagnostics
    struct Settings {
        std::ios_base::fmtflags f[2]; char c[2]; std::ios_base::iostate m[2]; std::streamsize w[2];
        Settings() { std::ostream* s[2] = {&std::cerr, &std::cout}; for (int i = 0; i < 2; ++i) { f[i] = s[i]->flags(); c[i] = s[i]->fill(); m[i] = s[i]->exceptions(); w[i] = s[i]->precision(); } }
        bool operator==(const Settings& o) const { for (int i = 0; i < 2; ++i) if (f[i] != o.f[i] || c[i] != o.c[i] || m[i] != o.m[i] || w[i] != o.w[i]) return false; return true; }
    };
    static void raise_check(const Op& o) {                      // armed
        static const bn_error_t severity[3] = {bn_error_t::BN_ALERT, bn_error_t::BN_WARNING, bn_error_t::BN_ERROR};
        const bool cond = o.b & 1;
        ArmGuard g;
        if (o.d & 1) { switch (o.desc % 3) { case 0: BN_ALERT(cond); break; case 1: BN_WARN(cond); break; default: BN_ASSERT(cond); } }
        else bn_runtime_assert(cond, severity[o.desc % 3], "simulated check");
    }
    void rehearse(const Op& o) {
        static const bool TARGET[NOPKINDS] = {1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1};
        const bool target = TARGET[o.kind];
        if (!target && o.kind != CMP && o.kind != PRINT && o.kind != IDXR && o.kind != IDXW && o.kind != DIAG) return;
        const std::vector<Rep> pre = sh;
        u64 na = pre[o.d].d.size() + pre[o.a].d.size() + pre[o.b % p.regs].d.size() + o.digits.size() + (o.kind == RESIZE ? o.pos : 0) + 4, cost = na;
        if (o.kind == MUL || o.kind == MULEQ) cost = na * (m->tight() ? 16 * na : 200);
        if (o.kind == DIV || o.kind == DIVEQ) cost = na * na * (u64)(bits(B) + 1) * (m->tight() ? 8 : 2);
        const u64 n = std::min<u64>(o.rep, 20000000 / cost), span = pre[o.a].d.size();
        if (g_stats && n > 60000) rare(36);
        u64 threw = 0; StreamFault quiet; Op q = o; q.dig %= B; for (auto& x : q.digits) x %= B;
        { u64 k = pre[o.d].d.size(); switch (o.kind) { case PUSHAT: q.pos %= k + 1; break; case POPAT: case POKE: q.pos %= k; break; default: break; } }
        const u64 pos = o.b == 2 ? (o.pos < span ? o.pos + span : o.pos) : o.b ? (o.pos > ~0ull - span ? ~0ull : span + o.pos) : span ? o.pos % span : 0;
        if ((o.kind == IDXR || o.kind == IDXW) && !o.b && !span) return;
        struct Answer { bool threw = false; std::string text; Rep rep; Val val; } first; bool have = false;
        const unsigned tags = o.kind <= DIV ? val_tag(o.kind) | P(11) : o.kind == COPY || o.kind == CCTOR ? P(8) | P(11) : o.kind == CMP ? P(4) : o.kind == PRINT ? P(14) : o.kind == IDXR || o.kind == IDXW || o.kind == DIAG ? P(15) : P(9);
        for (u64 k = 0; k < n; ++k) {
            if (k && target) m->put(o.d, pre[o.d]);
            Answer now;
            AllocFault f; if (!nofault && !o.f.empty() && o.f[0].mode && mix64(k + o.pos) % 10 < 4) f = o.f[0];
            OutDev dev(quiet), dev2(quiet); std::ostream os(&dev); os.imbue(std::locale::classic()); CmpOut c; std::memset(&c, 0, sizeof c);
            seam_prepare(f, 0);
            try {
                if (o.kind == CMP) m->cmp(o.a, o.b, c);
                else if (o.kind == PRINT) m->print(o.a, os);
                else if (o.kind == IDXR || o.kind == IDXW) { Redirect rd(&dev, &dev2); if (o.kind == IDXR) m->idx_read(o.a, pos, 0); else { Rep none; m->idx_write(o.a, pos, pre[o.a].d.empty() || o.b ? q.dig : pre[o.a].d[pos], 0, o.a, none); } }
                else if (o.kind == DIAG) { Redirect rd(&dev, &dev2); raise_check(o); }
                else m->run(q);
            } catch (...) { ++threw; now.threw = true; }
            g_seam.armed = false;
            if (g_seam.fired) continue;
            // the same call with nothing in its way gives the same answer every time
            if (o.kind == CMP) now.text.assign((const char*)&c, sizeof c); else if (o.kind == PRINT) { os.flush(); now.text = dev.got; } else if (o.kind == DIAG || o.kind == IDXR || o.kind == IDXW) now.text = dev.got + dev2.got; else if (target) { m->get(o.d, now.rep); if (o.kind <= DIV) now.val = value_of(now.rep); }
            if (!have) { first = now; have = true; continue; }
            if (now.threw != first.threw || now.text != first.text || (o.kind <= DIV ? now.val != first.val : now.rep != first.rep))
                fail(tags, "the same call on the same numbers gives another answer", "repetition " + std::to_string(k) + " of " + op_text(o) + ": " + (now.threw ? "threw " : "") + rstr(now.rep) + " '" + esc(o.kind == CMP ? "" : now.text) + "', at first " + (first.threw ? "threw " : "") + rstr(first.rep) + " '" + esc(o.kind == CMP ? "" : first.text) + "'");
        }
        AllocFault nf; seam_prepare(nf, 0);
        if (target) m->put(o.d, pre[o.d]);
        snap(); log(threw);
        if (!moved[o.d] && target && sh[o.d] != pre[o.d]) fail(P(8) | P(11) | P(7), "a number cannot be restored any more", "was " + rstr(pre[o.d]) + " now " + rstr(sh[o.d]));
        others(pre, o.d, -1, 0);
    }

    // ---- comparisons ------------------------------------------------------------------------
    void compare(const Op& o) {
        CmpOut c; std::memset(&c, 0, sizeof c);
        AllocFault f; if (!o.f.empty()) f = o.f[0];
        std::vector<Rep> pre = sh;
        attempt(o, f, limit(o, sh[o.a].d.size(), sh[o.b].d.size()) * 8, [&] { m->cmp(o.a, o.b, c); });
        memory(o, sh[o.a].d.size(), sh[o.b].d.size(), 0);
        snap();
        others(pre, -1, -1, P(4));
        if (outcome == THROWN) { fail(P(4), "comparison failed", etype); judge_exception(P(4)); return; }
        Val x = value_of(pre[o.a]), y = value_of(pre[o.b]);
        if (x.kind == 2 || y.kind == 2) return;
        int s = vcmp(x, y);
        if (f.mode) rare(25);
        if (s == 0 && pre[o.a] != pre[o.b]) rare(27);
        bool ok = c.eq == (s == 0) && c.ne == (s != 0) && c.lt == (s < 0) && c.le == (s <= 0) && c.gt == (s > 0) && c.ge == (s >= 0);
        log(c.eq | c.ne << 1 | c.lt << 2 | c.le << 3 | c.gt << 4 | c.ge << 5);
        if (!ok) { std::ostringstream d; d << rstr(pre[o.a]) << " vs " << rstr(pre[o.b]) << ": ==" << c.eq << " !=" << c.ne << " <" << c.lt << " <=" << c.le << " >" << c.gt << " >=" << c.ge << ", true order " << s;
            fail(P(4), "comparison wrong", d.str()); }
        if (active(P(4))) flags(o.a, "compared");
    }

    // ---- printing ---------------------------------------------------------------------------
    std::string text_of(const Rep& r) {
        if (r.desc == 2) return "NaN"; if (r.desc == 3) return "+INF"; if (r.desc == 4) return "-INF";
        std::string s = r.desc == 1 ? "-" : "";
        if (r.d.empty()) return s + "0";
        for (size_t i = r.d.size(); i-- > 0;) { if (m->digit_bytes() == 1) s += (char)(unsigned char)r.d[i]; else s += std::to_string(r.d[i]); }
        return s;
    }
    static std::string esc(const std::string& s) { std::string o; char b[8]; for (unsigned char c : s) { if (c >= 32 && c < 127) o += (char)c; else { snprintf(b, 8, "\\x%02x", c); o += b; } if (o.size() > 400) { o += "..."; break; } } return o; }
    void print(const Op& o) {
        std::vector<Rep> pre = sh;
        std::string full = text_of(pre[o.a]);
        // the client's formatting settings, also in force for the text a healthy device gets
        auto format = [&](std::ostream& s) {
            if (!o.how) return;
            static const std::ios_base::fmtflags BASE[4] = {std::ios_base::dec, std::ios_base::hex, std::ios_base::oct, std::ios_base::hex};
            s.setf(BASE[o.how & 3], std::ios_base::basefield);
            if (o.how & 4) s.setf(std::ios_base::showbase); if (o.how & 8) s.setf(std::ios_base::uppercase); if (o.how & 16) s.setf(std::ios_base::showpos);
            static const int WIDTH[4] = {0, 2, 9, 40};
            if (o.how >> 5 & 3) { s.width(WIDTH[o.how >> 5 & 3]); s.fill(o.how & 128 ? '*' : ' '); s.setf(o.how & 128 ? std::ios_base::left : std::ios_base::internal, std::ios_base::adjustfield); }
        };
        if (o.how) {
            OutDev calm{StreamFault()}; std::ostream cs(&calm); cs.imbue(std::locale::classic()); format(cs); AllocFault nf;
            attempt(o, nf, 30000 + 4000 * full.size(), [&] { m->print(o.a, cs); });
            if (outcome == THROWN || !cs.good()) fail(P(14), "failure reported on a healthy device", "number " + rstr(pre[o.a]) + " with formatting " + std::to_string(o.how));
            full = calm.got;
        }
        OutDev dev(o.sf); if (nofault) dev.f.mode = 0;
        std::ostream os(&dev); os.imbue(std::locale::classic());
        format(os);
        std::ios_base::iostate mask = std::ios_base::goodbit;
        if (o.sf.exmask & 1) mask |= std::ios_base::badbit;
        if (o.sf.exmask & 2) mask |= std::ios_base::failbit;
        if (o.sf.exmask & 4) mask |= std::ios_base::eofbit;
        os.exceptions(mask);
        bool prefailed = o.sf.mode == 5;
        static const std::ios_base::iostate PRE[3] = {std::ios_base::badbit, std::ios_base::failbit, std::ios_base::eofbit};
        if (prefailed) { try { os.setstate(PRE[o.sf.n % 3]); } catch (...) {} }
        if ((o.sf.exmask & 8) && (!o.sf.chunk || (!mask && o.sf.mode < 3)) && prop != 22) os.setf(std::ios_base::unitbuf);
        const std::ios_base::fmtflags flags = os.flags(); const char fillc = os.fill(); const std::streamsize prec = os.precision();
        AllocFault f; if (!o.f.empty()) f = o.f[0];
        attempt(o, f, 30000 + 4000 * full.size(), [&] { m->print(o.a, os); });
        bool threw = outcome == THROWN; bool was_fault = fired != 0;
        if (!threw) { try { os.flush(); } catch (...) { threw = true; } }
        snap();
        if (pre[o.a] != sh[o.a]) fail(P(14) | P(7), "printing changed the number", rstr(pre[o.a]) + " now " + rstr(sh[o.a]));
        others(pre, o.a, -1, P(14));
        if (g_stats && (dev.fired || prefailed)) bump(g_stats->stream_faults[o.sf.mode], prefailed ? 1 : dev.fired);
        if (dev.fired && dev.got.size() == 0) rare(20);
        if (dev.fired && !dev.got.empty() && m->digit_bytes() > 1) rare(19);
        std::string ctx = "number " + rstr(pre[o.a]) + " text '" + esc(full) + "' device took '" + esc(dev.got) + "'";
        log(dev.got.size()); log(threw); log(os.rdstate()); for (unsigned char c : dev.got) log(c);
        if (full.compare(0, dev.got.size(), dev.got) != 0 || dev.got.size() > full.size()) fail(P(14), "device received something that is not a prefix of the text", ctx);
        bool reported = threw || !os.good();
        if (!reported && dev.got != full) fail(P(14), "success reported but the text is incomplete", ctx);
        if (!threw && !prefailed && (os.rdstate() & mask)) fail(P(14), "the exception the stream was asked for did not reach the client", ctx);
        if (os.exceptions() != mask) fail(P(14), "printing changed the stream's exception mask", ctx);
        if (os.flags() != flags || os.fill() != fillc || os.precision() != prec) fail(P(14), "printing changed the stream's formatting settings", ctx);
        if (!prefailed && !dev.fired && !was_fault && reported) fail(P(14), "failure reported on a healthy device", ctx);
        // the device recovers and the client tries again
        os.exceptions(std::ios_base::goodbit);
        try { os.clear(); } catch (...) {}
        dev.heal();
        format(os);
        AllocFault nf;
        attempt(o, nf, 30000 + 4000 * full.size(), [&] { m->print(o.a, os); });
        threw = outcome == THROWN;
        if (!threw) os.flush();
        if (dev.fired) rare(29);
        if (threw || !os.good() || dev.got != full) fail(P(14), "recovered device did not receive the full text", "number " + rstr(pre[o.a]) + " text '" + esc(full) + "' device took '" + esc(dev.got) + "'");
        snap();
        others(pre, -1, -1, P(14));
    }

    // ---- guarded access ---------------------------------------------------------------------
    void set_masks(const Op& o) {
        std::ios_base::iostate mask = std::ios_base::goodbit;
        if (o.sf.exmask & 1) mask |= std::ios_base::badbit;
        if (o.sf.exmask & 2) mask |= std::ios_base::failbit;
        std::cerr.exceptions(mask); std::cout.exceptions(mask);
    }
    void index(const Op& o) {
        std::vector<Rep> pre = sh; const Rep& r = pre[o.a]; u64 n = r.d.size();
        bool oob = o.b != 0;
        if (!oob && n == 0) { if (g_stats) bump(g_stats->skipped); return; }
        u64 pos = o.b == 2 ? (o.pos < n ? o.pos + n : o.pos) : oob ? (o.pos > ~0ull - n ? ~0ull : n + o.pos) : o.pos % n;
        // std::cerr is unit-buffered: libstdc++ syncs it inside a noexcept destructor, so only its writes may fail
        StreamFault ef = o.sf; ef.chunk = 0;
        OutDev dev(ef), dev2(o.sf); if (nofault) dev.f.mode = dev2.f.mode = 0;
        AllocFault f; if (!o.f.empty()) f = o.f[0];
        u64 got = 0; std::string text; Rep kept; bool changed = false;
        // a reference may be held while the number is used, as long as the uses are cheap
        const int held = o.how > 0 && !oob && !moved[o.d] && (o.how < 7 || n + sh[o.d].d.size() < 400) ? o.how : 0;
        {
            Redirect rd(&dev, &dev2); set_masks(o); const Settings before;
            attempt(o, f, held ? 0 : 60000, [&] { if (o.kind == IDXR) got = m->idx_read(o.a, pos, o.how); else m->idx_write(o.a, pos, o.dig % B, held, o.d, kept); });
            if (!(Settings() == before)) changed = true;
        }
        text = dev.got + dev2.got;
        snap();
        if (g_stats && (dev.fired || dev2.fired)) bump(g_stats->stream_faults[o.sf.mode]);
        others(pre, o.a, -1, P(15));
        std::string ctx = std::string(OP_NAMES[o.kind]) + " position " + std::to_string(pos) + " of " + rstr(r);
        log(outcome); log(got);
        if (changed) fail(P(15), "a digit access changed the settings of the diagnostic streams", ctx);
        if (oob) {
            if (o.pos == 0) rare(22); if (pos > ~0ull - 8) rare(23);
            if (outcome == OK) fail(P(15), "out-of-range access got through", ctx);
            if (sh[o.a] != r) fail(P(15), "out-of-range access changed the number", ctx + " now " + rstr(sh[o.a]));
        } else {
            if (outcome == THROWN && held && efault && fired) { if (sh[o.a] != r) fail(P(15) | P(9) | P(7), "a use that failed changed the number", ctx + " now " + rstr(sh[o.a])); return; }
            if (outcome == THROWN) { fail(P(15), "in-range access refused", ctx + " " + etype); return; }
            Rep e = r; if (o.kind == IDXW) e.d[pos] = o.dig % B; else if (got != r.d[pos]) fail(P(15), "wrong digit", ctx + " gave " + std::to_string(got));
            if (sh[o.a] != e) fail(P(15) | P(9), "digit access had the wrong effect", ctx + " now " + rstr(sh[o.a]));
            if ((held == 3 || held == 4) && o.kind == IDXW && kept != r) fail(P(7) | P(9) | P(8) | P(15), "a copy changed with its original", ctx + " held while it was copied; the copy is " + rstr(kept));
            if (!text.empty()) fail(P(15), "diagnostic printed for a check that holds", ctx + " '" + esc(text) + "'");
            if (held && o.kind == IDXW) {                            // what was looked at while the reference was held must not be remembered
                OutDev out{StreamFault()}; std::ostream os(&out); os.imbue(std::locale::classic()); CmpOut c; std::memset(&c, 0, sizeof c); AllocFault nf;
                const std::string want = text_of(sh[o.a]);
                attempt(o, nf, 0, [&] { m->print(o.a, os); }); os.flush();
                if (outcome == THROWN || out.got != want) fail(P(14) | P(9) | P(15), "the text does not follow a digit written through a reference", ctx + " prints '" + esc(out.got) + "' instead of '" + esc(want) + "'");
                attempt(o, nf, 0, [&] { m->cmp(o.a, o.d, c); });
                const Val x = value_of(sh[o.a]), y = value_of(sh[o.d]); const int s = y.kind == 2 ? 2 : vcmp(x, y);
                if (outcome == THROWN || (s != 2 && (c.eq != (s == 0) || c.ne != (s != 0) || c.lt != (s < 0) || c.le != (s <= 0) || c.gt != (s > 0) || c.ge != (s >= 0))))
                    fail(P(4) | P(9) | P(15), "the order does not follow a digit written through a reference", ctx + " compared with " + rstr(sh[o.d]));
            }
        }
    }
    void diag(const Op& o) {
        StreamFault ef = o.sf; ef.chunk = 0;
        OutDev dev(ef), dev2(o.sf); if (nofault) dev.f.mode = dev2.f.mode = 0;
        std::vector<Rep> pre = sh;
        const char* msg = o.d & 1 ? "(cond)" : "simulated check"; bool cond = o.b & 1;
        AllocFault f; if (!o.f.empty()) f = o.f[0]; bool changed = false;
        {
            Redirect rd(&dev, &dev2);
            const Settings before;
            attempt(o, f, 60000, [&] { raise_check(o); });
            changed = !(Settings() == before);
            std::cout.flush(); std::cerr.flush();
        }
        std::string text = dev.got + dev2.got;
        if (g_stats && (dev.fired || dev2.fired)) bump(g_stats->stream_faults[o.sf.mode]);
        log(outcome); log(text.size()); for (unsigned char c : text) log(c);
        bool err = o.desc % 3 == 2;
        std::string ctx = std::string("severity ") + std::to_string(o.desc % 3) + " condition " + (cond ? "true" : "false") + " printed '" + esc(text) + "'";
        if (changed) fail(P(15), "a check changed the settings of the diagnostic streams", ctx);
        if (cond) {
            if (outcome == THROWN) fail(P(15), "a check that holds raised an error", ctx);
            if (!text.empty()) fail(P(15), "a check that holds printed something", ctx);
        } else {
            if (err && outcome == OK) fail(P(15), "a failed check raised no error", ctx);
            if (!err && outcome == THROWN) fail(P(15), "a lesser failed check stopped the caller", ctx + " " + etype);
            if (!dev.fired && !dev2.fired) {
                size_t a = text.find(msg);
                if (a == std::string::npos || text.find(msg, a + 1) != std::string::npos || std::count(text.begin(), text.end(), '\n') > 1) fail(P(15), "a failed check did not print one diagnostic", ctx);
            }
        }
        snap(); others(pre, -1, -1, P(15));
    }

    // ---- digit input ------------------------------------------------------------------------
    void digin(const Op& o) {
        if (!m->digit_class() || m->digit_bytes() == 1) { if (g_stats) bump(g_stats->skipped); return; }
        std::string text; Rng fmt(o.pos); const u64 top = m->digit_bytes() >= 8 ? ~0ull : (1ull << 8 * m->digit_bytes()) - 1;
        static const char WS[] = {' ', '\n', '\t'};
        const u64 radix = o.how % 4 == 1 || o.how % 4 == 3 ? 16 : o.how % 4 == 2 ? 8 : 10;      // as the client set its stream
        auto base = [&](std::ios_base& s) { if (o.how % 4) s.setf(radix == 16 ? std::ios_base::hex : std::ios_base::oct, std::ios_base::basefield); if (o.how % 4 == 3) s.setf(std::ios_base::uppercase); };
        auto spell = [&](u64 x) { std::ostringstream s; s.imbue(std::locale::classic()); base(s); s << x; return s.str(); };
        auto space = [&](u64 n) { while (n--) text += o.pos ? WS[fmt.below(3)] : ' '; };
        if (o.pos && fmt.pct(30)) space(fmt.range(1, 2));
        for (size_t i = 0; i < o.digits.size(); ++i) {
            u64 v = o.digits[i] % B;
            if (i) { if (o.pos && fmt.pct(8)) text += radix == 16 ? ",;y."[fmt.below(4)] : ",;x."[fmt.below(4)]; space(o.pos && fmt.pct(30) ? fmt.range(1, 3) : 1); }
            // written by the library's own output operator
            std::ostringstream w; AllocFault nf; Op q; q.kind = PRINT;
            base(w);
            attempt(q, nf, 60000, [&] { m->digit_print(v, w); });
            if (w.str() != spell(v)) fail(P(18) | P(14), "digit text form wrong", spell(v) + " printed '" + esc(w.str()) + "'");
            if (o.pos && fmt.pct(8)) text += std::string(fmt.range(1, 4), '0');
            if (o.pos && fmt.pct(6) && top < ~0ull / 1000) v += (top - v + 1) + (fmt.pct(50) ? 0 : fmt.pct(50) ? fmt.below(top) : top * fmt.below(100));   // no digit can hold it
            text += spell(v);
        }
        auto isws = [](char c) { return c == ' ' || c == '\n' || c == '\t'; };
        auto val = [&](char c) -> u64 { return c >= '0' && c <= '9' ? (u64)(c - '0') : c >= 'a' && c <= 'f' ? (u64)(c - 'a') + 10 : c >= 'A' && c <= 'F' ? (u64)(c - 'A') + 10 : 99; };
        auto isdg = [&](char c) { return val(c) < radix; };
        InDev dev(o.sf, text); if (nofault) dev.f.mode = 0;
        std::istream is(&dev); is.imbue(std::locale::classic());
        std::ios_base::iostate mask = std::ios_base::goodbit;
        if (o.sf.exmask & 1) mask |= std::ios_base::badbit;
        if (o.sf.exmask & 2) mask |= std::ios_base::failbit;
        is.exceptions(mask); base(is);
        const std::ios_base::fmtflags flags = is.flags();
        AllocFault f; if (!o.f.empty()) f = o.f[0];
        size_t last = ~(size_t)0; int stuck = 0;
        for (u64 reads = 0; reads < o.digits.size() * 2 + 6; ++reads) {
            size_t c0 = dev.consumed(); u64 fired0 = dev.fired;
            size_t bar = dev.barrier(); if (bar < c0) bar = text.size();
            size_t s = c0; while (s < text.size() && isws(text[s])) ++s;
            u64 got = 0;
            attempt(o, reads == 0 ? f : AllocFault(), 60000, [&] { got = m->digit_read(is, o.dig % B); });
            bool threw = outcome == THROWN, failed = threw || is.fail();
            size_t c1 = dev.consumed();
            if (is.flags() != flags || is.exceptions() != mask) fail(P(18), "reading changed the stream's settings", "text '" + esc(text) + "'");
            log(got); log(c1); log(failed);
            bool hit = dev.fired != fired0;
            if (hit && g_stats) bump(g_stats->stream_faults[o.sf.mode]);
            // characters delivered for this digit
            size_t e = s, stop = std::min(bar, text.size()); while (e < stop && isdg(text[e])) ++e;
            bool toobig = false; u64 v = 0; for (size_t i = s; i < e; ++i) { v = v * radix + val(text[i]); if (v > top) toobig = true; if (v > (~0ull >> 8)) v = ~0ull >> 8; }
            std::string ctx = "text '" + esc(text) + "' from byte " + std::to_string(c0) + " delivered '" + (s < e ? text.substr(s, e - s) : "") + "' read " + std::to_string(got) + (failed ? " failed" : " ok");
            if (hit && e > s && e < text.size() && isdg(text[e])) rare(21);
            if (!failed) {
                if (s >= stop || e == s) fail(P(18), "a digit was read where none was delivered", ctx);
                else {
                    if (toobig || v != got) fail(P(18), "wrong digit handed over", ctx + " expected " + std::to_string(v));
                    if (c1 != e) fail(P(18), "reading did not stop where the digit ends", ctx + " stopped at " + std::to_string(c1));
                }
            } else if (!hit && !fired && e > s && !toobig) fail(P(18), "a delivered digit was refused", ctx);
            if (c1 > e && failed && !hit) fail(P(18), "undelivered characters were swallowed", ctx);
            if (failed || is.eof()) {
                if (c1 >= text.size()) break;
                const bool junk = failed && !hit && !isws(text[c1]) && !isdg(text[c1]);   // the client steps over what is no digit
                if (o.b == 0 && !junk && !toobig) break;
                if (o.b == 2) dev.heal();
                is.exceptions(std::ios_base::goodbit); is.clear(); if (junk) { try { is.rdbuf()->sbumpc(); } catch (...) {} } is.exceptions(mask);
                if (c1 == last) { if (++stuck > 2) break; } else stuck = 0;
                last = c1; rare(29);
            }
        }
    }

    // ---- the transform ---------------------------------------------------------------------
    static long double root(u64 k, u64 n, bool sine) { static const long double pi = 3.14159265358979323846264338327950288L; return sine ? sinl(2 * pi * (long double)k / n) : cosl(2 * pi * (long double)k / n); }
    void transform(const Op& o) {
        Rng r(o.dig);
        int op = o.b % 5, flt = o.a % 3;
        u64 n = 1ull << o.pos % 13;
        typedef long double ld;
        std::vector<ld> re, im; std::vector<u64> a, b, want;
        if (op < 3) {
            const int kind = o.desc % 6; const ld M = kind == 4 ? 1099511627776.0L : kind == 3 ? 255 : 65535;
            auto val = [&](u64 i) -> ld { switch (kind) { case 0: return i == 0 ? 1 : 0; case 1: return 1; case 2: return r.pct(10) ? (ld)r.below(1000) : 0; case 5: return (ld)(i % 7) - 3; default: return (ld)r.below((u64)M) - (kind == 4 ? M / 2 : 0); } };
            u64 at = kind == 0 ? r.below(n) : 0;
            for (u64 i = 0; i < n; ++i) { re.push_back(val(kind == 0 ? (i == at ? 0 : 1) : i)); im.push_back(kind == 1 || r.pct(20) ? 0 : val(kind == 0 ? 1 : i + 3)); }
        } else {
            static const char* const OWN[] = {"lowp", "medp", "b2", "b8", "b16"}; u64 base = 10; for (auto s : OWN) if (p.inst == s) base = B;
            if (flt == 1) flt = 0;
            u64 top = (1ull << 44) / ((base - 1) * (base - 1)), tot = std::max<u64>(2, std::min(n, top));
            u64 na = r.pct(30) ? tot / 2 : r.range(1, tot - 1), nb = tot - na;
            while (na * nb > 1 << 17) { na = na * 3 / 4; nb = nb * 3 / 4; }
            na = std::max<u64>(na, 1); nb = std::max<u64>(nb, 1);
            auto fill = [&](std::vector<u64>& v, u64 k) { unsigned how = (unsigned)r.below(4); for (u64 i = 0; i < k; ++i) v.push_back(how == 0 ? base - 1 : how == 1 ? (r.pct(80) ? 0 : r.below(base)) : how == 2 ? (r.pct(50) ? base - 1 : r.below(base)) : r.below(base)); };
            fill(a, na); if (op == 4) b = a; else fill(b, nb);
            if (op == 4 && a.size() * 2 > top) return;
            want.assign(a.size() + b.size(), 0);
            for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) want[i + j] += a[i] * b[j];
            for (u64 w : want) if (w > 1ull << 40) { rare(34); break; }
        }
        u64 size = 1; while (size < std::max<u64>(n, a.size() + b.size())) size *= 2;
        u64 lg = 0; while (size >> lg > 1) ++lg;
        std::vector<AllocFault> fs = o.f; u64 tries = 0; bool failed = false;
        std::string ctx;
        for (u64 k = 1;; k += k < 24 ? 1 : k / 4, ++tries) {
            AllocFault f;
            if (o.sweep) { f.mode = o.sweep == 2 ? 'f' : 'n'; f.k = k; f.exc = fs.empty() ? 1 : fs[0].exc; } else if (tries < fs.size()) f = fs[tries];
            if (tries > 50 || spent()) f.mode = 0;
            std::vector<ld> xr = re, xi = im; bool there = true;
            attempt(o, f, 200000 + 4000 * size * (lg + 2), [&] { there = xform(p.inst, op, flt, xr, xi, a, b); });
            if (!there) return;
            if (outcome == THROWN) {
                if (spurious) fail(P(20) | P(6) | P(16), "failed although nothing went wrong", "transform raised " + etype + " without any failed allocation");
                else if (!efault) fail(P(20) | P(6), "original exception lost", "caller of the transform saw " + etype);
                failed = true; if (tries > 60) break;
                continue;
            }
            if (failed) rare(33);
            if (n >= 1024) rare(35);
            static const char* const N[] = {"transform", "inverse transform", "transform and back", "packed convolution", "packed convolution of equal signals"};
            ctx = std::string(N[op]) + " of " + std::to_string(op < 3 ? n : a.size()) + (op < 3 ? "" : " and " + std::to_string(b.size())) + (flt == 1 ? " floats" : flt == 2 ? " long doubles" : " doubles") + (fired ? ", an allocation failed" : "");
            const unsigned tags = P(20) | (fired ? P(6) : 0);
            auto near = [&](size_t i, ld wr, ld wi, ld tol) {
                if (!(fabsl(xr[i] - wr) <= tol && fabsl(xi[i] - wi) <= tol)) { char t[200]; snprintf(t, sizeof t, ": element %zu is (%.9Lg, %.9Lg), exact (%.9Lg, %.9Lg)", i, xr[i], xi[i], wr, wi); fail(tags, "transform is wrong", ctx + t); }
            };
            if (op < 3) {
                if (xr.size() != n) fail(tags, "transform changed the length of its signal", ctx + " now " + std::to_string(xr.size()));
                ld l1 = 0; for (u64 i = 0; i < n; ++i) l1 += fabsl(re[i]) + fabsl(im[i]);
                ld eps = flt == 1 ? 1e-5L : 1e-12L, tol = op == 0 ? eps * l1 : op == 1 ? eps * l1 / n : eps * l1;
                if (op == 2) { if (xr.size() == n) for (u64 i = 0; i < n; ++i) near(i, re[i], im[i], tol); }
                else if (xr.size() == n) for (u64 c = 0; c < std::min<u64>(n, n <= 32 ? n : 6); ++c) {
                    u64 k2 = n <= 32 ? c : c == 0 ? 0 : c == 1 ? n / 2 : r.below(n); ld wr = 0, wi = 0;
                    for (u64 i = 0; i < n; ++i) { ld cs = root(i * k2 % n, n, false), sn = root(i * k2 % n, n, true); if (op == 0) sn = -sn; wr += re[i] * cs - im[i] * sn; wi += re[i] * sn + im[i] * cs; }
                    if (op == 1) { wr /= n; wi /= n; }
                    near(k2, wr, wi, tol);
                }
            } else {
                for (size_t i = 0; i < std::max(xr.size(), want.size()); ++i) {
                    ld w = i < want.size() ? (ld)want[i] : 0, v = i < xr.size() ? xr[i] : 0;
                    if (!(fabsl(v - w) < 0.5L)) { char t[160]; snprintf(t, sizeof t, ": coefficient %zu is %.6Lf, exact %.0Lf", i, v, w); fail(tags, "convolution is wrong", ctx + t); }
                }
            }
            for (size_t i = 0; i < xr.size(); ++i) log((u64)(long long)llroundl(xr[i]));
            if (o.sweep ? !fired : tries >= fs.size()) break;
            if (tries > 60) break;
        }
    }

    // event log hash after each operation
    void note(size_t i) { char b[40]; int n = snprintf(b, sizeof b, "OP %zu %llx\n", i, (unsigned long long)h); ssize_t w = write(1, b, n); (void)w; }
    void begin() {
        sh.assign(p.regs, Rep()); moved.assign(p.regs, 0); wasfailed.assign(p.regs, 0);
        AllocFault nf; seam_prepare(nf, 0);
        m->reset(p.regs); snap();
        for (auto& o : p.ops) if (o.in > level) { sub.reset(new Exec(p, prop, nofault, level + 1)); sub->nested = nested; sub->up = this; sub->begin(); break; }
    }
    void end() { m->reset(0); if (sub) sub->end(); }
    void run_all() { begin(); run_ops(0, p.ops.size()); }
    void run_ops(size_t from, size_t to) { for (size_t i = from; i < to; ++i) if (p.ops[i].in == level) step(i); }
    void step(size_t i) {
        Op o = p.ops[i]; cur = (int)i;
        for (Exec* x = up; x; x = x->up) x->cur = (int)i;
        if (g_stats) { g_stats->cur_op = i; bump(g_stats->ops); }
        if (o.kind == ENVIR) { env_change(o); log(i); if (prop == 22) note(i); return; }
        o.d %= p.regs; if (o.kind != XFORM) o.a %= p.regs; if (o.kind < LIT || o.kind == CMP) o.b %= p.regs;
        if (g_trace) fprintf(stderr, "  %*s%zu %s\n", 4 * level, "", i, op_text(o).c_str());
        inners.clear();
        for (size_t j = i + 1; j < p.ops.size() && p.ops[j].in > level; ++j) if (p.ops[j].in == level + 1) { if (!nested || p.ops[j].at == 's') { sub->step(j); cur = (int)i; } else inners.push_back(j); }
        if (skip(o)) { if (g_stats) bump(g_stats->skipped); log(0xABCD); return; }
        log(i);
        struct Now { const Op*& n; const Op* was; Now(const Op*& x, const Op* v) : n(x), was(x) { n = v; } ~Now() { n = was; } } now_is(now, &o);
        if (o.rep) rehearse(o);
        switch (o.kind) {
            case CMP: compare(o); break;
            case PRINT: print(o); break;
            case IDXR: case IDXW: index(o); break;
            case DIAG: diag(o); break;
            case DIGIN: digin(o); break;
            case XFORM: transform(o); break;
            case PHASE: break;
            default: mutate(o);
        }
        inners.clear();
        if (prop == 21 || prop == 22) note(i);
        if (g_trace) for (int r = 0; r < p.regs; ++r) fprintf(stderr, "  %*s    r%d%s %s\n", 4 * level, "", r, moved[r] ? "(moved)" : "", rstr(sh[r]).c_str());
    }
};
Exec* Exec::g_inside = nullptr;
}

#include "life.h"
#include "env_run.h"

Result execute(const Plan& p, int prop) {
    if (prop == 21 || prop == 22) { Result r = prop == 21 ? life_execute(p) : env_execute(p); if (g_stats) { bump(g_stats->runs); hs_add(g_runs_seen, r.hash); for (int i = 0; INST_NAMES[i]; ++i) if (p.inst == INST_NAMES[i]) bump(g_stats->inst_runs[i]); } return r; }
    Result res;
    if (!machine(p.inst)) { res.bad = true; res.cls = "unknown instance"; return res; }
    if (prop == 23) {                                               // the same calls one after the other; what fails then has nothing to do with re-entry
        Exec e(p, prop, false); bool bad = false; g_steps0 = g_seam.total_steps;
        try { e.run_all(); } catch (const Bad& b) { bad = true; if (g_trace) fprintf(stderr, "  fails without re-entry, too: %s\n", b.cls.c_str()); }
        g_seam.armed = false; g_seam.hook = false; e.end();
        if (bad) { if (g_stats) bump(g_stats->unjudged); res.hash = 1; return res; }
    }
    int reps = prop == 10 ? 4 : 1;
    u64 held[4] = {0, 0, 0, 0}, bytes[4] = {0, 0, 0, 0}; std::vector<Rep> finals; std::vector<char> fmoved;
    IMach* m = machine(p.inst);
    for (int k = 0; k < reps && !res.bad; ++k) {
        Exec e(p, prop, false); e.nested = prop == 23; g_steps0 = g_seam.total_steps;
        try { e.run_all(); }
        catch (const Bad& b) { res.bad = true; res.cls = b.cls; res.detail = b.detail; res.op = e.cur; }
        g_seam.armed = false;
        finals = e.sh; fmoved = e.moved;
        res.hash = hash_add(res.hash, e.h); for (Exec* x = e.sub.get(); x; x = x->sub.get()) res.hash = hash_add(res.hash, x->h);
        e.end();
        held[k] = g_seam.out_blocks; bytes[k] = g_seam.out_bytes;
    }
    if (!res.bad && prop == 10 && (held[3] > held[1] || bytes[3] > bytes[1])) {
        res.bad = true; res.cls = "memory kept"; res.op = -1;
        res.detail = "library blocks (bytes) outstanding after the same workload";
        for (int k = 0; k < 4; ++k) res.detail += (k ? ", " : " once and again: ") + std::to_string(held[k]) + " (" + std::to_string(bytes[k]) + ")";
    }
    if (!res.bad && prop == 11) {                                   // the failure-free execution
        Exec e(p, prop, true);
        try {
            e.run_all();
            for (int i = 0; i < p.regs; ++i) if (!fmoved[i] && !e.moved[i] && value_of(finals[i]) != value_of(e.sh[i])) { e.cur = -1;
                e.fail(P(11), "retried computation differs from the failure-free run", "register " + std::to_string(i) + " " + rstr(finals[i]) + " failure-free " + rstr(e.sh[i])); }
        } catch (const Bad& b) { res.bad = true; res.cls = b.cls; res.detail = b.detail; res.op = e.cur; }
        res.hash = hash_add(res.hash, e.h);
        m->reset(0);
    }
    if (g_stats) {
        bump(g_stats->runs); hs_add(g_runs_seen, res.hash);
        for (int i = 0; INST_NAMES[i]; ++i) if (p.inst == INST_NAMES[i]) bump(g_stats->inst_runs[i]);
    }
    return res;
}
