// Seeded plan generation, one workload and fault mix per property (swarm style: every run draws
// its own digit base, container, sizes, operation mix and enabled fault kinds).
#include "plan.h"
#include <map>
#include <algorithm>
bool instance_present(const std::string& name);
namespace {
struct InstInfo { const char* n; u64 B; };
const InstInfo INST[] = {
    {"lowp", 256}, {"medp", 65536}, {"highp", 4294967296ull}, {"b2", 2}, {"b8", 8}, {"b10", 10}, {"b16", 16},
    {"u256", 256}, {"u1000", 1000}, {"t10", 10}, {"tmed", 65536}, {"thigh", 4294967296ull}, {"dq10", 10}, {"d10", 10}, {"dhigh", 4294967296ull}};

struct Gen {
    Rng r; int prop, tier; Plan p; u64 B; bool deq, tight; int nregs;
    unsigned fault_pct, sweep_pct; u64 maxlen; unsigned lensel; std::string excs;
    bool en_n, en_f, en_c, en_b;
    std::vector<std::vector<u64>> pool;
    Gen(int pr, u64 seed, int t) : r(seed), prop(pr), tier(t) {}
    int reg() { return (int)r.below(nregs); }

    u64 special_digit() {
        switch (r.below(9)) {
            case 0: return 0; case 1: return 1; case 2: return B - 1; case 3: return B >= 2 ? B - 2 : 0;
            case 4: return B / 2; case 5: return B / 2 ? B / 2 - 1 : 0; case 6: return (B / 2 + 1) % B;
            case 7: return B > 2 ? 2 : 1;
            default: { u64 s = 0; while ((1ull << s) < B) ++s; u64 v = 1ull << r.below(s ? s : 1); return v % B; }
        }
    }
    u64 digit() { return r.pct(50) ? r.below(B) : special_digit(); }
    u64 len() {
        switch (lensel) {
            case 0: return r.below(4);
            case 1: return r.range(0, 8);
            case 2: return r.range(0, 24);
            case 3: return r.pct(50) ? r.range(0, 6) : r.range(1, maxlen);
            default: return r.small(maxlen) - (r.pct(10) ? 1 : 0);
        }
    }
    // digits, most significant first
    std::vector<u64> number() {
        std::vector<u64> v;
        if (!pool.empty() && r.pct(35)) {                     // close relative of an earlier number
            v = pool[r.below(pool.size())];
            switch (r.below(9)) {
                case 0: break;
                case 1: if (!v.empty()) v[r.below(v.size())] = digit(); break;
                case 2: if (!v.empty()) v.back() = (v.back() + 1) % B; break;
                case 3: if (!v.empty()) v.back() = (v.back() + B - 1) % B; break;
                case 4: if (!v.empty()) v[0] = 1 + r.below(B - 1 ? B - 1 : 1); break;
                case 5: v.push_back(digit()); break;
                case 6: if (v.size() > 1) v.pop_back(); break;
                case 7: if (v.size() > 1) { size_t i = r.below(v.size() - 1); std::swap(v[i], v[i + 1]); } break;
                case 8: { // split the difference: one digit up, a lower one down
                    if (v.size() > 1) { size_t i = r.below(v.size() - 1); size_t j = i + 1 + r.below(v.size() - 1 - i);
                        v[i] = (v[i] + 1) % B; v[j] = v[j] ? v[j] - 1 : B - 1; } break; }
            }
        } else {
            u64 n = len();
            switch (r.below(8)) {
                case 0: for (u64 i = 0; i < n; ++i) v.push_back(r.below(B)); break;
                case 1: for (u64 i = 0; i < n; ++i) v.push_back(digit()); break;
                case 2: for (u64 i = 0; i < n; ++i) v.push_back(B - 1); break;
                case 3: for (u64 i = 0; i < n; ++i) v.push_back(i ? 0 : 1); break;
                case 4: for (u64 i = 0; i < n; ++i) v.push_back(special_digit()); break;
                case 5: { // runs
                    u64 cur = special_digit(); for (u64 i = 0; i < n; ++i) { if (r.pct(20)) cur = special_digit(); v.push_back(cur); } break; }
                case 6: { u64 a = digit(), b = digit(); for (u64 i = 0; i < n; ++i) v.push_back(i & 1 ? a : b); break; }
                case 7: { // random head, uniform tail
                    u64 t = special_digit(); u64 h = r.below(n + 1); for (u64 i = 0; i < n; ++i) v.push_back(i < h ? r.below(B) : t); break; }
            }
            if (n && !r.pct(8) && v[0] == 0) v[0] = 1 + r.below(B - 1);
        }
        if (v.size() > maxlen) v.resize(maxlen);
        if (pool.size() < 8) pool.push_back(v); else pool[r.below(8)] = v;
        return v;
    }
    int exc() { return (int)(excs[r.below(excs.size())] - '0'); }
    AllocFault fault() {
        AllocFault f; f.exc = exc();
        std::string m; if (en_n) m += "nnn"; if (en_f) m += "ff"; if (en_c) m += "c"; if (en_b) m += "b";
        if (m.empty()) m = "n";
        f.mode = m[r.below(m.size())];
        switch (f.mode) {
            case 'n': case 'f': f.k = r.pct(45) ? 1 : r.pct(60) ? r.range(1, 4) : r.small(64); break;
            case 'c': f.k = r.pct(30) ? r.below(8) : r.below(maxlen * 16 + 1); break;
            case 'b': f.k = r.pct(30) ? r.below(16) : r.below(maxlen * 64 + 1); break;
        }
        return f;
    }
    void faults(Op& o, unsigned pct) {
        if (sweep_pct && r.pct(sweep_pct)) { o.sweep = (int)r.range(1, 2); AllocFault f; f.mode = 0; f.exc = exc(); o.f.push_back(f); return; }
        if (r.pct(pct)) o.f.push_back(fault());
    }
    Op mk(int kind) {
        Op o; o.kind = kind; o.d = reg(); o.a = reg(); o.b = reg();
        if ((kind == COPY || kind == CCTOR || kind == SWAP || kind == IDXR) && r.pct(20)) o.how = 1;
        if (kind == IDXW && r.pct(40)) o.how = (int)r.range(1, 7);
        if (kind == DIGIN && r.pct(15)) o.how = (int)r.range(1, 3);
        if (kind == PRINT && r.pct(12)) o.how = (int)r.range(1, 255);
        return o;
    }
    void lit(int d, int negpct = 40) {
        Op o = mk(LIT); o.d = d; o.digits = number(); o.desc = r.pct(negpct) ? 1 : 0;
        if (r.pct(6)) o.digits.insert(o.digits.begin(), r.range(1, 3), 0);
        p.ops.push_back(o);
    }
    void pad(int d) { Op o = mk(PUSHB); o.d = d; o.dig = 0; u64 n = r.pct(85) ? r.range(1, 3) : r.small(60); for (u64 i = 0; i < n; ++i) p.ops.push_back(o); }
    StreamFault sfault(u64 span, bool in) {
        StreamFault s; s.mode = (int)r.below(in ? 5 : 6); s.n = r.below(span + 2);
        s.chunk = r.pct(50) ? 0 : r.pct(50) ? r.range(1, 8) : r.range(1, 64);
        s.exmask = r.pct(65) ? 0 : r.pct(80) ? (int)r.below(8) : 8; if (r.pct(12)) s.exmask |= 8;
        return s;
    }
    void arith(std::vector<int> kinds, unsigned fp) {
        Op o = mk(kinds[r.below(kinds.size())]);
        if (o.kind <= DIVEQ && r.pct(12)) o.a = o.d;
        if (o.kind > DIVEQ && r.pct(10)) o.b = o.a;
        if (r.pct(15)) { o.how = (int)r.range(1, o.kind <= DIVEQ ? 3 : 7); if (o.how == 7 && (prop == 16 || prop == 19)) o.how = 4; }
        faults(o, fp); p.ops.push_back(o);
    }
};
}

static const int A_ADD[] = {ADDEQ, SUBEQ, ADD, SUB};

static void setup(Gen& g, bool allow_deque) {
    Rng& r = g.r;
    for (;;) {
        const InstInfo& i = INST[r.below(sizeof INST / sizeof *INST)];
        g.deq = std::string(i.n) == "dq10"; g.tight = i.n[0] == 't';
        if (g.deq && !allow_deque) continue;
        if (!instance_present(i.n)) continue;
        g.p.inst = i.n; g.B = i.B; break;
    }
    g.nregs = (int)r.range(2, 6); g.p.regs = g.nregs;
    g.lensel = (unsigned)r.below(5);
    g.maxlen = r.pct(60) ? 24 : r.pct(70) ? 64 : 200;
    g.fault_pct = r.pct(25) ? 0 : r.pct(60) ? (unsigned)r.range(5, 25) : (unsigned)r.range(25, 60);
    g.sweep_pct = 0;
    g.en_n = r.pct(75); g.en_f = r.pct(50); g.en_c = r.pct(30); g.en_b = r.pct(30);
    g.excs = r.pct(40) ? "1" : r.pct(50) ? "01234" : std::string(1, (char)('0' + r.below(NEXC)));
}

Plan generate(int prop, u64 seed, int tier) {
    Gen g(prop, seed, tier); Rng& r = g.r;
    bool deque_ok = prop == 1 || prop == 2 || prop == 3 || prop == 5 || prop == 12 || prop == 16 || prop == 17 || prop >= 21;
    setup(g, deque_ok);
    g.p.seed = seed;
    auto push = [&](Op o) { g.p.ops.push_back(o); };
    u64 nops = r.pct(50) ? r.range(2, 10) : r.range(6, 30);
    const bool huge = r.pct(1), giant = !g.tight && r.below(1000) < 4;      // thousands of digits, for operations of linear cost
    auto enlarge = [&] { if (giant) { g.maxlen = r.pct(15) ? 80000 : 12000; g.lensel = 3; if (nops > 10) nops = 10; if (g.maxlen > 20000 && nops > 5) nops = 5; g.sweep_pct = 0; } };
    auto xf = [&](u64 top) {
        Op o = g.mk(XFORM); o.b = (int)r.below(5); o.a = (int)(r.pct(60) ? 0 : r.below(3)); o.desc = (int)r.below(6); o.dig = r.next() >> 1;
        o.pos = r.pct(40) ? r.below(5) : r.pct(80) ? r.below(9) : r.below(13); if (o.pos > top) o.pos = top;
        g.faults(o, g.fault_pct); if (o.sweep && o.pos > 6) o.pos %= 7;
        push(o);
    };
    auto init = [&](int negpct) { for (int i = 0; i < g.nregs; ++i) if (!r.pct(6)) g.lit(i, negpct); };
    // anything that changes a number other than arithmetic: what an object remembers about itself has to follow
    auto edit = [&] {
        static const int E[] = {PUSHB, PUSHF, PUSHAT, POPB, POPF, POPAT, RESIZE, POKE, POKE, IDXW, IDXW, SWAP, MOVE, MCTOR, CLEAR, SETDESC, COPY, CCTOR, DEFCTOR};
        const int k = E[r.below(sizeof E / sizeof *E)];
        Op o = g.mk(k); o.pos = k == RESIZE ? r.below(r.pct(70) ? 8 : g.maxlen + 4) : r.next(); o.dig = g.digit(); o.b = k == IDXW ? 0 : (int)r.below(2); o.desc = k == SETDESC ? (int)r.below(r.pct(80) ? 2 : 5) : 0;
        if (k == SWAP || k == MOVE || k == MCTOR) { push(o); if (k != SWAP && r.pct(70)) { if (r.pct(50)) g.lit(o.a, 45); else { Op q = g.mk(COPY); q.d = o.a; push(q); } } return; }
        if (k != IDXW) { const unsigned sp = g.sweep_pct; g.sweep_pct = 0; g.faults(o, g.fault_pct / 2); g.sweep_pct = sp; }
        push(o);
    };
    // a bit of everything
    auto segment = [&](u64 n, bool xforms) {
        for (u64 i = 0; i < n; ++i) {
            u64 x = r.below(100);
            if (x < 46) g.arith({ADDEQ, SUBEQ, MULEQ, DIVEQ, ADD, SUB, MUL, DIV, MUL}, g.fault_pct);
            else if (x < 60) g.lit(g.reg(), 45);
            else if (x < 68) { Op o = g.mk(PRINT); if (r.pct(30)) o.sf = g.sfault(20, false); push(o); }
            else if (x < 73) { Op o = g.mk(CMP); push(o); }
            else if (x < 78) { Op o = g.mk(r.pct(50) ? COPY : CCTOR); g.faults(o, g.fault_pct); push(o); }
            else if (x < 82) { Op o = g.mk(r.pct(50) ? IDXR : IDXW); o.b = (int)r.below(2); o.pos = r.below(6); o.dig = g.digit(); push(o); }
            else if (x < 87) { Op o = g.mk(DIAG); o.desc = (int)r.below(3); o.b = r.pct(20); push(o); }
            else if (x < 90) { Op o = g.mk(DIGIN); u64 k = r.range(1, 4); while (k--) o.digits.push_back(g.digit()); o.b = (int)r.below(3); push(o); }
            else if (x < 93 && xforms) xf(6);
            else if (r.pct(40)) edit(); else { static const int E[] = {PUSHB, PUSHF, RESIZE, POPB, CLEAR, SETDESC, SWAP}; Op o = g.mk(E[r.below(7)]); o.pos = o.kind == RESIZE ? r.below(20) : r.next(); o.dig = g.digit(); o.desc = o.kind == SETDESC ? (int)r.below(5) : 0; push(o); }
        }
    };
    switch (prop) {
        case 1: {                                   // sums and differences
            if (huge) { g.maxlen = 1500; g.lensel = 3; nops = r.range(2, 6); }
            g.sweep_pct = r.pct(25) ? 8 : 0;
            enlarge();
            init(45);
            for (u64 i = 0; i < nops; ++i) {
                if (r.pct(8)) { edit(); continue; }
                u64 x = r.below(100);
                if (x < 55) g.arith({ADDEQ, SUBEQ, ADD, SUB}, g.fault_pct);
                else if (x < 75) g.lit(g.reg(), 45);
                else if (x < 80) g.pad(g.reg());
                else if (x < 86) { Op o = g.mk(SETDESC); o.desc = (int)r.below(2); push(o); }
                else if (x < 90) { Op o = g.mk(COPY); g.faults(o, g.fault_pct / 2); push(o); }
                else if (x < 93) { Op o = g.mk(CCTOR); push(o); }
                else if (x < 95) { Op o = g.mk(MOVE); push(o); g.lit(o.a); }
                else if (x < 97) g.arith({MULEQ, MUL}, g.fault_pct);
                else { Op o = g.mk(POKE); o.pos = r.next(); o.dig = g.digit(); push(o); }
            }
            break;
        }
        case 2: {                                   // products
            if (huge) { g.maxlen = r.pct(50) ? 700 : 1500; g.lensel = 3; nops = r.range(1, 3); }
            if (r.below(1000) < 3 && instance_present("medp")) {      // around the length where the method of multiplication changes
                g.p.inst = "medp"; g.B = 65536; g.deq = g.tight = false; g.nregs = g.p.regs = 2; g.maxlen = 2100; g.lensel = 0;
                for (int i = 0; i < 2; ++i) { Op o = g.mk(LIT); o.d = i; o.desc = (int)r.below(2); u64 n = r.range(1990, 2100); bool mx = r.pct(60); for (u64 k = 0; k < n; ++k) o.digits.push_back(mx ? 65535 : k ? r.below(65536) : 1 + r.below(65535)); push(o); }
                { Op o = g.mk(r.pct(50) ? MUL : MULEQ); o.d = 0; o.a = r.pct(80) ? 1 : 0; o.b = 0; push(o); }
                break;
            }
            if (r.below(10000) < (g.tier ? 10 : 5)) {                        // very long transforms
                static const char* const K[] = {"lowp", "u256", "b10", "b16", "b8", "b2", "u1000"};
                do g.p.inst = K[r.below(7)]; while (!instance_present(g.p.inst));
                for (auto& i : INST) if (g.p.inst == i.n) g.B = i.B;
                g.deq = g.tight = false; g.nregs = g.p.regs = 2;
                static const u64 TOP[] = {9000, 17000, 34000, 70000};
                const u64 top = TOP[r.below(4)]; const bool one = r.pct(25);
                for (int i = 0; i < 2; ++i) {
                    Op o = g.mk(LIT); o.d = i; o.desc = (int)r.below(2); u64 n = one && i ? r.range(1, 40) : r.pct(50) ? r.range(top / 2, top) : top / 2 + r.below(600); unsigned mx = (unsigned)r.below(3);
                    for (u64 k = 0; k < n; ++k) o.digits.push_back(mx == 0 ? g.B - 1 : mx == 1 && k ? r.below(g.B) : k ? g.digit() : 1 + r.below(g.B - 1)); push(o);
                }
                { Op o = g.mk(r.pct(50) ? MUL : MULEQ); o.d = 0; o.a = r.pct(80) ? 1 : 0; o.b = r.pct(80) ? 1 : 0; push(o); }
                break;
            }
            g.sweep_pct = r.pct(20) ? 6 : 0;
            init(45);
            for (u64 i = 0; i < nops; ++i) {
                if (r.pct(8)) { edit(); continue; }
                u64 x = r.below(100);
                if (x < 55) g.arith({MULEQ, MUL, MULEQ, MUL}, g.fault_pct);
                else if (x < 80) g.lit(g.reg(), 45);
                else if (x < 85) g.pad(g.reg());
                else if (x < 90) { Op o = g.mk(SETDESC); o.desc = (int)r.below(2); push(o); }
                else if (x < 95) g.arith({ADDEQ, SUBEQ, ADD, SUB}, g.fault_pct);
                else { Op o = g.mk(COPY); g.faults(o, g.fault_pct / 2); push(o); }
            }
            break;
        }
        case 3: {                                   // quotients
            g.maxlen = huge ? 120 : r.pct(60) ? 12 : 40; if (g.lensel == 3 && !huge) g.lensel = 4;
            g.sweep_pct = r.pct(15) ? 5 : 0;
            if (r.below(1000) < 15) {                   // long operands, short quotient
                g.nregs = g.p.regs = 2; g.sweep_pct = 0;
                u64 n = r.range(40, g.tight ? 200 : 2500), cut = r.below(3);
                Op o = g.mk(LIT); o.d = 0; o.desc = (int)r.below(2); bool mx = r.pct(30);
                for (u64 k = 0; k < n; ++k) o.digits.push_back(mx ? g.B - 1 : k ? r.below(g.B) : 1 + r.below(g.B - 1));
                push(o);
                Op q = o; q.d = 1; q.desc = (int)r.below(2); q.digits.resize(n - cut);
                if (r.pct(60)) q.digits[r.below(q.digits.size())] = g.digit();
                if (r.pct(30)) q.digits.back() = g.digit();
                if (!q.digits[0]) q.digits[0] = 1;
                push(q);
                if (r.pct(30)) g.pad((int)r.below(2));
                Op x = g.mk(r.pct(50) ? DIV : DIVEQ); x.d = 0; x.a = r.pct(90) ? (x.kind == DIV ? 0 : 1) : (int)r.below(2); x.b = 1; g.faults(x, g.fault_pct); push(x);
                break;
            }
            init(45);
            for (u64 i = 0; i < nops; ++i) {
                if (r.pct(8)) { edit(); continue; }
                if (g.nregs > 2 && r.pct(4)) {              // dividend next to a multiple of the divisor
                    g.lit(0, 45); if (r.pct(85)) g.lit(1, 45); else { Op o = g.mk(LIT); o.d = 1; o.digits.assign(1 + r.below(g.maxlen), 0); o.digits[0] = 1 + r.below(g.B - 1 < 2 ? g.B - 1 : 2); push(o); }
                    Op m = g.mk(MUL); m.d = 2; m.a = 0; m.b = 1; push(m);
                    const u64 w = r.below(5);
                    if (w) { if (w < 3) { Op o = g.mk(LIT); o.d = 1; o.digits.assign(1, 1); push(o); }
                        else { Op o = g.mk(COPY); o.d = 1; o.a = 0; o.how = 0; push(o); if (w == 4) { Op s = g.mk(POKE); s.d = 1; s.pos = 0; s.dig = g.digit(); push(s); } }
                        Op o = g.mk(r.pct(50) ? ADDEQ : SUBEQ); o.d = 2; o.a = 1; push(o); }
                    Op q = g.mk(r.pct(50) ? DIV : DIVEQ); q.d = 2; q.a = q.kind == DIV ? 2 : 0; q.b = 0; g.faults(q, g.fault_pct / 2); push(q);
                    continue;
                }
                u64 x = r.below(100);
                if (x < 50) g.arith({DIVEQ, DIV, DIVEQ, DIV}, g.fault_pct);
                else if (x < 74) g.lit(g.reg(), 45);
                else if (x < 79) g.pad(g.reg());
                else if (x < 84) { Op o = g.mk(SETDESC); o.desc = (int)r.below(2); push(o); }
                else if (x < 88) g.arith({MULEQ, MUL}, g.fault_pct);        // exact multiples
                else if (x < 92) g.arith({ADDEQ, SUBEQ, ADD, SUB}, g.fault_pct);
                else if (x < 94) { Op o = g.mk(CLEAR); push(o); }
                else if (x < 96) { Op o = g.mk(LIT); o.digits.assign(1, 1); o.desc = (int)r.below(2); push(o); }
                else { Op o = g.mk(COPY); g.faults(o, g.fault_pct / 2); push(o); }
            }
            break;
        }
        case 4: {                                   // comparisons
            if (huge) { g.maxlen = 1500; g.lensel = 3; }
            enlarge();
            init(45);
            for (u64 i = 0; i < nops; ++i) {
                if (r.pct(15)) { edit(); continue; }
                u64 x = r.below(100);
                if (x < 50) { Op o = g.mk(CMP); if (r.pct(60)) { AllocFault f; f.mode = 'f'; f.k = 1; f.exc = g.exc(); o.f.push_back(f); } push(o); }
                else if (x < 66) g.lit(g.reg(), 45);
                else if (x < 72) g.pad(g.reg());
                else if (x < 77) { Op o = g.mk(SETDESC); o.desc = r.pct(70) ? (int)r.below(2) : r.pct(50) ? 3 : 4; push(o); }
                else if (x < 86) g.arith({ADDEQ, SUBEQ, ADD, SUB}, g.fault_pct);
                else if (x < 89) g.arith({MULEQ, MUL}, g.fault_pct);
                else if (x < 91) g.arith({DIVEQ, DIV}, g.fault_pct);
                else if (x < 94) { Op o = g.mk(POKE); o.pos = r.next(); o.dig = g.digit(); push(o); }
                else { Op o = g.mk(COPY); g.faults(o, g.fault_pct); push(o); }
            }
            break;
        }
        case 5: case 6: case 10: {                  // failure semantics: sweeps over every allocation
            g.maxlen = r.pct(70) ? 12 : 40; g.lensel = (unsigned)(r.pct(60) ? 1 : 4);
            g.fault_pct = (unsigned)r.range(30, 80); g.sweep_pct = prop == 10 ? 10 : 25;
            nops = r.range(2, 12);
            init(45);
            for (u64 i = 0; i < nops; ++i) {
                if (r.pct(5)) { edit(); continue; }
                u64 x = r.below(100);
                if (prop == 5) {
                    if (x < 62) g.arith({ADDEQ, SUBEQ, MULEQ, DIVEQ}, g.fault_pct);
                    else if (x < 88) g.lit(g.reg(), 45);
                    else if (x < 92) g.pad(g.reg());
                    else if (x < 96) { Op o = g.mk(SETDESC); o.desc = (int)r.below(2); push(o); }
                    else g.arith({ADD, SUB, MUL, DIV}, g.fault_pct);
                } else {
                    if (x < 3) { xf(4); continue; }
                    if (x < 38) g.arith({ADDEQ, SUBEQ, MULEQ, DIVEQ, ADD, SUB, MUL, DIV}, g.fault_pct);
                    else if (x < 52) { g.lit(g.reg(), 45); g.faults(g.p.ops.back(), g.fault_pct); }
                    else if (x < 64) { Op o = g.mk(r.pct(50) ? COPY : CCTOR); g.faults(o, g.fault_pct); push(o); }
                    else if (x < 84) { static const int E[] = {PUSHB, PUSHF, PUSHAT, RESIZE, POPB, POPF, POPAT, CLEAR};
                        Op o = g.mk(E[r.below(8)]); o.pos = o.kind == RESIZE ? r.below(g.maxlen * 2) : r.next(); o.dig = g.digit(); o.b = (int)r.below(2); g.faults(o, g.fault_pct); push(o); }
                    else if (x < 90) { Op o = g.mk(r.pct(50) ? MOVE : MCTOR); g.faults(o, g.fault_pct); push(o); g.lit(o.a); }
                    else g.lit(g.reg(), 45);
                }
            }
            break;
        }
        case 7: {                                   // isolation
            g.maxlen = r.pct(70) ? 16 : 60;
            g.fault_pct = r.pct(20) ? 0 : (unsigned)r.range(20, 70); g.sweep_pct = r.pct(40) ? 10 : 0;
            g.nregs = (int)r.range(3, 6); g.p.regs = g.nregs;
            enlarge();
            init(45);
            for (u64 i = 0; i < nops; ++i) {
                if (r.pct(8)) { edit(); continue; }
                u64 x = r.below(100);
                if (x < 30) g.arith({ADD, SUB, MUL, DIV}, g.fault_pct);
                else if (x < 60) g.arith({ADDEQ, SUBEQ, MULEQ, DIVEQ}, g.fault_pct);
                else if (x < 72) { Op o = g.mk(r.pct(50) ? COPY : CCTOR); g.faults(o, g.fault_pct); push(o); }
                else if (x < 76) { Op o = g.mk(CMP); g.faults(o, g.fault_pct); push(o); }
                else if (x < 79) { Op o = g.mk(PRINT); if (r.pct(50)) o.sf = g.sfault(20, false); push(o); }
                else if (x < 83) { static const int E[] = {PUSHB, PUSHF, POKE, RESIZE, POPB, CLEAR}; Op o = g.mk(E[r.below(6)]); o.pos = o.kind == RESIZE ? r.below(40) : r.next(); o.dig = g.digit(); g.faults(o, g.fault_pct); push(o); }
                else if (x < 86) { Op o = g.mk(r.pct(50) ? MOVE : MCTOR); push(o); g.lit(o.a); }
                else if (x < 88) { Op o = g.mk(SETDESC); o.desc = (int)r.below(5); push(o); }
                else if (x < 90) g.pad(g.reg());
                else g.lit(g.reg(), 45);
            }
            break;
        }
        case 8: {                                   // copies and moves
            g.maxlen = r.pct(70) ? 16 : 120; g.fault_pct = (unsigned)r.range(20, 80); g.sweep_pct = r.pct(50) ? 20 : 0;
            enlarge();
            init(50);
            for (u64 i = 0; i < nops; ++i) {
                u64 x = r.below(100);
                if (x < 34) { Op o = g.mk(COPY); if (r.pct(6)) o.a = o.d; g.faults(o, g.fault_pct); push(o); }
                else if (x < 48) { Op o = g.mk(CCTOR); g.faults(o, g.fault_pct); push(o); }
                else if (x < 53) { Op o = g.mk(SWAP); if (r.pct(60)) { AllocFault f; f.mode = 'f'; f.k = 1; f.exc = g.exc(); o.f.push_back(f); } push(o); }
                else if (x < 66) { Op o = g.mk(r.pct(60) ? MOVE : MCTOR); if (r.pct(60)) { AllocFault f; f.mode = 'f'; f.k = 1; f.exc = g.exc(); o.f.push_back(f); } push(o);
                                   if (r.pct(50)) { Op q = g.mk(COPY); q.d = o.a; push(q); } else if (r.pct(50)) { Op q = g.mk(MOVE); q.d = o.a; push(q); } else g.lit(o.a); }
                else if (x < 76) g.lit(g.reg(), 50);
                else if (x < 80) { Op o = g.mk(SETDESC); o.desc = (int)r.below(5); push(o); }
                else if (x < 85) { static const int E[] = {RESIZE, CLEAR, POPB, PUSHB}; Op o = g.mk(E[r.below(4)]); o.pos = r.below(g.maxlen); o.dig = g.digit(); push(o); }
                else if (x < 95) g.arith({ADDEQ, SUBEQ, ADD, SUB}, g.fault_pct / 2);
                else g.arith({MULEQ, MUL}, g.fault_pct / 2);
            }
            break;
        }
        case 9: {                                   // digit edits
            g.maxlen = r.pct(70) ? 16 : 120; g.fault_pct = r.pct(20) ? 0 : (unsigned)r.range(20, 70); g.sweep_pct = r.pct(30) ? 15 : 0;
            enlarge();
            init(50);
            static const int E[] = {PUSHB, PUSHF, PUSHAT, POPB, POPF, POPAT, RESIZE, POKE, CLEAR, SETDESC, LIT, LIT, RESIZE, PUSHAT, PUSHF, DEFCTOR};
            nops += 6;
            for (u64 i = 0; i < nops; ++i) {
                if (r.pct(8)) { g.arith({ADDEQ, SUBEQ, MULEQ}, g.fault_pct / 2); continue; }
                if (r.pct(8)) { edit(); continue; }
                int k = E[r.below(16)];
                if (k == LIT) { g.lit(g.reg(), 50); if (r.pct(30)) g.p.ops.back().digits.clear(); if (r.pct(15)) g.p.ops.back().digits.insert(g.p.ops.back().digits.begin(), r.range(1, 4), 0); g.faults(g.p.ops.back(), g.fault_pct);
                    // list lengths the constructor is called with directly
                    std::vector<u64>& dd = g.p.ops.back().digits; static const size_t N[] = {0, 1, 2, 3, 4, 5, 6, 8, 12, 16, 20, 33, 70, 300}; size_t n = N[r.pct(80) ? r.below(9) : r.below(14)]; if (n >= 70) dd.insert(dd.begin(), r.pct(50) ? r.below(n) : r.pct(50) ? 0 : n, 0); if (dd.size() > n) dd.resize(n); while (dd.size() < n) dd.push_back(g.digit()); dd.resize(n); continue; }
                Op o = g.mk(k); o.pos = k == RESIZE ? r.below(g.maxlen + 4) : r.next(); o.dig = g.digit(); o.b = (int)r.below(2);
                if (k == SETDESC) o.desc = r.pct(75) ? (int)r.below(2) : (int)r.below(5);
                g.faults(o, g.fault_pct); push(o);
            }
            break;
        }
        case 11: {                                  // retried computations
            g.maxlen = r.pct(70) ? 8 : 20; g.lensel = r.pct(50) ? 1 : 2; g.nregs = 8; g.p.regs = 8;
            unsigned fp = (unsigned)r.range(20, 80);
            auto step = [&](int k, int d, int a, int b) {
                Op o; o.kind = k; o.d = d; o.a = a; o.b = b; o.retry = 1; o.restore = (int)r.below(5);
                while (o.f.size() < 4 && r.pct(fp)) o.f.push_back(g.fault());
                push(o);
            };
            auto small = [&](int d, u64 lo, u64 hi) { Op o = g.mk(LIT); o.d = d; u64 v = r.range(lo, hi); if (v == 0) v = 1; while (v) { o.digits.insert(o.digits.begin(), v % g.B); v /= g.B; } o.retry = 1; while (o.f.size() < 2 && r.pct(fp)) o.f.push_back(g.fault()); push(o); };
            switch (r.below(5)) {
                case 0: {                           // radix conversion and back
                    g.lit(0, 20); step(COPY, 7, 0, 0); small(1, 2, r.pct(50) ? 16 : 100000); if (r.pct(20)) { Op o = g.mk(SETDESC); o.d = 1; o.desc = 1; push(o); }
                    { Op o = g.mk(CLEAR); o.d = 4; push(o); } small(5, 1, 1);
                    u64 n = r.range(2, 12);
                    for (u64 i = 0; i < n; ++i) { step(DIV, 2, 0, 1); step(MUL, 3, 2, 1); step(SUB, 3, 0, 3); step(MUL, 6, 3, 5); step(ADDEQ, 4, 6, 0); step(MULEQ, 5, 1, 0); step(r.pct(50) ? COPY : MOVE, 0, 2, 0); }
                    step(MUL, 6, 0, 5); step(ADDEQ, 4, 6, 0);
                    Op o = g.mk(CMP); o.a = 4; o.b = 7; push(o);
                    break;
                }
                case 1: {                           // the compression loop: halve to one, then double back
                    g.maxlen = 5; g.lit(0, 0); small(1, 2, 2); step(COPY, 7, 0, 0);
                    u64 n = r.range(4, 24);
                    for (u64 i = 0; i < n; ++i) step(DIVEQ, 0, 1, 0);
                    for (u64 i = 0; i < n; ++i) { step(MUL, 2, 0, 1); step(ADD, 0, 2, (int)r.range(3, 4)); }
                    break;
                }
                case 2: {                           // powers and factorial-like products
                    small(0, 1, 1); small(1, 2, 1000); small(2, 1, 1);
                    u64 n = r.range(3, 14);
                    for (u64 i = 0; i < n; ++i) { step(MULEQ, 0, 1, 0); if (r.pct(50)) step(ADDEQ, 1, 2, 0); if (r.pct(15)) step(MULEQ, 0, 0, 0); }
                    break;
                }
                case 3: {                           // Fibonacci-like recurrences with sign changes
                    g.lit(0, 40); g.lit(1, 40);
                    u64 n = r.range(4, 24);
                    for (u64 i = 0; i < n; ++i) { step(r.pct(70) ? ADD : SUB, 2, 0, 1); step(COPY, 0, 1, 0); step(r.pct(50) ? COPY : MOVE, 1, 2, 0); }
                    break;
                }
                default: {                          // random straight-line program
                    for (int i = 0; i < 8; ++i) g.lit(i, 40);
                    u64 n = r.range(4, 20);
                    static const int K[] = {ADDEQ, SUBEQ, MULEQ, DIVEQ, ADD, SUB, MUL, DIV, COPY, CCTOR, PUSHB, PUSHF, RESIZE};
                    for (u64 i = 0; i < n; ++i) { step(K[r.below(13)], g.reg(), g.reg(), g.reg()); g.p.ops.back().pos = r.below(12); g.p.ops.back().dig = g.digit(); }
                }
            }
            break;
        }
        case 12: {                                  // non-finite numbers
            g.maxlen = r.pct(80) ? 10 : 30; g.fault_pct = (unsigned)r.range(20, 70);
            init(45);
            for (u64 i = 0; i < nops; ++i) {
                if (r.pct(8)) { edit(); continue; }
                u64 x = r.below(100);
                if (x < 55) g.arith({ADDEQ, SUBEQ, MULEQ, DIVEQ, ADD, SUB, MUL, DIV}, r.pct(50) ? 0 : g.fault_pct);
                else if (x < 68) { Op o = g.mk(SETDESC); o.desc = (int)r.range(2, 4); push(o); }
                else if (x < 82) g.lit(g.reg(), 45);
                else if (x < 85) g.pad(g.reg());
                else if (x < 89) { Op o = g.mk(CLEAR); push(o); }
                else if (x < 92) { Op o = g.mk(SETDESC); o.desc = (int)r.below(2); push(o); }
                else { Op o = g.mk(r.pct(70) ? COPY : CCTOR); push(o); }
            }
            break;
        }
        case 14: {                                  // printing
            g.maxlen = r.pct(70) ? 20 : 200;
            enlarge();
            init(50);
            for (u64 i = 0; i < nops; ++i) {
                if (r.pct(15)) { edit(); continue; }
                u64 x = r.below(100);
                if (x < 65) { Op o = g.mk(PRINT); if (!r.pct(15)) o.sf = g.sfault(r.pct(50) ? 6 : g.maxlen * 2, false); if (r.pct(30)) { AllocFault f; f.mode = 'f'; f.k = 1; f.exc = g.exc(); o.f.push_back(f); } push(o); }
                else if (x < 80) g.lit(g.reg(), 50);
                else if (x < 86) { Op o = g.mk(SETDESC); o.desc = (int)r.below(5); push(o); }
                else if (x < 90) g.pad(g.reg());
                else if (x < 93) { Op o = g.mk(CLEAR); push(o); if (r.pct(50)) { o.kind = SETDESC; o.desc = 1; push(o); } }
                else g.arith({ADDEQ, SUBEQ, MULEQ}, g.fault_pct);
            }
            break;
        }
        case 15: {                                  // guarded digit access
            g.maxlen = r.pct(80) ? 12 : 60;
            init(50);
            for (u64 i = 0; i < nops; ++i) {
                u64 x = r.below(100);
                if (x < 60) {
                    Op o = g.mk(r.pct(50) ? IDXR : IDXW); o.b = (int)r.below(2);
                    if (r.pct(20)) { o.b = 2; o.pos = (r.range(1, 4) << r.range(6, 62)) + r.below(24); if (r.pct(20)) o.pos = ~0ull / r.range(1, 16) + r.below(12); } else
                    o.pos = o.b ? (r.pct(50) ? 0 : r.pct(50) ? r.below(40) : r.pct(50) ? ~0ull - r.below(4) : r.next() >> r.below(40)) : r.next();
                    o.dig = g.digit();
                    if (r.pct(70)) o.sf = g.sfault(r.pct(50) ? 4 : 160, false);
                    if (o.sf.mode == 5) o.sf.mode = 1;
                    if (r.pct(40)) { AllocFault f; f.mode = 'f'; f.k = 1; f.exc = g.exc(); o.f.push_back(f); }
                    push(o);
                }
                else if (x < 72) { Op o = g.mk(DIAG); o.desc = (int)r.below(3); o.b = (int)r.below(2); if (r.pct(50)) { o.sf = g.sfault(30, false); o.sf.exmask = 0; if (o.sf.mode == 5) o.sf.mode = 1; } push(o); }
                else if (x < 84) g.lit(g.reg(), 50);
                else if (x < 94) { static const int E[] = {PUSHB, PUSHF, POPB, RESIZE, CLEAR, POPF}; Op o = g.mk(E[r.below(6)]); o.pos = r.below(20); o.dig = g.digit(); push(o); }
                else { Op o = g.mk(SETDESC); o.desc = (int)r.below(5); push(o); }
            }
            break;
        }
        case 16: {                                  // bounded progress
            g.maxlen = huge ? 300 : r.pct(60) ? 12 : 40; if (g.lensel == 3 && !huge) g.lensel = 4;
            g.sweep_pct = r.pct(20) ? 5 : 0;
            init(45);
            for (u64 i = 0; i < nops; ++i) {
                if (r.pct(5)) { edit(); continue; }
                u64 x = r.below(100);
                if (x < 60) g.arith({ADDEQ, SUBEQ, MULEQ, DIVEQ, ADD, SUB, MUL, DIV}, g.fault_pct);
                else if (x < 76) g.lit(g.reg(), 45);
                else if (x < 82) g.pad(g.reg());
                else if (x < 86) { Op o = g.mk(CLEAR); push(o); }
                else if (x < 90) { Op o = g.mk(CMP); push(o); }
                else if (x < 94) { Op o = g.mk(RESIZE); o.pos = r.below(12); o.b = 1; push(o); }
                else { Op o = g.mk(COPY); g.faults(o, g.fault_pct); push(o); }
            }
            break;
        }
        case 17: {                                  // digit range and canonical results
            g.sweep_pct = r.pct(15) ? 5 : 0; if (g.maxlen > 64) g.maxlen = 64;
            init(45);
            for (u64 i = 0; i < nops; ++i) {
                if (r.pct(6)) { edit(); continue; }
                u64 x = r.below(100);
                if (x < 66) g.arith({ADDEQ, SUBEQ, MULEQ, DIVEQ, ADD, SUB, MUL, DIV}, g.fault_pct);
                else if (x < 92) g.lit(g.reg(), 45);
                else if (x < 95) { Op o = g.mk(SETDESC); o.desc = (int)r.below(2); push(o); }
                else { Op o = g.mk(COPY); g.faults(o, g.fault_pct); push(o); }
            }
            break;
        }
        case 19: {                                  // bounded memory: long histories on numbers of bounded length
            g.maxlen = r.pct(60) ? 8 : r.pct(70) ? 30 : 200; if (g.lensel == 3 && g.maxlen > 60) g.lensel = 4;
            if (g.p.regs > 3) g.nregs = g.p.regs = 3;
            init(45);
            u64 rounds = g.maxlen > 60 ? r.range(1, 6) : r.range(2, 40);
            std::vector<Op> body; nops = r.range(1, 8);
            if (r.pct(8)) { g.maxlen = 6; g.lensel = 1; nops = r.range(1, 2); rounds = r.range(100, r.pct(20) ? 1500 : 700); }
            { std::vector<Op> keep; keep.swap(g.p.ops);
              for (u64 i = 0; i < nops; ++i) {
                u64 x = r.below(100);
                if (x < 35) g.arith({ADDEQ, SUBEQ, ADD, SUB}, g.fault_pct);
                else if (x < 60) g.arith({MULEQ, MUL, DIVEQ, DIV, DIV}, g.fault_pct);
                else if (x < 72) { Op o = g.mk(r.pct(50) ? COPY : CCTOR); g.faults(o, g.fault_pct); push(o); }
                else if (x < 88) { static const int E[] = {PUSHB, PUSHF, PUSHAT, RESIZE, POPB, POPF, POPAT, CLEAR};
                    Op o = g.mk(E[r.below(8)]); o.pos = o.kind == RESIZE ? r.below(g.maxlen) : r.next(); o.dig = g.digit(); o.b = (int)r.below(2); g.faults(o, g.fault_pct); push(o); }
                else if (x < 91) { Op o = g.mk(SWAP); push(o); }
                else if (x < 94) { Op o = g.mk(CMP); push(o); }
                else g.lit(g.reg(), 45);
              }
              body.swap(g.p.ops); keep.swap(g.p.ops); }
            for (u64 k = 0; k < rounds; ++k) {
                for (auto& o : body) push(o);
                if (r.pct(40)) g.lit(g.reg(), 45);
                if (r.pct(20)) { Op o = g.mk(CLEAR); push(o); }
            }
            break;
        }
        case 20: {                                  // the transform, called directly
            g.sweep_pct = r.pct(30) ? 25 : 0; if (g.maxlen > 24) g.maxlen = 24;
            nops = r.range(2, 12);
            for (int i = 0; i < g.nregs; ++i) g.lit(i);
            for (u64 i = 0; i < nops; ++i) {
                if (r.pct(12)) { g.arith({MULEQ, MUL}, g.fault_pct * 2); continue; }
                xf(tier ? 12 : 11);
            }
            break;
        }
        case 21: {                                  // the stages of a process' life
            g.maxlen = r.pct(60) ? 12 : r.pct(80) ? 40 : 160; if (g.lensel == 3 && g.maxlen > 40) g.lensel = 4;
            if (g.fault_pct > 30) g.fault_pct = 30;
            const bool thread = r.pct(30);
            if (thread) g.fault_pct = 0;            // a thread may have memory of its own, which moves the points of failure
            auto stage = [&](int d) { Op o; o.kind = PHASE; o.d = d; push(o); };
            if (r.pct(85)) { init(45); segment(r.range(1, 6), true); }
            if (r.pct(50)) { stage(1); if (r.pct(50)) init(45); segment(r.range(1, 4), true); }
            if (thread) { stage(2); segment(r.range(1, 5), true); if (r.pct(50)) { stage(1); segment(r.range(1, 3), true); } }
            if (r.pct(30)) { stage(3); segment(r.range(1, 5), true); if (r.pct(30)) { stage(1); segment(r.range(1, 3), true); } }
            if (r.pct(40)) { stage(4); segment(r.range(1, 5), true); }
            if (r.pct(80)) { stage(5); if (r.pct(60)) init(45); segment(r.range(1, 6), true); }
            break;
        }
        case 22: {                                  // surroundings that must not matter
            g.maxlen = r.pct(60) ? 24 : r.pct(70) ? 80 : 400; if (g.lensel == 3 && g.maxlen > 80) g.lensel = 4;
            if (giant && r.pct(50)) { g.maxlen = 6000; g.lensel = 3; nops = 4; }
            auto envir = [&](int kind) { Op o; o.kind = ENVIR; o.d = kind; o.a = (int)r.below(8); o.pos = r.pct(30) ? r.below(5) : r.next() >> r.below(48); push(o); };
            u64 k = r.range(1, 4); bool all = r.pct(30);
            if (all) for (int i = 0; i < 8; ++i) envir(i); else while (k--) envir((int)r.below(8));
            init(45);
            for (u64 i = 0; i < nops; ++i) { if (r.pct(15)) envir((int)r.below(8)); segment(1, false); }
            break;
        }
        case 23: {                                  // operations that are entered again from the code they call
            g.maxlen = r.pct(60) ? 16 : r.pct(70) ? 60 : 300; if (g.lensel == 3 && g.maxlen > 60) g.lensel = 4;
            const unsigned fp = g.fault_pct; const bool sweeps = r.pct(20);
            auto inside = [&](int level, const Op& outer) {      // the operation pushed last becomes one inside outer
                Op& o = g.p.ops.back(); o.in = level;
                static const char K[] = "aaaarr";
                const bool dev = outer.kind == PRINT || outer.kind == DIAG || outer.kind == DIGIN || (outer.kind == IDXR || outer.kind == IDXW);
                o.at = dev && r.pct(85) ? 'd' : K[r.below(6)];
                o.atk = r.pct(60) ? r.range(1, 4) : r.pct(80) ? r.range(1, 16) : r.small(200) + 1;
            };
            init(45);
            for (int lv = 1; lv <= 2; ++lv) for (int i = 0; i < g.nregs; ++i) { g.lit(i, 45); g.p.ops.back().in = lv; g.p.ops.back().at = 's'; }
            for (u64 i = 0; i < nops; ++i) {
                g.sweep_pct = sweeps ? 10 : 0;
                segment(1, true); const Op outer = g.p.ops.back();
                g.sweep_pct = 0;
                for (u64 k = r.below(4); k--;) {
                    segment(1, true); inside(1, outer); const Op in = g.p.ops.back();
                    if (r.pct(25)) { segment(1, true); inside(2, in); }
                }
            }
            g.fault_pct = fp;
            break;
        }
        case 18: {                                  // digit input
            static const char* const K[] = {"b8", "b10", "b16", "u256", "u1000"};
            do g.p.inst = K[r.below(5)]; while (!instance_present(g.p.inst));
            for (auto& i : INST) if (g.p.inst == i.n) g.B = i.B;
            nops = r.range(1, 6);
            for (u64 i = 0; i < nops; ++i) {
                Op o = g.mk(DIGIN); u64 n = r.range(1, 12);
                for (u64 k = 0; k < n; ++k) o.digits.push_back(g.digit());
                o.sf = g.sfault(n * 3, true); o.dig = g.digit(); o.b = (int)r.below(3); o.pos = r.pct(40) ? 0 : r.range(1, 1 << 30);
                if (r.pct(20)) { AllocFault f; f.mode = 'f'; f.k = 1; f.exc = g.exc(); o.f.push_back(f); }
                push(o);
            }
            break;
        }
    }
    // once in a while a call that has been made very often before, with and without failures
    if (prop != 13 && prop != 18 && prop != 20 && !g.p.ops.empty() && r.below(prop == 21 ? 100 : prop == 11 || prop == 5 || prop == 6 ? 300 : 700) < 1) {
        static const u64 N[] = {40, 300, 1100, 5000, 70000, 70000};
        Op* o = &g.p.ops[r.below(g.p.ops.size())];
        for (int i = 0; i < 3 && o->kind > DIV; ++i) o = &g.p.ops[r.below(g.p.ops.size())];
        o->rep = N[r.below(6)];
        if (o->f.empty() && !o->sweep && o->kind <= DIV && r.pct(50)) o->f.push_back(g.fault());
    }
    return g.p;
}
