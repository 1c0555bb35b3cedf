#include "model.h"
#include <sstream>
void mtrim(Mag& a) { while (!a.empty() && a.back() == 0) a.pop_back(); }
int mcmp(const Mag& a, const Mag& b) {
    if (a.size() != b.size()) return a.size() < b.size() ? -1 : 1;
    for (size_t i = a.size(); i-- > 0;) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
    return 0;
}
Mag madd(const Mag& a, const Mag& b, u64 B) {
    Mag r; u64 c = 0;
    for (size_t i = 0; i < a.size() || i < b.size() || c; ++i) {
        u64 s = c + (i < a.size() ? a[i] : 0) + (i < b.size() ? b[i] : 0);
        r.push_back(s % B); c = s / B;
    }
    mtrim(r); return r;
}
Mag msub(const Mag& a, const Mag& b, u64 B) {
    Mag r; u64 br = 0;
    for (size_t i = 0; i < a.size(); ++i) {
        u64 x = a[i], y = (i < b.size() ? b[i] : 0) + br;
        if (x >= y) { r.push_back(x - y); br = 0; } else { r.push_back(x + B - y); br = 1; }
    }
    mtrim(r); return r;
}
Mag mmul(const Mag& a, const Mag& b, u64 B) {
    if (a.empty() || b.empty()) return Mag();
    Mag r(a.size() + b.size(), 0);
    for (size_t i = 0; i < a.size(); ++i) {
        u64 c = 0;
        for (size_t j = 0; j < b.size(); ++j) {
            u64 t = a[i] * b[j] + r[i + j] + c;      // < 2^64 for B <= 2^32
            r[i + j] = t % B; c = t / B;
        }
        r[i + b.size()] += c;
    }
    mtrim(r); return r;
}
static Mag mulsmall(const Mag& a, u64 q, u64 B) { return q ? mmul(a, Mag(1, q), B) : Mag(); }
Mag mdiv(const Mag& a, const Mag& b, u64 B) {
    Mag q(a.size(), 0), rem;
    for (size_t i = a.size(); i-- > 0;) {
        rem.insert(rem.begin(), a[i]); mtrim(rem);
        if (mcmp(rem, b) < 0) continue;
        u64 lo = 1, hi = B - 1;                       // largest q with q*b <= rem
        while (lo < hi) {
            u64 mid = lo + (hi - lo + 1) / 2;
            if (mcmp(mulsmall(b, mid, B), rem) <= 0) lo = mid; else hi = mid - 1;
        }
        q[i] = lo; rem = msub(rem, mulsmall(b, lo, B), B);
    }
    mtrim(q); return q;
}
u64 mmod(const Mag& a, u64 B, u64 q) { unsigned __int128 r = 0; for (size_t i = a.size(); i-- > 0;) r = (r * B + a[i]) % q; return (u64)r; }
Val value_of(const Rep& r) {
    Val v;
    if (r.desc == 2) { v.kind = 2; return v; }
    if (r.desc == 3 || r.desc == 4) { v.kind = 1; v.neg = r.desc == 4; return v; }
    v.m = r.d; mtrim(v.m); v.neg = r.desc == 1 && !v.m.empty();
    return v;
}
static Val mk(bool neg, Mag m) { Val v; v.m = m; v.neg = neg && !m.empty(); return v; }
Val vadd(const Val& a, const Val& b, u64 B) {
    if (a.neg == b.neg) return mk(a.neg, madd(a.m, b.m, B));
    int c = mcmp(a.m, b.m);
    if (c >= 0) return mk(a.neg, msub(a.m, b.m, B));
    return mk(b.neg, msub(b.m, a.m, B));
}
Val vsub(const Val& a, const Val& b, u64 B) { Val n = b; n.neg = !b.neg && !b.m.empty(); return vadd(a, n, B); }
Val vmul(const Val& a, const Val& b, u64 B) { return mk(a.neg != b.neg, mmul(a.m, b.m, B)); }
Val vdiv(const Val& a, const Val& b, u64 B) { return mk(a.neg != b.neg, mdiv(a.m, b.m, B)); }
int vcmp(const Val& a, const Val& b) {
    int ra = a.kind == 1 ? (a.neg ? -1 : 1) : 0, rb = b.kind == 1 ? (b.neg ? -1 : 1) : 0;
    if (ra || rb) return ra < rb ? -1 : ra > rb ? 1 : 0;
    if (a.neg != b.neg) return a.neg ? -1 : 1;
    int c = mcmp(a.m, b.m); return a.neg ? -c : c;
}
static std::string digs(const std::vector<u64>& d) {
    std::ostringstream o; o << "[";
    for (size_t i = d.size(); i-- > 0;) { o << d[i]; if (i) o << ' '; }
    o << "]"; return o.str();
}
std::string vstr(const Val& v, u64 B) {
    if (v.kind == 2) return "NaN";
    if (v.kind == 1) return v.neg ? "-INF" : "+INF";
    std::ostringstream o; o << (v.neg ? "-" : "") << digs(v.m) << "_" << B; return o.str();
}
std::string rstr(const Rep& r) {
    static const char* n[] = {"+", "-", "NaN", "+INF", "-INF"};
    return std::string(r.desc >= 0 && r.desc < 5 ? n[r.desc] : "?") + digs(r.d);
}
bool padded(const Rep& r) { return r.d.size() > 1 && r.d.back() == 0; }
