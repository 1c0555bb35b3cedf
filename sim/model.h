// Independent reference model: signed big integers plus the non-finite values.
#ifndef SIM_MODEL_H
#define SIM_MODEL_H
#include <vector>
#include <string>
#include "rng.h"
// Representation of a number as observed through the public API.
// desc: 0 POS, 1 NEG, 2 NAN, 3 POS_INF, 4 NEG_INF ; digits least significant first.
struct Rep {
    int desc = 0;
    std::vector<u64> d;
    bool operator==(const Rep& o) const { return desc == o.desc && d == o.d; }
    bool operator!=(const Rep& o) const { return !(*this == o); }
};
typedef std::vector<u64> Mag;
struct Val {                 // model value
    int kind = 0;            // 0 finite, 1 infinite, 2 NaN
    bool neg = false;        // sign (finite zero: always false)
    Mag m;                   // trimmed magnitude, base B digits
    bool operator==(const Val& o) const { return kind == o.kind && (kind == 2 || (neg == o.neg && m == o.m)); }
    bool operator!=(const Val& o) const { return !(*this == o); }
    bool zero() const { return kind == 0 && m.empty(); }
};
void mtrim(Mag& a);
int mcmp(const Mag& a, const Mag& b);
Mag madd(const Mag& a, const Mag& b, u64 B);
Mag msub(const Mag& a, const Mag& b, u64 B);     // a >= b
Mag mmul(const Mag& a, const Mag& b, u64 B);
Mag mdiv(const Mag& a, const Mag& b, u64 B);     // b != 0
u64 mmod(const Mag& a, u64 B, u64 q);
Val value_of(const Rep& r);
// finite operands only
Val vadd(const Val& a, const Val& b, u64 B);
Val vsub(const Val& a, const Val& b, u64 B);
Val vmul(const Val& a, const Val& b, u64 B);
Val vdiv(const Val& a, const Val& b, u64 B);     // b != 0, truncates toward zero
int vcmp(const Val& a, const Val& b);            // not NaN
std::string vstr(const Val& v, u64 B);
std::string rstr(const Rep& r);
bool padded(const Rep& r);                       // superfluous leading zero digit (a lone 0 is not)
#endif
