// One PRNG, seeded from one integer, decides everything in a run.
#ifndef SIM_RNG_H
#define SIM_RNG_H
#include <cstdint>
typedef uint64_t u64;
typedef uint32_t u32;
inline u64 mix64(u64 x) {
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
struct Rng {
    u64 s;
    explicit Rng(u64 seed) : s(mix64(seed ^ 0x5EEDBA5Eull)) {}
    u64 next() { s += 0x9E3779B97F4A7C15ull; u64 z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    u64 range(u64 lo, u64 hi) { return lo + below(hi - lo + 1); }
    bool pct(unsigned p) { return below(100) < p; }
    // small-biased integer in [1, hi]
    u64 small(u64 hi) { u64 bits = 0; while ((hi >> bits) > 1) ++bits;
        u64 b = below(bits + 1); u64 v = (1ull << b) + below(1ull << b);
        return v < 1 ? 1 : (v > hi ? 1 + below(hi) : v); }
};
inline u64 hash_add(u64 h, u64 v) { return mix64(h ^ (v + 0x9E37ull)) ; }
#endif
