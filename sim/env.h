// C22: the same plan twice, each time in a process of its own forked from the same state: once in plain surroundings, once
// with everything around the library changed as the plan's ENVIR operations say. Both must give the same event log.
#include <cfenv>
#include <cerrno>
#include <locale>
namespace {
enum { ENV_FILL, ENV_PLACE, ENV_ROUND, ENV_FP, ENV_LOCALE, ENV_ERRNO, ENV_CLOCK, ENV_CONTEXT, ENV_KINDS };
}
extern const char* const ENV_NAMES[8] = {"contents of fresh memory", "placement of memory", "floating point rounding", "floating point traps and flags", "global locale", "errno", "clock, random numbers, identity", "calling context"};
namespace {
struct OddNumbers : std::numpunct<char> {
    char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\1"; }
    std::string do_truename() const override { return "yes"; } std::string do_falsename() const override { return "no"; }
};
bool g_env_other = false;                                       // this process is the one with other surroundings
void env_change(const Op& o) {
    if (!g_env_other) return;
    if (g_stats) __sync_fetch_and_add(&g_stats->surroundings[o.d % ENV_KINDS], 1);
    EnvState& e = g_env;
    switch (o.d % ENV_KINDS) {
        case ENV_FILL: e.fill = o.a % 5; e.noise = mix64(o.pos) | 1; break;
        case ENV_PLACE: e.place = o.a % 3; e.noise = mix64(o.pos) | 1; break;
        case ENV_ROUND: e.round = o.a % 4; break;
        case ENV_FP: e.flush = o.a & 1; e.traps = o.a >> 1 & 1; e.sticky = o.a >> 2 & 1; break;
        case ENV_LOCALE: std::locale::global(o.a % 3 == 0 ? std::locale::classic() : o.a % 3 == 1 ? std::locale(std::locale::classic(), new OddNumbers) : std::locale("")); break;
        case ENV_ERRNO: { static const int E[] = {0, ERANGE, EINTR, EAGAIN, ENOMEM, EDOM}; e.err = E[o.a % 6]; break; }
        case ENV_CLOCK: { static const u64 S[] = {1, 0, 1ull << 31, ~0ull}; e.clock = o.pos; e.step = S[o.a % 4]; e.rnd = mix64(o.pos); e.pid = (int)(o.pos & 0x7fff) + 1; e.var = o.a & 4 ? "1" : nullptr; break; }
        case ENV_CONTEXT: e.context = o.a % 4; break;
    }
}
// settings that must not reach the harness's own work, in force during one call
struct Surroundings {
    fenv_t old;
    Surroundings() {
        if (!g_env_other) return;
        static const int R[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
        fegetenv(&old); fesetround(R[g_env.round]);
        if (g_env.sticky) feraiseexcept(FE_ALL_EXCEPT); else feclearexcept(FE_ALL_EXCEPT);
#if defined(__x86_64__)
        if (g_env.flush) _mm_setcsr(_mm_getcsr() | 0x8040);
#endif
        if (g_env.traps) { if (!g_env.sticky) feenableexcept(FE_DIVBYZERO | FE_INVALID | FE_OVERFLOW); }
        errno = g_env.err;
    }
    ~Surroundings() { if (g_env_other) fesetenv(&old); }
};
struct AtEnd { const std::function<void()>& f; ~AtEnd() noexcept(false) { f(); } };
// the client calls from ordinary code, from a destructor while an exception is on its way, or from a handler
void in_context(const std::function<void()>& f) {
    struct Unrelated { int x; };
    switch (g_env_other ? g_env.context : 0) {
        case 1: try { AtEnd a{f}; throw Unrelated{1}; } catch (const Unrelated&) {} break;
        case 2: try { throw Unrelated{2}; } catch (const Unrelated&) { f(); } break;
        case 3: try { throw Unrelated{3}; } catch (const Unrelated&) { try { AtEnd a{f}; throw std::bad_alloc(); } catch (const std::bad_alloc&) {} } break;
        default: f();
    }
}
}
