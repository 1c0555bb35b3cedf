#ifdef SIM_STUB
#include "machine.h"
IMach* make_u1000() { return nullptr; }
#else
// Another user-defined base ("arbitrarily large numbers of any numerical base").
#include "machine_impl.h"
typedef BNIntType<BN_UINT32, 1000> sim1000;
template <> constexpr bn_u64_t bn_min_limit<sim1000>() { return 0; }
template <> constexpr bn_u64_t bn_max_limit<sim1000>() { return 999; }
typedef BNLimitsType<sim1000, sim1000> lim1000;
IMach* make_u1000() { return new Mach<Bignum<lim1000, bn_default_container_t<sim1000>>, lim1000>("u1000"); }
#endif
