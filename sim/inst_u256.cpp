#ifdef SIM_STUB
#include "machine.h"
IMach* make_u256() { return nullptr; }
#else
// A user-defined base, declared the way the repository's compression test declares its base 256.
#include "machine_impl.h"
typedef BNIntType<BN_UINT16, 256> sim256;
template <> constexpr bn_u64_t bn_min_limit<sim256>() { return 0; }
template <> constexpr bn_u64_t bn_max_limit<sim256>() { return 255; }
typedef BNLimitsType<sim256, sim256> lim256;
IMach* make_u256() { return new Mach<Bignum<lim256, bn_default_container_t<sim256>>, lim256>("u256"); }
#endif
