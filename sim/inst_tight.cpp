#ifdef SIM_STUB
#include "machine.h"
IMach* make_t10() { return nullptr; }
IMach* make_tmed() { return nullptr; }
IMach* make_thigh() { return nullptr; }
#else
#include "machine_impl.h"
IMach* make_t10() { typedef bn_limits_base10 L; return new Mach<Bignum<L, TightVec<L::base_single>>, L>("t10", true); }
IMach* make_tmed() { typedef bn_limits_medp L; return new Mach<Bignum<L, TightVec<L::base_single>>, L>("tmed", true); }
IMach* make_thigh() { typedef bn_limits_highp L; return new Mach<Bignum<L, TightVec<L::base_single>>, L>("thigh", true); }
#endif
