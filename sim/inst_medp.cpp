#include "machine_impl.h"
IMach* make_medp() { return new Mach<bignum_medp, bn_limits_medp>("medp"); }
