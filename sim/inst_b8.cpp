#include "machine_impl.h"
IMach* make_b8() { return new Mach<bignum_base8, bn_limits_base8>("b8"); }
