#include "machine_impl.h"
IMach* make_b2() { return new Mach<bignum_base2, bn_limits_base2>("b2"); }
