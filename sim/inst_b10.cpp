#include "machine_impl.h"
IMach* make_b10() { return new Mach<bignum_base10, bn_limits_base10>("b10"); }
