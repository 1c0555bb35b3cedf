#include "machine_impl.h"
IMach* make_b16() { return new Mach<bignum_base16, bn_limits_base16>("b16"); }
