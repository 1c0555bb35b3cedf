#include "machine_impl.h"
IMach* make_lowp() { return new Mach<bignum_lowp, bn_limits_lowp>("lowp"); }
