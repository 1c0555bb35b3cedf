#include "machine_impl.h"
IMach* make_highp() { return new Mach<bignum_highp, bn_limits_highp>("highp"); }
