#ifdef SIM_STUB
#include "machine.h"
IMach* make_dq10() { return nullptr; }
#else
#include "machine_impl.h"
// the general exchange would move, and moving a deque may allocate
typedef ReserveDeque<bn_limits_base10::base_single> Deque10;
namespace std { template <> inline void swap<Deque10>(Deque10& a, Deque10& b) noexcept { static_cast<std::deque<bn_limits_base10::base_single>&>(a).swap(b); } }
IMach* make_dq10() { typedef bn_limits_base10 L; return new Mach<Bignum<L, ReserveDeque<L::base_single>>, L>("dq10", false, true); }
#endif
