#ifdef SIM_STUB
#include "machine.h"
IMach* make_d10() { return nullptr; }
IMach* make_dhigh() { return nullptr; }
#else
// The documented BN_DEBUG configuration. Limits and containers of its own keep these template
// instantiations apart from those of the default configuration.
#define BN_DEBUG
#include "machine_impl.h"
template <class T>
struct DebugVec : public std::vector<T> {
    using std::vector<T>::vector;
    DebugVec() {}
    DebugVec(const DebugVec&) = default;
    DebugVec(DebugVec&&) = default;
    DebugVec& operator=(const DebugVec&) = default;
    DebugVec& operator=(DebugVec&&) = default;
    DebugVec& operator=(std::initializer_list<T> l) { std::vector<T>::operator=(l); return *this; }
};
struct debug10 : bn_limits_base10 {};
struct debughigh : bn_limits_highp {};
IMach* make_d10() { return new Mach<Bignum<debug10, DebugVec<debug10::base_single>>, debug10>("d10"); }
IMach* make_dhigh() { return new Mach<Bignum<debughigh, DebugVec<debughigh::base_single>>, debughigh>("dhigh"); }
#endif
