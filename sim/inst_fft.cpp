#include "machine.h"
#ifdef SIM_STUB
bool xform(const std::string&, int, int, std::vector<long double>&, std::vector<long double>&, const std::vector<u64>&, const std::vector<u64>&) { return false; }
#else
// The transform behind multiplication, called directly: it is a public header of its own.
#include "bignum/bignum.h"
#include "bignum/fourier.h"
template <class F> static void take(const cmplx_list_t<F>& x, std::vector<long double>& re, std::vector<long double>& im) {
    re.resize(x.size()); im.resize(x.size());
    for (size_t i = 0; i < x.size(); ++i) { re[i] = (long double)x[i].real(); im[i] = (long double)x[i].imag(); }
}
template <class F> static void lists(int op, std::vector<long double>& re, std::vector<long double>& im) {
    cmplx_list_t<F> x;
    for (size_t i = 0; i < re.size(); ++i) x.push_back(std::complex<F>((F)re[i], (F)im[i]));
    arm(); if (op != 1) fft_complex<F>(x); if (op != 0) ifft_complex<F>(x); disarm();
    take<F>(x, re, im);
}
template <class B, class F> static void packed(std::vector<long double>& re, std::vector<long double>& im, const std::vector<u64>& a, const std::vector<u64>& b, bool same) {
    typedef typename B::container_type C; typedef typename C::value_type V;
    C x, y; for (u64 v : a) x.push_back(V(v)); for (u64 v : b) y.push_back(V(v));
    cmplx_list_t<F> t;
    arm(); { cmplx_list_t<F> u = same ? create_fft_table<C, F>(x, x) : create_fft_table<C, F>(x, y); convolute_fft<F>(u); ifft_complex<F>(u); t.swap(u); } disarm();
    take<F>(t, re, im);
}
template <class B> static void packed_any(int flt, std::vector<long double>& re, std::vector<long double>& im, const std::vector<u64>& a, const std::vector<u64>& b, bool same) {
    if (flt == 2) packed<B, long double>(re, im, a, b, same); else packed<B, double>(re, im, a, b, same);
}
bool xform(const std::string& inst, int op, int flt, std::vector<long double>& re, std::vector<long double>& im, const std::vector<u64>& a, const std::vector<u64>& b) {
    if (op < 3) { if (flt == 1) lists<float>(op, re, im); else if (flt == 2) lists<long double>(op, re, im); else lists<double>(op, re, im); return true; }
    const bool same = op == 4;
    if (inst == "lowp") packed_any<bignum_lowp>(flt, re, im, a, b, same);
    else if (inst == "medp") packed_any<bignum_medp>(flt, re, im, a, b, same);
    else if (inst == "b2") packed_any<bignum_base2>(flt, re, im, a, b, same);
    else if (inst == "b8") packed_any<bignum_base8>(flt, re, im, a, b, same);
    else if (inst == "b16") packed_any<bignum_base16>(flt, re, im, a, b, same);
    else packed_any<bignum_base10>(flt, re, im, a, b, same);
    return true;
}
#endif
