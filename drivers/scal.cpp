// Zero tests and conjugation of every supported coefficient type.
#include <libcommute/libcommute.hpp>
#include <libcommute/scalars/boost_rational.hpp>
#include <libcommute/scalars/gmpxx.hpp>
#include <complex>
namespace lc = libcommute;
namespace vp {
#define VP_S(NAME, ...) \
  bool z_##NAME(__VA_ARGS__ const& x) { return lc::scalar_traits<__VA_ARGS__>::is_zero(x); } \
  __VA_ARGS__ c_##NAME(__VA_ARGS__ const& x) { return lc::scalar_traits<__VA_ARGS__>::conj(x); }
VP_S(short, short)
VP_S(schar, signed char)
VP_S(int, int)
VP_S(uint, unsigned int)
VP_S(long, long)
VP_S(llong, long long)
VP_S(ulong, unsigned long)
VP_S(float, float)
VP_S(double, double)
VP_S(ldouble, long double)
VP_S(cfloat, std::complex<float>)
VP_S(cdouble, std::complex<double>)
VP_S(cldouble, std::complex<long double>)
VP_S(rint, boost::rational<int>)
VP_S(rlong, boost::rational<long>)
VP_S(mpz, mpz_class)
VP_S(mpq, mpq_class)
VP_S(mpf, mpf_class)
bool z_vn_i(int i) { return lc::var_number(i).is_zero(); }
bool z_vn_r(int n, int d) { return lc::var_number(n, d).is_zero(); }
bool z_vn_x(double x) { return lc::var_number(x).is_zero(); }
} // namespace vp
