// Constants of every kind converted into every supported coefficient type.
#include <libcommute/libcommute.hpp>
#include <libcommute/scalars/boost_rational.hpp>
#include <libcommute/scalars/gmpxx.hpp>
#include <complex>
#include <sstream>
#include <string>
namespace lc = libcommute;
namespace vp {
using vn = lc::var_number;
vn mk_i(int i) { return vn(i); }
vn mk_r(int n, int d) { return vn(n, d); }
vn mk_x(double x) { return vn(x); }
vn mk_copy(vn const& a) { return vn(a); }
vn mk_assign(vn const& a, vn const& b) {
  vn c(a);
  c = b;
  return c;
}
bool eq(vn const& a, vn const& b) { return a == b; }
bool ne(vn const& a, vn const& b) { return a != b; }
bool is_zero(vn const& a) { return a.is_zero(); }
int kind(vn const& a) { return a.number_type; }
double to_double(vn const& a) { return double(a); }
int to_int(vn const& a) { return int(a); }
int num(vn const& a) { return a.numerator(); }
int den(vn const& a) { return a.denominator(); }
void print(std::ostream& os, vn const& a) { os << a; }

#define VP_S(NAME, S) \
  S NAME##_x(double x) { return lc::scalar_traits<S>::make_const(x); } \
  S NAME##_v(vn const& v) { return lc::scalar_traits<S>::make_const(v); }
#define VP_E(NAME, S) \
  VP_S(NAME, S) \
  S NAME##_e(vn const& v) { return lc::expression<S, int>(lc::linear_function<std::unique_ptr<lc::generator<int>>>(v)).get_monomials().begin()->second; }
VP_S(short, short)
VP_S(int, int)
VP_S(uint, unsigned int)
VP_S(long, long)
VP_S(llong, long long)
VP_S(ulong, unsigned long)
VP_S(float, float)
VP_S(double, double)
VP_S(ldouble, long double)
VP_S(cfloat, std::complex<float>)
VP_S(cdouble, std::complex<double>)
VP_S(cldouble, std::complex<long double>)
VP_S(rint, boost::rational<int>)
VP_S(rlong, boost::rational<long>)
VP_S(mpz, mpz_class)
VP_S(mpq, mpq_class)
VP_S(mpf, mpf_class)
} // namespace vp
