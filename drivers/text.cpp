// Instantiates everything that turns generators, products and expressions into text.
#include "expr.cpp"
#include <sstream>
namespace vp {
std::ostream& operator<<(std::ostream&, SA const&);
std::ostream& operator<<(std::ostream&, SN const&);
struct Jdx {
  int tag;
};
bool operator==(Jdx const&, Jdx const&);
bool operator!=(Jdx const&, Jdx const&);
bool operator<(Jdx const&, Jdx const&);
bool operator>(Jdx const&, Jdx const&);
std::string to_string(Jdx const&);
using DI = lc::dynamic_indices::dyn_indices_generic<Idx, Jdx>;
using DS = lc::dynamic_indices::dyn_indices;

std::string t_g(G const& g) { std::ostringstream os; os << g; return os.str(); }
std::string t_gs(G const& g) { return g.to_string(); }
std::string t_m(M const& m) { std::stringstream os; os << m; return os.str(); }
std::string t_m2(M const& m, M const& n) { std::stringstream os; os << m << ' ' << n; return os.str(); }
std::string t_SA(E<SA> const& e) { std::stringstream os; os << e; return os.str(); }
std::string t_SN(E<SN> const& e) { std::stringstream os; os << e; return os.str(); }
std::string t_SA2(E<SA> const& e, E<SA> const& f) { std::stringstream os; os << e << ", " << f; return os.str(); }

template <typename... I> using GG = lc::generator<I...>;
#define VP_TXT(SUF, ...) \
  lc::generator_fermion<__VA_ARGS__> x_f_##SUF(bool d, std::tuple<__VA_ARGS__> const& t) { return lc::generator_fermion<__VA_ARGS__>(d, t); } \
  lc::generator_boson<__VA_ARGS__> x_b_##SUF(bool d, std::tuple<__VA_ARGS__> const& t) { return lc::generator_boson<__VA_ARGS__>(d, t); } \
  lc::generator_spin<__VA_ARGS__> x_s_##SUF(double s, lc::spin_component c, std::tuple<__VA_ARGS__> const& t) { return lc::generator_spin<__VA_ARGS__>(s, c, t); } \
  std::string x_t_##SUF(lc::generator<__VA_ARGS__> const& g) { std::ostringstream os; os << g; return os.str(); }
VP_TXT(ij, Idx, Jdx)
VP_TXT(iji, Idx, Jdx, Idx)
VP_TXT(ssi, std::string, int, std::string)
VP_TXT(q4, Idx, Jdx, Idx, int)
VP_TXT(n, int)
VP_TXT(di, DI)
std::tuple<Idx, Jdx> x_mk_ij(Idx const& i, Jdx const& j) { return {i, j}; }
std::tuple<Idx, Jdx, Idx> x_mk_iji(Idx const& i, Jdx const& j, Idx const& k) { return {i, j, k}; }
std::tuple<std::string, int, std::string> x_mk_ssi(std::string const& i, int j, std::string const& k) { return {i, j, k}; }
std::tuple<Idx, Jdx, Idx, int> x_mk_q4(Idx const& i, Jdx const& j, Idx const& k, int l) { return {i, j, k, l}; }
std::tuple<int> x_mk_n(int j) { return {j}; }
std::tuple<DI> x_mk_di(DI const& d) { return std::tuple<DI>(d); }
std::string x_none_f(bool d) { std::ostringstream os; os << lc::generator_fermion<>(d); return os.str(); }

DI y_0() { return DI(); }
DI y_1i(Idx i) { return DI(i); }
DI y_1j(Jdx i) { return DI(i); }
DI y_2ij(Idx i, Jdx j) { return DI(i, j); }
DI y_3jij(Jdx a, Idx i, Jdx j) { return DI(a, i, j); }
DI y_4iiji(Idx a, Idx i, Jdx j, Idx k) { return DI(a, i, j, k); }
std::string y_t(DI const& d) { return to_string(d); }
std::string y_o(DI const& d) { std::ostringstream os; os << d; return os.str(); }
DS y_s(std::string const& s, int i, std::string const& t, int j) { return DS(s, i, t, j); }
std::string y_ts(DS const& d) { return to_string(d); }
} // namespace vp
