// Instantiates the factory functions over opaque movable indices.
#include <libcommute/libcommute.hpp>
#include <complex>
#include <string>
namespace lc = libcommute;
namespace st = libcommute::static_indices;
namespace dy = libcommute::dynamic_indices;
namespace vp {
struct Idx {
  int tag;
};
bool operator==(Idx const&, Idx const&);
bool operator!=(Idx const&, Idx const&);
bool operator<(Idx const&, Idx const&);
bool operator>(Idx const&, Idx const&);
std::string to_string(Idx const&);
struct Jdx {
  int tag;
};
bool operator==(Jdx const&, Jdx const&);
bool operator!=(Jdx const&, Jdx const&);
bool operator<(Jdx const&, Jdx const&);
bool operator>(Jdx const&, Jdx const&);
std::string to_string(Jdx const&);
using C = std::complex<double>;
using dyn = dy::dyn_indices;

// access to the terms of a result
template <typename E> std::size_t size(E const& e) { return e.size(); }
template <typename E> auto const& mon(E const& e, std::size_t i) { return std::next(e.get_monomials().begin(), i)->first; }
template <typename E> auto const& coef(E const& e, std::size_t i) { return std::next(e.get_monomials().begin(), i)->second; }

#define VP_ACC(SUF, S, ...) \
  using E_##SUF = lc::expression<S, __VA_ARGS__>; \
  using G_##SUF = lc::generator<__VA_ARGS__>; \
  std::size_t e_size_##SUF(E_##SUF const& e) { return e.size(); } \
  E_##SUF::monomial_t const& e_mon_##SUF(E_##SUF const& e, std::size_t i) { return std::next(e.get_monomials().begin(), i)->first; } \
  S const& e_coef_##SUF(E_##SUF const& e, std::size_t i) { return std::next(e.get_monomials().begin(), i)->second; } \
  std::size_t m_size_##SUF(E_##SUF::monomial_t const& m) { return m.size(); } \
  G_##SUF const& m_at_##SUF(E_##SUF::monomial_t const& m, std::size_t i) { return m[i]; } \
  int g_alg_##SUF(G_##SUF const& g) { return g.algebra_id(); } \
  int g_fdag_##SUF(G_##SUF const& g) { return static_cast<lc::generator_fermion<__VA_ARGS__> const&>(g).dagger(); } \
  int g_bdag_##SUF(G_##SUF const& g) { return static_cast<lc::generator_boson<__VA_ARGS__> const&>(g).dagger(); } \
  int g_mult_##SUF(G_##SUF const& g) { return static_cast<lc::generator_spin<__VA_ARGS__> const&>(g).multiplicity(); } \
  int g_comp_##SUF(G_##SUF const& g) { return static_cast<lc::generator_spin<__VA_ARGS__> const&>(g).component(); } \
  std::tuple<__VA_ARGS__> const& g_ind_##SUF(G_##SUF const& g) { return g.indices(); }
VP_ACC(d1, double, Idx)
VP_ACC(d2, double, Idx, Jdx)
VP_ACC(ds, double, std::string, int)
VP_ACC(c1, C, Idx)
VP_ACC(c2, C, Idx, Jdx)
VP_ACC(cs, C, std::string, int)
VP_ACC(dd, double, dyn)
VP_ACC(cd, C, dyn)
dyn::indices_t const& d_ind(dyn const& d) { return static_cast<dyn::indices_t const&>(d); }
std::size_t v_which(dyn::indices_t const& v, std::size_t i) { return v[i].index(); }
int v_int(dyn::indices_t const& v, std::size_t i) { return std::get<int>(v[i]); }
std::string const& v_str(dyn::indices_t const& v, std::size_t i) { return std::get<std::string>(v[i]); }
std::size_t v_size(dyn::indices_t const& v) { return v.size(); }

// every operator with statically typed and dynamic indices, indices passed as
// lvalues, rvalues and string literals; real and complex coefficients
#define VP_CALLS(N, F, CF) \
  auto N##_l1(Idx const& i) { return st::F(i); } \
  auto N##_r1(Idx&& i) { return st::F(std::move(i)); } \
  auto N##_l2(Idx& i, Jdx const& j) { return st::F(i, j); } \
  auto N##_r2(Idx&& i, Jdx&& j) { return st::F(std::move(i), std::move(j)); } \
  auto N##_ls(int k) { return st::F("lit", k); } \
  auto N##_rs(std::string&& s, int k) { return st::F(std::move(s), k); } \
  auto N##_d0() { return dy::F(); } \
  auto N##_d1(int k) { return dy::F(k); } \
  auto N##_ds(std::string&& s) { return dy::F(std::move(s)); } \
  auto N##_dl(std::string const& s, int k) { return dy::F(s, k); } \
  auto N##_dr(std::string&& s, int k, std::string&& t) { return dy::F(std::move(s), k, std::move(t)); } \
  auto N##_dc(int k) { return dy::F(k, "lit"); } \
  auto N##_c1(Idx const& i) { return st::CF(i); } \
  auto N##_cr(Idx&& i, Jdx&& j) { return st::CF(std::move(i), std::move(j)); } \
  auto N##_cd(std::string&& s, int k) { return dy::CF(std::move(s), k); }
VP_CALLS(c_dag, c_dag, c_dag<C>)
VP_CALLS(c, c, c<C>)
VP_CALLS(n, n, n<C>)
VP_CALLS(a_dag, a_dag, a_dag<C>)
VP_CALLS(a, a, a<C>)
VP_CALLS(S_p, S_p, S_p<C>)
VP_CALLS(S_m, S_m, S_m<C>)
VP_CALLS(S_z, S_z, S_z<C>)
#define COMMA ,
#define VP_SPIN(M) \
  VP_CALLS(S_p##M, S_p<M>, S_p<M COMMA C>) \
  VP_CALLS(S_m##M, S_m<M>, S_m<M COMMA C>) \
  VP_CALLS(S_z##M, S_z<M>, S_z<M COMMA C>) \
  VP_CALLS(S_x##M, S_x<M>, S_x<M>) \
  VP_CALLS(S_y##M, S_y<M>, S_y<M>)
VP_CALLS(S_x, S_x, S_x)
VP_CALLS(S_y, S_y, S_y)
VP_SPIN(2)
VP_SPIN(3)
VP_SPIN(4)
VP_SPIN(5)

#define VP_MK(NS, SUF, I1, I2, ARGS) \
  auto mkf_##SUF(bool d, I1 i, I2 j) { return NS::make_fermion(d, ARGS); } \
  auto mkb_##SUF(bool d, I1 i, I2 j) { return NS::make_boson(d, ARGS); } \
  auto mks_##SUF(lc::spin_component c, I1 i, I2 j) { return NS::make_spin(c, ARGS); } \
  auto mkss_##SUF(double s, lc::spin_component c, I1 i, I2 j) { return NS::make_spin(s, c, ARGS); }
#define PASS i, j
#define MOVE std::move(i), std::move(j)
VP_MK(st, sl, Idx const&, Jdx const&, PASS)
VP_MK(st, sr, Idx&&, Jdx&&, MOVE)
VP_MK(dy, dl, std::string const&, int, PASS)
VP_MK(dy, dr, std::string&&, int, MOVE)

auto mc_s(lc::expression<double, Idx> const& e) { return st::make_complex(e); }
auto mc_d(lc::expression<double, dyn> const& e) { return dy::make_complex(e); }
} // namespace vp
