// Hilbert spaces deduced from expressions over opaque indices.
#include <libcommute/libcommute.hpp>
#include <memory>
#include <vector>
namespace lc = libcommute;
namespace vp {
struct Idx {
  int tag;
};
bool operator==(Idx const&, Idx const&);
bool operator!=(Idx const&, Idx const&);
bool operator<(Idx const&, Idx const&);
bool operator>(Idx const&, Idx const&);
std::string to_string(Idx const&);
using idx = lc::sv_index_type;

// A user-defined algebra
static constexpr int UID = 4;
template <typename... I> struct UG : lc::generator<I...> {
  using G = lc::generator<I...>;
  using linear_function_t = typename G::linear_function_t;
  explicit UG(I const&... i) : G(i...) {}
  UG(UG const&) = default;
  int algebra_id() const override { return UID; }
  lc::var_number swap_with(G const&, linear_function_t& f) const override {
    f.set(0);
    return 1;
  }
};
template <typename... I> struct US : lc::elementary_space<I...> {
  using ES = lc::elementary_space<I...>;
  int bits_;
  explicit US(int bits, std::tuple<I...> const& i) : ES(i), bits_(bits) {}
  std::unique_ptr<ES> clone() const override { return lc::make_unique<US>(*this); }
  int algebra_id() const override { return UID; }
  idx dim() const override { return idx(1) << bits_; }
  int n_bits() const override { return bits_; }
};
} // namespace vp
namespace libcommute {
template <> class es_constructor<vp::UID> {
  int bits_;

public:
  explicit es_constructor(int bits) : bits_(bits) {}
  template <typename... I> std::unique_ptr<elementary_space<I...>> operator()(generator<I...> const& g) const {
    return make_unique<vp::US<I...>>(bits_, g.indices());
  }
};
} // namespace libcommute
namespace vp {
#define EC(N, ...) using ec_##N = lc::es_constructor<__VA_ARGS__>;
EC(f, lc::fermion)
EC(b, lc::boson)
EC(s, lc::spin)
EC(fb, lc::fermion, lc::boson)
EC(fs, lc::fermion, lc::spin)
EC(bs, lc::boson, lc::spin)
EC(fbs, lc::fermion, lc::boson, lc::spin)
EC(fbsu, lc::fermion, lc::boson, lc::spin, UID)
EC(fu, lc::fermion, UID)
EC(bu, lc::boson, UID)

#define COMMON(K, ...)                                                                             \
  using G##K = lc::generator<__VA_ARGS__>;                                                         \
  using M##K = lc::monomial<__VA_ARGS__>;                                                          \
  using E##K = lc::expression<double, __VA_ARGS__>;                                                \
  using S##K = lc::elementary_space<__VA_ARGS__>;                                                  \
  using H##K = lc::hilbert_space<__VA_ARGS__>;                                                     \
  FUNCS(K)
#define FUNCS(K)                                                                                   \
  M##K m_make##K(std::vector<std::shared_ptr<const G##K>> const& v) { return M##K(v); }            \
  E##K ex_0##K() { return E##K(); }                                                                \
  E##K ex_m##K(M##K const& m) { return E##K(2.0, m); }                                             \
  E##K ex_add##K(E##K const& a, E##K const& b) { return a + b; }                                   \
  void seen_g##K(G##K const& g);                                                                   \
  void gens##K(E##K const& e) {                                                                    \
    for(auto const& t : e)                                                                         \
      for(auto const& g : t.monomial) seen_g##K(g);                                                \
  }                                                                                                \
  int g_alg##K(G##K const& g) { return g.algebra_id(); }                                           \
  int s_alg##K(S##K const& s) { return s.algebra_id(); }                                           \
  idx s_dim##K(S##K const& s) { return s.dim(); }                                                  \
  int s_bits##K(S##K const& s) { return s.n_bits(); }                                              \
  void seen_s##K(S##K const& s);                                                                   \
  void spaces##K(H##K const& h) {                                                                  \
    h.foreach_elementary_space([](S##K const& s) { seen_s##K(s); });                               \
  }                                                                                                \
  std::size_t h_size##K(H##K const& h) { return h.size(); }                                        \
  idx h_dim##K(H##K const& h) { return h.dim(); }                                                  \
  bool h_eq##K(H##K const& a, H##K const& b) { return a == b; }                                    \
  H##K h_def##K(E##K const& e, idx, int) { return H##K(e); }                                       \
  H##K h_defm##K(E##K const& e, idx, int) { return lc::make_hilbert_space(e); }                    \
  H##K h_defc##K(E##K const& e, idx, int) { return H##K(e, lc::default_es_constructor()); }        \
  H##K h_bos##K(E##K const& e, idx d, int) { return H##K(e, lc::boson_es_constructor(d)); }        \
  H##K h_bosm##K(E##K const& e, idx d, int) {                                                      \
    return lc::make_hilbert_space(e, lc::boson_es_constructor(d));                                 \
  }                                                                                                \
  H##K h_bosl##K(E##K const& e, idx d, int) {                                                      \
    lc::boson_es_constructor const c(d);                                                           \
    return lc::make_hilbert_space(e, c);                                                           \
  }                                                                                                \
  H##K h_bosc##K(E##K const& e, idx d, int) {                                                      \
    lc::boson_es_constructor c(d);                                                                 \
    lc::boson_es_constructor const c2(static_cast<lc::boson_es_constructor const&>(c));            \
    H##K first(e, c2);                                                                             \
    return H##K(e, c2);                                                                            \
  }                                                                                                \
  H##K h_f##K(E##K const& e, idx, int) { return H##K(e, ec_f()); }                                 \
  H##K h_b##K(E##K const& e, idx d, int) { return H##K(e, ec_b(d)); }                              \
  H##K h_s##K(E##K const& e, idx, int) { return H##K(e, ec_s()); }                                 \
  H##K h_fb##K(E##K const& e, idx d, int) { return H##K(e, ec_fb(d)); }                            \
  H##K h_fs##K(E##K const& e, idx, int) { return H##K(e, ec_fs()); }                               \
  H##K h_bs##K(E##K const& e, idx d, int) { return H##K(e, ec_bs(d)); }                            \
  H##K h_fbs##K(E##K const& e, idx d, int) { return H##K(e, ec_fbs(d)); }                          \
  H##K h_fbsu##K(E##K const& e, idx d, int u) { return H##K(e, ec_fbsu(d, u)); }                   \
  H##K h_fu##K(E##K const& e, idx, int u) { return H##K(e, ec_fu(u)); }                            \
  H##K h_bu##K(E##K const& e, idx d, int u) { return H##K(e, ec_bu(d, u)); }

COMMON(1, Idx)
COMMON(2, Idx, Idx)
using G0 = lc::generator<>;
using M0 = lc::monomial<>;
using E0 = lc::expression<double>;
using S0 = lc::elementary_space<>;
using H0 = lc::hilbert_space<>;
FUNCS(0)

lc::generator_fermion<Idx> mk_f1(bool d, Idx i) { return {d, i}; }
lc::generator_boson<Idx> mk_b1(bool d, Idx i) { return {d, i}; }
lc::generator_spin<Idx> mk_s1(double s, lc::spin_component c, Idx i) { return {s, c, i}; }
UG<Idx> mk_u1(Idx i) { return UG<Idx>(i); }
lc::generator_fermion<Idx, Idx> mk_f2(bool d, Idx i, Idx j) { return {d, i, j}; }
lc::generator_boson<Idx, Idx> mk_b2(bool d, Idx i, Idx j) { return {d, i, j}; }
lc::generator_spin<Idx, Idx> mk_s2(double s, lc::spin_component c, Idx i, Idx j) { return {s, c, i, j}; }
UG<Idx, Idx> mk_u2(Idx i, Idx j) { return UG<Idx, Idx>(i, j); }
lc::generator_fermion<> mk_f0(bool d) { return lc::generator_fermion<>(d); }
lc::generator_boson<> mk_b0(bool d) { return lc::generator_boson<>(d); }
lc::generator_spin<> mk_s0(double s, lc::spin_component c) { return {s, c}; }
UG<> mk_u0() { return UG<>(); }

Idx const& g_ia1(G1 const& g) { return std::get<0>(g.indices()); }
Idx const& g_ia2(G2 const& g) { return std::get<0>(g.indices()); }
Idx const& g_ib2(G2 const& g) { return std::get<1>(g.indices()); }
Idx const& s_ia1(S1 const& g) { return std::get<0>(g.indices()); }
Idx const& s_ia2(S2 const& g) { return std::get<0>(g.indices()); }
Idx const& s_ib2(S2 const& g) { return std::get<1>(g.indices()); }
int g_mult1(G1 const& g) { return static_cast<lc::generator_spin<Idx> const&>(g).multiplicity(); }
int g_mult2(G2 const& g) { return static_cast<lc::generator_spin<Idx, Idx> const&>(g).multiplicity(); }
int g_mult0(G0 const& g) { return static_cast<lc::generator_spin<> const&>(g).multiplicity(); }

// dimensions and widths
lc::elementary_space_boson<int> d_b(idx d) { return lc::elementary_space_boson<int>(d, 0); }
lc::elementary_space_spin<int> d_s(double s) { return lc::elementary_space_spin<int>(s, 0); }
lc::elementary_space_fermion<int> d_f() { return lc::elementary_space_fermion<int>(0); }
lc::elementary_space_boson<int> d_bm(idx d) { return lc::static_indices::make_space_boson(d, 0); }
lc::elementary_space_spin<int> d_sm(double s) { return lc::static_indices::make_space_spin(s, 0); }
lc::elementary_space_fermion<int> d_fm() { return lc::static_indices::make_space_fermion(0); }
using DI = lc::dynamic_indices::dyn_indices;
lc::elementary_space_boson<DI> d_bd(idx d) { return lc::dynamic_indices::make_space_boson(d, 0); }
lc::elementary_space_spin<DI> d_sd(double s) { return lc::dynamic_indices::make_space_spin(s, 0); }
lc::elementary_space_fermion<DI> d_fd() { return lc::dynamic_indices::make_space_fermion(0); }
std::unique_ptr<lc::elementary_space<int>> d_cl(lc::elementary_space<int> const& e) { return e.clone(); }
lc::elementary_space<int> const& d_of(std::unique_ptr<lc::elementary_space<int>> const& p) { return *p; }
idx d_dim(lc::elementary_space<int> const& e) { return e.dim(); }
int d_bits(lc::elementary_space<int> const& e) { return e.n_bits(); }
int d_alg(lc::elementary_space<int> const& e) { return e.algebra_id(); }
idx d_dimd(lc::elementary_space<DI> const& e) { return e.dim(); }
int d_bitsd(lc::elementary_space<DI> const& e) { return e.n_bits(); }
int d_algd(lc::elementary_space<DI> const& e) { return e.algebra_id(); }
} // namespace vp
