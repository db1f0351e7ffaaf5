// Operators made of opaque terms applied to opaque vectors.
#include "scalars.hpp"
#include <memory>
#include <utility>
#include <vector>
namespace vp {
struct Idx {
  int tag;
};
bool operator==(Idx const&, Idx const&);
bool operator!=(Idx const&, Idx const&);
bool operator<(Idx const&, Idx const&);
bool operator>(Idx const&, Idx const&);
bool operator<=(Idx const&, Idx const&);
bool operator>=(Idx const&, Idx const&);
std::string to_string(Idx const&);
using idx = lc::sv_index_type;
using G = lc::generator<Idx>;
using M = lc::monomial<Idx>;
using HS = lc::hilbert_space<Idx>;

// a user-defined algebra; the action of its products is opaque
class UG : public G {
  int const comp_;

public:
  UG(int comp, Idx i) : G(i), comp_(comp) {}
  UG(UG const&) = default;
  ~UG() override = default;
  int algebra_id() const override { return 7; }
  int comp() const { return comp_; }
  lc::var_number swap_with(G const&, linear_function_t& f) const override {
    f.set(0);
    return 1;
  }

protected:
  bool equal(G const& g) const override { return comp_ == dynamic_cast<UG const&>(g).comp_ && G::equal(g); }
  bool less(G const& g) const override { return comp_ < dynamic_cast<UG const&>(g).comp_; }
  bool greater(G const& g) const override { return comp_ > dynamic_cast<UG const&>(g).comp_; }
};
bool act_hook(int id, idx& i, SA& c);

// an opaque argument and opaque coefficient functors
#define VP_ARG(T)    \
  struct T {         \
    int tag;         \
    T(T const&);     \
    T(T&&) noexcept; \
    ~T();            \
  }
VP_ARG(Arg);
struct FN {
  int id;
  SA operator()() const;
  SA operator()(Arg) const;
  SA operator()(Arg, Arg) const;
};
bool operator==(FN const&, FN const&);
bool operator!=(FN const&, FN const&);
// opaque vectors
template <typename T> struct SV {
  int tag;
  SV(SV const&);
  SV(SV&&) noexcept;
  ~SV();
};
} // namespace vp
namespace libcommute {
template <> class monomial_action<7> {
  int id_;

public:
  template <typename... I>
  monomial_action(detail::monomial_range_t<I...> const& r, hilbert_space<I...> const&)
    : id_(r.first == r.second ? -1 : dynamic_cast<vp::UG const&>(*r.first).comp()) {}
  bool act(sv_index_type& i, vp::SA& c) const { return vp::act_hook(id_, i, c); }
};
template <> struct scalar_traits<vp::FN> {
  static bool is_zero(vp::FN const&) { return false; }
  static vp::FN make_const(double);
  static vp::FN make_const(var_number const&);
  static vp::FN conj(vp::FN const&);
};
template <typename T> struct element_type<vp::SV<T>> {
  using type = T;
};
} // namespace libcommute
namespace vp {
template <typename T> struct Source {
  static std::size_t n(SV<T> const& s);
  static idx at(SV<T> const& s, std::size_t i);
  static T amp(SV<T> const& s, std::size_t i);
};
#define VP_SV(T)                                                                     \
  void sv_zero_##T(SV<T>&);                                                          \
  SV<T> sv_like_##T(SV<T> const&);                                                   \
  std::size_t sv_n_##T(SV<T> const&);                                                \
  idx sv_at_##T(SV<T> const&, std::size_t);                                          \
  T sv_amp_##T(SV<T> const&, std::size_t);                                           \
  inline void set_zeros(SV<T>& v) { sv_zero_##T(v); }                                \
  inline SV<T> zeros_like(SV<T> const& v) { return sv_like_##T(v); }                 \
  template <typename F> inline void foreach(SV<T> const& v, F&& f) {                 \
    for(std::size_t i = 0; i < sv_n_##T(v); ++i) f(sv_at_##T(v, i), sv_amp_##T(v, i)); \
  }
VP_SV(SA)
VP_SV(SB)
VP_SV(SC)
void sv_add(SV<SA>&, idx, SA const&);
void sv_add(SV<SC>&, idx, SC const&);
inline void update_add_element(SV<SA>& v, idx n, SA const& x) { sv_add(v, n, x); }
inline void update_add_element(SV<SC>& v, idx n, SC const& x) { sv_add(v, n, x); }
// a light-weight view: passed by value or as a temporary
struct View {
  SV<SA>* v;
};
} // namespace vp
namespace libcommute {
template <> struct element_type<vp::View> {
  using type = vp::SA;
};
} // namespace libcommute
namespace vp {
inline void set_zeros(View& v) { set_zeros(*v.v); }
inline void update_add_element(View& v, idx n, SA const& x) { sv_add(*v.v, n, x); }
template <typename F> inline void foreach(View const& v, F&& f) { foreach(*v.v, std::forward<F>(f)); }

using L = lc::loperator<SA, 7>;
using PL = lc::parametric_loperator<FN, 7>;
using EA = lc::expression<SA, Idx>;
using EF = lc::expression<FN, Idx>;
using VA = SV<SA>;

UG mk_u(int comp, Idx i) { return UG(comp, i); }
M m_make(std::vector<std::shared_ptr<const G>> const& v) { return M(v); }
EA ea() { return EA(); }
void ea_put(EA& e, M const& m, SA const& s) { e.get_monomials().emplace(m, s); }
EF ef() { return EF(); }
void ef_put(EF& e, M const& m, int id) { e.get_monomials().emplace(m, FN{id}); }
HS hs0() { return HS(); }
L lop(EA const& e, HS const& h) { return L(e, h); }
L lop0() { return L(); }
PL plop(EF const& e, HS const& h) { return PL(e, h); }
L lcopy(L const& l) { return l; }

VA l_ret(L const& l, VA const& s) { return l(s); }
VA l_mul(L const& l, VA const& s) { return l * s; }
void l_out(L const& l, VA const& s, VA& d) { l(s, d); }
void l_out_nc(L const& l, VA& s, VA& d) { l(s, d); }
void l_out_mv(L const& l, VA& s, VA& d) { l(std::move(s), d); }
void l_view(L const& l, VA& s, VA& d) { l(View{&s}, View{&d}); }
void l_view2(L const& l, VA& s, VA& d) {
  View a{&s};
  View b{&d};
  l(a, b);
}
void l_mix(L const& l, SV<SB> const& s, SV<SC>& d) { l(s, d); }
// two applications in a row
void l_twice(L const& l, VA const& s, VA const& s2, VA& d) {
  l(s, d);
  l(s2, d);
}
VA l_def(VA const& s) { return L()(s); }

VA p_ret0(PL const& l, VA const& s) { return l(s); }
VA p_ret1(PL const& l, VA const& s, Arg const& a) { return l(s, a); }
VA p_ret1m(PL const& l, VA const& s, Arg& a) { return l(s, std::move(a)); }
VA p_ret2(PL const& l, VA const& s, Arg const& a, Arg& b) { return l(s, a, std::move(b)); }
void p_out0(PL const& l, VA const& s, VA& d) { l(s, d); }
void p_out1(PL const& l, VA const& s, VA& d, Arg const& a) { l(s, d, a); }
void p_out1m(PL const& l, VA const& s, VA& d, Arg& a) { l(s, d, std::move(a)); }
void p_out2(PL const& l, VA const& s, VA& d, Arg& a, Arg const& b) { l(s, d, std::move(a), b); }
using SAV = std::vector<SA>;
void p_st0(PL const& l, VA const& s, VA& d, SAV& c) { l.act_and_store_coeffs(s, d, c); }
void p_st1(PL const& l, VA const& s, VA& d, SAV& c, Arg const& a) { l.act_and_store_coeffs(s, d, c, a); }
void p_st1m(PL const& l, VA const& s, VA& d, SAV& c, Arg& a) { l.act_and_store_coeffs(s, d, c, std::move(a)); }
void p_st2(PL const& l, VA const& s, VA& d, SAV& c, Arg& a, Arg& b) { l.act_and_store_coeffs(s, d, c, std::move(a), std::move(b)); }
SAV sav0() { return {}; }
void sav_push(SAV& v, SA const& s) { v.push_back(s); }
std::size_t sav_n(SAV const& v) { return v.size(); }
SA const& sav_at(SAV const& v, std::size_t i) { return v[i]; }
L p_at0(PL const& l) { return l.at(); }
L p_at1(PL const& l, Arg const& a) { return l.at(a); }
L p_at1m(PL const& l, Arg& a) { return l.at(std::move(a)); }
L p_at2(PL const& l, Arg& a, Arg& b) { return l.at(std::move(a), std::move(b)); }
} // namespace vp
