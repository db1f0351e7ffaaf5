// Instantiates expression over opaque scalars and opaque indices.
#include "scalars.hpp"
namespace vp {
struct Idx {
  int tag;
};
bool operator==(Idx const&, Idx const&);
bool operator!=(Idx const&, Idx const&);
bool operator<(Idx const&, Idx const&);
bool operator>(Idx const&, Idx const&);
bool operator<=(Idx const&, Idx const&);
bool operator>=(Idx const&, Idx const&);
std::string to_string(Idx const&);
using G = lc::generator<Idx>;
using GF = lc::generator_fermion<Idx>;
using GB = lc::generator_boson<Idx>;
using GS = lc::generator_spin<Idx>;
using M = lc::monomial<Idx>;
using LF = G::linear_function_t;
template <typename S> using E = lc::expression<S, Idx>;

GF mk_f(bool d, Idx i) { return GF(d, i); }
GB mk_b(bool d, Idx i) { return GB(d, i); }
GS mk_s(lc::spin_component c, Idx i) { return GS(c, i); }
GS mk_ss(double s, lc::spin_component c, Idx i) { return GS(s, c, i); }
int s_mult(GS const& g) { return g.multiplicity(); }
lc::spin_component s_comp(GS const& g) { return g.component(); }
bool f_dag(GF const& g) { return g.dagger(); }
bool b_dag(GB const& g) { return g.dagger(); }
Idx const& g_idx(G const& g) { return std::get<0>(g.indices()); }
int g_alg(G const& g) { return g.algebra_id(); }
std::size_t m_size(M const& m) { return m.size(); }
G const& m_at(M const& m, std::size_t i) { return m[i]; }
M m_make(std::vector<std::shared_ptr<const G>> const& v) { return M(v); }
M m_cat(M const& a, M const& b) { return concatenate(a, b); }
bool m_ordered(M const& m) { return m.is_ordered(); }

// A user-defined algebra written against the documented extension interface:
//  kind 0: q-oscillator, a a+ = 2 a+ a + 3 (comp 0: a+, comp 1: a)
//  kind 1: X with X^3 = 3 X + 2; X_i commute
//  kind 2: P with P^2 = P on the same index; P_i commute
//  kind 3: two-dimensional non-abelian Lie algebra, y x = x y - x (x: comp 0, y: comp 1)
//  kind 4: y x = 0 * x y + x (comp 0: x, comp 1: y): exchange removed entirely
//  kind 5: commuting X (comp 0), Y (comp 1) with conj(X) = 2 + 4 Y, conj(Y) = X / 4 - 1/2
class UG : public G {
  int const id_, comp_;

public:
  UG(int id, int comp, Idx i) : G(i), id_(id), comp_(comp) {}
  UG(UG const&) = default;
  ~UG() override = default;
  int algebra_id() const override { return id_; }
  int comp() const { return comp_; }
  lc::var_number swap_with(G const& g2, LF& f) const override {
    UG const& o = dynamic_cast<UG const&>(g2);
    bool same = G::equal(g2);
    if(id_ == 0) {
      if(same) {
        f.set(3);
        return 2;
      }
    } else if(id_ == 3) {
      if(same) {
        f.set(0, o.shared_from_this(), -1);
        return 1;
      }
    } else if(id_ == 4) {
      if(same) {
        f.set(0, o.shared_from_this(), 1);
        return 0;
      }
    }
    f.set(0);
    return 1;
  }
  bool simplify_prod(G const& g2, LF& f) const override {
    if(id_ == 2 && *this == g2) {
      f.set(0, this->shared_from_this(), 1);
      return true;
    }
    return false;
  }
  bool reduce_power(int power, LF& f) const override {
    if(id_ == 1 && power == 3) {
      f.set(2, this->shared_from_this(), 3);
      return true;
    }
    return false;
  }
  void conj(LF& f) const override {
    if(id_ == 5) {
      auto other = std::make_shared<UG>(5, 1 - comp_, std::get<0>(this->indices()));
      if(comp_ == 0)
        f.set(2, other, 4);
      else
        f.set(-0.5, other, 0.25);
    } else
      G::conj(f);
  }

protected:
  bool equal(G const& g) const override {
    return comp_ == dynamic_cast<UG const&>(g).comp_ && G::equal(g);
  }
  bool less(G const& g) const override {
    UG const& o = dynamic_cast<UG const&>(g);
    if(comp_ != o.comp_) return comp_ < o.comp_;
    return G::less(g);
  }
  bool greater(G const& g) const override {
    UG const& o = dynamic_cast<UG const&>(g);
    if(comp_ != o.comp_) return comp_ > o.comp_;
    return G::greater(g);
  }
};
UG mk_u(int id, int comp, Idx i) { return UG(id, comp, i); }
int u_comp(UG const& g) { return g.comp(); }

#define VP_E(T) \
  E<T> e_new_##T() { return E<T>(); } \
  void e_put_##T(E<T>& e, M const& m, T const& s) { e.get_monomials().emplace(m, s); } \
  std::size_t e_size_##T(E<T> const& e) { return e.size(); } \
  M const& e_mon_##T(E<T> const& e, std::size_t i) { return std::next(e.get_monomials().begin(), i)->first; } \
  T const& e_coef_##T(E<T> const& e, std::size_t i) { return std::next(e.get_monomials().begin(), i)->second; } \
  T const& e_ref_##T(E<T>& e, std::size_t i) { return std::next(e.get_monomials().begin(), i)->second; } \
  E<T> e_const_##T(T const& x) { return E<T>(x); } \
  E<T> e_mono_##T(T const& x, M const& m) { return E<T>(x, m); } \
  bool e_eq_##T(E<T> const& a, E<T> const& b) { return a == b; } \
  bool e_ne_##T(E<T> const& a, E<T> const& b) { return a != b; }
VP_E(SA)
VP_E(SB)
VP_E(SC)
VP_E(SD)
VP_E(SN)
VP_E(SU)
#define VP_EBIN(L, R) \
  auto add_##L##_##R(E<L> const& a, E<R> const& b) { return a + b; } \
  auto sub_##L##_##R(E<L> const& a, E<R> const& b) { return a - b; } \
  auto mul_##L##_##R(E<L> const& a, E<R> const& b) { return a * b; }
#define VP_ECMP(L, R) \
  void adda_##L##_##R(E<L>& a, E<R> const& b) { a += b; } \
  void suba_##L##_##R(E<L>& a, E<R> const& b) { a -= b; } \
  void mula_##L##_##R(E<L>& a, E<R> const& b) { a *= b; }
VP_EBIN(SA, SA)
VP_EBIN(SA, SB)
VP_EBIN(SB, SA)
VP_EBIN(SA, SD)
VP_EBIN(SN, SN)
VP_ECMP(SA, SA)
VP_ECMP(SA, SD)
VP_ECMP(SN, SN)
void adda_SA_SC(E<SA>& a, E<SC> const& b) { a += b; }
void suba_SA_SC(E<SA>& a, E<SC> const& b) { a -= b; }
#define VP_SBIN(L, R) \
  auto sadd_##L##_##R(E<L> const& a, R const& b) { return a + b; } \
  auto ssub_##L##_##R(E<L> const& a, R const& b) { return a - b; } \
  auto smul_##L##_##R(E<L> const& a, R const& b) { return a * b; } \
  auto padd_##L##_##R(R const& b, E<L> const& a) { return b + a; } \
  auto psub_##L##_##R(R const& b, E<L> const& a) { return b - a; } \
  auto pmul_##L##_##R(R const& b, E<L> const& a) { return b * a; }
#define VP_SCMP(L, R) \
  void sadda_##L##_##R(E<L>& a, R const& b) { a += b; } \
  void ssuba_##L##_##R(E<L>& a, R const& b) { a -= b; } \
  void smula_##L##_##R(E<L>& a, R const& b) { a *= b; }
VP_SBIN(SA, SA)
VP_SBIN(SA, SB)
VP_SBIN(SA, SD)
VP_SBIN(SN, SN)
VP_SCMP(SA, SA)
VP_SCMP(SA, SD)
VP_SCMP(SA, SC)
VP_SCMP(SN, SN)
void asgself_SA(E<SA>& a, E<SA> const& b) { a = b; }
void asgself_SN(E<SN>& a, E<SN> const& b) { a = b; }
auto neg_SA(E<SA> const& a) { return -a; }
auto neg_SN(E<SN> const& a) { return -a; }
auto neg_SU(E<SU> const& a) { return -a; }
E<SA> conj_SA(E<SA> const& a) { return conj(a); }
E<SN> conj_SN(E<SN> const& a) { return conj(a); }
E<SA> hcadd_SA(E<SA> const& a) { return a + lc::hc; }
E<SA> hcsub_SA(E<SA> const& a) { return a - lc::hc; }
#define VP_CONV(T, F) \
  E<T> conv_##T##_##F(E<F> const& a) { return E<T>(a); } \
  void asg_##T##_##F(E<T>& t, E<F> const& a) { t = a; } \
  E<T> econst_##T##_##F(F const& a) { return E<T>(a); } \
  E<T> emono_##T##_##F(F const& a, M const& m) { return E<T>(a, m); }
VP_CONV(SA, SC)
VP_CONV(SC, SA)
VP_CONV(SB, SA)
VP_CONV(SA, SD)
E<SA> emono_SA_SA(SA const& a, M const& m) { return E<SA>(a, m); }
E<SN> emono_SN_SN(SN const& a, M const& m) { return E<SN>(a, m); }
struct TFun {
  int tag;
};
SB call_tf(M const&, SA const&);
E<SB> transform_SA_SB(E<SA> const& a) {
  return transform(a, [](M const& m, SA const& s) { return call_tf(m, s); });
}
// iteration interface
std::size_t it_count(E<SA> const& a) {
  std::size_t n = 0;
  for(auto const& x : a) {
    (void)x.coeff;
    ++n;
  }
  return n;
}
} // namespace vp
