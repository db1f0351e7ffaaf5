// Instantiates generators, monomials and elementary spaces over abstract
// index types. Never compiled into a program or run: parsed only.
#include <libcommute/libcommute.hpp>
namespace lc = libcommute;
namespace vp {
// totally ordered, otherwise opaque index type
struct Idx {
  int tag;
};
bool operator==(Idx const&, Idx const&);
bool operator!=(Idx const&, Idx const&);
bool operator<(Idx const&, Idx const&);
bool operator>(Idx const&, Idx const&);
bool operator<=(Idx const&, Idx const&);
bool operator>=(Idx const&, Idx const&);
std::string to_string(Idx const&);

using G = lc::generator<Idx>;
using GF = lc::generator_fermion<Idx>;
using GB = lc::generator_boson<Idx>;
using GS = lc::generator_spin<Idx>;
using M = lc::monomial<Idx>;
using ES = lc::elementary_space<Idx>;
using ESF = lc::elementary_space_fermion<Idx>;
using ESB = lc::elementary_space_boson<Idx>;
using ESS = lc::elementary_space_spin<Idx>;

bool g_eq(G const& a, G const& b) { return a == b; }
bool g_ne(G const& a, G const& b) { return a != b; }
bool g_lt(G const& a, G const& b) { return a < b; }
bool g_gt(G const& a, G const& b) { return a > b; }
bool m_eq(M const& a, M const& b) { return a == b; }
bool m_ne(M const& a, M const& b) { return a != b; }
bool m_lt(M const& a, M const& b) { return a < b; }
bool m_gt(M const& a, M const& b) { return a > b; }
bool es_eq(ES const& a, ES const& b) { return a == b; }
bool es_ne(ES const& a, ES const& b) { return a != b; }
bool es_lt(ES const& a, ES const& b) { return a < b; }
bool es_gt(ES const& a, ES const& b) { return a > b; }

using LF = G::linear_function_t;
lc::var_number g_swap(G const& a, G const& b, LF& f) { return lc::swap_with(a, b, f); }
bool g_simp(G const& a, G const& b, LF& f) { return lc::simplify_prod(a, b, f); }
bool g_red(G const& a, int p, LF& f) { return a.reduce_power(p, f); }
void g_conj(G const& a, LF& f) { a.conj(f); }

GF mk_f(bool d, Idx i) { return GF(d, i); }
GB mk_b(bool d, Idx i) { return GB(d, i); }
GS mk_s(lc::spin_component c, Idx i) { return GS(c, i); }
GS mk_ss(double s, lc::spin_component c, Idx i) { return GS(s, c, i); }
int s_mult(GS const& g) { return g.multiplicity(); }
double s_spin(GS const& g) { return g.spin(); }
lc::spin_component s_comp(GS const& g) { return g.component(); }
bool f_dag(GF const& g) { return g.dagger(); }
bool b_dag(GB const& g) { return g.dagger(); }
ESF mk_esf(Idx i) { return ESF(i); }
ESB mk_esb(lc::sv_index_type d, Idx i) { return ESB(d, i); }
ESS mk_ess(double s, Idx i) { return ESS(s, i); }

// decoding through the public interface only
std::size_t m_size(M const& m) { return m.size(); }
G const& m_at(M const& m, std::size_t i) { return m[i]; }
M m_make(std::vector<std::shared_ptr<const G>> const& v) { return M(v); }
M m_cat(M const& a, M const& b) { return concatenate(a, b); }
bool m_ordered(M const& a) { return a.is_ordered(); }
double lf_const(LF const& f) { return double(f.const_term); }
std::size_t lf_size(LF const& f) { return f.terms.size(); }
G const& lf_gen(LF const& f, std::size_t i) { return *f.terms[i].first; }
double lf_coef(LF const& f, std::size_t i) { return double(f.terms[i].second); }
double vn_d(lc::var_number const& v) { return double(v); }
Idx const& g_idx(G const& g) { return std::get<0>(g.indices()); }
Idx const& es_idx(ES const& e) { return std::get<0>(e.indices()); }
int g_alg(G const& g) { return g.algebra_id(); }
lc::sv_index_type es_dim(ES const& e) { return e.dim(); }
int es_bits(ES const& e) { return e.n_bits(); }
bool p_fermion(G const& g) { return lc::is_fermion(g); }
bool p_boson(G const& g) { return lc::is_boson(g); }
bool p_spin(G const& g) { return lc::is_spin(g); }
LF mk_lf() { return LF{}; }
lc::var_number mk_vn(int i) { return i; }
void lf_stale(LF& f, lc::var_number const& c, std::shared_ptr<const G> g) { f.set(c, g, 7); }

// user-defined algebra relying on the defaults of the base class
class UG : public G {
  int const id_;

public:
  UG(int id, Idx i) : G(i), id_(id) {}
  UG(UG const&) = default;
  ~UG() override = default;
  int algebra_id() const override { return id_; }
  lc::var_number swap_with(G const&, LF& f) const override {
    f.set(0);
    return -1;
  }
};
class UES : public ES {
  int const id_;

public:
  UES(int id, Idx i) : ES(i), id_(id) {}
  UES(UES const&) = default;
  ~UES() override = default;
  std::unique_ptr<ES> clone() const override { return lc::make_unique<UES>(*this); }
  int algebra_id() const override { return id_; }
  lc::sv_index_type dim() const override { return 2; }
  int n_bits() const override { return 1; }
};
UG mk_u(int id, Idx i) { return UG(id, i); }
UES mk_ues(int id, Idx i) { return UES(id, i); }

// two indices
using G2 = lc::generator<Idx, Idx>;
using ES2 = lc::elementary_space<Idx, Idx>;
lc::generator_fermion<Idx, Idx> mk_f2(bool d, Idx i, Idx j) { return {d, i, j}; }
lc::generator_boson<Idx, Idx> mk_b2(bool d, Idx i, Idx j) { return {d, i, j}; }
lc::generator_spin<Idx, Idx> mk_s2(double s, lc::spin_component c, Idx i, Idx j) { return {s, c, i, j}; }
lc::elementary_space_fermion<Idx, Idx> mk_esf2(Idx i, Idx j) { return lc::elementary_space_fermion<Idx, Idx>(i, j); }
lc::elementary_space_boson<Idx, Idx> mk_esb2(lc::sv_index_type d, Idx i, Idx j) { return {d, i, j}; }
lc::elementary_space_spin<Idx, Idx> mk_ess2(double s, Idx i, Idx j) { return {s, i, j}; }
bool g2_eq(G2 const& a, G2 const& b) { return a == b; }
bool g2_ne(G2 const& a, G2 const& b) { return a != b; }
bool g2_lt(G2 const& a, G2 const& b) { return a < b; }
bool g2_gt(G2 const& a, G2 const& b) { return a > b; }
bool es2_eq(ES2 const& a, ES2 const& b) { return a == b; }
bool es2_ne(ES2 const& a, ES2 const& b) { return a != b; }
bool es2_lt(ES2 const& a, ES2 const& b) { return a < b; }
bool es2_gt(ES2 const& a, ES2 const& b) { return a > b; }
using LF2 = G2::linear_function_t;
LF2 mk_lf2() { return LF2{}; }
lc::var_number g2_swap(G2 const& a, G2 const& b, LF2& f) { return lc::swap_with(a, b, f); }
bool g2_simp(G2 const& a, G2 const& b, LF2& f) { return lc::simplify_prod(a, b, f); }
void g2_conj(G2 const& a, LF2& f) { a.conj(f); }
std::size_t lf2_size(LF2 const& f) { return f.terms.size(); }
double lf2_const(LF2 const& f) { return double(f.const_term); }
G2 const& lf2_gen(LF2 const& f, std::size_t i) { return *f.terms[i].first; }
double lf2_coef(LF2 const& f, std::size_t i) { return double(f.terms[i].second); }

// dynamic index sequences with opaque element types
struct Jdx {
  int tag;
};
bool operator==(Jdx const&, Jdx const&);
bool operator!=(Jdx const&, Jdx const&);
bool operator<(Jdx const&, Jdx const&);
bool operator>(Jdx const&, Jdx const&);
bool operator<=(Jdx const&, Jdx const&);
bool operator>=(Jdx const&, Jdx const&);
std::string to_string(Jdx const&);
using D = lc::dynamic_indices::dyn_indices_generic<Idx, Jdx>;
D d_mk0() { return D(); }
D d_mk1i(Idx i) { return D(i); }
D d_mk1j(Jdx i) { return D(i); }
D d_mk2ii(Idx i, Idx j) { return D(i, j); }
D d_mk2ij(Idx i, Jdx j) { return D(i, j); }
D d_mk2ji(Jdx i, Idx j) { return D(i, j); }
bool d_eq(D const& a, D const& b) { return a == b; }
bool d_ne(D const& a, D const& b) { return a != b; }
bool d_lt(D const& a, D const& b) { return a < b; }
bool d_gt(D const& a, D const& b) { return a > b; }
std::size_t d_size(D const& a) { return a.size(); }
} // namespace vp
template class libcommute::generator_fermion<vp::Idx>;
template class libcommute::generator_boson<vp::Idx>;
template class libcommute::generator_spin<vp::Idx>;
template class libcommute::elementary_space_fermion<vp::Idx>;
template class libcommute::elementary_space_boson<vp::Idx>;
template class libcommute::elementary_space_spin<vp::Idx>;
template class libcommute::monomial<vp::Idx>;
