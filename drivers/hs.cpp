// Hilbert spaces over elementary spaces with symbolic widths and dimensions.
#include <libcommute/libcommute.hpp>
#include <memory>
#include <vector>
namespace lc = libcommute;
namespace vp {
struct Idx {
  int tag;
};
bool operator==(Idx const&, Idx const&);
bool operator!=(Idx const&, Idx const&);
bool operator<(Idx const&, Idx const&);
bool operator>(Idx const&, Idx const&);
std::string to_string(Idx const&);

using E0 = lc::elementary_space<Idx>;
struct ES : E0 {
  int id_, bits_;
  lc::sv_index_type dim_;
  ES(Idx const& i, int id, int bits, lc::sv_index_type dim) : E0(i), id_(id), bits_(bits), dim_(dim) {}
  std::unique_ptr<E0> clone() const override { return lc::make_unique<ES>(*this); }
  int algebra_id() const override { return id_; }
  lc::sv_index_type dim() const override { return dim_; }
  int n_bits() const override { return bits_; }
};
using HS = lc::hilbert_space<Idx>;
ES mk_es(Idx const& i, int id, int bits, lc::sv_index_type dim) { return ES(i, id, bits, dim); }
HS hs0() { return HS(); }
HS hs1(ES const& a) { return HS(a); }
HS hs2(ES const& a, ES const& b) { return HS(a, b); }
HS hs3(ES const& a, ES const& b, ES const& c) { return HS(a, b, c); }
HS hs4(ES const& a, ES const& b, ES const& c, ES const& d) { return HS(a, b, c, d); }
HS hsv1(ES& a) { return HS(std::vector<E0*>{&a}); }
HS hsv2(ES& a, ES& b) { return HS(std::vector<E0*>{&a, &b}); }
HS hsv3(ES& a, ES& b, ES& c) { return HS(std::vector<E0*>{&a, &b, &c}); }
HS hsv4(ES& a, ES& b, ES& c, ES& d) { return HS(std::vector<E0*>{&a, &b, &c, &d}); }
void add(HS& h, ES const& e) { h.add(e); }
HS copy(HS const& h) { return HS(h); }
void assign(HS& h, HS const& g) { h = g; }
HS move(HS& h) { return HS(std::move(h)); }

// deduction from an expression: the driver's functor makes the space of a generator
std::unique_ptr<E0> space_of(lc::generator<Idx> const& g);
struct EC {
  std::unique_ptr<E0> operator()(lc::generator<Idx> const& g) const { return space_of(g); }
};
using Ex = lc::expression<double, Idx>;
HS hse(Ex const& e) { return HS(e, EC{}); }
HS hsm(Ex const& e) { return lc::make_hilbert_space(e, EC{}); }
Ex ex_word2(Idx const& i, Idx const& j) { return lc::static_indices::c_dag(i) * lc::static_indices::a(j); }
Ex ex_sum(Idx const& i, Idx const& j, Idx const& k) {
  using namespace lc::static_indices;
  return c_dag(i) * a(j) + a_dag(j) * c(i) + S_p(k) + n(i);
}
Ex ex_one() { return Ex(1.0); }
int g_alg(lc::generator<Idx> const& g) { return g.algebra_id(); }
Idx const& g_idx(lc::generator<Idx> const& g) { return std::get<0>(g.indices()); }
std::unique_ptr<E0> up(ES const& e) { return e.clone(); }

// observations
int h_index(HS const& h, ES const& e) { return h.index(e); }
bool h_has(HS const& h, ES const& e) { return h.has(e); }
int h_first(HS const& h, ES const& e) { return h.bit_range(e).first; }
int h_last(HS const& h, ES const& e) { return h.bit_range(e).second; }
lc::sv_index_type h_dim1(HS const& h, ES const& e) { return h.dim(e); }
bool h_hasalg(HS const& h, int id) { return h.has_algebra(id); }
int h_afirst(HS const& h, int id) { return h.algebra_bit_range(id).first; }
int h_alast(HS const& h, int id) { return h.algebra_bit_range(id).second; }
std::size_t h_size(HS const& h) { return h.size(); }
int h_bits(HS const& h) { return h.total_n_bits(); }
lc::sv_index_type h_dim(HS const& h) { return h.dim(); }
lc::sv_index_type h_gdim(HS const& h) { return get_dim(h); }
lc::sv_index_type h_vec(HS const& h) { return h.vec_size(); }
lc::sv_index_type h_gvec(HS const& h) { return get_vec_size(h); }
bool h_sparse(HS const& h) { return h.is_sparse(); }
bool h_eq(HS const& a, HS const& b) { return a == b; }
bool h_ne(HS const& a, HS const& b) { return a != b; }
lc::sv_index_type h_bsi(HS& h, ES const& e, lc::sv_index_type n) { return h.basis_state_index(e, n); }
void visit_es(E0 const& e);
void visit_state(lc::sv_index_type i);
void h_each(HS const& h) { h.foreach_elementary_space([](E0 const& e) { visit_es(e); }); }
void h_states(HS const& h) {
  foreach(h, [](lc::sv_index_type i) { visit_state(i); });
}
lc::elementary_space_boson<int> bos(lc::sv_index_type d) { return lc::static_indices::make_space_boson(d, 0); }
lc::elementary_space_spin<int> spn(double s) { return lc::static_indices::make_space_spin(s, 0); }
lc::elementary_space_fermion<int> fer() { return lc::static_indices::make_space_fermion(0); }
int e_bits(lc::elementary_space<int> const& e) { return e.n_bits(); }
lc::sv_index_type e_dim(lc::elementary_space<int> const& e) { return e.dim(); }
} // namespace vp
