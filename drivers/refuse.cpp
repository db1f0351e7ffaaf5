// Requests that must be refused, and their acceptable neighbours.
#include <libcommute/libcommute.hpp>
#include <libcommute/loperator/n_fermion_sector_view.hpp>
#include <libcommute/loperator/space_partition.hpp>
#include <memory>
#include <utility>
#include <vector>
namespace lc = libcommute;
namespace vp {
using idx = lc::sv_index_type;
using HS = lc::hilbert_space<int>;
using G = lc::generator<int>;
using M = lc::monomial<int>;
using Ex = lc::expression<double, int>;
using ES = lc::elementary_space<int>;

// A user-defined algebra
struct UG : G {
  using linear_function_t = typename G::linear_function_t;
  int id_;
  UG(int id, int i) : G(i), id_(id) {}
  UG(UG const&) = default;
  int algebra_id() const override { return id_; }
  lc::var_number swap_with(G const&, linear_function_t& f) const override {
    f.set(0);
    return 1;
  }
};
struct US : ES {
  int id_;
  US(int id, int i) : ES(i), id_(id) {}
  std::unique_ptr<ES> clone() const override { return lc::make_unique<US>(*this); }
  int algebra_id() const override { return id_; }
  idx dim() const override { return 2; }
  int n_bits() const override { return 1; }
};

// generators and spaces
lc::generator_fermion<int> mk_f(bool d, int i) { return {d, i}; }
lc::generator_boson<int> mk_b(bool d, int i) { return {d, i}; }
lc::generator_spin<int> mk_s(double s, lc::spin_component c, int i) { return {s, c, i}; }
UG mk_u(int id, int i) { return UG(id, i); }
M m_make(std::vector<std::shared_ptr<const G>> const& v) { return M(v); }
HS hs_new() { return HS(); }
lc::elementary_space_fermion<int> es_f(int i) { return lc::elementary_space_fermion<int>(i); }
lc::elementary_space_boson<int> es_b(idx d, int i) { return lc::elementary_space_boson<int>(d, i); }
lc::elementary_space_spin<int> es_s(double s, int i) { return lc::elementary_space_spin<int>(s, i); }
US es_u(int id, int i) { return US(id, i); }
void hs_add(HS& h, ES const& e) { h.add(e); }
HS hs_1(ES& a) { return HS(std::vector<ES*>{&a}); }
HS hs_2(ES& a, ES& b) { return HS(std::vector<ES*>{&a, &b}); }
HS hs_3(ES& a, ES& b, ES& c) { return HS(std::vector<ES*>{&a, &b, &c}); }
HS hs_ff(lc::elementary_space_fermion<int> const& a, lc::elementary_space_fermion<int> const& b) { return HS(a, b); }
HS hs_bfb(lc::elementary_space_boson<int> const& a, lc::elementary_space_fermion<int> const& b, lc::elementary_space_boson<int> const& c) { return HS(a, b, c); }

// lookups
int l_index(HS const& h, ES const& e) { return h.index(e); }
idx l_dim(HS const& h, ES const& e) { return h.dim(e); }
int l_bits(HS const& h, ES const& e) { return h.bit_range(e).first; }
idx l_state(HS& h, ES const& e) { return h.basis_state_index(e, 1); }
bool l_has(HS const& h, ES const& e) { return h.has(e); }
int l_alg(HS const& h, int id) { return h.algebra_bit_range(id).first; }
bool l_hasalg(HS const& h, int id) { return h.has_algebra(id); }

// operators
Ex ex_0() { return Ex(); }
Ex ex_c() { return Ex(2.0); }
Ex ex_m(M const& m) { return Ex(2.0, m); }
Ex ex_mul(Ex const& a, Ex const& b) { return a * b; }
Ex ex_add(Ex const& a, Ex const& b) { return a + b; }
std::size_t ex_size(Ex const& e) { return e.size(); }
#define ALG(N, ...)                                                                                      \
  using MA_##N = lc::monomial_action<__VA_ARGS__>;                                                       \
  void ma_##N(M const& m, HS const& h) { MA_##N a(std::make_pair(m.begin(), m.end()), h); }              \
  template <int... I> struct lop_##N {                                                                   \
    using L = lc::loperator<double, I...>;                                                               \
    using P = lc::parametric_loperator<double, I...>;                                                    \
  };                                                                                                     \
  void lo_##N(Ex const& e, HS const& h) { typename lop_##N<__VA_ARGS__>::L x(e, h); }                    \
  void po_##N(Ex const& e, HS const& h) { typename lop_##N<__VA_ARGS__>::P x(e, h); }
ALG(fbs, lc::fermion, lc::boson, lc::spin)
ALG(fb, lc::fermion, lc::boson)
ALG(fs, lc::fermion, lc::spin)
ALG(bs, lc::boson, lc::spin)
ALG(f, lc::fermion)
ALG(b, lc::boson)
ALG(s, lc::spin)
void ma_none(M const& m, HS const& h) { lc::monomial_action<> a(std::make_pair(m.begin(), m.end()), h); }
void lo_none(Ex const& e, HS const& h) { lc::loperator<double> x(e, h); }
void po_none(Ex const& e, HS const& h) { lc::parametric_loperator<double> x(e, h); }
void lo_make(Ex const& e, HS const& h) { auto x = lc::make_loperator(e, h); }
void po_make(Ex const& e, HS const& h) { auto x = lc::make_param_loperator(e, h); }

// sectors
using V = std::vector<double>;
using SD = lc::sector_descriptor<HS>;
using SDL = std::vector<SD>;
V v_new(std::size_t n) { return V(n); }
SDL sd_new() { return {}; }
void sd_add(SDL& l, unsigned n) { l.push_back(SD{{}, n}); }
void sd_idx(SDL& l, int i) { l.back().indices.insert(std::make_tuple(i)); }
idx nf_size(HS const& h, unsigned n, V&) { return lc::n_fermion_sector_size(h, n); }
std::vector<idx> nf_states(HS const& h, unsigned n, V&) { return lc::n_fermion_sector_basis_states(h, n); }
std::size_t il_size(std::vector<idx> const& l) { return l.size(); }
void nf_make(HS const& h, unsigned n, V& v) { auto x = lc::make_nfs_view(v, h, n); }
void nf_maker(HS const& h, unsigned n, V& v) { auto x = lc::make_nfs_view(std::move(v), h, n); }
void nf_makec(HS const& h, unsigned n, V& v) { auto x = lc::make_const_nfs_view(v, h, n); }
void nf_makecr(HS const& h, unsigned n, V& v) { auto x = lc::make_const_nfs_view(std::move(v), h, n); }
void nf_ctor(HS const& h, unsigned n, V& v) { lc::n_fermion_sector_view<V, false> x(v, h, n); }
void nf_stag(HS const& h, unsigned n, V& v) { lc::n_fermion_sector_view<V, true, lc::staggered_ranking<2>> x(v, h, n); }
void nf_trie(HS const& h, unsigned n, V& v) { lc::n_fermion_sector_view<V, true, lc::trie_ranking<2>> x(v, h, n); }
void nf_ctorc(HS const& h, unsigned n, V& v) { lc::n_fermion_sector_view<V const, true> x(v, h, n); }
idx nm_size(HS const& h, SDL const& l, V&) { return lc::n_fermion_multisector_size(h, l); }
std::vector<idx> nm_states(HS const& h, SDL const& l, V&) { return lc::n_fermion_multisector_basis_states(h, l); }
void nm_make(HS const& h, SDL const& l, V& v) { auto x = lc::make_nfms_view(v, h, l); }
void nm_maker(HS const& h, SDL const& l, V& v) { auto x = lc::make_nfms_view(std::move(v), h, l); }
void nm_makec(HS const& h, SDL const& l, V& v) { auto x = lc::make_const_nfms_view(v, h, l); }
void nm_makecr(HS const& h, SDL const& l, V& v) { auto x = lc::make_const_nfms_view(std::move(v), h, l); }
void nm_ctor(HS const& h, SDL const& l, V& v) { lc::n_fermion_multisector_view<V, false> x(v, h, l); }
void nm_stag(HS const& h, SDL const& l, V& v) { lc::n_fermion_multisector_view<V, true, lc::staggered_ranking<2>> x(v, h, l); }
void nm_trie(HS const& h, SDL const& l, V& v) { lc::n_fermion_multisector_view<V, true, lc::trie_ranking<2>> x(v, h, l); }
void nm_ctorc(HS const& h, SDL const& l, V& v) { lc::n_fermion_multisector_view<V const, true> x(v, h, l); }

// automatic construction of spaces
using EUP = std::unique_ptr<ES>;
EUP ec_def(G const& g) { return lc::default_es_constructor()(g); }
EUP ec_bos(G const& g) { return lc::boson_es_constructor(4)(g); }
EUP ec_fb(G const& g) { return lc::es_constructor<lc::fermion, lc::boson>(4)(g); }
EUP ec_bs(G const& g) { return lc::es_constructor<lc::boson, lc::spin>(4)(g); }
HS mh_def(Ex const& e) { return lc::make_hilbert_space(e); }
HS mh_bos(Ex const& e) { return lc::make_hilbert_space(e, lc::boson_es_constructor(4)); }
HS mh_fb(Ex const& e) { return HS(e, lc::es_constructor<lc::fermion, lc::boson>(4)); }
HS mh_ctor(Ex const& e) { return HS(e); }

// partitions
using LO = lc::loperator<double, lc::fermion, lc::boson, lc::spin>;
using SP = lc::space_partition<HS>;
using MEL = lc::matrix_elements_map<double>;
LO lo_of(Ex const& e, HS const& h) { return lc::make_loperator(e, h); }
SP sp_make(LO const& l, HS const& h) { return lc::make_space_partition(l, h); }
SP sp_ctor(LO const& l, HS const& h) { return SP(l, h); }
SP sp_makem(LO const& l, HS const& h) {
  MEL m;
  return lc::make_space_partition(l, h, m);
}
void sp_merge(SP& s, LO const& a, LO const& b) { s.merge_subspaces(a, b); }
idx sp_at(SP const& s, idx n) { return s[n]; }
idx sp_n(SP const& s) { return s.n_subspaces(); }
idx sp_basis(SP const& s, idx n) { return s.subspace_basis(n).size(); }
} // namespace vp
