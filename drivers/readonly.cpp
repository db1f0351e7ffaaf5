// Operations on constant objects.
#include "values.cpp"
#include <libcommute/expression/hc.hpp>
namespace vp {
void visit(lc::sv_index_type i);
void visit2(lc::sv_index_type i, double a);
void visit3(lc::sv_index_type i, lc::sv_index_type a);
void seen(double a);
struct Sink {
  void operator()(lc::sv_index_type i) const { visit(i); }
  void operator()(lc::sv_index_type i, double a) const { visit2(i, a); }
};
#define RO(K, N, T, ...) \
  void ro_##K##_##N(T const& x) { __VA_ARGS__; }
#define RO_I(K, N, T, ...) \
  void ro_##K##_##N(T const& x, lc::sv_index_type i) { __VA_ARGS__; }
#define RO2(K, N, T, ...) \
  void ro2_##K##_##N(T const& x, T const& y) { __VA_ARGS__; }
RO(sf, call, SF, x(Sink{}))
RO(hs, foreach, HS, foreach(x, Sink{}))
RO(hs, spaces, HS, x.foreach_elementary_space([](E0 const& e) { visit(e.dim()); }))
RO(hs, has, HS, seen(x.has(make_space_fermion(0))))
RO(hs, index, HS, seen(x.index(make_space_fermion(0))))
RO(hs, dim1, HS, seen(x.dim(make_space_fermion(0))))
RO(hs, range, HS, seen(x.bit_range(make_space_fermion(0)).first))
RO(hs, hasalg, HS, seen(x.has_algebra(lc::boson)))
RO(hs, algrange, HS, seen(x.algebra_bit_range(lc::boson).first))
RO(hs, sizes, HS, seen(x.size() + x.total_n_bits() + x.dim() + x.is_sparse() + x.vec_size() + get_vec_size(x) + get_dim(x)))
RO(hs, act, HS, lc::make_loperator(a_dag(1), x))
RO(hs, fsize, HS, seen(lc::n_fermion_sector_size(x, 1u)))
RO(hs, fbasis, HS, seen(lc::n_fermion_sector_basis_states(x, 1u).size()))
RO(hs, msize, HS, seen(lc::n_fermion_multisector_size(x, std::vector<SD>{SD{{std::make_tuple(0)}, 1u}})))
RO(hs, mbasis, HS, seen(lc::n_fermion_multisector_basis_states(x, std::vector<SD>{SD{{std::make_tuple(0)}, 1u}}).size()))
RO(hs, mapper, HS, seen(lc::basis_mapper(lc::make_loperator(a_dag(1), x), x).size()))
RO2(hs, eq, HS, seen(x == y))
RO2(hs, ne, HS, seen(x != y))
#define RO_ES(K, T) \
  RO(K, info, T, seen(x.dim() + x.n_bits() + x.algebra_id())) \
  RO(K, clone, T, x.clone()) \
  RO2(K, cmp, T, seen((x == y) + (x != y) + (x < y) + (x > y)))
RO_ES(ef, EF)
RO_ES(eb, EB)
RO_ES(es, ES)
#define RO_G(K, T) \
  RO2(K, cmp, T, seen((x == y) + (x != y) + (x < y) + (x > y))) \
  RO2(K, swap, T, LF f; swap_with(x, y, f)) \
  RO2(K, simp, T, LF f; simplify_prod(x, y, f)) \
  RO(K, pow, T, LF f; x.reduce_power(3, f)) \
  RO(K, conj, T, LF f; x.conj(f))
RO_G(gf, GF)
RO_G(gb, GB)
RO_G(gs, GS)
RO(mo, iter, M, for(auto const& g : x) seen(g.algebra_id()))
RO(mo, riter, M, for(auto it = x.rbegin(); it != x.rend(); ++it) seen(it->algebra_id()))
RO(mo, info, M, seen(x.size() + x.empty() + x.is_ordered() + x[0].algebra_id()))
RO2(mo, cmp, M, seen((x == y) + (x != y) + (x < y) + (x > y)))
RO2(mo, cat, M, concatenate(x, y))
RO(ex, iter, E, for(auto const& m : x) seen(m.coeff))
RO(ex, size, E, seen(x.size() + x.get_monomials().size()))
RO(ex, neg, E, -x)
RO(ex, conj, E, conj(x))
RO(ex, scale, E, 2.0 * x; x * 2.0; x + 2.0; 2.0 - x)
RO(ex, plushc, E, x + lc::hc)
RO(ex, transform, E, transform(x, [](M const&, double const& c) { return c; }))
RO2(ex, eq, E, seen((x == y) + (x != y)))
RO2(ex, add, E, x + y)
RO2(ex, sub, E, x - y)
RO2(ex, mul, E, x * y)
RO(ex, space, E, lc::make_hilbert_space(x, lc::boson_es_constructor(4)))
RO(vn, conv, VN, seen(double(x)))
RO2(vn, eq, VN, seen(x == y))
RO(lo, call, L, V v(64, 1.0); x(v))
RO(lo, mul, L, V v(64, 1.0); x * v)
RO(lo, sparse, L, SV v(64); v[1] = 1; x(v))
RO(lo, call2, L, V v(64, 1.0); V w(64); x(v, w))
RO(pl, call, PL, V v(64, 1.0); x(v, 2.0))
RO(pl, call2, PL, V v(64, 1.0); V w(64); x(v, w, 2.0))
RO(pl, at, PL, x.at(2.0))
RO(pl, store, PL, V v(64, 1.0); V w(64); std::vector<double> c; x.act_and_store_coeffs(v, w, c, 2.0))
#define RO_MA(K, T) RO(K, act, T, lc::sv_index_type i = 5; double c = 1; x.act(i, c))
RO_MA(mf, MF)
RO_MA(mb, MB)
RO_MA(ms, MS)
RO(sv, get, SV, seen(get_element(x, 1) + get_element(x, 2)))
RO(sv, foreach, SV, foreach(x, Sink{}))
RO(sv, zeros, SV, zeros_like(x))
RO(sv, info, SV, seen(x.size() + x.n_nonzeros()))
RO(ds, root, DS, seen(x.find_root(3) + x.find_root(0)))
RO(ds, same, DS, seen(x.in_same_set(1, 3)))
RO(ds, info, DS, seen(x.size() + x.n_sets()))
RO(sp, at, SP, seen(x[1]))
RO(sp, info, SP, seen(x.dim() + x.n_subspaces()))
RO(sp, foreach, SP, foreach(x, [](lc::sv_index_type i, lc::sv_index_type s) { visit3(i, s); }))
RO(sp, basis, SP, seen(x.subspace_basis(0).size()))
RO(sp, bases, SP, seen(x.subspace_bases().size()))
RO(sp, conn, SP, seen(x.find_connections(lc::make_loperator(c_dag(0), hs_f2())).size()))
RO(bm, info, lc::basis_mapper, seen(x.size() + x.map().size()))
RO(bm, inv, lc::basis_mapper, seen(x.inverse_map().size()))
RO(bm, view, lc::basis_mapper, V v(3); x.make_view(v); x.make_const_view(v); x.make_view(V(3)))
#define RO_V(K, T) \
  RO_I(K, get, T, seen(get_element(x, i))) \
  RO(K, foreach, T, foreach(x, Sink{}))
RO_V(mvr, MVr)
RO_V(mvo, MVo)
RO_V(cvr, CVr)
RO_V(cvo, CVo)
using T1 = NV<true>;
using T2 = NV<false>;
using T3 = NM<true>;
using T4 = NM<false>;
RO_V(nvr, T1)
RO_V(nvo, T2)
RO_V(nvt, NVt)
RO_V(nmr, T3)
RO_V(nmo, T4)
RO_I(cr, call, lc::combination_ranking, seen(x(i)))
RO_I(sr, call, SR, seen(x(i)))
RO_I(tr, call, TR, seen(x(i)))
RO(ug, info, UG, seen(x.size() + x.done()))
RO(mu, info, MU, seen(x.size() + x.done()))
// vectors of other types
RO(v, get, V, seen(lc::get_element(x, 1)))
RO(v, foreach, V, lc::foreach(x, Sink{}))
RO(v, zeros, V, lc::zeros_like(x))
// views of constant vectors
#define RO_CV(K, MK) \
  void roc_##K##_get(V const& x, lc::sv_index_type i) { \
    auto const w = MK; \
    seen(get_element(w, i)); \
  } \
  void roc_##K##_foreach(V const& x) { \
    auto const w = MK; \
    foreach(w, Sink{}); \
  }
lc::basis_mapper const& bm_ref();
RO_CV(mapped, bm_ref().make_const_view(x))
RO_CV(comp, lc::make_const_comp_state_view(x, hs_f3()))
RO_CV(sector, lc::make_const_nfs_view(x, hs_f3(), 1u))
RO_CV(multi, lc::make_const_nfms_view(x, hs_f3(), sd2()))
GF b_gf() { return *make_fermion(true, 2); }
GB b_gb() { return *make_boson(true, 2); }
GS b_gs() { return *make_spin(1.5, lc::plus, 2); }
GF c_gf() { return *make_fermion(false, 3); }
GB c_gb() { return *make_boson(false, 3); }
GS c_gs() { return *make_spin(1.5, lc::minus, 3); }
HS c_hs() { return hs_f3(); }
HS hs_modes(int n) {
  HS hs;
  for(int i = 0; i < n; ++i) hs.add(make_space_fermion(i));
  return hs;
}
lc::sv_index_type size_of_sector(HS const& hs, unsigned int N) { return lc::n_fermion_sector_size(hs, N); }
V vec36() { return V(36, 1.0); }
V vec8() { return {1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0}; }
} // namespace vp
