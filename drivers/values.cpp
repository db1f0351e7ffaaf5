// Copy and move operations of every library type with value semantics.
#include <libcommute/libcommute.hpp>
#include <functional>
#include <memory>
#include <utility>
#include <vector>
namespace lc = libcommute;
namespace vp {
using namespace lc::static_indices;
using HS = lc::hilbert_space<int>;
using E = lc::expression<double, int>;
using V = std::vector<double>;

// copy construction, copy assignment, move construction, move assignment
#define VP_CC(N, ...) \
  __VA_ARGS__ cc_##N(__VA_ARGS__ const& x) { return __VA_ARGS__(x); } \
  __VA_ARGS__ mc_##N(__VA_ARGS__& x) { return __VA_ARGS__(std::move(x)); }
#define VP_CA(N, ...) \
  void ca_##N(__VA_ARGS__& y, __VA_ARGS__ const& x) { y = x; } \
  void ma_##N(__VA_ARGS__& y, __VA_ARGS__& x) { y = std::move(x); }
#define VP_VAL(N, ...) VP_CC(N, __VA_ARGS__) VP_CA(N, __VA_ARGS__)

HS hs_all() { return HS(make_space_fermion(0), make_space_fermion(2), make_space_boson(3, 1), make_space_spin(1.0, 5)); }
HS hs_b() { return HS(make_space_boson(4, 7)); }
HS hs_f4() { return HS(make_space_fermion(0), make_space_fermion(1), make_space_fermion(2), make_space_fermion(3), make_space_boson(2, 4)); }
HS hs_f3() { return HS(make_space_fermion(0), make_space_fermion(1), make_space_fermion(2)); }
HS hs_f2() { return HS(make_space_fermion(0), make_space_fermion(1)); }
HS a_hs() { return hs_all(); }
HS b_hs() { return hs_b(); }
HS z_hs() { return HS(); }
VP_VAL(hs, HS)

using SF = lc::detail::sparse_foreach_basis_state;
SF a_sf() { return SF({3, 6, 5}); }
SF b_sf() { return SF({7}); }
VP_VAL(sf, SF)

using EF = lc::elementary_space_fermion<int>;
using EB = lc::elementary_space_boson<int>;
using ES = lc::elementary_space_spin<int>;
using E0 = lc::elementary_space<int>;
EF a_ef() { return make_space_fermion(3); }
EB a_eb() { return make_space_boson(5, 3); }
ES a_es() { return make_space_spin(1.5, 3); }
VP_CC(ef, EF)
VP_CC(eb, EB)
VP_CC(es, ES)
std::unique_ptr<E0> clone_of(E0 const& e) { return e.clone(); }

using GF = lc::generator_fermion<int>;
using GB = lc::generator_boson<int>;
using GS = lc::generator_spin<int>;
using LF = lc::generator<int>::linear_function_t;
GF a_gf() { return *make_fermion(true, 3); }
GB a_gb() { return *make_boson(true, 3); }
GS a_gs() { return *make_spin(1.5, lc::plus, 3); }
VP_CC(gf, GF)
VP_CC(gb, GB)
VP_CC(gs, GS)
LF a_lf() { return LF(3.0, std::make_shared<GF>(true, 1), 2.0, std::make_shared<GB>(false, 2), 4.0); }
LF b_lf() { return LF(5.0); }
VP_VAL(lf, LF)

using M = lc::monomial<int>;
M a_mo() { return M(*make_fermion(true, 3), *make_boson(false, 2)); }
M b_mo() { return M(*make_spin(lc::z, 1)); }
VP_VAL(mo, M)
E a_ex() { return 2.0 * c_dag(1) * c(2) + 3.0 * S_p(1) + 4.0; }
E b_ex() { return 5.0 * a_dag(1); }
VP_VAL(ex, E)
using VN = lc::var_number;
VN a_vn() { return VN(3, 7); }
VN b_vn() { return VN(2.5); }
VN c_vn() { return VN(4); }
VP_VAL(vn, VN)
using DI = lc::dynamic_indices::dyn_indices;
DI a_di() { return DI({1, "up", 2}); }
DI b_di() { return DI({3}); }
VP_VAL(di, DI)

using L = lc::loperator<double, lc::fermion, lc::boson, lc::spin>;
using Fn = std::function<double(double)>;
using PL = lc::parametric_loperator<Fn, lc::fermion, lc::boson, lc::spin>;
L a_lo() { return lc::make_loperator(2.0 * c_dag(0) * c(2) + 3.0 * a_dag(1) * S_p<3>(5), hs_all()); }
L b_lo() { return lc::make_loperator(5.0 * lc::static_indices::a(7), hs_b()); }
VP_VAL(lo, L)
PL mk_pl(double k) {
  lc::expression<Fn, int> e;
  e.get_monomials().emplace(M(*make_fermion(true, 0)), Fn([k](double x) { return k * x; }));
  return lc::make_param_loperator(e, hs_all());
}
PL a_pl() { return mk_pl(2); }
PL b_pl() { return mk_pl(3); }
VP_VAL(pl, PL)
using MF = lc::monomial_action<lc::fermion>;
using MB = lc::monomial_action<lc::boson>;
using MS = lc::monomial_action<lc::spin>;
template <typename A> A act_of(M const& m) { return A(std::make_pair(m.begin(), m.end()), hs_all()); }
MF a_mf() { return act_of<MF>(M(*make_fermion(true, 0), *make_fermion(false, 2))); }
MF b_mf() { return act_of<MF>(M(*make_fermion(true, 2))); }
MB a_mb() { return act_of<MB>(M(*make_boson(true, 1), *make_boson(true, 1))); }
MB b_mb() { return act_of<MB>(M(*make_boson(false, 1))); }
MB c_mb() { return act_of<MB>(M(*make_boson(true, 1), *make_boson(true, 1), *make_boson(true, 1))); }
MS a_ms() { return act_of<MS>(M(*make_spin(1.0, lc::plus, 5))); }
MS b_ms() { return act_of<MS>(M()); }
VP_VAL(mf, MF)
VP_VAL(mb, MB)
VP_VAL(ms, MS)

using SV = lc::sparse_state_vector<double>;
SV a_sv() {
  SV v(5);
  v[1] = 2;
  v[4] = 3;
  return v;
}
SV b_sv() {
  SV v(9);
  v[7] = 6;
  return v;
}
VP_VAL(sv, SV)
using DS = lc::disjoint_sets;
DS a_ds() {
  DS d(5);
  d.set_union(1, 2);
  d.set_union(2, 3);
  return d;
}
DS b_ds() { return DS(7); }
VP_VAL(ds, DS)
using SP = lc::space_partition<HS>;
SP mk_sp(HS const& hs) { return SP(lc::make_loperator(c_dag(0) * c(1) + c_dag(1) * c(0), hs), hs); }
VP_CC(sp, SP)
lc::basis_mapper a_bm() { return lc::basis_mapper(std::vector<lc::sv_index_type>{4, 2, 9}); }
lc::basis_mapper b_bm() { return lc::basis_mapper(std::vector<lc::sv_index_type>{1}); }
VP_VAL(bm, lc::basis_mapper)
using MVr = lc::mapped_basis_view<V, true>;
using MVo = lc::mapped_basis_view<V, false>;
MVr mk_mvr(V& v, lc::basis_mapper const& m) { return m.make_view(v); }
MVo mk_mvo(V& v, lc::basis_mapper const& m) { return m.make_view(std::move(v)); }
VP_CC(mvr, MVr)
VP_CC(mvo, MVo)
using CVr = lc::compressed_state_view<V, true>;
using CVo = lc::compressed_state_view<V, false>;
CVr mk_cvr(V& v) { return lc::make_comp_state_view(v, hs_all()); }
CVo mk_cvo(V& v) { return lc::make_comp_state_view(std::move(v), hs_all()); }
CVo mk_cvo2(V& v) { return lc::make_comp_state_view(std::move(v), hs_b()); }
VP_CC(cvr, CVr)
VP_VAL(cvo, CVo)

using PR = lc::detail::n_fermion_sector_params_t;
PR a_pr() { return PR(hs_f4(), 1u); }
PR b_pr() { return PR(hs_f3(), 2u); }
VP_VAL(pr, PR)
lc::combination_ranking a_cr() { return lc::combination_ranking(PR(hs_f4(), 3u)); }
lc::combination_ranking b_cr() { return lc::combination_ranking(PR(hs_f2(), 0u)); }
VP_VAL(cr, lc::combination_ranking)
using SR = lc::staggered_ranking<2>;
SR a_sr() { return SR(PR(hs_f4(), 3u)); }
SR b_sr() { return SR(PR(hs_f2(), 0u)); }
VP_VAL(sr, SR)
using TR = lc::trie_ranking<2>;
TR a_tr() { return TR(PR(hs_f4(), 3u)); }
TR b_tr() { return TR(PR(hs_f2(), 0u)); }
VP_VAL(tr, TR)
using UG = lc::unranking_generator;
UG a_ug() {
  UG g(PR(hs_f4(), 3u));
  g.init();
  g.next();
  g.next();
  return g;
}
UG b_ug() { return UG(PR(hs_f2(), 0u)); }
VP_VAL(ug, UG)
using SD = lc::sector_descriptor<HS>;
using MU = lc::detail::multisector_unranking_generator;
using PV = std::vector<PR>;
std::vector<SD> sd1() { return {SD{{std::make_tuple(0), std::make_tuple(1)}, 1u}, SD{{std::make_tuple(2), std::make_tuple(3)}, 1u}}; }
std::vector<SD> sd2() { return {SD{{std::make_tuple(1), std::make_tuple(2)}, 2u}}; }
PV pv1() { return PV{PR(hs_f4(), sd1()[0]), PR(hs_f4(), sd1()[1])}; }
PV pv2() { return PV{PR(hs_f3(), sd2()[0])}; }
MU mk_mu(PV const& p) {
  MU g(p);
  g.init();
  g.next();
  g.next();
  return g;
}
VP_CC(mu, MU)
template <bool R, typename A = lc::combination_ranking> using NV = lc::n_fermion_sector_view<V, R, A>;
template <bool R, typename A = lc::combination_ranking> using NM = lc::n_fermion_multisector_view<V, R, A>;
NV<true> mk_nvr(V& v) { return lc::make_nfs_view(v, hs_f4(), 3u); }
NV<false> mk_nvo(V& v) { return lc::make_nfs_view(std::move(v), hs_f4(), 3u); }
NV<false> mk_nvo2(V& v) { return lc::make_nfs_view(std::move(v), hs_f2(), 0u); }
VP_CC(nvr, NV<true>)
VP_VAL(nvo, NV<false>)
using NVt = NV<true, TR>;
NVt mk_nvt(V& v) { return NVt(v, hs_f4(), 3u); }
VP_CC(nvt, NVt)
NM<true> mk_nmr(V& v) { return lc::make_nfms_view(v, hs_f4(), sd1()); }
NM<false> mk_nmo(V& v) { return lc::make_nfms_view(std::move(v), hs_f4(), sd1()); }
NM<false> mk_nmo2(V& v) { return lc::make_nfms_view(std::move(v), hs_f3(), sd2()); }
VP_CC(nmr, NM<true>)
VP_CC(nmo, NM<false>)
template <typename T> typename std::enable_if<std::is_copy_assignable<T>::value>::type assign_if(T& a, T const& b) { a = b; }
template <typename T> typename std::enable_if<!std::is_copy_assignable<T>::value>::type assign_if(T&, T const&) {}
template <typename T> typename std::enable_if<std::is_move_assignable<T>::value>::type massign_if(T& a, T& b) { a = std::move(b); }
template <typename T> typename std::enable_if<!std::is_move_assignable<T>::value>::type massign_if(T&, T&) {}
bool can_assign_mu() { return std::is_copy_assignable<MU>::value; }
void ca_mu(MU& y, MU const& x) { assign_if(y, x); }
void ma_mu(MU& y, MU& x) { massign_if(y, x); }
bool can_assign_nmo() { return std::is_copy_assignable<NM<false>>::value; }
void ca_nmo(NM<false>& y, NM<false> const& x) { assign_if(y, x); }
void ma_nmo(NM<false>& y, NM<false>& x) { massign_if(y, x); }
V vec3() { return {1.0, 2.0, 3.0}; }
V vec2() { return {7.0, 8.0}; }

// iterators
using MI = M::const_iterator;
using EI = E::const_iterator;
MI mi_at(M const& m) { return std::next(m.begin()); }
EI ei_at(E const& e) { return std::next(e.begin()); }
VP_VAL(mi, MI)
VP_VAL(ei, EI)
} // namespace vp
