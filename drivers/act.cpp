// Products of generators acting on basis states.
#include "scalars.hpp"
#include <memory>
#include <vector>
namespace vp {
struct Idx {
  int tag;
};
bool operator==(Idx const&, Idx const&);
bool operator!=(Idx const&, Idx const&);
bool operator<(Idx const&, Idx const&);
bool operator>(Idx const&, Idx const&);
bool operator<=(Idx const&, Idx const&);
bool operator>=(Idx const&, Idx const&);
std::string to_string(Idx const&);
using G = lc::generator<Idx>;
using M = lc::monomial<Idx>;
using HS = lc::hilbert_space<Idx>;
using MF = lc::monomial_action<lc::fermion>;
using MB = lc::monomial_action<lc::boson>;
using MS = lc::monomial_action<lc::spin>;
using MA = lc::monomial_action<lc::fermion, lc::boson, lc::spin>;
using MFS = lc::monomial_action<lc::fermion, lc::spin>;
using idx = lc::sv_index_type;

lc::generator_fermion<Idx> mk_f(bool d, Idx i) { return {d, i}; }
lc::generator_boson<Idx> mk_b(bool d, Idx i) { return {d, i}; }
lc::generator_spin<Idx> mk_ss(double s, lc::spin_component c, Idx i) { return {s, c, i}; }
M m_make(std::vector<std::shared_ptr<const G>> const& v) { return M(v); }
bool m_ordered(M const& m) { return m.is_ordered(); }

HS hs0() { return HS(); }
void add_f(HS& h, Idx i) { h.add(lc::static_indices::make_space_fermion(i)); }
void add_b(HS& h, idx d, Idx i) { h.add(lc::static_indices::make_space_boson(d, i)); }
void add_s(HS& h, double s, Idx i) { h.add(lc::static_indices::make_space_spin(s, i)); }
int bit_f(HS const& h, Idx i) { return h.bit_range(lc::static_indices::make_space_fermion(i)).first; }
int bit_b(HS const& h, Idx i) { return h.bit_range(lc::static_indices::make_space_boson(2, i)).first; }
int bit_s(HS const& h, double s, Idx i) { return h.bit_range(lc::static_indices::make_space_spin(s, i)).first; }

#define VP_ACT(T)                                                                                     \
  T mk_##T(M const& m, HS const& h) { return T(std::make_pair(m.begin(), m.end()), h); }             \
  bool act_##T(T const& a, idx& i, SA& c) { return a.act(i, c); }
VP_ACT(MF)
VP_ACT(MB)
VP_ACT(MS)
VP_ACT(MA)
VP_ACT(MFS)
} // namespace vp
