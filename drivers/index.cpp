// Views that translate state indices, over a state vector that records what it is asked for.
#include <libcommute/libcommute.hpp>
#include <libcommute/loperator/compressed_state_view.hpp>
#include <libcommute/loperator/n_fermion_sector_view.hpp>
#include <libcommute/loperator/state_vector.hpp>
#include <tuple>
#include <utility>
#include <vector>
namespace lc = libcommute;
namespace vp {
using idx = lc::sv_index_type;
struct DA {
  int tag;
  DA();
  DA(DA const&);
  DA(DA&&) noexcept;
  DA& operator=(DA const&);
  DA& operator=(DA&&) noexcept;
  ~DA();
};
DA operator+(DA const&, DA const&);
DA operator-(DA const&, DA const&);
DA operator*(DA const&, DA const&);
DA operator-(DA const&);
DA& operator+=(DA&, DA const&);
DA& operator-=(DA&, DA const&);
DA& operator*=(DA&, DA const&);
bool operator==(DA const&, DA const&);
bool operator!=(DA const&, DA const&);
// the recorder
struct Rec {
  int tag;
};
DA get_element(Rec const&, idx);
void update_add_element(Rec&, idx, DA const&);
void set_zeros(Rec&);
// ranking of the states of one sector, described by the states the library generates for it
int rank_new(idx size);
void rank_state(int tag, idx s);
struct Rank {
  int tag;
  template <typename P> explicit Rank(P const& p) : tag(0) {
    lc::unranking_generator const g(p);
    tag = rank_new(g.size());
    g.init();
    for(int k = 0; k < 40 && !g.done(); ++k)
      rank_state(tag, g.next());
  }
  idx operator()(idx s) const;
};
void got(idx n, DA const& a);
} // namespace vp
namespace libcommute {
template <> struct scalar_traits<vp::DA> {
  static bool is_zero(vp::DA const&);
  static vp::DA make_const(double);
  static vp::DA make_const(var_number const&);
  static vp::DA conj(vp::DA const&);
};
template <> struct element_type<vp::Rec> {
  using type = vp::DA;
};
template <> struct element_type<vp::Rec const> {
  using type = vp::DA;
};
} // namespace libcommute
namespace vp {
using libcommute::foreach;
using libcommute::get_element;
using libcommute::update_add_element;
using HS = lc::hilbert_space<int>;
using lc::sector_descriptor;
using SD = sector_descriptor<HS>;
using SDL = std::vector<SD>;
Rec rec_new() { return {}; }
HS hs_new() { return {}; }
void hs_f(HS& h, int i) { h.add(lc::elementary_space_fermion<int>(i)); }
void hs_b(HS& h, int dim, int i) { h.add(lc::elementary_space_boson<int>(dim, i)); }
void hs_s(HS& h, double s, int i) { h.add(lc::elementary_space_spin<int>(s, i)); }
idx hs_dim(HS const& h) { return h.dim(); }
idx hs_vec(HS const& h) { return h.vec_size(); }
// dimensions of the spaces in the order of their bits
std::vector<idx> hs_dims(HS const& h) {
  std::vector<idx> r;
  h.foreach_elementary_space([&](lc::elementary_space<int> const& es) { r.push_back(es.dim()); });
  return r;
}
std::vector<int> hs_first(HS const& h) {
  std::vector<int> r;
  h.foreach_elementary_space([&](lc::elementary_space<int> const& es) { r.push_back(h.bit_range(es).first); });
  return r;
}
SDL sd_new() { return {}; }
void sd_add(SDL& l, unsigned n) { l.push_back(SD{{}, n}); }
void sd_idx(SDL& l, int i) { l.back().indices.insert(std::make_tuple(i)); }

#define VIEWS(N, MAKE, EXTRA, ...)                                                        \
  DA N##_get(Rec& r, HS const& h, EXTRA, idx n) {                                         \
    auto v = MAKE;                                                                        \
    return get_element(v, n);                                                             \
  }                                                                                       \
  void N##_each(Rec& r, HS const& h, EXTRA) {                                             \
    auto v = MAKE;                                                                        \
    foreach(v, [](idx n, DA const& a) { got(n, a); });                                    \
  }
#define VIEWSU(N, MAKE, EXTRA)                                                            \
  VIEWS(N, MAKE, EXTRA)                                                                   \
  void N##_upd(Rec& r, HS const& h, EXTRA, idx n, DA const& x) {                          \
    auto v = MAKE;                                                                        \
    update_add_element(v, n, x);                                                          \
  }
VIEWSU(cv, lc::make_comp_state_view(r, h), int)
VIEWSU(cvo, lc::make_comp_state_view(Rec(r), h), int)
VIEWS(cvc, lc::make_const_comp_state_view(r, h), int)
template <bool R> using NF = lc::n_fermion_sector_view<Rec, R, Rank>;
template <bool R> using NFC = lc::n_fermion_sector_view<Rec const, R, Rank>;
template <bool R> using NM = lc::n_fermion_multisector_view<Rec, R, Rank>;
template <bool R> using NMC = lc::n_fermion_multisector_view<Rec const, R, Rank>;
VIEWSU(nf, NF<true>(r, h, n_), unsigned n_)
VIEWSU(nfo, NF<false>(r, h, n_), unsigned n_)
VIEWS(nfc, NFC<true>(r, h, n_), unsigned n_)
VIEWSU(nm, NM<true>(r, h, n_), SDL const& n_)
VIEWSU(nmo, NM<false>(r, h, n_), SDL const& n_)
VIEWS(nmc, NMC<true>(r, h, n_), SDL const& n_)
std::vector<idx> nf_states(HS const& h, unsigned n) { return lc::n_fermion_sector_basis_states(h, n); }
std::vector<idx> nm_states(HS const& h, SDL const& n) { return lc::n_fermion_multisector_basis_states(h, n); }
idx nf_size(HS const& h, unsigned n) { return lc::n_fermion_sector_size(h, n); }
idx nm_size(HS const& h, SDL const& n) { return lc::n_fermion_multisector_size(h, n); }
} // namespace vp
