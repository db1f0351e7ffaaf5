// Every state vector type and every view behind the element interface.
#include <Eigen/Core>
#include <libcommute/loperator/state_vector_eigen3.hpp>
#include <libcommute/libcommute.hpp>
#include <libcommute/loperator/compressed_state_view.hpp>
#include <libcommute/loperator/mapped_basis_view.hpp>
#include <libcommute/loperator/n_fermion_sector_view.hpp>
#include <libcommute/loperator/sparse_state_vector.hpp>
#include <libcommute/loperator/state_vector.hpp>
#include <utility>
#include <vector>
namespace lc = libcommute;
namespace vp {
// opaque scalars; a value-initialized one is unspecified
struct DA;
struct DB {
  int tag;
  DB(DB const&);
  DB(DB&&) noexcept;
  DB& operator=(DB const&);
  ~DB();
};
struct DA {
  int tag;
  DA();
  DA(DA const&);
  DA(DA&&) noexcept;
  DA(DB const&);
  DA& operator=(DA const&);
  DA& operator=(DA&&) noexcept;
  ~DA();
};
DA operator+(DA const&, DA const&);
DA operator-(DA const&, DA const&);
DA operator*(DA const&, DA const&);
DA operator-(DA const&);
DA& operator+=(DA&, DA const&);
DA& operator-=(DA&, DA const&);
DA& operator*=(DA&, DA const&);
DA& operator+=(DA&, DB const&);
DA operator+(DA const&, DB const&);
bool operator==(DA const&, DA const&);
bool operator!=(DA const&, DA const&);
// a scalar without compound assignment
struct DN {
  int tag;
  DN();
  DN(DN const&);
  DN(DN&&) noexcept;
  DN& operator=(DN const&);
  DN& operator=(DN&&) noexcept;
  ~DN();
};
DN operator+(DN const&, DN const&);
DN operator-(DN const&, DN const&);
DN operator*(DN const&, DN const&);
DN operator-(DN const&);
bool operator==(DN const&, DN const&);
bool operator!=(DN const&, DN const&);
} // namespace vp
namespace libcommute {
#define VP_TRAITS(T)                           \
  template <> struct scalar_traits<vp::T> {    \
    static bool is_zero(vp::T const&);         \
    static vp::T make_const(double);           \
    static vp::T make_const(var_number const&); \
    static vp::T conj(vp::T const&);           \
  };
VP_TRAITS(DA)
VP_TRAITS(DN)
} // namespace libcommute
namespace vp_eigen {
template <> struct zero<vp::DA> {
  static vp::DA make() { return lc::scalar_traits<vp::DA>::make_const(0.0); }
};
} // namespace vp_eigen
namespace vp {
using libcommute::foreach;
using libcommute::get_element;
using libcommute::set_zeros;
using libcommute::update_add_element;
using libcommute::zeros_like;
using idx = lc::sv_index_type;
using V = std::vector<DA>;
using VN = std::vector<DN>;
using S = lc::sparse_state_vector<DA>;
using EV = Eigen::Matrix<DA, Eigen::Dynamic, 1, 0, Eigen::Dynamic, 1>;
using EM = Eigen::Matrix<DA, Eigen::Dynamic, Eigen::Dynamic, 0, Eigen::Dynamic, Eigen::Dynamic>;
using SEG = Eigen::VectorBlock<EV>;
using COL = Eigen::Block<EM, Eigen::Dynamic, 1, true>;
using BLK = Eigen::Block<EM, Eigen::Dynamic, Eigen::Dynamic, false>;
using MAP = Eigen::Map<EV>;
template <typename W> using MB = lc::mapped_basis_view<W, true>;
template <typename W> using MBO = lc::mapped_basis_view<W, false>;
template <typename W> using CS = lc::compressed_state_view<W, true>;
template <typename W> using CSO = lc::compressed_state_view<W, false>;
template <typename W> using NF = lc::n_fermion_sector_view<W, true>;
template <typename W> using NFO = lc::n_fermion_sector_view<W, false>;
template <typename W> using NFS = lc::n_fermion_sector_view<W, true, lc::staggered_ranking<2>>;
template <typename W> using NFT = lc::n_fermion_sector_view<W, true, lc::trie_ranking<2>>;
template <typename W> using NM = lc::n_fermion_multisector_view<W, true>;
template <typename W> using NMO = lc::n_fermion_multisector_view<W, false>;
template <typename W> using NMS = lc::n_fermion_multisector_view<W, true, lc::staggered_ranking<2>>;
template <typename W> using NMT = lc::n_fermion_multisector_view<W, true, lc::trie_ranking<2>>;

// construction of the vectors under test
V v_new() { return V(); }
void v_push(V& v, DA const& x) { v.push_back(x); }
VN n_new() { return VN(); }
void n_push(VN& v, DN const& x) { v.push_back(x); }
S s_new(idx n) { return S(n); }
void s_put(S& s, idx n, DA const& x) { s[n] = x; }
idx s_nnz(S const& s) { return s.n_nonzeros(); }
idx s_size(S const& s) { return s.size(); }
void s_prune(S& s) { s.prune(); }
void s_prune_eq(S& s, DA const& x) {
  s.prune([&x](DA const& y) { return y == x; });
}
EV ev_new(V const& v) { return EV(v, v.size(), 1); }
EM em_new(V const& v, long r, long c) { return EM(v, r, c); }
SEG seg_new(EV& m, long i0, long n) { return SEG(m, i0, n); }
COL col_new(EM& m, long j, long n) { return COL(m, 0, j, n, 1); }
BLK blk_new(EM& m, long i0, long j0, long n) { return BLK(m, i0, j0, n, 1); }
MAP map_new(V& v, long off, long n) { return MAP(v.data() + off, n); }
// observation without the library
std::size_t v_n(V const& v) { return v.size(); }
DA const& v_at(V const& v, std::size_t i) { return v[i]; }
std::size_t n_n(VN const& v) { return v.size(); }
DN const& n_at(VN const& v, std::size_t i) { return v[i]; }
std::size_t ev_n(EV const& v) { return v.size(); }
DA const& ev_at(EV const& v, long i) { return v(i); }
DA const& em_at(EM const& v, long i, long j) { return v(i, j); }

// what foreach() visits
struct Log {
  std::vector<idx> n;
  std::vector<DA> a;
};
Log log_new() { return Log{}; }
std::size_t log_size(Log const& l) { return l.n.size(); }
idx log_n(Log const& l, std::size_t i) { return l.n[i]; }
DA const& log_a(Log const& l, std::size_t i) { return l.a[i]; }
struct LogN {
  std::vector<idx> n;
  std::vector<DN> a;
};
LogN logn_new() { return LogN{}; }
std::size_t logn_size(LogN const& l) { return l.n.size(); }
idx logn_n(LogN const& l, std::size_t i) { return l.n[i]; }
DN const& logn_a(LogN const& l, std::size_t i) { return l.a[i]; }
template <typename L> struct Rec {
  L* l;
  template <typename A> void operator()(idx n, A const& a) const {
    l->n.push_back(n);
    l->a.push_back(a);
  }
};
template <typename T, typename L> void each(T const& v, L& l) { foreach(v, Rec<L>{&l}); }
template <typename T> void each_lv(T const& v, Log& l) {
  Rec<Log> r{&l};
  foreach(v, r);
}
#define READ(N, T)                                                 \
  DA get_##N(T const& v, idx n) { return get_element(v, n); }      \
  void each_##N(T const& v, Log& l) { each(v, l); }                \
  void eachl_##N(T const& v, Log& l) { each_lv(v, l); }
#define WRITE(N, T)                                                           \
  void add_##N(T& v, idx n, DA const& x) { update_add_element(v, n, x); }     \
  void addm_##N(T& v, idx n, DA& x) { update_add_element(v, n, std::move(x)); } \
  void addb_##N(T& v, idx n, DB const& x) { update_add_element(v, n, x); }    \
  void zero_##N(T& v) { set_zeros(v); }
#define LIKE(N, T, R) \
  R like_##N(T const& v) { return zeros_like(v); }
READ(v, V)
WRITE(v, V)
LIKE(v, V, V)
READ(s, S)
WRITE(s, S)
LIKE(s, S, S)
READ(ev, EV)
WRITE(ev, EV)
LIKE(ev, EV, EV)
READ(seg, SEG)
WRITE(seg, SEG)
LIKE(seg, SEG, EV)
READ(col, COL)
WRITE(col, COL)
LIKE(col, COL, EV)
READ(blk, BLK)
WRITE(blk, BLK)
LIKE(blk, BLK, EV)
READ(map, MAP)
WRITE(map, MAP)
LIKE(map, MAP, EV)
DN get_n(VN const& v, idx n) { return get_element(v, n); }
void add_n(VN& v, idx n, DN const& x) { update_add_element(v, n, x); }
void addm_n(VN& v, idx n, DN& x) { update_add_element(v, n, std::move(x)); }
void zero_n(VN& v) { set_zeros(v); }
VN like_n(VN const& v) { return zeros_like(v); }
void each_n(VN const& v, LogN& l) { each(v, l); }

// views
using HS = lc::hilbert_space<int>;
using BM = lc::basis_mapper;
using SD = lc::sector_descriptor<HS>;
HS hs_new() { return HS(); }
void hs_f(HS& h, int i) { h.add(lc::elementary_space_fermion<int>(i)); }
void hs_b(HS& h, idx dim, int i) { h.add(lc::elementary_space_boson<int>(dim, i)); }
std::vector<idx> il_new() { return {}; }
void il_push(std::vector<idx>& l, idx n) { l.push_back(n); }
BM bm_new(std::vector<idx> const& l) { return BM(l); }
idx bm_size(BM const& b) { return b.size(); }
idx bm_at(BM const& b, idx n) { return b.map().at(n); }
bool bm_has(BM const& b, idx n) { return b.map().count(n) == 1; }
idx bm_inv(BM const& b, idx n) { return b.inverse_map().at(n); }
idx bm_inv_size(BM const& b) { return b.inverse_map().size(); }
std::vector<SD> sd_new() { return {}; }
void sd_add(std::vector<SD>& l, unsigned n) { l.push_back(SD{{}, n}); }
void sd_idx(std::vector<SD>& l, int i) { l.back().indices.insert(std::make_tuple(i)); }
using SDL = std::vector<SD>;

#define VIEWS(W, N)                                                            \
  MB<W> mk_mb_##N(BM const& b, W& v) { return b.make_view(v); }                \
  MBO<W> mk_mbo_##N(BM const& b, W& v) { return b.make_view(std::move(v)); }   \
  MB<W const> mk_mbc_##N(BM const& b, W& v) { return b.make_const_view(v); }   \
  MBO<W const> mk_mboc_##N(BM const& b, W& v) { return b.make_const_view(std::move(v)); } \
  CS<W> mk_cs_##N(HS const& h, W& v) { return lc::make_comp_state_view(v, h); } \
  CSO<W> mk_cso_##N(HS const& h, W& v) { return lc::make_comp_state_view(std::move(v), h); } \
  CS<W const> mk_csc_##N(HS const& h, W& v) { return lc::make_const_comp_state_view(v, h); } \
  CSO<W const> mk_csoc_##N(HS const& h, W& v) { return lc::make_const_comp_state_view(std::move(v), h); } \
  NF<W> mk_nf_##N(HS const& h, unsigned n, W& v) { return lc::make_nfs_view(v, h, n); } \
  NFO<W> mk_nfo_##N(HS const& h, unsigned n, W& v) { return lc::make_nfs_view(std::move(v), h, n); } \
  NF<W const> mk_nfc_##N(HS const& h, unsigned n, W& v) { return lc::make_const_nfs_view(v, h, n); } \
  NFO<W const> mk_nfoc_##N(HS const& h, unsigned n, W& v) { return lc::make_const_nfs_view(std::move(v), h, n); } \
  NFS<W> mk_nfs_##N(HS const& h, unsigned n, W& v) { return NFS<W>(v, h, n); } \
  NFT<W> mk_nft_##N(HS const& h, unsigned n, W& v) { return NFT<W>(v, h, n); } \
  NM<W> mk_nm_##N(HS const& h, SDL const& l, W& v) { return lc::make_nfms_view(v, h, l); } \
  NMO<W> mk_nmo_##N(HS const& h, SDL const& l, W& v) { return lc::make_nfms_view(std::move(v), h, l); } \
  NM<W const> mk_nmc_##N(HS const& h, SDL const& l, W& v) { return lc::make_const_nfms_view(v, h, l); } \
  NMO<W const> mk_nmoc_##N(HS const& h, SDL const& l, W& v) { return lc::make_const_nfms_view(std::move(v), h, l); } \
  NMS<W> mk_nms_##N(HS const& h, SDL const& l, W& v) { return NMS<W>(v, h, l); } \
  NMT<W> mk_nmt_##N(HS const& h, SDL const& l, W& v) { return NMT<W>(v, h, l); } \
  MBO<W> mk_mbx_##N(BM const& b, W& v) { return MBO<W>(v, b.map()); }           \
  CSO<W> mk_csx_##N(HS const& h, W& v) { return CSO<W>(v, h); }                \
  NFO<W> mk_nfx_##N(HS const& h, unsigned n, W& v) { return NFO<W>(v, h, n); } \
  NMO<W> mk_nmx_##N(HS const& h, SDL const& l, W& v) { return NMO<W>(v, h, l); } \
  READ(mb_##N, MB<W>)                                                          \
  WRITE(mb_##N, MB<W>)                                                         \
  READ(mbo_##N, MBO<W>)                                                        \
  WRITE(mbo_##N, MBO<W>)                                                       \
  READ(mbc_##N, MB<W const>)                                                   \
  READ(mboc_##N, MBO<W const>)                                                 \
  READ(cs_##N, CS<W>)                                                          \
  WRITE(cs_##N, CS<W>)                                                         \
  READ(cso_##N, CSO<W>)                                                        \
  WRITE(cso_##N, CSO<W>)                                                       \
  READ(csc_##N, CS<W const>)                                                   \
  READ(csoc_##N, CSO<W const>)                                                 \
  READ(nf_##N, NF<W>)                                                          \
  WRITE(nf_##N, NF<W>)                                                         \
  READ(nfo_##N, NFO<W>)                                                        \
  WRITE(nfo_##N, NFO<W>)                                                       \
  READ(nfc_##N, NF<W const>)                                                   \
  READ(nfoc_##N, NFO<W const>)                                                 \
  READ(nfs_##N, NFS<W>)                                                        \
  WRITE(nfs_##N, NFS<W>)                                                       \
  READ(nft_##N, NFT<W>)                                                        \
  WRITE(nft_##N, NFT<W>)                                                       \
  READ(nm_##N, NM<W>)                                                          \
  WRITE(nm_##N, NM<W>)                                                         \
  READ(nmo_##N, NMO<W>)                                                        \
  WRITE(nmo_##N, NMO<W>)                                                       \
  READ(nmc_##N, NM<W const>)                                                   \
  READ(nmoc_##N, NMO<W const>)                                                 \
  READ(nms_##N, NMS<W>)                                                        \
  WRITE(nms_##N, NMS<W>)                                                       \
  READ(nmt_##N, NMT<W>)                                                        \
  WRITE(nmt_##N, NMT<W>)
VIEWS(V, v)
VIEWS(S, s)
} // namespace vp
