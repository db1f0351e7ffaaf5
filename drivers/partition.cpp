// Space partitions of opaque operators.
#include <libcommute/libcommute.hpp>
#include <libcommute/loperator/space_partition.hpp>
#include <iterator>
#include <memory>
#include <utility>
#include <vector>
namespace lc = libcommute;
namespace vp {
// opaque scalars; a value-initialized one is unspecified
struct DA {
  int tag;
  DA();
  DA(DA const&);
  DA(DA&&) noexcept;
  DA& operator=(DA const&);
  DA& operator=(DA&&) noexcept;
  DA& operator=(int);
  ~DA();
};
DA operator+(DA const&, DA const&);
DA operator-(DA const&, DA const&);
DA operator*(DA const&, DA const&);
DA operator-(DA const&);
DA& operator+=(DA&, DA const&);
DA& operator-=(DA&, DA const&);
DA& operator*=(DA&, DA const&);
bool operator==(DA const&, DA const&);
bool operator!=(DA const&, DA const&);
} // namespace vp
namespace libcommute {
template <> struct scalar_traits<vp::DA> {
  static bool is_zero(vp::DA const&);
  static vp::DA make_const(double);
  static vp::DA make_const(var_number const&);
  static vp::DA conj(vp::DA const&);
};
} // namespace libcommute
namespace vp {
using idx = lc::sv_index_type;
using G = lc::generator<int>;
using M = lc::monomial<int>;
using HS = lc::hilbert_space<int>;
// a user-defined algebra; the action of its products is opaque
class UG : public G {
public:
  explicit UG(int i) : G(i) {}
  UG(UG const&) = default;
  ~UG() override = default;
  int algebra_id() const override { return 7; }
  lc::var_number swap_with(G const&, linear_function_t& f) const override {
    f.set(0);
    return 1;
  }
};
bool act_hook(int id, idx& i, DA& c);
} // namespace vp
namespace libcommute {
template <> class monomial_action<7> {
  int id_;

public:
  template <typename... I>
  monomial_action(detail::monomial_range_t<I...> const& r, hilbert_space<I...> const&)
    : id_(r.first == r.second ? -1 : std::get<0>(r.first->indices())) {}
  bool act(sv_index_type& i, vp::DA& c) const { return vp::act_hook(id_, i, c); }
};
} // namespace libcommute
namespace vp {
// a user-defined Hilbert space: any set of states
struct Space {
  std::vector<idx> states;
  idx size;
  idx dim() const { return states.size(); }
  friend idx get_vec_size(Space const& s) { return s.size; }
  template <typename F> friend void foreach(Space const& s, F&& f) {
    for(idx n : s.states) f(n);
  }
};
Space u_new(idx size) { return Space{{}, size}; }
void u_put(Space& s, idx n) { s.states.push_back(n); }
HS h_new() { return HS(); }
void h_f(HS& h, int i) { h.add(lc::elementary_space_fermion<int>(i)); }
void h_b(HS& h, idx d, int i) { h.add(lc::elementary_space_boson<int>(d, i)); }

using EA = lc::expression<DA, int>;
UG gen_u(int i) { return UG(i); }
M m_make(std::vector<std::shared_ptr<const G>> const& v) { return M(v); }
EA e_new() { return EA(); }
void e_put(EA& e, M const& m, DA const& k) { e.get_monomials().emplace(m, k); }
using LO = lc::loperator<DA, 7>;
LO l_make(EA const& e) { return LO(e, HS()); }
using MEL = lc::matrix_elements_map<DA>;
using CON = lc::connections_map;
struct Mel2 {
  MEL a, b;
};
MEL m_new() { return {}; }
void m_put(MEL& m, idx i, idx j, DA const& x) { m.emplace(std::make_pair(i, j), x); }
std::size_t m_size(MEL const& m) { return m.size(); }
idx m_row(MEL const& m, std::size_t k) { return std::next(m.begin(), k)->first.first; }
idx m_col(MEL const& m, std::size_t k) { return std::next(m.begin(), k)->first.second; }
DA const& m_at(MEL const& m, std::size_t k) { return std::next(m.begin(), k)->second; }
MEL const& m_first(Mel2 const& m) { return m.a; }
MEL const& m_second(Mel2 const& m) { return m.b; }
std::size_t c_size(CON const& c) { return c.size(); }
idx c_row(CON const& m, std::size_t k) { return std::next(m.begin(), k)->first; }
idx c_col(CON const& m, std::size_t k) { return std::next(m.begin(), k)->second; }
std::size_t il_n(std::vector<idx> const& v) { return v.size(); }
idx il_at(std::vector<idx> const& v, std::size_t i) { return v[i]; }
using ILL = std::vector<std::vector<idx>>;
std::size_t ill_n(ILL const& v) { return v.size(); }
std::vector<idx> const& ill_at(ILL const& v, std::size_t i) { return v[i]; }
struct Log {
  std::vector<idx> n, s;
};
Log log_new() { return Log{}; }
std::size_t log_size(Log const& l) { return l.n.size(); }
idx log_n(Log const& l, std::size_t i) { return l.n[i]; }
idx log_s(Log const& l, std::size_t i) { return l.s[i]; }
struct Rec {
  Log* l;
  void operator()(idx n, idx s) const {
    l->n.push_back(n);
    l->s.push_back(s);
  }
};
#define VP_PART(H, N)                                                                                 \
  using P##N = lc::space_partition<H>;                                                                \
  P##N mk_##N(LO const& l, H const& h) { return lc::make_space_partition(l, h); }                     \
  P##N mkm_##N(LO const& l, H const& h, MEL& m) { return lc::make_space_partition(l, h, m); }         \
  P##N ct_##N(LO const& l, H const& h) { return P##N(l, h); }                                         \
  P##N ctm_##N(LO const& l, H const& h, MEL& m) { return P##N(l, h, m); }                             \
  idx at_##N(P##N const& p, idx n) { return p[n]; }                                                   \
  idx n_##N(P##N const& p) { return p.n_subspaces(); }                                                \
  idx dim_##N(P##N const& p) { return p.dim(); }                                                      \
  std::vector<idx> basis_##N(P##N const& p, idx n) { return p.subspace_basis(n); }                    \
  ILL bases_##N(P##N const& p) { return p.subspace_bases(); }                                         \
  CON conn_##N(P##N const& p, LO const& l) { return p.find_connections(l); }                          \
  void each_##N(P##N const& p, Log& l) { foreach(p, Rec{&l}); }                                       \
  Mel2 merge_##N(P##N& p, LO const& a, LO const& b) {                                                 \
    auto r = p.merge_subspaces(a, b);                                                                 \
    return Mel2{r.first, r.second};                                                                   \
  }                                                                                                   \
  Mel2 mergeb_##N(P##N& p, LO const& a, LO const& b, bool s) {                                        \
    auto r = p.merge_subspaces(a, b, s);                                                              \
    return Mel2{r.first, r.second};                                                                   \
  }
VP_PART(Space, u)
VP_PART(HS, h)
} // namespace vp
