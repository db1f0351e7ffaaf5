// What the exceptions raised by refused requests carry.
#include "refuse.cpp"
#include <string>
namespace vp {
ES const& x_exists(HS::elementary_space_exists const& e) { return *e.elementary_space_ptr; }
ES const& x_nfound(HS::elementary_space_not_found const& e) { return *e.elementary_space_ptr; }
int x_bits(HS::hilbert_space_too_big const& e) { return e.n_bits; }
G const& x_unk(lc::unknown_generator<int> const& e) { return *e.generator_ptr; }
G const& x_fail(lc::es_construction_failure<int> const& e) { return *e.generator_ptr; }
std::string w_exists(HS::elementary_space_exists const& e) { return e.what(); }
std::string w_nfound(HS::elementary_space_not_found const& e) { return e.what(); }
std::string w_bits(HS::hilbert_space_too_big const& e) { return e.what(); }
std::string w_unk(lc::unknown_generator<int> const& e) { return e.what(); }
std::string w_fail(lc::es_construction_failure<int> const& e) { return e.what(); }
std::string g_text(G const& g) { return g.to_string(); }
bool es_eq(ES const& a, ES const& b) { return a == b; }
bool ge_eq(G const& a, G const& b) { return a == b; }
struct US9 : ES {
  int n_;
  US9(int n, int i) : ES(i), n_(n) {}
  std::unique_ptr<ES> clone() const override { return lc::make_unique<US9>(*this); }
  int algebra_id() const override { return 9; }
  idx dim() const override { return idx(1) << n_; }
  int n_bits() const override { return n_; }
};
US9 es_w(int n, int i) { return US9(n, i); }
lc::generator_spin<int> mk_s2(int m, lc::spin_component c, int i) { return {double(m - 1) / 2, c, i}; }
HS hs_v(std::vector<ES*> const& v) { return HS(v); }
HS hs_fbs(lc::elementary_space_fermion<int> const& a, lc::elementary_space_boson<int> const& b, lc::elementary_space_spin<int> const& c) { return HS(a, b, c); }
HS hs_www(US9 const& a, US9 const& b, US9 const& c) { return HS(a, b, c); }
} // namespace vp
