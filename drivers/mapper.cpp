// Basis mappers built from lists of states and from opaque operators.
#include "partition.cpp"
namespace vp {
using BM = lc::basis_mapper;
using Map = std::unordered_map<idx, idx>;
using IL = std::vector<idx>;
using LL = std::vector<LO>;
IL il_new() { return {}; }
void il_put(IL& v, idx n) { v.push_back(n); }
LL ll_new() { return {}; }
void ll_put(LL& v, LO const& l) { v.push_back(l); }
BM bm_list(IL const& v) { return BM(v); }
BM bm_op_u(LO const& l, Space const& h) { return BM(l, h); }
BM bm_op_h(LO const& l, HS const& h) { return BM(l, h); }
BM bm_ops_u(LL const& l, Space const& h, unsigned int n) { return BM(l, h, n); }
BM bm_ops_h(LL const& l, HS const& h, unsigned int n) { return BM(l, h, n); }
idx bm_size(BM const& m) { return m.size(); }
Map bm_map(BM const& m) { return m.map(); }
Map bm_inv(BM const& m) { return m.inverse_map(); }
BM bm_copy(BM const& m) { return BM(m); }
std::size_t mp_n(Map const& m) { return m.size(); }
idx mp_key(Map const& m, std::size_t k) { return std::next(m.begin(), k)->first; }
idx mp_val(Map const& m, std::size_t k) { return std::next(m.begin(), k)->second; }
} // namespace vp
