// Instantiates the access interface of products and expressions.
#include "expr.cpp"
namespace vp {
using MI = M::const_iterator;
using PG = std::shared_ptr<const G>;
M c_empty() { return M(); }
M c_init1(PG const& a) { return M({a}); }
M c_init2(PG const& a, PG const& b) { return M({a, b}); }
M c_init3(PG const& a, PG const& b, PG const& c) { return M({a, b, c}); }
M c_val1(GF const& a) { return M(a); }
M c_val2(GF const& a, GB const& b) { return M(a, b); }
M c_val3(GF const& a, GB const& b, GS const& c) { return M(a, b, c); }
M c_val4(GS const& a, GF const& b, GF const& c, GS const& d) { return M(a, b, c, d); }
M c_val5(GS const& a, GF const& b, GB const& c, GF const& d, GB const& e) { return M(a, b, c, d, e); }
M c_rval2(GF a, GB b) { return M(std::move(a), std::move(b)); }
M c_mix3(GF const& a, GB b, GS& c) { return M(a, std::move(b), c); }
bool c_isempty(M const& m) { return m.empty(); }

// i-th generator of m, reached in many ways; n is the number of generators
#define VP_WALK(NAME, BODY) G const& w_##NAME(M const& m, std::size_t i, std::size_t n) { (void)n; BODY }
VP_WALK(pre, auto it = m.begin(); for(std::size_t k = 0; k < i; ++k) ++it; return *it;)
VP_WALK(prev, auto it = m.begin(); for(std::size_t k = 0; k < i; ++k) it = ++it; return *it;)
VP_WALK(post, auto it = m.cbegin(); for(std::size_t k = 0; k < i; ++k) it++; return *it;)
VP_WALK(postold, auto it = m.cbegin(); for(std::size_t k = 0; k < i; ++k) it++; auto old = it++; return *old;)
VP_WALK(plus, return *(m.begin() + i);)
VP_WALK(rplus, return *(i + m.begin());)
VP_WALK(sub, return m.begin()[i];)
VP_WALK(pluseq, auto it = m.begin(); it += i; return *it;)
VP_WALK(pluseqv, auto it = m.begin(); return *(it += i);)
VP_WALK(minus, return *(m.end() - (n - i));)
VP_WALK(minuseq, auto it = m.cend(); it -= n - i; return *it;)
VP_WALK(minuseqv, auto it = m.cend(); return *(it -= n - i);)
VP_WALK(dec, auto it = m.end(); for(std::size_t k = i; k < n; ++k) --it; return *it;)
VP_WALK(decv, auto it = m.end(); for(std::size_t k = i; k < n; ++k) it = --it; return *it;)
VP_WALK(postdec, auto it = m.end(); for(std::size_t k = i; k < n; ++k) it--; return *it;)
VP_WALK(postdecold, auto it = m.end() - 1; for(std::size_t k = i + 1; k < n; ++k) it--; if(i == 0) return *it; auto old = it--; return *old;)
VP_WALK(rev, auto it = m.rbegin(); for(std::size_t k = i + 1; k < n; ++k) ++it; return *it;)
VP_WALK(crev, auto it = m.crbegin(); for(std::size_t k = i + 1; k < n; ++k) ++it; return *it;)
VP_WALK(rend, auto it = m.rend(); for(std::size_t k = 0; k <= i; ++k) --it; return *it;)
VP_WALK(crend, auto it = m.crend(); for(std::size_t k = 0; k <= i; ++k) --it; return *it;)
VP_WALK(arrow, auto it = m.begin() + i; return *(it.operator->());)
VP_WALK(at, return m[i];)
VP_WALK(range, std::size_t k = 0; for(auto const& g : m) if(k++ == i) return g; return m[n];)
VP_WALK(swap1, auto a = m.begin() + i; auto b = m.end(); swap(a, b); return *b;)
VP_WALK(swap2, auto a = m.begin(); auto b = m.begin() + i; swap(a, b); return *a;)
VP_WALK(copy, auto a = m.begin() + i; MI b; b = a; ++a; return *b;)
VP_WALK(next, return *std::next(m.begin(), i);)
std::ptrdiff_t d_dist(M const& m, std::size_t i, std::size_t j) { return (m.begin() + i) - (m.begin() + j); }
std::ptrdiff_t d_all(M const& m) { return m.end() - m.begin(); }
std::ptrdiff_t d_std(M const& m) { return std::distance(m.begin(), m.end()); }
std::ptrdiff_t d_rev(M const& m) { return std::distance(m.rbegin(), m.rend()); }
#define VP_CMPI(NAME, OP) bool i_##NAME(M const& m, std::size_t i, std::size_t j) { return (m.begin() + i) OP (m.cbegin() + j); }
VP_CMPI(eq, ==)
VP_CMPI(ne, !=)
VP_CMPI(lt, <)
VP_CMPI(gt, >)
VP_CMPI(le, <=)
VP_CMPI(ge, >=)

M::range_type rng(M const& m, std::size_t i, std::size_t j) { return std::make_pair(m.begin() + i, m.begin() + j); }
void a_gen(M& m, G const& g) { m.append(g); }
void a_mon(M& m, M const& x) { m.append(x); }
void a_rng(M& m, M const& x, std::size_t i, std::size_t j) { m.append(rng(x, i, j)); }
M k_m(M const& a) { return concatenate(a); }
M k_mm(M const& a, M const& b) { return concatenate(a, b); }
M k_mmm(M const& a, M const& b, M const& c) { return concatenate(a, b, c); }
M k_rvmm(M const& a, M const& b) { return concatenate(M(a), M(b)); }
M k_gm(G const& g, M const& m) { return concatenate(g, m); }
M k_mg(M const& m, G const& g) { return concatenate(m, g); }
M k_rr(M const& m, std::size_t i, std::size_t j, std::size_t k, std::size_t l) { return concatenate(rng(m, i, j), rng(m, k, l)); }
M k_rgr(M const& m, std::size_t i, std::size_t j, G const& g, std::size_t k, std::size_t l) { return concatenate(rng(m, i, j), g, rng(m, k, l)); }
M k_mrg(M const& m, M const& x, std::size_t i, std::size_t j, G const& g) { return concatenate(m, rng(x, i, j), g); }
void s_swap(M& m, std::size_t i, std::size_t j) { m.swap_generators(i, j); }

using EA = E<SA>;
using EI = EA::const_iterator;
#define VP_EWALK(NAME, BODY) \
  M const& em_##NAME(EA const& e, std::size_t i, std::size_t n) { (void)n; BODY return (*it).monomial; } \
  SA const& ec_##NAME(EA const& e, std::size_t i, std::size_t n) { (void)n; BODY return (*it).coeff; }
VP_EWALK(pre, auto it = e.begin(); for(std::size_t k = 0; k < i; ++k) ++it;)
VP_EWALK(prev, auto it = e.begin(); for(std::size_t k = 0; k < i; ++k) it = ++it;)
VP_EWALK(post, auto it = e.cbegin(); for(std::size_t k = 0; k < i; ++k) it++;)
VP_EWALK(postold, auto x = e.cbegin(); for(std::size_t k = 0; k < i; ++k) x++; auto it = x++;)
VP_EWALK(dec, auto it = e.end(); for(std::size_t k = i; k < n; ++k) --it;)
VP_EWALK(decv, auto it = e.end(); for(std::size_t k = i; k < n; ++k) it = --it;)
VP_EWALK(postdec, auto it = e.cend(); for(std::size_t k = i; k < n; ++k) it--;)
VP_EWALK(postdecold, auto x = e.end(); for(std::size_t k = i; k < n; ++k) x--; auto it = i == 0 ? x : x--;)
VP_EWALK(swap1, auto it = e.end(); auto b = e.begin(); for(std::size_t k = 0; k < i; ++k) ++b; swap(it, b);)
VP_EWALK(copy, EI it; auto b = e.begin(); for(std::size_t k = 0; k < i; ++k) ++b; it = b; ++b;)
VP_EWALK(until, auto it = e.end(); std::size_t k = 0; for(auto b = e.begin(); b != e.end(); ++b) if(k++ == i) it = b;)
M const& em_arrow(EA const& e, std::size_t i, std::size_t) { auto it = e.begin(); for(std::size_t k = 0; k < i; ++k) ++it; return it->monomial; }
SA const& ec_arrow(EA const& e, std::size_t i, std::size_t) { auto it = e.begin(); for(std::size_t k = 0; k < i; ++k) ++it; return it->coeff; }
M em_range(EA const& e, std::size_t i, std::size_t) { std::size_t k = 0; for(auto const& t : e) if(k++ == i) return t.monomial; return M(); }
SA ec_range(EA const& e, std::size_t i, std::size_t) { std::size_t k = 0; for(auto const& t : e) if(k++ == i) return t.coeff; return SA(); }
std::size_t e_count(EA const& e) { std::size_t k = 0; for(auto it = e.begin(); it != e.end(); ++it) ++k; return k; }
std::size_t e_countc(EA const& e) { std::size_t k = 0; for(auto it = e.cend(); !(it == e.cbegin()); --it) ++k; return k; }
void e_clr(EA& e) { e.clear(); }
EA e_tfsame(EA const& e);
SA call_ts(M const&, SA const&);
EA e_tfsame(EA const& e) { return transform(e, [](M const& m, SA const& s) { return call_ts(m, s); }); }
} // namespace vp
