"""What programs the type system accepts. Compile-time witnesses, one small program each, are
handed to the compiler's front end (nothing is generated or run) together with the
library's current headers. Accepting witnesses state the exact result type of every
arithmetic operation for every pair of scalar types for which C++ has the operation (and
force the instantiation of the operation's body); rejecting witnesses assign to, swap or
write into generators and elementary spaces, give misordered lists of algebra IDs or use
scalar conversions and operations that do not exist. Every rejecting witness has an accepted
neighbour that differs in the offending construct only. In addition the members of the
generator and elementary space classes themselves are examined in the type-checked program:
no accessible data member and no accessible member function may be able to modify an
existing object."""
import itertools
from util import export, AnalysisError
from witness import Witness, first_error, lib_loc

LEVEL = "other"
ASSUMPTIONS = ["clang 18 and its standard library in C++17 mode decide what is a valid program",
               "scalar types: short, int, long, unsigned, float, double, the complex types and user-defined types whose operations have heterogeneous results"]
NEED = {"result type": 700, "operation that does not exist": 60, "conversion": 80, "immutable": 150, "algebra list": 600, "no mutator": 200}

PRE = r"""
#include <libcommute/libcommute.hpp>
#include <string>
#include <complex>
#include <utility>
namespace lc = libcommute;
namespace vp {
struct SA { SA(); SA(struct SC const&); explicit SA(struct SX const&); };
struct SX { SX(); explicit SX(SA const&); };
struct SB { SB(); };
struct SC { SC(); SC(SA const&); SC(SB const&); };
struct SN { SN(); };
struct SU { SU(); };
struct SP2 { SP2(); };
struct SD2 { SD2(); SD2(SP2 const&); };
#define VP_BIN(L, R, Res) Res operator+(L const&, R const&); Res operator-(L const&, R const&); Res operator*(L const&, R const&);
#define VP_CMP(L, R) L& operator+=(L&, R const&); L& operator-=(L&, R const&); L& operator*=(L&, R const&);
VP_BIN(SA, SA, SA) VP_BIN(SA, SB, SC) VP_BIN(SB, SA, SC) VP_BIN(SB, SB, SB) VP_BIN(SA, SC, SC) VP_BIN(SC, SA, SC)
VP_BIN(SB, SC, SC) VP_BIN(SC, SB, SC) VP_BIN(SC, SC, SC) VP_BIN(SN, SN, SN) VP_BIN(SX, SX, SX) VP_BIN(SX, SA, SX) VP_BIN(SA, SX, SA) VP_BIN(SU, SU, SU)
VP_CMP(SA, SA) VP_CMP(SB, SB) VP_CMP(SC, SC) VP_CMP(SC, SA) VP_CMP(SC, SB) VP_CMP(SU, SU) VP_CMP(SX, SX)
SP2 operator+(SP2 const&, SP2 const&); SP2 operator*(SP2 const&, SP2 const&); SD2 operator-(SP2 const&, SP2 const&);
SD2 operator+(SD2 const&, SD2 const&); SD2 operator-(SD2 const&, SD2 const&); SD2 operator*(SD2 const&, SD2 const&);
SD2 operator+(SD2 const&, SP2 const&); SD2 operator-(SD2 const&, SP2 const&); SD2 operator*(SD2 const&, SP2 const&);
SD2 operator+(SP2 const&, SD2 const&); SD2 operator-(SP2 const&, SD2 const&); SD2 operator*(SP2 const&, SD2 const&);
VP_CMP(SD2, SD2) VP_CMP(SD2, SP2)
SA operator-(SA const&); SB operator-(SB const&); SC operator-(SC const&); SN operator-(SN const&); SX operator-(SX const&); SA operator-(SU const&);
SD2 operator-(SP2 const&); SD2 operator-(SD2 const&);
struct Idx { int tag; };
bool operator==(Idx const&, Idx const&); bool operator<(Idx const&, Idx const&); bool operator>(Idx const&, Idx const&);
std::string to_string(Idx const&); std::ostream& operator<<(std::ostream&, Idx const&);
struct NoConv {};
}
namespace libcommute {
#define VP_TR(T) template <> struct scalar_traits<vp::T> { static bool is_zero(vp::T const&); static vp::T make_const(double); static vp::T make_const(var_number const&); static vp::T conj(vp::T const&); };
VP_TR(SA) VP_TR(SB) VP_TR(SC) VP_TR(SN) VP_TR(SU) VP_TR(SX) VP_TR(SP2) VP_TR(SD2)
#define VP_ALG(N) \
template <> class monomial_action<N> { public: \
  template <typename... I> monomial_action(detail::monomial_range_t<I...> const&, hilbert_space<I...> const&) {} \
  template <typename S> bool act(sv_index_type&, S&) const { return true; } }; \
template <> class es_constructor<N> { public: es_constructor() = default; \
  template <typename... I> std::unique_ptr<elementary_space<I...>> operator()(generator<I...> const& g) const { return nullptr; } };
VP_ALG(0) VP_ALG(7)
}
namespace vp {
using namespace libcommute;
template <typename S> using E = lc::expression<S, int>;
template <typename S> using ED = lc::expression<S, lc::dynamic_indices::dyn_indices>;
template <typename S> using E0 = lc::expression<S>;
using cf = std::complex<float>; using cd = std::complex<double>;
template <typename A, typename B> constexpr bool same = std::is_same<A, B>::value;
template <typename T> using dec = typename std::decay<T>::type;
#define VP_OPT(N, OP) \
template <typename L, typename R, typename = void> struct has_##N : std::false_type {}; \
template <typename L, typename R> struct has_##N<L, R, lc::void_t<decltype(std::declval<L const&>() OP std::declval<R const&>())>> : std::true_type {}; \
template <typename L, typename R, typename = void> struct hasc_##N : std::false_type {}; \
template <typename L, typename R> struct hasc_##N<L, R, lc::void_t<decltype(std::declval<L&>() OP##= std::declval<R const&>())>> : std::true_type {};
VP_OPT(a, +) VP_OPT(s, -) VP_OPT(m, *)
template <typename B, typename... X> struct derived_gen : B { using B::B; };
}
using namespace vp;
"""

SC = ["short", "int", "long", "unsigned", "float", "double", "cf", "cd", "SA", "SB", "SC", "SN", "SU", "SX", "SP2", "SD2"]
USER = ("SA", "SB", "SC", "SN", "SU", "SX", "SP2", "SD2")
SYM = {"a": "+", "s": "-", "m": "*"}


def matrix(ctx):
    """Which operations and conversions of the scalars does C++ have? (asked of the compiler)"""
    code = []
    q = []
    for l in SC:
        for r in SC:
            for o in "asm":
                q.append((o, l, r, "has_%s<%s, %s>::value" % (o, l, r)))
                q.append((o + "=", l, r, "hasc_%s<%s, %s>::value" % (o, l, r)))
            q.append(("conv", l, r, "std::is_constructible<%s, %s>::value" % (l, r)))
            q.append(("int", l, r, "std::is_integral<%s>::value" % l))
    return q


def ask(W, q):
    """Answers of the compiler to constant expressions, read off one failing static_assert each"""
    code = "".join("static_assert(!(%s), \"Q%d\");\n" % (e[3], i) for i, e in enumerate(q))
    flags = list(W.flags)
    W.flags = [f for f in flags if not f.startswith("-ferror-limit")] + ["-ferror-limit=0"]
    try:
        (_, ok, err), = W.run([("matrix", code)])
    finally:
        W.flags = flags
    import re
    yes = set()
    for l in err.splitlines():
        if ": error: " in l:
            m = re.search(r"static assertion failed.*: Q(\d+)$", l)
            if not m:
                raise AnalysisError("unexpected answer about the scalar types: " + l)
            yes.add(int(m.group(1)))
    return {(e[0], e[1], e[2]): i in yes for i, e in enumerate(q)}


def run(ctx):
    loc = "include/libcommute/expression/expression.hpp"
    with Witness(PRE) as W:
        M = ask(W, matrix(ctx))
        acc, rej = [], []   # (rule, key, code, location)

        # -- result types ------------------------------------------------
        exprs = ["E", "ED", "E0"] if ctx.thorough else ["E", "ED"]
        for T in exprs:
            for l in SC:
                for r in SC:
                    if T != "E" and not ctx.thorough and (l in USER or r in USER or l in ("short", "unsigned")):
                        continue
                    for o, s in SYM.items():
                        res = "dec<decltype(std::declval<%s const&>() %s std::declval<%s const&>())>" % (l, s, r)
                        for form, ll, rr in (("expression with expression", "%s<%s>" % (T, l), "%s<%s>" % (T, r)),
                                             ("expression with scalar", "%s<%s>" % (T, l), r),
                                             ("scalar with expression", l, "%s<%s>" % (T, r))):
                            key = "%s %s %s" % (ll, s, rr)
                            args = "%s const& x, %s const& y" % (ll, rr)
                            if M[(o, l, r)]:
                                acc.append(("result type", key,
                                            "void w(%s) { auto z = x %s y; static_assert(same<decltype(z), %s<%s>>, \"wrong type of the result\"); }\n" % (args, s, T, res)))
                                if form == "expression with expression" and l in ("double", "SA"):
                                    acc.append(("result type", key + " (temporaries)",
                                                "void w(%s) { static_assert(same<decltype(%s(x) %s %s(y)), %s<%s>>, \"wrong type of the result\"); auto z = %s(x) %s y; }\n" % (args, ll, s, rr, T, res, ll, s)))
                            elif T == "E":
                                rej.append(("operation that does not exist", key, "void w(%s) { auto z = x %s y; }\n" % (args, s)))
                        # compound assignments
                        okc = M[(o + "=", l, r)]
                        via = M[(o, l, r)]
                        for ll, rr in (("%s<%s>" % (T, l), "%s<%s>" % (T, r)), ("%s<%s>" % (T, l), r)):
                            key = "%s %s= %s" % (ll, s, rr)
                            code = "void w(%s& x, %s const& y) { static_assert(same<decltype(x %s= y), %s&>, \"wrong type of the result\"); x %s= y; }\n" % (ll, rr, s, ll, s)
                            if l == r and via:
                                # the result must fit the scalar type
                                resfits = l not in ("SP2",) or o != "s"
                                if resfits:
                                    acc.append(("result type", key, code))
                            elif okc and via and M[("conv", l, r)] and l not in USER and r not in USER:
                                acc.append(("result type", key, code))
                            elif not okc and not M[("conv", l, r)] and T == "E" and not via:
                                rej.append(("operation that does not exist", key, code))
                            elif not M[("conv", l, r)] and not okc and T == "E" and l not in USER and r not in USER:
                                rej.append(("operation that does not exist", key, code))
                acc.append(("result type", "-%s<%s>" % (T, l),
                            "void w(%s<%s> const& x) { auto z = -x; static_assert(same<decltype(z), %s<dec<decltype(-std::declval<%s const&>())>>>, \"wrong type of the result\"); }\n" % (T, l, T, l)))
                acc.append(("result type", "conj(%s<%s>)" % (T, l),
                            "void w(%s<%s> const& x) { auto z = conj(x); static_assert(same<decltype(z), %s<%s>>, \"wrong type of the result\"); }\n" % (T, l, T, l)))
                for l2 in ("int", "double", "cd", "SA"):
                    acc.append(("result type", "transform(%s<%s>) to %s" % (T, l, l2),
                                "struct f { %s operator()(typename %s<%s>::monomial_t const&, %s const&) const; };\n"
                                "void w(%s<%s> const& x) { auto z = transform(x, f()); static_assert(same<decltype(z), %s<%s>>, \"wrong type of the result\"); }\n" % (l2, T, l, l, T, l, T, l2)))
        # factories
        for ns, T in (("static_indices", "E"), ("dynamic_indices", "ED")):
            for s in ("double", "cd", "int", "SA"):
                for call, in (("c_dag<%s>(1)",), ("c<%s>(1)",), ("n<%s>(1)",), ("a_dag<%s>(1)",), ("a<%s>(1)",), ("S_p<2, %s>(1)",),
                              ("S_m<2, %s>(1)",), ("S_z<2, %s>(1)",), ("S_p<3, %s>(1)",), ("S_z<3, %s>(1)",)):
                    e = "lc::%s::%s" % (ns, call % s)
                    acc.append(("result type", "%s::%s" % (ns, call % s),
                                "void w() { auto z = %s; static_assert(same<decltype(z), %s<%s>>, \"wrong type of the result\"); }\n" % (e, T, s)))
            for call, s in (("c_dag(1)", "double"), ("n(1)", "double"), ("a(1)", "double"), ("S_p(1)", "double"), ("S_z<3>(1)", "double"),
                            ("S_x(1)", "cd"), ("S_y(1)", "cd"), ("S_x<3>(1)", "cd"), ("S_y<4>(1)", "cd")):
                acc.append(("result type", "%s::%s" % (ns, call),
                            "void w() { auto z = lc::%s::%s; static_assert(same<decltype(z), %s<%s>>, \"wrong type of the result\"); }\n" % (ns, call, T, s)))

        # -- conversions ---------------------------------------------------
        for l in SC:
            for r in SC:
                if l == r:
                    continue
                forms = (("%s<%s> from %s<%s>" % ("E", l, "E", r), "void w(E<%s> const& y) { E<%s> x(y); }\n" % (r, l)),
                         ("%s<%s> assigned from %s<%s>" % ("E", l, "E", r), "void w(E<%s>& x, E<%s> const& y) { x = y; }\n" % (l, r)),
                         ("E<%s> from %s" % (l, r), "void w(%s const& y) { E<%s> x(y); }\n" % (r, l)),
                         ("E<%s> from a monomial and %s" % (l, r), "void w(%s const& y, E<%s>::monomial_t const& m) { E<%s> x(y, m); }\n" % (r, l, l)))
                for key, code in forms:
                    (acc if M[("conv", l, r)] else rej).append(("conversion", key, code))
        for key, code in (("E<double> from a type that is no scalar", "void w(NoConv const& y) { E<double> x(y); }\n"),
                          ("E<double> assigned from another index type", "void w(E<double>& x, ED<double> const& y) { x = y; }\n"),
                          ("E<double> += another index type", "void w(E<double>& x, ED<double> const& y) { x += y; }\n"),
                          ("E<double> * another index type", "void w(E<double>& x, ED<double> const& y) { auto z = x * y; }\n"),
                          ("E<double> - another index type", "void w(E<double>& x, E0<double> const& y) { auto z = x - y; }\n")):
            rej.append(("conversion", key, code))

        # -- immutability --------------------------------------------------
        G = {}
        for ix, mk in (("int", "1"), ("vp::Idx", "vp::Idx{1}"), ("std::string", "std::string()"), ("lc::dynamic_indices::dyn_indices", "lc::dynamic_indices::dyn_indices(1)")):
            for t in ("generator", "generator_fermion", "generator_boson", "generator_spin",
                      "elementary_space", "elementary_space_fermion", "elementary_space_boson", "elementary_space_spin"):
                G["%s<%s>" % (t, ix)] = (t, ix)
        for n, (t, ix) in G.items():
            n = "lc::" + n
            for key, stmt in (("copy assignment", "x = y;"), ("move assignment", "x = std::move(z);"), ("swap", "using std::swap; swap(x, z);"),
                              ("assignment to its indices", "x.indices() = y.indices();"),
                              ("a writable reference to its indices", "std::tuple<%s>& r = x.indices(); r = y.indices();" % ix),
                              ("assignment to one of its indices", "std::get<0>(x.indices()) = std::get<0>(y.indices());"),
                              ("calling assignment explicitly", "x.operator=(y);")):
                rej.append(("immutable", "%s: %s" % (n, key), "void w(%s& x, %s const& y, %s& z) { %s }\n" % (n, n, n, stmt)))
            acc.append(("immutable", "%s: reading" % n,
                        "void w(%s& x, %s const& y) { auto i = x.indices(); std::tuple<%s> const& r = y.indices(); auto j = std::get<0>(y.indices()); auto a = x.algebra_id(); bool b = x == y || x < y; }\n" % (n, n, ix)))
            acc.append(("immutable", "%s: copying" % n,
                        "template <class T> void f(T const& y) { if constexpr (!std::is_abstract<T>::value) { T x(y); T z(std::move(x)); } }\nvoid w(%s const& y) { f(y); }\n" % n))
            rej.append(("immutable", "%s: assignment of a derived class" % n,
                        "struct D : %s { using %s::%s; };\nvoid w(D& x, D const& y) { x = y; }\n" % (n, n, t)))
            rej.append(("immutable", "%s: move assignment of a derived class" % n,
                        "struct D : %s { using %s::%s; };\nvoid w(D& x, D& y) { x = std::move(y); }\n" % (n, n, t)))
        accessors = {"generator_fermion": ["dagger"], "generator_boson": ["dagger"], "generator_spin": ["multiplicity", "spin", "component"],
                     "elementary_space_fermion": ["dim", "n_bits"], "elementary_space_boson": ["dim", "n_bits"], "elementary_space_spin": ["dim", "n_bits"]}
        for n, (t, ix) in G.items():
            for m in accessors.get(t, ()) + ["algebra_id"] if t in accessors else ["algebra_id"]:
                rej.append(("immutable", "lc::%s: assignment to %s()" % (n, m), "void w(lc::%s& x) { x.%s() = x.%s(); }\n" % (n, m, m)))
                rej.append(("immutable", "lc::%s: a writable reference to %s()" % (n, m), "void w(lc::%s& x) { auto& r = x.%s(); r = x.%s(); }\n" % (n, m, m)))
                acc.append(("immutable", "lc::%s: reading %s()" % (n, m), "void w(lc::%s const& x) { auto r = x.%s(); }\n" % (n, m)))
        # generators and spaces held by other objects
        for ix in ("int", "lc::dynamic_indices::dyn_indices"):
            m, e, hs = "lc::monomial<%s>" % ix, "lc::expression<double, %s>" % ix, "lc::hilbert_space<%s>" % ix
            g = "lc::generator<%s>" % ix
            for key, args, good, bad in (
                    ("element of a monomial", "%s& x" % m, "%s const& g = x[0];", "%s& g = x[0];"),
                    ("iterator of a monomial", "%s& x" % m, "%s const& g = *x.begin();", "%s& g = *x.begin();"),
                    ("reverse iterator of a monomial", "%s& x" % m, "%s const& g = *x.rbegin();", "%s& g = *x.rbegin();"),
                    ("term of an expression", "%s& x" % e, "%s const& g = *(*x.begin()).monomial.begin();", "%s& g = *(*x.begin()).monomial.begin();"),
                    ("terms of a linear function", "typename %s::linear_function_t& f" % g, "%s const& g = *f.terms[0].first;", "%s& g = *f.terms[0].first;")):
                acc.append(("immutable", "%s: %s read" % (ix, key), "void w(%s) { %s }\n" % (args, good % g)))
                rej.append(("immutable", "%s: %s written" % (ix, key), "void w(%s) { %s }\n" % (args, bad % g)))
            for key, args, good, bad in (
                    ("monomial of a term", "%s& x" % e, "auto const& r = (*x.begin()).monomial;", "(*x.begin()).monomial = %s();" % m),
                    ("coefficient through the iterator", "%s& x" % e, "auto const& r = (*x.begin()).coeff;", "(*x.begin()).coeff = 2.0;"),
                    ("key of the monomials map", "%s& x" % e, "auto const& r = x.get_monomials().begin()->first;", "x.get_monomials().begin()->first = %s();" % m),
                    ("monomials of a constant expression", "%s const& x" % e, "auto n = x.get_monomials().size();", "x.get_monomials().clear();"),
                    ("constant expression", "%s const& x" % e, "auto y = x; y += x;", "auto y = x; x += y;"),
                    ("constant expression times", "%s const& x" % e, "auto y = x; y *= 2.0;", "x *= 2.0;")):
                acc.append(("immutable", "%s: %s read" % (ix, key), "void w(%s) { %s }\n" % (args, good)))
                rej.append(("immutable", "%s: %s written" % (ix, key), "void w(%s) { %s }\n" % (args, bad)))
            es = "lc::elementary_space<%s>" % ix
            acc.append(("immutable", "%s: spaces of a Hilbert space read" % ix,
                        "struct f { void operator()(%s const&); };\nvoid w(%s& h) { h.foreach_elementary_space(f()); }\n" % (es, hs)))

        # -- algebra lists -------------------------------------------------
        NAMES = {-3: "fermion", -2: "boson", -1: "spin", 0: "0", 7: "7"}
        maxl = 4 if ctx.thorough else 3
        for n in range(0, maxl + 1):
            for ids in itertools.product(NAMES, repeat=n):
                if n == 4 and not (ids[0] < ids[1] or sorted(ids) == list(ids)):
                    continue
                L = ", ".join("lc::" + NAMES[i] if i < 0 else NAMES[i] for i in ids)
                good = all(a < b for a, b in zip(ids, ids[1:]))
                txt = ", ".join(NAMES[i] for i in ids)
                arg = "4" if -2 in ids else ""
                cases = [("monomial_action<%s>" % txt,
                          "void w(lc::monomial<int> const& m, lc::hilbert_space<int> const& hs) { lc::monomial_action<%s> a(std::make_pair(m.begin(), m.end()), hs); }\n" % L),
                         ("loperator<double%s>" % (n and ", " + txt or ""),
                          "void w(E<double> const& e, lc::hilbert_space<int> const& hs) { lc::loperator<double%s> a(e, hs); }\n" % (n and ", " + L or "")),
                         ("parametric_loperator<double%s>" % (n and ", " + txt or ""),
                          "void w(E<double> const& e, lc::hilbert_space<int> const& hs) { lc::parametric_loperator<double%s> a(e, hs); }\n" % (n and ", " + L or "")),
                         ("es_constructor<%s>" % txt,
                          "void w(E<double> const& e) { lc::es_constructor<%s> c%s; lc::hilbert_space<int> hs(e, c); }\n" % (L, "(4)" if arg else ""))]
                for key, code in cases:
                    ok = good and not (n == 0 and key.startswith("es_"))
                    (acc if ok else rej).append(("algebra list", key, code))

        # -- decide ----------------------------------------------------------
        # accepting witnesses in groups; a rejected group is taken apart
        groups = [acc[i:i + 40] for i in range(0, len(acc), 40)]
        src = []
        for i, g in enumerate(groups):
            src.append((i, "".join("namespace w%d {\n%s}\n" % (j, c) for j, (_, _, c) in enumerate(g))))
        single = []
        for i, ok, err in W.run(src):
            if ok:
                for r, k, c in groups[i]:
                    ctx.ob(r, k, True)
            else:
                single += groups[i]
        for (r, k, c), (_, ok, err) in zip(single, W.run([(i, c) for i, (r, k, c) in enumerate(single)])):
            ctx.ob(r, k, ok, "a valid program is rejected (%s): %s" % (k, first_error(err)), lib_loc(err) or loc, c)
        for (r, k, c), (_, no) in zip(rej, W.rejected([(i, c) for i, (r, k, c) in enumerate(rej)])):
            ctx.ob(r, k, no, "an invalid program is accepted: %s: %s" % (k, c.strip().splitlines()[-1]), loc_for(r, k, loc), c)
        ctx.sample({"accepted": [k for _, k, _ in acc[:4]], "rejected": [k for _, k, _ in rej[:4]]})
    members(ctx)


def loc_for(rule, key, loc):
    d = "include/libcommute/"
    if rule == "algebra list":
        return d + ("loperator/es_constructor.hpp" if key.startswith("es_") else "loperator/monomial_action.hpp")
    if rule == "immutable":
        for t in ("generator_fermion", "generator_boson", "generator_spin", "generator"):
            if t + "<" in key:
                return d + "expression/%s.hpp" % t
        for t in ("elementary_space_fermion", "elementary_space_boson", "elementary_space_spin", "elementary_space"):
            if t + "<" in key:
                return d + "loperator/%s.hpp" % t
        return d + "expression/monomial.hpp" if "monomial" in key else loc
    return loc


# -- members of the immutable classes ------------------------------------------
CLASSES = ["libcommute::" + p + s for p in ("generator", "elementary_space") for s in ("", "_fermion", "_boson", "_spin")]


def members(ctx):
    P = export("immut.cpp")
    for q in CLASSES:
        recs = [r for r in P.recs_by_q.get(q, ()) if r.get("def")]
        if not recs:
            raise AnalysisError("anchor: no instance of class %s" % q)
        for r in recs:
            for f in r["fields"]:
                ok = f.get("acc") != "public" or f.get("cst")
                ctx.ob("no mutator", "%s::%s" % (r["s"], f["n"]), ok and not f.get("mut"),
                       "data member %s of %s can be modified from outside" % (f["n"], r["s"]), P.loc(f["l"]))
            for m in r["methods"]:
                f = P.F[m]
                if f["kind"] in ("ctor", "dtor") or f.get("static") or f.get("deleted"):
                    continue
                if f.get("const") or f.get("acc") == "private":
                    ctx.ob("no mutator", f.get("s") or f["q"], True)
                    continue
                ctx.ob("no mutator", "%s::%s" % (r["s"], f["q"]), not mutates(P, f),
                       "member function %s can modify a %s" % (f["q"], r["s"]), P.loc(f["l"]))


def mutates(P, f):
    """can this non-constant member function do anything a constant one could not?"""
    return bool(f.get("cassign") or f.get("massign") or f.get("mw", True))
