"""The element interface of every state vector type, decided by abstract interpretation over
vectors of formal amplitudes: each amplitude is an independent unknown whose zero test is
explored both ways. After every operation all elements are compared, as formal sums, with
what the operation is documented to do; for Eigen types the elements around the block or map
must stay untouched. That every type models the interface (element type, all functions, all
combinations of operator arguments, with the real Eigen) is decided by compile-time witnesses.
Eigen is represented by a stand-in with Eigen's access semantics; views
are built over Hilbert spaces of several shapes and judged by their own reading function."""
from vecs import *
from witness import *

LEVEL = "other"
ASSUMPTIONS = ["Eigen's element access is as documented (its expression templates are replaced by a stand-in)",
               "zeros are not stored in a sparse_state_vector through operator[] (documented misuse), except where prune() is checked"]
NEED = {"read": 50, "models": 80, "update": 200, "clear": 60, "zeros_like": 15, "foreach": 200, "sparse": 20}


def run(ctx):
    models(ctx)
    with ctx.guard("element interface"):
        elements(ctx)


def elements(ctx):
    D = VD()
    I, S = D.I, D.S
    fl = {"get": "get_element", "add": "update_add_element", "zero": "set_zeros", "like": "zeros_like", "each": "foreach"}

    what_kind = ["v"]

    def explore(rule, inst, thunk, what):
        loc0 = D.kloc(fl[what], what_kind[0])
        for k, v, dec in I.explore(thunk):
            loc = getattr(v, "loc", None) if k == "bad" else None
            if k != "ok":
                v = describe(k, v)
            ctx.ob(rule, inst, v is None, v or "", loc or loc0)

    def diff(got, want, what):
        if len(got) != len(want):
            return "%s: %d elements instead of %d" % (what, len(got), len(want))
        for i, (g, w) in enumerate(zip(got, want)):
            if not D.same(g, w):
                return "%s: element %d is %r instead of %r" % (what, i, g, w)

    def visits(log, want):
        """want: {index: amplitude}"""
        seen = {}
        for n, a in log:
            if n in seen:
                return "foreach() visits index %r twice" % (n,)
            seen[n] = a
            if n not in want:
                return "foreach() visits index %r, which the vector does not have" % (n,)
            if S.known(I, want[n]) is True:
                return "foreach() visits index %r, whose amplitude is zero" % (n,)
            if not D.same(a, want[n]):
                return "foreach() passes %r for index %r instead of %r" % (a, n, want[n])
        for n, a in want.items():
            if n not in seen and S.known(I, a) is not True:
                return "foreach() does not visit index %r, whose amplitude %r is not zero" % (n, a)

    shapes = ["", "u", "n", "uu", "nz", "zn", "uuu", "nzn"] + (["uuuu", "znzu", "uuuuu"] if ctx.thorough else [])
    for kind in BASE:
        nm = kname(kind)
        what_kind[0] = kind
        for sh in shapes:
            n = len(sh)
            inst = "%s, amplitudes %s" % (nm, sh or "none")

            def read():
                c, obs, rim, a = D.base(kind, sh)
                r0 = rim()
                r = diff([D.val("get_" + kind, c, i).attr for i in range(n)], a, "get_element()")
                return r or diff(obs() + rim(), a + r0, "after get_element()")
            explore("read", inst, read, "get")

            def clear():
                c, obs, rim, a = D.base(kind, sh)
                r0 = rim()
                D.call("zero_" + kind, c)
                return diff(obs(), [Poly.const(0)] * n, "after set_zeros()") or diff(rim(), r0, "outside the vector")
            explore("clear", inst, clear, "zero")

            def like():
                c, obs, rim, a = D.base(kind, sh)
                r0 = rim()
                z = Cell(D.val("like_" + kind, c))
                if kind in ("v", "n", "s"):
                    o = {"v": "v", "n": "n", "s": "s"}[kind]
                    got = ([D.val("get_s", z, i).attr for i in range(D.val("s_size", z))] if o == "s" else
                           [D.val(o + "_at", z, i).attr for i in range(D.val(o + "_n", z))])
                else:
                    got = [D.val("ev_at", z, i).attr for i in range(D.val("ev_n", z))]
                r = diff(got, [Poly.const(0)] * n, "zeros_like()") or diff(obs() + rim(), a + r0, "the argument of zeros_like()")
                if r or not n:
                    return r
                # the new vector is independent of the old one
                x = D.scalar("x", "DN" if kind == "n" else "DA", nonzero=True)
                k2 = kind if kind in ("v", "n", "s") else "ev"
                D.call("add_" + k2, z, 0, Cell(x))
                return diff(obs(), a, "after changing the vector made by zeros_like()")
            explore("zeros_like", inst, like, "like")

            def each():
                c, obs, rim, a = D.base(kind, sh)
                r0 = rim()
                r = visits(D.log(kind, c), dict(enumerate(a)))
                if r is None and kind != "n":
                    r = visits(D.log(kind, c, lv=True), dict(enumerate(a)))
                return r or diff(obs() + rim(), a + r0, "after foreach()")
            explore("foreach", inst, each, "each")

            for i in range(n):
                for mode in ("add", "addm", "addb"):
                    if mode == "addb" and kind == "n":
                        continue

                    def upd():
                        c, obs, rim, a = D.base(kind, sh)
                        r0 = rim()
                        x = Cell(D.scalar("x", "DN" if kind == "n" else "DB" if mode == "addb" else "DA"))
                        xv = x.v.attr
                        D.call(mode + "_" + kind, c, i, x)
                        want = list(a)
                        want[i] = want[i] + xv
                        r = diff(obs(), want, "after update_add_element(%d, x)" % i) or diff(rim(), r0, "outside the vector")
                        if r is None and mode != "addm" and not (I.load(x).attr == xv):
                            r = "update_add_element() changes its argument"
                        if r is None:
                            r = visits(D.log(kind, c), dict(enumerate(want)))
                        return r
                    explore("update", "%s, %s" % (inst, mode), upd, "add")

    # bookkeeping of sparse vectors
    what_kind[0] = "s"
    for sh in ["", "u", "uu", "nzn", "uzu"]:
        n = len(sh)

        def nnz():
            c = Cell(D.val("s_new", n))
            a = D.amps(sh)
            for i in range(n):
                D.call("add_s", c, i, Cell(a[i]))
            k = sum(1 for o in a if S.known(I, o.attr) is not True)
            got = D.val("s_nnz", c)
            if got != k:
                return "n_nonzeros() is %r for %d non-zero amplitudes" % (got, k)
            if D.val("s_size", c) != n:
                return "size() is %r instead of %d" % (D.val("s_size", c), n)
        explore("sparse", "n_nonzeros(), amplitudes %s" % (sh or "none"), nnz, "add")

        def cancel():
            c = Cell(D.val("s_new", n))
            a = D.amps(sh)
            for i in range(n):
                D.call("add_s", c, i, Cell(a[i]))
            for i in range(n):
                D.call("add_s", c, i, Cell(S.mk("DA", -a[i].attr)))
            got = D.val("s_nnz", c)
            if got != 0:
                return "%r amplitudes are left after every amplitude was cancelled" % (got,)
        explore("sparse", "cancellation, amplitudes %s" % (sh or "none"), cancel, "add")

        def prune():
            c = Cell(D.val("s_new", n))
            a = D.amps(sh)
            for i in range(n):
                D.call("s_put", c, i, Cell(a[i]))
            D.call("s_prune", c)
            k = sum(1 for o in a if S.known(I, o.attr) is not True)
            got = D.val("s_nnz", c)
            if got != k:
                return "%r elements are stored after prune() instead of %d" % (got, k)
            return diff([D.val("get_s", c, i).attr for i in range(n)], [o.attr for o in a], "after prune()")
        explore("sparse", "prune(), amplitudes %s" % (sh or "none"), prune, "add")

        def prune_p():
            c = Cell(D.val("s_new", n))
            a = D.amps(sh)
            for i in range(n):
                D.call("s_put", c, i, Cell(a[i]))
            b = D.scalar("b")
            D.call("s_prune_eq", c, Cell(b))
            for i in range(n):
                d = a[i].attr - b.attr
                eq = True if d == 0 else I.dec.get(("eq", d))
                got = D.val("get_s", c, i).attr
                if eq is None:
                    return "prune() does not test element %d" % i
                if not D.same(got, Poly.const(0) if eq else a[i].attr):
                    return "element %d is %r after prune() of the elements equal to b" % (i, got)
        explore("sparse", "prune(predicate), amplitudes %s" % (sh or "none"), prune_p, "add")

    # views, judged by their own get_element()
    for kind in READABLE:
        what_kind[0] = kind
        confs = CONFS[kind[:2]] + (CONFS_T[kind[:2]] if ctx.thorough else [])
        for W in "vs":
            for conf in confs:
                sts = states(kind, conf)
                n = len(sts)
                inst = "%s over %s, %r" % (kname(kind), NAMES[W], conf)
                Kw = "%s_%s" % (kind, W)
                pats = ["n" * n] if n else [""]
                if n:
                    pats.append(("uzu" * n)[:n] if n <= 4 else "uu" + ("nz" * n)[:n - 2])
                    pats.append(("zn" * n)[:n])
                for sh in pats:
                    def each():
                        c, obs, rim, a = D.base(W, sh)
                        w = D.view(kind, conf, W, c)
                        want = {st: D.val("get_" + Kw, w, st).attr for st in sts}
                        r = visits(D.log(Kw, w), want)
                        if r is None:
                            r = visits(D.log(Kw, w, lv=True), want)
                        return r
                    explore("foreach", "%s, amplitudes %s" % (inst, sh or "none"), each, "each")
                if kind in CONSTV:
                    continue

                def clear():
                    c, obs, rim, a = D.base(W, "n" * n)
                    w = D.view(kind, conf, W, c)
                    D.call("zero_" + Kw, w)
                    return diff([D.val("get_" + Kw, w, st).attr for st in sts], [Poly.const(0)] * n, "after set_zeros()")
                explore("clear", inst, clear, "zero")
                for i, st in enumerate(sts):
                    if n > 6 and not ctx.thorough and i not in (0, 1, n // 2, n - 1):
                        continue
                    for mode in ("add", "addm", "addb"):
                        def upd():
                            c, obs, rim, a = D.base(W, "n" * n)
                            w = D.view(kind, conf, W, c)
                            before = [D.val("get_" + Kw, w, t).attr for t in sts]
                            x = Cell(D.scalar("x", "DB" if mode == "addb" else "DA"))
                            xv = x.v.attr
                            D.call(mode + "_" + Kw, w, st, x)
                            before[i] = before[i] + xv
                            r = diff([D.val("get_" + Kw, w, t).attr for t in sts], before, "after update_add_element(%d, x)" % st)
                            if r is None and mode != "addm" and not (I.load(x).attr == xv):
                                r = "update_add_element() changes its argument"
                            return r
                        explore("update", "%s, %s at %d" % (inst, mode, st), upd, "add")
    ctx.used(I)


# type, scalar, how to make a value named x from the vectors/matrices of the prelude
TYPES = [
    ("std::vector<double>", "double", "std::vector<double> x(4);"),
    ("std::vector<std::complex<double>>", "std::complex<double>", "std::vector<std::complex<double>> x(4);"),
    ("lc::sparse_state_vector<double>", "double", "lc::sparse_state_vector<double> x(4);"),
    ("lc::sparse_state_vector<std::complex<double>>", "std::complex<double>", "lc::sparse_state_vector<std::complex<double>> x(4);"),
    ("Eigen::VectorXd", "double", "Eigen::VectorXd x(4);"),
    ("Eigen::VectorXcd", "std::complex<double>", "Eigen::VectorXcd x(4);"),
    ("Eigen::Vector4d", "double", "Eigen::Vector4d x;"),
    ("Eigen::VectorBlock<Eigen::VectorXd>", "double", "Eigen::VectorXd y(6); auto x = y.segment(1, 4);"),
    ("Eigen::VectorBlock<Eigen::VectorXcd>", "std::complex<double>", "Eigen::VectorXcd y(6); auto x = y.segment(1, 4);"),
    ("decltype(std::declval<Eigen::MatrixXd&>().col(1))", "double", "Eigen::MatrixXd y(4, 4); auto x = y.col(1);"),
    ("decltype(std::declval<Eigen::MatrixXcd&>().col(1))", "std::complex<double>", "Eigen::MatrixXcd y(4, 4); auto x = y.col(1);"),
    ("decltype(std::declval<Eigen::MatrixXd&>().block(0, 0, 4, 1))", "double", "Eigen::MatrixXd y(4, 4); auto x = y.block(0, 1, 4, 1);"),
    ("decltype(std::declval<Eigen::MatrixXcd&>().block(0, 0, 4, 1))", "std::complex<double>", "Eigen::MatrixXcd y(4, 4); auto x = y.block(0, 1, 4, 1);"),
    ("Eigen::Map<Eigen::VectorXd>", "double", "double y[4]; Eigen::Map<Eigen::VectorXd> x(y, 4);"),
    ("Eigen::Map<Eigen::Vector4d>", "double", "double y[4]; Eigen::Map<Eigen::Vector4d> x(y);"),
]
VIEWOF = [
    ("compressed_state_view", "lc::make_%scomp_state_view(%s, hs)"),
    ("mapped_basis_view", "mapper.make_%sview(%s)"),
    ("n_fermion_sector_view", "lc::make_%snfs_view(%s, hs, 1)"),
    ("n_fermion_multisector_view", "lc::make_%snfms_view(%s, hs, sectors)"),
]
PRELUDE = """
#include <libcommute/loperator/state_vector_eigen3.hpp>
#include <libcommute/libcommute.hpp>
#include <libcommute/loperator/sparse_state_vector.hpp>
#include <complex>
#include <type_traits>
#include <utility>
#include <vector>
namespace lc = libcommute;
using namespace libcommute;
using HS = lc::hilbert_space<int>;
struct F {
  template <typename A> void operator()(lc::sv_index_type, A const&) const {}
};
"""
INTERFACE = """
template <typename X, typename Sc> void readable(X const& x) {
  static_assert(std::is_same<lc::element_type_t<X>, Sc>::value, "element_type");
  static_assert(std::is_convertible<decltype(get_element(x, 0)), Sc>::value, "get_element()");
  F f;
  foreach(x, f);
  foreach(x, F{});
}
template <typename X, typename Sc> void writable(X& x) {
  readable<X, Sc>(x);
  Sc s = Sc(1);
  Sc const cs = Sc(1);
  update_add_element(x, 0, s);
  update_add_element(x, 0, cs);
  update_add_element(x, 0, Sc(1));
  set_zeros(x);
}
template <typename X, typename Sc> void whole(X& x) {
  writable<X, Sc>(x);
  auto z = zeros_like(x);
  writable<decltype(z), Sc>(z);
}
"""


def models(ctx):
    """every type models the interface, alone and inside operators (real Eigen)"""
    cases = []
    for t, sc, mk in TYPES:
        cases.append(("%s models the element interface" % t,
                      INTERFACE + "void w() {\n  %s\n  whole<decltype(x), %s>(x);\n  static_assert(std::is_same<decltype(x), %s>::value, \"\");\n}\n" % (mk, sc, t)))
        if "sparse" not in t:
            cases.append(("element type of constant %s" % t,
                          "void w() { %s\n static_assert(std::is_same<lc::element_type_t<decltype(x) const>, %s>::value, \"\"); }\n" % (mk, sc)))
        op = "lc::loperator<%s, lc::fermion> op;\n" % sc
        if "Map" not in t and "Block" not in t and "decltype" not in t:
            cases.append(("operators map %s to a new vector" % t,
                      "void w() {\n  %s\n  %s auto r = op(x); auto q = op * x; lc::loperator<double, lc::fermion> o2; auto r2 = o2(x);\n"
                      "  static_assert(std::is_same<decltype(r), decltype(x)>::value, \"\"); (void)q; (void)r2;\n}\n" % (mk, op)))
        for nm, vw in VIEWOF:
            mkv = vw % ("", "x")
            mkc = vw % ("const_", "x")
            mko = vw % ("", "std::move(x)")
            pre = "void w(HS const& hs, lc::basis_mapper const& mapper, std::vector<lc::sector_descriptor<HS>> const& sectors) {\n  %s\n" % mk
            cases.append(("%s of %s models the element interface" % (nm, t), INTERFACE + pre +
                          "  auto v = %s;\n  writable<decltype(v), %s>(v);\n  auto c = %s;\n  readable<decltype(c), %s>(c);\n  auto o = %s;\n  writable<decltype(o), %s>(o);\n"
                          "  %s op(c, v); op(v, o); op(o, v);\n}\n" % (mkv, sc, mkc, sc, mko, sc, op)))
    for i, (t, sc, mk) in enumerate(TYPES):
        for t2, sc2, mk2 in TYPES[i % 3::3]:
            if sc == "std::complex<double>" and sc2 == "double":
                continue
            cases.append(("operators map %s to %s" % (t, t2), "struct A { void w() {\n  %s\n } }; \nvoid w() {\n  %s\n  auto& src = x;\n  {\n    %s\n    lc::loperator<double, lc::fermion, lc::boson, lc::spin> op;\n    op(src, x);\n  }\n}\n" % (mk, mk, mk2)))
    with Witness(PRELUDE, eigen=True) as W:
        for key, ok, err in W.run(cases):
            ctx.ob("models", key, ok, "is rejected by the compiler: " + first_error(err) if not ok else "", lib_loc(err))
