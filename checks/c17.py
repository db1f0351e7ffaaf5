"""Index translation, ownership and constness of views. Translation is decided by abstract
interpretation over underlying vectors whose elements are distinct formal amplitudes: the
element a read returns identifies the translated index, which must be the same for updates,
for foreach(), for owning and referring, constant and non-constant views, and different for
different states; an index a mapped basis lacks must raise an exception with nothing touched.
Ownership is decided by following changes made through a view to the original vector and
back. That programs modifying through constant views, making zeros like a view, or making a
writable view of a constant vector are rejected is decided by compile-fail witnesses, each
paired with an accepted program differing only in constness."""
from vecs import *
from witness import *

LEVEL = "other"
ASSUMPTIONS = ["the vectors behind views implement the element interface (C16)"]
NEED = {"translation": 300, "missing": 60, "ownership": 100, "constness": 100, "accepted": 60}


def run(ctx):
    constness(ctx)
    with ctx.guard("index translation and ownership"):
        views(ctx)


def views(ctx):
    D = VD()
    I, S = D.I, D.S

    def explore(rule, inst, thunk, loc0):
        for k, v, dec in I.explore(thunk):
            loc = getattr(v, "loc", None) if k == "bad" else None
            if k != "ok":
                v = describe(k, v)
            ctx.ob(rule, inst, v is None, v or "", loc or loc0)

    for kind in READABLE:
        fam = kind[:2]
        confs = CONFS[fam] + (CONFS_T[fam] if ctx.thorough else [])
        fk = kfile(kind)
        lg, la, lf = [floc(D, "libcommute::" + q, fk) for q in ("get_element", "update_add_element", "foreach")]
        for W in "vs":
            Kw = "%s_%s" % (kind, W)
            for conf in confs:
                sts = states(kind, conf)
                n = len(sts)
                inst = "%s over %s, %r" % (kname(kind), NAMES[W], conf)
                own = kind in OWNING

                def table():
                    """translation seen by get_element(); which element each state reads"""
                    c, obs, rim, a = D.base(W, "n" * n)
                    w = D.view(kind, conf, W, c)
                    t = {}
                    for st in sts:
                        g = D.val("get_" + Kw, w, st).attr
                        hit = [k for k, x in enumerate(a) if g == x]
                        if len(hit) != 1:
                            return None, "get_element(%d) returns %r, which is no element of the vector" % (st, g)
                        t[st] = hit[0]
                    return t, None

                def translation():
                    t, err = table()
                    if err:
                        return err
                    if len(set(t.values())) != n:
                        x, y = [(p, q) for p in sts for q in sts if p < q and t[p] == t[q]][0]
                        return "states %d and %d are translated to the same element %d" % (x, y, t[x])
                    if fam == "mb":
                        for k, st in enumerate(conf):
                            if t[st] != k:
                                return "state %d is translated to element %d instead of its position %d" % (st, t[st], k)
                    # the same translation in foreach()
                    c, obs, rim, a = D.base(W, "n" * n)
                    w = D.view(kind, conf, W, c)
                    for st, x in D.log(Kw, w):
                        if st in t and not (x == a[t[st]]):
                            return "foreach() passes element %r for state %d, get_element() element %d" % (x, st, t[st])
                explore("translation", inst, translation, lg)

                if kind not in CONSTV:
                    for i, st in enumerate(sts):
                        if n > 6 and not ctx.thorough and i not in (0, 1, n // 2, n - 1):
                            continue

                        def upd():
                            t, err = table()
                            if err:
                                return err
                            c, obs, rim, a = D.base(W, "n" * n)
                            w = D.view(kind, conf, W, c)
                            x = D.scalar("x")
                            D.call("add_" + Kw, w, st, Cell(x))
                            if own:
                                got = [None] * n
                                for q in sts:
                                    got[t[q]] = D.val("get_" + Kw, w, q).attr
                            else:
                                got = obs()
                            want = list(a)
                            want[t[st]] = want[t[st]] + x.attr
                            for k in range(n):
                                if not D.same(got[k], want[k]):
                                    return "update_add_element(%d, x) makes element %d %r instead of %r (reading translates %d to %d)" % (st, k, got[k], want[k], st, t[st])
                        explore("translation", "%s, update at %d" % (inst, st), upd, la)

                if fam == "mb":
                    for st in sorted(set(range(8)) - set(conf))[:4] + [1 << 40]:
                        for op in ("get",) + (() if kind in CONSTV else ("add", "addm", "addb")):
                            def missing():
                                c, obs, rim, a = D.base(W, "n" * n)
                                w = D.view(kind, conf, W, c)
                                before = None if own else obs()
                                try:
                                    if op == "get":
                                        r = D.val("get_" + Kw, w, st)
                                    else:
                                        D.call(op + "_" + Kw, w, st, Cell(D.scalar("x", "DB" if op == "addb" else "DA")))
                                except ThrowEx:
                                    after = None if own else obs()
                                    same = before is None or (len(before) == len(after) and all(x == y for x, y in zip(before, after)))
                                    return None if same else "the vector is changed before the exception"
                                if op == "get":
                                    return "get_element(%d) returns %r for a state outside the basis" % (st, r.attr)
                                return "update_add_element(%d, x) accepts a state outside the basis" % st
                            explore("missing", "%s, %s at %d" % (inst, op, st), missing, lg if op == "get" else la)

                # ownership
                if n:
                    def owner():
                        t, err = table()
                        if err:
                            return err
                        c, obs, rim, a = D.base(W, "n" * n)
                        w = D.view(kind, conf, W, c)
                        st = sts[0]
                        if kind not in CONSTV:
                            x = D.scalar("x", nonzero=True)
                            D.call("add_" + Kw, w, st, Cell(x))
                            hit = [v for v in obs() if x.attr.atoms() & v.atoms()]
                            if own and hit:
                                return "a view of a temporary refers to it instead of owning it"
                            if not own and not D.same(obs()[t[st]], a[t[st]] + x.attr):
                                return "a change made through the view does not reach the vector it was made from"
                            if not own:
                                D.call("zero_" + Kw, w)
                                if any(not (v == 0) for v in obs()):
                                    return "set_zeros() through the view leaves the original vector non-zero"
                            return None
                        y = D.scalar("y", nonzero=True)
                        D.call("add_" + W, c, t[st], Cell(y)) if not own else None
                        seen = D.val("get_" + Kw, w, st).attr
                        if not own and not D.same(seen, a[t[st]] + y.attr):
                            return "a later change of the vector is not seen through the constant view"
                        if own and not (seen == a[t[st]]):
                            return "an owning view does not have the content of the vector it was made from"
                    explore("ownership", inst, owner, floc(D, "libcommute::" + {"mb": "basis_mapper::make_view", "cs": "make_comp_state_view", "nf": "make_nfs_view", "nm": "make_nfms_view"}[fam], fk) or lg)

                if kind in ("mbo", "cso", "nfo", "nmo") and n:
                    def explicit():
                        c, obs, rim, a = D.base(W, "n" * n)
                        w = D.view(kind[:2] + "x", conf, W, c)
                        st = sts[0]
                        before = D.val("get_" + Kw, w, st).attr
                        if not any(before == x for x in a):
                            return "the view's own vector is not a copy"
                        x = D.scalar("x", nonzero=True)
                        D.call("add_" + Kw, w, st, Cell(x))
                        if any(not (p == q) for p, q in zip(obs(), a)) or len(obs()) != len(a):
                            return "a change made through a view that stores a copy reaches the original vector"
                        if not D.same(D.val("get_" + Kw, w, st).attr, before + x.attr):
                            return "a change made through a view that stores a copy is lost"
                    explore("ownership", inst + ", stored copy", explicit, lg)
    ctx.used(I)


PRE = """
#include <libcommute/loperator/state_vector_eigen3.hpp>
#include <libcommute/libcommute.hpp>
#include <libcommute/loperator/sparse_state_vector.hpp>
#include <type_traits>
#include <utility>
#include <vector>
namespace lc = libcommute;
using namespace libcommute;
using HS = lc::hilbert_space<int>;
using OP = lc::loperator<double, lc::fermion>;
using SDV = std::vector<lc::sector_descriptor<HS>>;
"""
VT = ["std::vector<double>", "lc::sparse_state_vector<double>", "Eigen::VectorXd"]
# family, writable view type, constant view type, expression making a (constant) view of an expression
FAMS = [
    ("mapped_basis_view", "lc::mapped_basis_view<%s, %s>", "m.make_%sview(%s)"),
    ("compressed_state_view", "lc::compressed_state_view<%s, %s>", "lc::make_%scomp_state_view(%s, hs)"),
    ("n_fermion_sector_view", "lc::n_fermion_sector_view<%s, %s>", "lc::make_%snfs_view(%s, hs, 1)"),
    ("n_fermion_multisector_view", "lc::n_fermion_multisector_view<%s, %s>", "lc::make_%snfms_view(%s, hs, sd)"),
]
ARGS = "HS const& hs, lc::basis_mapper const& m, SDV const& sd, OP const& op"


def constness(ctx):
    cases = []   # (key, code, must be accepted, rule)
    body = "void w(%s, %s) { %s }\n"
    for fam, vt, mk in FAMS:
        for t in VT:
            for ref in ("true", "false"):
                wv = vt % (t, ref) + "& v"
                cv = vt % (t + " const", ref) + "& v"
                kv = vt % (t, ref) + " const& v"
                own = "" if ref == "true" else ", owning"
                for what, stmt in [("update_add_element()", "update_add_element(v, 0, 1.0);"),
                                   ("update_add_element() of an lvalue", "double x = 1; update_add_element(v, 0, x);"),
                                   ("set_zeros()", "set_zeros(v);"),
                                   ("the target of an operator", t + " src(2); op(src, v);")]:
                    nm = "%s of %s%s: %s" % (fam, t, own, what)
                    cases.append((nm, body % (ARGS, wv, stmt), True, "accepted"))
                    cases.append((nm + " through a view of a constant vector", body % (ARGS, cv, stmt), False, "constness"))
                    if "operator" not in what and ref == "false":
                        cases.append((nm + " through a constant owning view", body % (ARGS, kv, stmt), False, "constness"))
                nm = "%s of %s%s" % (fam, t, own)
                cases.append((nm + ": reading", body % (ARGS, cv, "double x = get_element(v, 0); (void)x; foreach(v, [](lc::sv_index_type, double) {});"), True, "accepted"))
                cases.append((nm + ": zeros_like()", body % (ARGS, wv, "zeros_like(v);"), False, "constness"))
                cases.append((nm + ": zeros_like() of a constant view", body % (ARGS, cv, "zeros_like(v);"), False, "constness"))
                cases.append((nm + ": operator applied to a view returning a new one", body % (ARGS, wv, "op(v);"), False, "constness"))
            # making views
            vec = t + "& x"
            cvec = t + " const& x"
            nm = "%s made of %s" % (fam, t)
            cases.append((nm + " (referring)", body % (ARGS, vec, "auto v = %s; set_zeros(v); static_assert(std::is_same<decltype(v), %s>::value, \"\");" % (mk % ("", "x"), vt % (t, "true"))), True, "accepted"))
            cases.append((nm + " (owning)", body % (ARGS, vec, "auto v = %s; set_zeros(v); static_assert(std::is_same<decltype(v), %s>::value, \"\");" % (mk % ("", "std::move(x)"), vt % (t, "false"))), True, "accepted"))
            cases.append((nm + " (constant)", body % (ARGS, cvec, "auto v = %s; get_element(v, 0); static_assert(std::is_same<decltype(v), %s>::value, \"\");" % (mk % ("const_", "x"), vt % (t + " const", "true"))), True, "accepted"))
            cases.append((nm + " (constant, of a temporary)", body % (ARGS, vec, "auto v = %s; get_element(v, 0); static_assert(std::is_same<decltype(v), %s>::value, \"\");" % (mk % ("const_", "std::move(x)"), vt % (t + " const", "false"))), True, "accepted"))
            cases.append((nm + ": a writable view of a constant vector", body % (ARGS, cvec, "auto v = %s; (void)v;" % (mk % ("", "x"))), False, "constness"))
            cases.append((nm + ": clearing a constant view of a vector", body % (ARGS, vec, "auto v = %s; set_zeros(v);" % (mk % ("const_", "x"))), False, "constness"))
            cases.append((nm + ": clearing a constant view of a temporary", body % (ARGS, vec, "auto v = %s; set_zeros(v);" % (mk % ("const_", "std::move(x)"))), False, "constness"))
            cases.append((nm + ": updating a constant view of a vector", body % (ARGS, vec, "auto v = %s; update_add_element(v, 0, 1.0);" % (mk % ("const_", "x"))), False, "constness"))
    with Witness(PRE, eigen=True) as W:
        for (key, code, want, rule), (k2, ok, err) in zip(cases, W.run([(c[0], c[1]) for c in cases])):
            fam = key.split(" ")[0]
            loc = lib_loc(err) or "include/libcommute/loperator/%s.hpp" % fam.replace("multisector", "sector")
            ctx.ob(rule, key, ok == want, "is accepted by the compiler" if ok else "is rejected by the compiler: " + first_error(err), loc)
