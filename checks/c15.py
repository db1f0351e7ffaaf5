"""Applications of operators, decided by abstract interpretation of every form over opaque
ingredients: the products' action is a user-defined monomial_action whose result (zero or
not, image index, matrix element) is an uninterpreted function of the product and the state
(both outcomes explored), coefficients and amplitudes are formal scalars, vectors record
what is cleared and added, coefficient functors and their arguments record every call, copy
and move. The sums accumulated in the destination must equal the formal application of the
operator to the source, the destination's previous content must be gone, every term must see
the unmodified source index and a unit factor, each functor must be called exactly once per
application with the caller's argument values (never a moved-from one)."""
import itertools
from salg import *

LEVEL = "other"
ASSUMPTIONS = ["scalars of matrix elements, coefficients and amplitudes commute with each other",
               "user-defined vectors implement the element interface (checked for the library's own by C16 and C17)"]
NEED = {"application": 300, "coefficients": 150, "terms": 300}
FORMS = {
    "l_ret": "result = op(src)", "l_mul": "result = op * src", "l_out": "op(src, dst)", "l_out_nc": "op(src, dst), src not constant",
    "l_out_mv": "op(std::move(src), dst)", "l_view": "op(view(src), view(dst))", "l_view2": "op(view, view)",
    "l_mix": "op(src, dst), different element types", "l_twice": "two applications into one vector",
    "p_ret": "result = op(src, args...)", "p_out": "op(src, dst, args...)", "p_st": "act_and_store_coeffs()", "p_at": "at(args...)"}


def run(ctx):
    P = export("apply.cpp")
    S = SAlg(P)
    ext = idx_ext(("Idx",))
    for k, h in S.ext().items():
        ext[k] = EDriver._both(ext[k], h) if k in ext else h
    st = {}
    vrid = {}
    for t in ("SA", "SB", "SC"):
        for r in P.recs_by_q.get("vp::SV", ()):
            for a in r.get("targs", ()):
                if "t" in a and P.types[a["t"]].get("rec") == S.rid[t]:
                    vrid[t] = r["id"]
    arid = P.recs_by_q["vp::Arg"][0]["id"]
    sent = {}

    def vec(t, name, items=()):
        o = Obj(vrid[t])
        for fl in P.R[o.rec].get("fields", ()):
            o.f[fl["d"]] = Cell(0)
        o.attr = ("vec", t, name, tuple(items))
        return o

    def arg(name):
        o = Obj(arid)
        for fl in P.R[arid].get("fields", ()):
            o.f[fl["d"]] = Cell(0)
        o.attr = ("arg", name)
        return o

    D = Driver(P, ext, budget=4000000)
    I = D.I

    def act_hook(I, f, this, a):
        i, = a[:1]
        n = I.load(a[1])
        c = I.load(a[2])
        i = I.load(i)
        st["acts"].append((i, n))
        if n not in st["src"]:
            st["err"] = st["err"] or "term %d acts on index %r, which is not an index of a source amplitude" % (i, n)
        if not (c.attr == 1):
            st["err"] = st["err"] or "term %d starts with the factor %r instead of 1" % (i, c.attr)
        if not I.decide(("nz", i, n), "term %d is non-zero on %r" % (i, n)):
            # whatever is left behind must not matter
            I.store(a[1], I.uf("junk", i, n, integer=True))
            I.store(a[2], S.mk("SA", I.uf("junkfactor", i, n)))
            return False
        I.store(a[1], image(i, n))
        I.store(a[2], S.mk("SA", c.attr * I.uf("me", i, n)))
        return True

    def image(i, n):
        # terms 0 and 1 lead to the same state
        return I.uf("im", 0 if i == 1 else i, n, integer=True)

    ext2 = I.ext
    ext2["vp::act_hook"] = act_hook

    def z(I, f, this, a):
        o = I.load(a[0])
        n = vec(o.attr[1], o.attr[2])
        st["cleared"].append(o.attr[2])
        I.store(a[0], n)
    def like(I, f, this, a):
        o = I.load(a[0])
        return vec(o.attr[1], "like " + o.attr[2])
    for t in ("SA", "SB", "SC"):
        ext2["vp::sv_zero_" + t] = z
        ext2["vp::sv_like_" + t] = like
        ext2["vp::sv_n_" + t] = lambda I, f, this, a: len(I.load(a[0]).attr[3])
        ext2["vp::sv_at_" + t] = lambda I, f, this, a: I.load(a[0]).attr[3][I.load(a[1])][0]
        ext2["vp::sv_amp_" + t] = lambda I, f, this, a, t=t: S.mk(t, I.load(a[0]).attr[3][I.load(a[1])][1])

    def add(I, f, this, a):
        o, n, x = I.load(a[0]), I.load(a[1]), I.load(a[2])
        v = vec(o.attr[1], o.attr[2], o.attr[3] + ((n, x.attr),))
        I.store(a[0], v)
    ext2["vp::sv_add"] = add

    def vctor(I, f, rid, a):
        o = I.load(a[0])
        if o.attr is None or o.attr[0] == "moved":
            raise I.bad("moved", "a moved-from vector is used")
        c = vec(*o.attr[1:])
        if f.get("move"):
            pass  # a vector's content may be read by its owner after a temporary is moved; tracked by name only
        return c
    ext2["ctor:vp::SV"] = vctor

    def actor(I, f, rid, a):
        o = I.load(a[0])
        c = Obj(arid)
        for fl in P.R[arid].get("fields", ()):
            c.f[fl["d"]] = Cell(0)
        c.attr = o.attr
        if f.get("move"):
            m = Obj(arid)
            for fl in P.R[arid].get("fields", ()):
                m.f[fl["d"]] = Cell(0)
            m.attr = ("moved from", o.attr[1])
            I.store(a[0], m)
        return c
    ext2["ctor:vp::Arg"] = actor

    def fcall(I, f, this, a):
        o = I.load(this)
        fid = None
        for fl in P.R[o.rec]["fields"]:
            fid = I.load(o.f[fl["d"]])
        args = tuple(I.load(x).attr for x in a)
        st["calls"].append((fid, args))
        return S.mk("SA", I.uf("F", fid, *[repr(x) for x in args]))
    ext2["vp::FN::operator()"] = fcall

    HL = {"l": floc(D, "libcommute::loperator::operator()"), "p": floc(D, "libcommute::parametric_loperator::operator()")}

    def mono(i):
        g = SP(D.gen("mk_u", i, D.idx(0)))
        return Cell(D.val("m_make", Cell(Vec(None, [Cell(g)] if i >= 0 else []))))

    def run1(form, ids, nsrc, nargs, suffix):
        param = form[0] == "p"

        def go():
            st.update(acts=[], calls=[], cleared=[], err=None, src=set())
            hs = Cell(D.val("hs0"))
            if param:
                e = Cell(D.val("ef"))
                for i in ids:
                    D.call("ef_put", e, mono(i), i)
                op = Cell(D.val("plop", e, hs))
                del st["calls"][:]
            else:
                e = Cell(D.val("ea"))
                for i in ids:
                    D.call("ea_put", e, mono(i), Cell(S.mk("SA", I.uf("K", i))))
                op = Cell(D.val("lop", e, hs))
            ts = "SB" if form == "l_mix" else "SA"
            td = "SC" if form == "l_mix" else "SA"

            def source(tag):
                it = [(I.uf("n%s%d" % (tag, k), integer=True), I.uf("a%s%d" % (tag, k))) for k in range(nsrc)]
                return it
            items = source("")
            st["src"] = {n for n, a in items}
            src = Cell(vec(ts, "src", items))
            dst = Cell(vec(td, "dst", [(I.uf("old", integer=True), I.uf("oldamp"))]))
            args = [Cell(arg("x%d" % k)) for k in range(nargs)]
            coefs = None
            stored = None
            expect_calls = 1 if param else 0
            nap = 1
            if form in ("l_ret", "l_mul"):
                dst = Cell(D.val(form, op, src))
            elif form == "l_twice":
                items2 = source("'")
                st["src"] |= {n for n, a in items2}
                D.call(form, op, src, Cell(vec("SA", "src2", items2)), dst)
                items = items2
            elif form == "p_ret":
                dst = Cell(D.val("p_ret" + suffix, op, src, *args))
            elif form == "p_out":
                D.call("p_out" + suffix, op, src, dst, *args)
            elif form == "p_st":
                coefs = Cell(D.val("sav0"))
                for k in range(3):
                    D.call("sav_push", coefs, Cell(S.mk("SA", I.uf("stale", k))))
                D.call("p_st" + suffix, op, src, dst, coefs, *args)
            elif form == "p_at":
                l = Cell(D.val("p_at" + suffix, op, *args))
                D.call("l_out", l, src, dst)
                # once more: the coefficients are fixed
                acts = len(st["acts"])
                d2 = Cell(D.val("l_ret", l, src))
                del st["acts"][acts:]
                if norm(I.load(d2).attr[3]) != norm(I.load(dst).attr[3]):
                    return "application", "the fixed operator gives different results in two applications"
            else:
                D.call(form, op, src, dst)
            want_args = tuple(("arg", "x%d" % k) for k in range(nargs))
            if param:
                for i in ids:
                    cs = [a for x, a in st["calls"] if x == i]
                    if any(a != want_args for a in cs):
                        bad = [a for a in cs if a != want_args][0]
                        return "coefficients", "the coefficient functor of term %d is called with %s" % (i, ", ".join("%s %s" % x for x in bad) or "no arguments")
                    if len(cs) != 1:
                        return "coefficients", "the coefficient functor of term %d is called %d times" % (i, len(cs))
                if len(st["calls"]) != len(ids):
                    return "coefficients", "%d calls of coefficient functors" % len(st["calls"])
            K = lambda i: I.uf("F", i, *[repr(x) for x in want_args]) if param else I.uf("K", i)
            if coefs is not None:
                n = D.val("sav_n", coefs)
                got = [D.val("sav_at", coefs, k).attr for k in range(n)]
                if got != [K(i) for i in ids]:
                    return "coefficients", "the stored coefficients are %r instead of %r" % (got, [K(i) for i in ids])
            if st["err"]:
                return "terms", st["err"]
            want = {}
            for n, a in items:
                for i in ids:
                    if ("nz", i, n) not in I.dec:
                        return "terms", "term %d is never applied to %r" % (i, n)
                    if I.dec[("nz", i, n)]:
                        k = image(i, n)
                        want[k] = want.get(k, Poly.const(0)) + K(i) * I.uf("me", i, n) * a
            o = I.load(dst).attr
            got = norm(o[3])
            want = {k: v for k, v in want.items() if v != 0}
            if got != want:
                for k in list(want) + list(got):
                    if got.get(k, 0) != want.get(k, 0):
                        return "application", "the amplitude of %r is %r instead of %r" % (k, got.get(k, 0), want.get(k, 0))
            if form in ("l_ret", "l_mul", "p_ret") and o[2] not in ("like src",):
                return "application", "the result is not made like the source"
            so = I.load(src).attr
            if form != "l_out_mv" and so[3] != tuple(items if form != "l_twice" else so[3]):
                return "application", "the source vector is changed"
            return None
        inst = "%s, terms %r, %d source amplitudes%s" % (FORMS[form], ids, nsrc, ", %d arguments (%s)" % (nargs, suffix) if param else "")
        for k, v, dec in I.explore(go):
            rule, msg = ("application", describe(k, v)) if k != "ok" else v if v else (None, "")
            w = [r for r in (["terms", "application"] + (["coefficients"] if param else []))]
            for r in w:
                bad = rule == r
                ctx.ob(r, inst, not bad, msg if bad else "", getattr(v, "loc", None) if k == "bad" else HL[form[0]])

    def norm(items):
        d = {}
        for n, a in items:
            d[n] = d.get(n, Poly.const(0)) + a
        return {k: v for k, v in d.items() if v != 0}

    sets = [(), (0,), (0, 1), (-1, 0), (0, 1, 2), (-1,)]
    for form in FORMS:
        sfx = {"p_ret": [(0, "0"), (1, "1"), (1, "1m"), (2, "2")], "p_out": [(0, "0"), (1, "1"), (1, "1m"), (2, "2")],
               "p_st": [(0, "0"), (1, "1"), (1, "1m"), (2, "2")], "p_at": [(0, "0"), (1, "1"), (1, "1m"), (2, "2")]}.get(form, [(0, "")])
        for na, sf in sfx:
            for ids in sets:
                for ns in (0, 1, 2, 3):
                    if len(ids) * ns > (9 if ctx.thorough else 4) or (form == "l_twice" and len(ids) * ns > 3):
                        continue
                    run1(form, ids, ns, na, sf)
    # default-constructed operator
    def go0():
        st.update(acts=[], calls=[], cleared=[], err=None, src={I.uf("n0", integer=True)})
        r = D.val("l_def", Cell(vec("SA", "src", [(I.uf("n0", integer=True), I.uf("a0"))])))
        return None if not r.attr[3] else "a default-constructed operator is not zero"
    for k, v, dec in I.explore(go0):
        ctx.ob("application", "default-constructed operator", k == "ok" and v is None, describe(k, v) if k != "ok" else v or "", HL["l"])
    ctx.used(I)
