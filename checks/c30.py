"""Text of generators, products, expressions and dynamic index sequences, decided by abstract
interpretation of to_string() and the stream insertion operators with a text model of strings
and streams. Indices and coefficients are opaque; their own texts are unique markers, so the
resulting text shows which index and which coefficient stand at which position."""
from salg import *
from exprcases import path
from absint import Str, Stream
import itertools

LEVEL = "other"
ASSUMPTIONS = ["the text of an index or of a coefficient is whatever its own to_string()/operator<< produces",
               "products of up to four (thorough: five) generators and expressions of up to four terms stand for all"]
NEED = {"generator": 120, "indices": 100, "product": 50, "expression": 20}
COMP = ["+", "-", "z"]

F0, F0d, F1d, B0, B1d = ("f", False, (0,)), ("f", True, (0,)), ("f", True, (1,)), ("b", False, (0,)), ("b", True, (1,))
P0, Z1, T0 = ("s", 2, 0, (0,)), ("s", 2, 2, (1,)), ("s", 3, 1, (0,))


def itext(n, i):
    return "<%s%d>" % (n[0].lower(), i)


def spin(m):
    return "" if m == 2 else "%d/2" % (m - 1) if m % 2 == 0 else "%d" % ((m - 1) // 2)


def head(d):
    return {"f": "C", "b": "A"}[d[0]] + ("+" if d[1] else "") if d[0] in "fb" else "S" + spin(d[1]) + COMP[d[2]] if d[0] == "s" else "g^%d" % d[1]


def gtext(d):
    return "%s(%s)" % (head(d), ",".join(itext("Idx", i) for i in d[-1]))


def mtext(ds):
    out = ""
    for g, run in itertools.groupby(ds):
        n = len(list(run))
        out += gtext(g) if n == 1 else "[%s]^%d" % (gtext(g), n)
    return out


def run(ctx):
    P = export("text.cpp")
    D = EDriver(P)
    S, I = D.S, D.I

    def ctext(p):
        return "<" + repr(p) + ">"

    def to_s(I, f, this, args):
        v = I.load(args[0])
        if isinstance(v, Obj) and v.attr is not None and not isinstance(v.attr, Poly):
            return Str(itext(P.R[v.rec]["s"].split("::")[-1], v.attr))
        return NotImplemented

    def out(I, f, this, args):
        st, v = I.load(args[0]), I.load(args[1])
        if not (isinstance(st, Stream) and S.isS(v)):
            return NotImplemented
        if st.buf is not None:
            st.buf += ctext(v.attr)
        return args[0]
    D.I.ext["vp::to_string"] = to_s
    D.I.ext["vp::operator<<"] = out
    loc = {k: floc(D, "libcommute::" + v) for k, v in (("f", "generator_fermion::to_string"), ("b", "generator_boson::to_string"), ("s", "generator_spin::to_string"),
                                                      ("u", "generator::to_string"), ("x", "tuple_to_string"))}

    loc["m"], loc["e"], loc["d"] = (floc(D, "libcommute::operator<<"),) * 2 + (floc(D, "libcommute::dynamic_indices::to_string"),)

    def check(rule, name, go, want, where):
        for k, v, dec in I.explore(go):
            if k != "ok":
                ctx.ob(rule, name, False, describe(k, v), getattr(v, "loc", None) if k == "bad" else D.P.loc(v.loc))
                return
            if not isinstance(v, Str) or v.s is None:
                raise AnalysisError("the text of %s could not be followed" % name)
            good = v.s == want
            ctx.ob(rule, name, good, "" if good else "the text is '%s' instead of '%s'%s" % (v.s, want, path(dec)), loc[where])
            if not good:
                return

    idx, jdx = D.idx, lambda i: D.idx(i, "Jdx")
    mults = (2, 3, 4, 5, 6, 7, 10, 11) + ((20, 21, 100, 101) if ctx.thorough else ())
    gens = [("f", d, (i,)) for d in (False, True) for i in (0, 1)] + [("b", d, (i,)) for d in (False, True) for i in (0, 1)] + \
        [("s", m, c, (i,)) for m in mults for c in (0, 1, 2) for i in (0, 1)] + \
        [("u", k, c, (i,)) for k in (0, 1, 2, 5) for c in (0, 1) for i in (0, 1)]
    for g in gens:
        for fn, nm in (("t_g", "printing"), ("t_gs", "to_string() of")):
            check("generator", "%s %s" % (nm, mname((g,))), lambda: D.val(fn, D.make(g)), gtext(g), g[0])

    def tup(suf, vals):
        return Cell(D.val("x_mk_" + suf, *[Cell(x) for x in vals]))
    tuples = [("ij", lambda: [idx(0), jdx(1)], "<i0>,<j1>"), ("ij", lambda: [idx(2), jdx(2)], "<i2>,<j2>"),
              ("iji", lambda: [idx(0), jdx(1), idx(2)], "<i0>,<j1>,<i2>"), ("iji", lambda: [idx(1), jdx(0), idx(1)], "<i1>,<j0>,<i1>"),
              ("ssi", lambda: [Str("up"), -3, Str("")], "up,-3,"), ("ssi", lambda: [Str(""), 10, Str("x,y")], ",10,x,y"),
              ("q4", lambda: [idx(0), jdx(1), idx(2), 3], "<i0>,<j1>,<i2>,3"),
              ("n", lambda: [0], "0"), ("n", lambda: [-17], "-17"), ("n", lambda: [2147483647], "2147483647")]
    dyns = [("y_0", "", ""), ("y_1i", "i", "<i0>"), ("y_1j", "j", "<j0>"), ("y_2ij", "ij", "<i0>,<j1>"), ("y_3jij", "jij", "<j0>,<i1>,<j2>"), ("y_4iiji", "iiji", "<i0>,<i1>,<j2>,<i3>")]

    def dyn(fn, pat):
        return D.val(fn, *[(idx if p == "i" else jdx)(k) for k, p in enumerate(pat)])
    for fn, pat, txt in dyns:
        tuples.append(("di", lambda fn=fn, pat=pat: [dyn(fn, pat)], txt))
        for t in ("y_t", "y_o"):
            check("indices", "%s dynamic indices (%s)" % ("to_string() of" if t == "y_t" else "printing", txt), lambda: D.val(t, Cell(dyn(fn, pat))), txt, "d")
    check("indices", "dynamic indices (a, -1, b, 12)", lambda: D.val("y_ts", Cell(D.val("y_s", Cell(Str("a")), -1, Cell(Str("b")), 12))), "a,-1,b,12", "d")
    for suf, mk, txt in tuples:
        for a in "fb":
            for d in (False, True):
                check("indices", "%s%s with indices (%s)" % ({"f": "C", "b": "A"}[a], "+" if d else "", txt), lambda: D.val("x_t_" + suf, D.val("x_%s_%s" % (a, suf), d, tup(suf, mk()))),
                      "%s(%s)" % (head((a, d, 0)), txt), a)
        for m in (2, 3, 4):
            for c in (0, 1, 2):
                s = Fraction(m - 1, 2)
                s = int(s) if s.denominator == 1 else s
                check("indices", "%s with indices (%s)" % (head(("s", m, c)), txt), lambda: D.val("x_t_" + suf, D.val("x_s_" + suf, s, c, tup(suf, mk()))), "%s(%s)" % (head(("s", m, c)), txt), "s")
    for d in (False, True):
        check("indices", "C%s without indices" % ("+" if d else ""), lambda: D.val("x_none_f", d), "C%s()" % ("+" if d else ""), "f")
    # products: every pattern of equal neighbours
    letters = (F0, F0d, B0, P0, T0) if ctx.thorough else (F0d, B0, T0)
    words = [w for n in range(5) for w in itertools.product(letters, repeat=n)] if ctx.thorough else \
        [w for n in range(4) for w in itertools.product(letters, repeat=n)] + [w for w in itertools.product((B0, F0d), repeat=4)]
    words += [(B0,) * 10, (B0,) * 12 + (F0,), (B0, B0, F1d, F1d, F1d, Z1), (Z1, P0, P0, P0, P0, B1d, B1d)]
    for w in words:
        check("product", "printing %s" % mname(w), lambda: D.val("t_m", D.mono(w)), mtext(w), "m")
    check("product", "printing two products", lambda: D.val("t_m2", D.mono((B0, B0, F0)), D.mono((F1d, T0))), mtext((B0, B0, F0)) + " " + mtext((F1d, T0)), "m")
    # expressions
    mons = [(), (F0d,), (B0, B0), (F0d, F0), (F0d, T0, T0), (B1d, B0, B0, B0)]
    for t in ("SA", "SN"):
        for n in range(5):
            for sub in itertools.combinations(mons, n):
                if not ctx.thorough and n in (2, 3, 4) and (t == "SN" or len(set(sub) & {(), (B0, B0)}) == 1):
                    continue

                def texts():
                    cs = {m: S.fresh(I, t, "c%d" % mons.index(m)) for m in sub}
                    e = D.expr(t, [(m, cs[m]) for m in sub])
                    order = [m for m, c in D.decode(e)[1]]
                    want = " + ".join(ctext(cs[m].attr) + ("*" + mtext(m) if m else "") for m in order) if sub else ctext(Poly.const(0))
                    v = D.val("t_" + t, e)
                    return v, want
                name = "printing an expression<%s> of {%s}" % (t, ", ".join(mname(m) for m in sub))
                for k, v, dec in I.explore(texts):
                    if k != "ok":
                        ctx.ob("expression", name, False, describe(k, v), getattr(v, "loc", None) if k == "bad" else D.P.loc(v.loc))
                        break
                    v, want = v
                    if not isinstance(v, Str) or v.s is None:
                        raise AnalysisError("the text of %s could not be followed" % name)
                    good = v.s == want
                    ctx.ob("expression", name, good, "" if good else "the text is '%s' instead of '%s'%s" % (v.s, want, path(dec)), loc["e"])
                    if not good:
                        break
    ctx.used(D.I)
