"""Zero tests and conjugation of coefficient types, decided by abstract interpretation over
symbolic numbers of known range: the zero test must be true for zero, false on the whole
range of every exact type outside zero, and, for floating-point types, true below the
type's own machine epsilon and false above a thousand of them, for either sign and each part
of a complex number separately. conj() must give the argument back for real types, the
same real part and the negated imaginary part for complex ones."""
from c09 import *
from c09 import numof, foreign, decode, Frac
from absint import Cx

LEVEL = "other"
ASSUMPTIONS = ["finite numbers", "comparisons of boost::rational and GMP numbers compare their values", "machine epsilons of IEEE single, double and x87 extended precision"]
NEED = {"zero test of exact types": 60, "zero test of floating-point types": 20, "zero test of complex types": 70, "zero test of constants": 8, "conjugation": 18}
EPS = {"float": Fraction(1, 2 ** 23), "double": Fraction(1, 2 ** 52), "ldouble": Fraction(1, 2 ** 63)}
INTS = {"schar": (-2 ** 7, 2 ** 7 - 1), "short": (-2 ** 15, 2 ** 15 - 1), "int": W32, "uint": (0, 2 ** 32 - 1), "long": (-2 ** 63, 2 ** 63 - 1), "llong": (-2 ** 63, 2 ** 63 - 1),
        "ulong": (0, 2 ** 64 - 1)}
BIG = ("rint", "rlong", "mpz", "mpq", "mpf")


def run(ctx):
    P = export("scal.cpp")
    ext = foreign()

    def eqh(neg):
        def h(I, f, this, args):
            xs = ([this] if this is not None else []) + list(args)
            a = [numof(I, x) for x in xs]
            if len(a) != 2 or a[0] is None or a[1] is None or all(isinstance(I.load(x), (int, Fraction, Poly, AR)) for x in xs):
                return NotImplemented
            return I.cmp_poly("!=" if neg else "==", a[0].p - a[1].p, 0)
        return h
    for q in ("", "boost::", "boost::rational::", "__gmp_expr::"):
        ext[q + "operator=="] = eqh(False)
        ext[q + "operator!="] = eqh(True)

    def sgn(I, f, this, args):
        a = numof(I, args[0])
        if a is None:
            return NotImplemented
        return 0 if I.cmp_poly("==", a.p, 0) else 1 if I.cmp_poly("<", Poly.const(0), a.p) else -1
    ext["sgn"] = sgn

    def cmph(op):
        def h(I, f, this, args):
            xs = ([this] if this is not None else []) + list(args)
            a = [numof(I, x) for x in xs]
            if len(a) != 2 or a[0] is None or a[1] is None or all(isinstance(I.load(x), (int, Fraction, Poly, AR)) for x in xs):
                return NotImplemented
            return I.cmp_poly(op, a[0].p - a[1].p, 0)
        return h
    for op in ("<", ">", "<=", ">="):
        for q in ("", "boost::", "boost::rational::", "__gmp_expr::"):
            ext[q + "operator" + op] = cmph(op)

    def numr(I, f, this, args):
        """numerator: an integer of the number's own sign"""
        a = numof(I, this)
        if a is None:
            return NotImplemented
        if a.p.is_const():
            p = Poly.const(a.p.const_value().numerator)
        elif I.isintpoly(a.p):
            p = a.p
        else:
            p = I.uf("numerator", a.p, integer=True)
            sg = I.facts.sign(a.p)
            if sg == "+":
                I.facts.add(p - 1, False)
            elif sg == "-":
                I.facts.add(p * -1 - 1, False)
        t = P.strip_ref(f["ret"])
        if t["c"] != "rec":
            return AR(p, -2 ** 62, 2 ** 62) if not p.is_const() else int(p.const_value())
        if t["rec"] == I.load(this).rec:
            return NotImplemented
        o = Obj(t["rec"])
        o.attr = Frac(p)
        return Cell(o) if P.is_ref(f["ret"]) else o
    ext["boost::rational::numerator"] = ext["__gmp_expr::get_num"] = numr

    def geti(I, f, this, args):
        a = numof(I, this)
        if a is None:
            return NotImplemented
        return int(a.p.const_value()) if a.p.is_const() else AR(a.p, -2 ** 80, 2 ** 80).trunc(I).fit(I, f["ret"])
    for n in ("get_si", "get_ui"):
        ext["__gmp_expr::" + n] = geti
    ext["__gmp_expr::get_d"] = lambda I, f, this, args: NotImplemented if numof(I, this) is None else numof(I, this).p
    D = Driver(P, ext)
    I = D.I

    def within(name, lo, hi, strict=False, integer=False):
        """symbol in [lo, hi] ((lo, hi) if strict); None: unbounded"""
        p = I.uf(name, integer=integer)
        if lo is not None:
            I.facts.add(p - Poly.of(lo), strict)
        if hi is not None:
            I.facts.add(Poly.of(hi) - p, strict)
        return p

    def allp(rule, inst, thunk, want, loc):
        for k, v, dec in I.explore(thunk):
            ok = k == "ok" and bool(v) == want
            ctx.ob(rule, inst, ok, "" if ok else describe(k, v) if k != "ok" else "the zero test answers %s" % bool(v), (getattr(v, "loc", None) if k == "bad" else None) or loc)

    def where(fn, callee):
        for g in P.callees(P.func("vp::" + fn)):
            if P.F[g]["name"] == callee:
                return P.loc(P.F[g]["l"])

    def obj(nm, p):
        t = P.strip_ref(I.V[P.func("vp::z_" + nm)["params"][0]]["t"])
        if t["c"] != "rec":
            return Cell(p)
        o = Obj(t["rec"])
        o.attr = p if isinstance(p, Cx) else Frac(Poly.of(p))
        return Cell(o)

    def ar(name, lo, hi):
        p = within(name, lo, hi, integer=True)
        return AR(p, lo, hi)
    for nm, (lo, hi) in INTS.items():
        l = where("z_" + nm, "is_zero")
        cpp = CPP.get(nm, nm)
        cuts = sorted({1, 2, 255, 256, 2 ** 15, 2 ** 16, 2 ** 31, 2 ** 32, 2 ** 53})
        allp("zero test of exact types", "%s: 0" % cpp, lambda: D.val("z_" + nm, Cell(0)), True, l)
        for a, b in zip(cuts, cuts[1:] + [2 ** 64]):
            if a <= hi:
                allp("zero test of exact types", "%s in [%d, %d]" % (cpp, a, min(b, hi)), lambda: D.val("z_" + nm, Cell(ar("n", a, min(b, hi)))), False, l)
            if -a >= lo:
                allp("zero test of exact types", "%s in [%d, %d]" % (cpp, max(-b, lo), -a), lambda: D.val("z_" + nm, Cell(ar("n", max(-b, lo), -a))), False, l)
        # multiples of powers of two survive no truncation to a narrower type
        for s in (8, 16, 32):
            if (1 << s) <= hi:
                for v in (1 << s, 3 << s, hi & ~((1 << s) - 1)):
                    if v <= hi:
                        allp("zero test of exact types", "%s: %d" % (cpp, v), lambda: D.val("z_" + nm, Cell(v)), False, l)
    for nm in BIG:
        l = where("z_" + nm, "is_zero")
        cpp = CPP.get(nm, nm)
        allp("zero test of exact types", "%s: 0" % cpp, lambda: D.val("z_" + nm, obj(nm, 0)), True, l)
        for sg in (1, -1):
            allp("zero test of exact types", "%s: any %s integer" % (cpp, "positive" if sg > 0 else "negative"), lambda: D.val("z_" + nm, obj(nm, within("n", 1, None, integer=True) * sg)), False, l)
            if nm in ("rint", "rlong", "mpq", "mpf"):
                allp("zero test of exact types", "%s: any number between 0 and %d" % (cpp, sg), lambda: D.val("z_" + nm, obj(nm, within("x", 0, 1, strict=True) * sg)), False, l)
                allp("zero test of exact types", "%s: %s/2^40" % (cpp, sg), lambda: D.val("z_" + nm, obj(nm, Fraction(sg, 2 ** 40))), False, l)
    small = lambda e, s: (lambda n: within(n, 0, e) * s)
    large = lambda e, s: (lambda n: within(n, 1000 * e, None) * s)

    def classes(e):
        return [("0", lambda n: Poly.const(0), True), ("in (0, epsilon]", small(e, 1), True), ("in [-epsilon, 0)", small(e, -1), True),
                ("1000 epsilon or more", large(e, 1), False), ("-1000 epsilon or less", large(e, -1), False)]
    for nm, e in EPS.items():
        l = where("z_" + nm, "is_zero")
        cpp = CPP.get(nm, nm)
        for c, mk, z in classes(e) + [("1", lambda n: Poly.const(1), False), ("-1", lambda n: Poly.const(-1), False), ("1/4", lambda n: Poly.const(Fraction(1, 4)), False)]:
            allp("zero test of floating-point types", "%s %s" % (cpp, c), lambda: D.val("z_" + nm, Cell(simple(mk("x")))), z, l)
        cn = "c" + nm
        l = where("z_" + cn, "is_zero")
        for (c1, mk1, z1) in classes(e):
            for (c2, mk2, z2) in classes(e):
                allp("zero test of complex types", "%s with real part %s, imaginary part %s" % (CPP[cn], c1, c2), lambda: D.val("z_" + cn, obj(cn, Cx(simple(mk1("x")), simple(mk2("y"))))), z1 and z2, l)
        l = where("c_" + cn, "conj")

        def cj():
            x, y = within("x", None, None), within("y", None, None)
            v = I.load(D.val("c_" + cn, obj(cn, Cx(x, y))))
            return v.attr.re, v.attr.im, x, y
        for k, v, dec in I.explore(cj):
            ok = k == "ok" and Poly.of(v[0]) == v[2] and Poly.of(v[1]) == v[3] * -1
            ctx.ob("conjugation", "conj of %s x + iy" % CPP[cn], ok, "" if ok else describe(k, v) if k != "ok" else "gives %r + i(%r)" % (v[0], v[1]), l)
    for nm in list(INTS) + list(EPS) + list(BIG):
        l = where("c_" + nm, "conj")

        def cj():
            if nm in INTS:
                x = ar("x", *INTS[nm])
                return D.val("c_" + nm, Cell(x)), x.p
            x = within("m" if nm == "mpz" else "x", None, None, integer=nm == "mpz")
            return D.val("c_" + nm, obj(nm, x)), x
        for k, v, dec in I.explore(cj):
            ok = k == "ok" and numof(I, v[0]) is not None and numof(I, v[0]).p == v[1]
            ctx.ob("conjugation", "conj of %s x" % CPP.get(nm, nm), ok, "" if ok else describe(k, v) if k != "ok" else "gives %r" % (numof(I, v[0]).p if numof(I, v[0]) else v[0],), l)
    # variant numbers
    l = floc(D, "libcommute::var_number::is_zero")
    for sg in (1, -1):
        allp("zero test of constants", "any %s integer" % sg, lambda: D.val("z_vn_i", within("n", 1, 2 ** 31 - 1, integer=True) * sg), False, l)
        allp("zero test of constants", "any %s rational n/7" % sg, lambda: D.val("z_vn_r", within("n", 1, 2 ** 31 - 1, integer=True) * sg, 7), False, l)
        allp("zero test of constants", "1000 epsilon and more, sign %d" % sg, lambda: D.val("z_vn_x", within("x", 1000 * EPS["double"], None) * sg), False, l)
    allp("zero test of constants", "integer 0", lambda: D.val("z_vn_i", 0), True, l)
    allp("zero test of constants", "rational 0/5", lambda: D.val("z_vn_r", 0, 5), True, l)
    allp("zero test of constants", "real 0", lambda: D.val("z_vn_x", 0), True, l)
    ctx.used(I)


def simple(p):
    return p.const_value() if isinstance(p, Poly) and p.is_const() else p
