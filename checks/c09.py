"""Constants, decided by abstract interpretation over abstract numbers N + q: N is an
opaque integer of known range (all values of the target's range at once), q a class of
fractional parts (0, 1/4, 1/2, 3/4). Casts into a type that does not hold the whole range
(or the fraction) replace the value by an unrelated opaque one, so a detour through a
narrower type or a wrong rounding is visible; the members of the tagged union carry the
active member, so that reading a kind the constant was not created with is a definite
error. Rule: make_const() of every coefficient type returns the same number (rounded at
most to the target's own precision) or throws; conversions, equality, zero test and
printing of var_number are right for every kind."""
from util import *
from absint import Cx, Opq, Str
from constdom import AR
from fractions import Fraction

LEVEL = "other"
ASSUMPTIONS = ["constants are finite and lie within the range of an integral target type",
               "constructors of boost::rational and GMP numbers from an integer or double keep the value; GMP rationals need canonicalisation",
               "one representative per class of fractional parts"]
NEED = {"make_const": 240, "var_number": 60}
W32, W53 = (-2 ** 31, 2 ** 31 - 1), (-2 ** 53, 2 ** 53)
TYPES = {  # name -> (kind, range of integers)
    "short": ("int", (-2 ** 15, 2 ** 15 - 1)), "int": ("int", W32), "uint": ("int", (0, 2 ** 32 - 1)), "long": ("int", W53),
    "llong": ("int", W53), "ulong": ("int", (0, 2 ** 53)), "float": ("f32", W53), "double": ("f64", W53), "ldouble": ("f64", W53),
    "cfloat": ("f32", W53), "cdouble": ("f64", W53), "cldouble": ("f64", W53), "rint": ("rat", W32), "rlong": ("rat", W53),
    "mpz": ("int", W53), "mpq": ("rat", W53), "mpf": ("f64", W53)}
CPP = {"uint": "unsigned int", "llong": "long long", "ulong": "unsigned long", "ldouble": "long double", "cfloat": "std::complex<float>",
       "cdouble": "std::complex<double>", "cldouble": "std::complex<long double>", "rint": "boost::rational<int>",
       "rlong": "boost::rational<long>", "mpz": "mpz_class", "mpq": "mpq_class", "mpf": "mpf_class"}
PREFIX = {"rint": "rational", "rlong": "rational"}
FRACS = (0, Fraction(1, 4), Fraction(1, 2), Fraction(3, 4))


class Frac:
    """value of a rational / multi-precision object: numerator, denominator, canonical form ensured"""
    __slots__ = ("p", "raw")

    def __init__(self, p, raw=False):
        self.p, self.raw = p, raw


def numof(I, v):
    v = I.load(v)
    if isinstance(v, Obj):
        a = v.attr
        if isinstance(a, Frac):
            return a
        return None
    if isinstance(v, AR):
        return Frac(v.p)
    if isinstance(v, (bool, int, Fraction, Poly)):
        return Frac(Poly.of(v))
    return None


def foreign():
    def ctor(I, f, rid, args):
        ps = [I.V[p]["n"] if "n" in I.V[p] else "" for p in f["params"]]
        a = [numof(I, x) for x in args]
        o = Obj(rid)
        vals = [x for x in a if x is not None]
        if not vals and args:
            v = I.load(args[0])
            if isinstance(v, Obj) and isinstance(v.attr, Frac):
                vals = [v.attr]
            else:
                return NotImplemented
        q = I.R[rid]["s"]
        if not vals:
            o.attr = Frac(Poly.const(0))
        elif len(vals) == 1:
            p = vals[0].p
            if "mpz" in q and not I.isintpoly(p):  # GMP truncates
                p = AR(p, -2 ** 60, 2 ** 60).trunc(I).p
            o.attr = Frac(p, vals[0].raw)
        else:
            d = vals[1].p
            if not d.is_const() or d.const_value() == 0:
                raise I.err("symbolic denominator")
            p = vals[0].p * Poly.const(1 / d.const_value())
            o.attr = Frac(p, "mpq" in q)
        return o

    def canon(I, f, this, args):
        o = I.load(this)
        if isinstance(o, Obj) and isinstance(o.attr, Frac):
            o.attr = Frac(o.attr.p)
            return None
        return NotImplemented

    def asg(I, f, this, args):
        o, a = I.load(this), numof(I, args[0])
        if isinstance(o, Obj) and a is not None:
            o.attr = a
            return this
        return NotImplemented

    def arith(op):
        def h(I, f, this, args):
            a, b = [numof(I, x) for x in ([this] if this is not None else []) + list(args)]
            if a is None or b is None:
                return NotImplemented
            t = I.P.strip_ref(f["ret"])
            if t["c"] != "rec":
                return NotImplemented
            o = Obj(t["rec"])
            if op == "/":
                if not b.p.is_const():
                    return NotImplemented
                o.attr = Frac(a.p * Poly.const(1 / b.p.const_value()))
            else:
                o.attr = Frac({"+": a.p + b.p, "-": a.p - b.p, "*": a.p * b.p}[op])
            return o
        return h
    ext = {"ctor:__gmp_expr": ctor, "ctor:boost::rational": ctor, "__gmp_expr::canonicalize": canon, "__gmp_expr::operator=": asg,
           "boost::rational::operator=": asg, "boost::rational::assign": lambda I, f, this, args: setas(I, this, args)}
    for op in "+-*/":
        ext["operator" + op] = arith(op)
        ext["boost::operator" + op] = arith(op)

    def cmul(op):
        def h(I, f, this, args):
            o, b = I.load(this), numof(I, args[0])
            if not isinstance(o, Obj) or not isinstance(o.attr, Frac) or b is None:
                return NotImplemented
            a = o.attr
            if op == "/":
                if not b.p.is_const():
                    return NotImplemented
                o.attr = Frac(a.p * Poly.const(1 / b.p.const_value()))
            else:
                o.attr = Frac({"+": a.p + b.p, "-": a.p - b.p, "*": a.p * b.p}[op])
            return this
        return h
    for op in "+-*/":
        ext["boost::rational::operator%s=" % op] = cmul(op)
        ext["__gmp_expr::operator%s=" % op] = cmul(op)
    return ext


def setas(I, this, args):
    o = I.load(this)
    a, b = numof(I, args[0]), numof(I, args[1])
    o.attr = Frac(a.p * Poly.const(1 / b.p.const_value()))
    return this


def decode(I, v):
    """(real part polynomial, imaginary part, canonical)"""
    v = I.load(v)
    if isinstance(v, Obj) and isinstance(v.attr, Cx):
        a, b = numof(I, v.attr.re), numof(I, v.attr.im)
        return a.p, b.p, True
    n = numof(I, v)
    if n is None:
        raise AnalysisError("constant of unknown form %r" % (v,))
    return n.p, Poly.const(0), not n.raw


def run(ctx):
    P = export("consts.cpp")
    log = []

    def out(I, f, this, args):
        a = [I.load(x) for x in args]
        if this is not None and isinstance(I.load(this), Opq):
            log.append(a[0])
            return this
        if len(a) >= 2 and isinstance(a[0], Opq):
            log.append(a[1])
            return args[0]
        return NotImplemented
    ext = foreign()
    ext["std::basic_ostream::operator<<"] = out
    ext["std::operator<<"] = out
    D = Driver(P, ext)
    I = D.I

    def N(name, lo, hi, q=0):
        p = I.uf(name, integer=True)
        I.facts.add(p - lo, False)
        I.facts.add(Poly.of(hi) - p, False)
        return AR(p + q, lo, hi + (1 if q else 0))

    def rnd32(p):
        return I.uf("round_to_float", p)

    def judge(inst, q, thunk, want, mustthrow, mayfloat, loc):
        """every path of one conversion"""
        n = 0
        for k, v, dec in I.explore(thunk):
            n += 1
            ok, msg = True, ""
            if k == "throw":
                # refusing is right only when the kind is not representable
                ok = mustthrow is not None and not mustthrow == "no"
                msg = "throws %s for a constant the type can represent" % v.q
            elif k == "bad":
                ok, msg = False, describe(k, v)
            else:
                got, exp = v
                re, im, canon = got
                same = re == exp or (mayfloat and re == rnd32(exp)) or I.facts.sign(re - exp) == "0"
                if not same:
                    ok, msg = False, "the constant %r becomes %r" % (exp, re)
                elif im != 0:
                    ok, msg = False, "gets the imaginary part %r" % (im,)
                elif not canon:
                    ok, msg = False, "the rational is stored without bringing it to canonical form, so it compares and adds up wrongly"
            ctx.ob("make_const", "%s path %d" % (inst, n), ok, msg, (getattr(v, "loc", None) if k == "bad" else None) or loc)
        if not n:
            ctx.error("no path in " + inst)

    for nm, (kind, (lo, hi)) in TYPES.items():
        cpp = CPP.get(nm, nm)
        f = P.func("vp::%s_x" % nm)
        loc = None
        for g in P.callees(f):
            if P.F[g]["name"] == "make_const":
                loc = P.loc(P.F[g]["l"])
        # double constants
        for q in FRACS:
            def go():
                x = N("N", lo if not q else max(lo, -2 ** 50), hi if not q else min(hi - 1, 2 ** 50), q)
                return decode(I, D.val(nm + "_x", x)), x.p
            judge("scalar_traits<%s>::make_const(double N%s)" % (cpp, "+%s" % q if q else ""), q, go, None,
                  True if q and kind in ("int", "rat") else "no", kind == "f32", loc)
        f = P.func("vp::%s_v" % nm)
        for g in P.callees(f):
            if P.F[g]["name"] == "make_const":
                loc = P.loc(P.F[g]["l"])
        l2, h2 = max(lo, W32[0]), min(hi, W32[1])

        def goi():
            x = N("N", l2, h2)
            return decode(I, D.val(nm + "_v", Cell(D.val("mk_i", x)))), x.p
        judge("scalar_traits<%s>::make_const(integer)" % cpp, 0, goi, None, "no", kind == "f32", loc)
        for d in (2, 3, -3, 7, 1):
            def gor():
                x = N("N", *W32)
                return decode(I, D.val(nm + "_v", Cell(D.val("mk_r", x, d)))), x.p * Poly.const(Fraction(1, d))
            judge("scalar_traits<%s>::make_const(rational N/%d)" % (cpp, d), 0, gor, None, True if kind == "int" else "no", kind == "f32", loc)
        for q in FRACS:
            def gox():
                x = N("N", lo if not q else max(lo, -2 ** 50), hi if not q else min(hi - 1, 2 ** 50), q)
                return decode(I, D.val(nm + "_v", Cell(D.val("mk_x", x)))), x.p
            judge("scalar_traits<%s>::make_const(real N%s)" % (cpp, "+%s" % q if q else ""), 0, gox, None,
                  True if kind in ("int", "rat") else "no", kind == "f32", loc)
    # var_number itself
    VLOC = floc(D, "libcommute::var_number::is_zero")

    def consts(tag):
        return {"integer": lambda: ((x := N("A" + tag, *W32)), Cell(D.val("mk_i", x)), x.p),
                "rational": lambda: ((x := N("A" + tag, *W32)), Cell(D.val("mk_r", x, 3)), x.p * Poly.const(Fraction(1, 3))),
                "real": lambda: ((x := N("A" + tag, *W53, 0)), Cell(D.val("mk_x", x)), x.p),
                "real+1/4": lambda: ((x := N("A" + tag, -2 ** 50, 2 ** 50, Fraction(1, 4))), Cell(D.val("mk_x", x)), x.p)}
    KIND = {"integer": 0, "rational": 1, "real": 2, "real+1/4": 2}

    def allpaths(inst, thunk, pred, loc=VLOC):
        n = 0
        for k, v, dec in I.explore(thunk):
            n += 1
            if k != "ok":
                ctx.ob("var_number", "%s path %d" % (inst, n), False, describe(k, v), getattr(v, "loc", None) or loc)
            else:
                m = pred(v)
                ctx.ob("var_number", "%s path %d" % (inst, n), m is None, m or "", loc)

    for kn, mk in consts("").items():
        def zero():
            _, c, p = mk()
            return D.val("is_zero", c), p

        def zpred(v):
            z, p = v
            s = I.facts.sign(p)
            if z and s != "0":
                return "is_zero() is true for a constant that may be non-zero"
            if not z and I.facts.infeasible_with([(p, True)]) and I.facts.infeasible_with([(-p, True)]):
                return "is_zero() is false for zero"
        allpaths("is_zero() of %s" % kn, zero, zpred)
        allpaths("double(%s)" % kn, lambda: (lambda t: (D.val("to_double", t[1]), t[2]))(mk()),
                 lambda v: None if numof(I, v[0]).p == v[1] or I.facts.sign(numof(I, v[0]).p - v[1]) == "0" else "%r is converted to %r" % (v[1], v[0]),
                 floc(D, "libcommute::var_number::operator double"))
        allpaths("number_type of %s" % kn, lambda: (mk(), )[0], lambda v: None)
        for cp in ("mk_copy", "mk_assign"):
            def gocp():
                _, c, p = mk()
                a = [c] if cp == "mk_copy" else [Cell(D.val("mk_r", 5, 7)), c]
                d = Cell(D.val(cp, *a))
                return D.val("eq", c, d), D.val("to_double", d), p
            allpaths("%s of %s" % (cp[3:], kn), gocp, lambda v: None if v[0] is True and numof(I, v[1]).p == v[2] else "the copy differs")
        # printing uses the active member only

        def pr():
            del log[:]
            x, c, p = mk()
            D.call("print", Cell(Opq("std::ostream")), c)
            return list(log), x.p

        def ppred(v):
            l, p = v
            nums = [numof(I, x).p for x in l if isinstance(x, (AR, int, Fraction, Poly)) and not isinstance(x, bool)]
            exp = [p] + ([Poly.const(3)] if kn == "rational" else [])
            if nums != exp:
                return "prints %r instead of %r" % (nums, exp)
        allpaths("printing of %s" % kn, pr, ppred, floc(D, "libcommute::operator<<"))
    # kind-specific accessors
    allpaths("int(integer)", lambda: (lambda t: (D.val("to_int", t[1]), t[2]))(consts("")["integer"]()),
             lambda v: None if numof(I, v[0]).p == v[1] else "%r is converted to %r" % (v[1], v[0]))
    allpaths("numerator/denominator", lambda: (lambda t: (D.val("num", t[1]), D.val("den", t[1]), t[0].p))(consts("")["rational"]()),
             lambda v: None if numof(I, v[0]).p == v[2] and numof(I, v[1]).p == 3 else "%r/%r" % (v[0], v[1]))
    # equality: true only for the same number; true for identical constants; != is its negation
    for ka, mka in consts("1").items():
        for kb, mkb in consts("2").items():
            def eqs():
                _, a, pa = mka()
                _, b, pb = mkb()
                return D.val("eq", a, b), D.val("ne", a, b), D.val("eq", b, a), pa, pb

            def epred(v):
                e, n, e2, pa, pb = v
                if e == n:
                    return "'!=' is not the negation of '=='"
                if e != e2:
                    return "'==' is not symmetric"
                s = I.facts.sign(pa - pb)
                if e and s != "0":
                    return "different numbers %r and %r compare equal" % (pa, pb)
                if not e and KIND[ka] == KIND[kb] and s == "0":
                    return "equal constants of the same kind compare unequal"
            allpaths("%s == %s" % (ka, kb), eqs, epred, floc(D, "libcommute::operator=="))
    ctx.used(I)
