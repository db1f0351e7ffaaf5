"""Abstract numbers for constants: a real number N + q with N an opaque integer of
known range and q a known fractional class; conversions to narrower types that need
not keep the value yield an unrelated opaque value."""
from fractions import Fraction
import math
from poly import Poly


class AR:
    __slots__ = ("p", "lo", "hi", "raw")

    def __init__(self, p, lo, hi):
        self.p, self.lo, self.hi = Poly.of(p), Fraction(lo), Fraction(hi)

    def __repr__(self):
        return repr(self.p)

    @staticmethod
    def of(x):
        if isinstance(x, AR):
            return x
        if isinstance(x, bool):
            x = int(x)
        if isinstance(x, Poly):
            return AR(x, -2 ** 80, 2 ** 80)
        return AR(Poly.const(x), x, x)

    def isint(self, I):
        return I.isintpoly(self.p)

    def vp_truth(self, I):
        return not I.cmp_poly("==", self.p, 0)

    def fit(self, I, tid):
        t = I.T[tid]
        if t["c"] in ("int", "enum") and "w" in t:
            w = t["w"]
            lo, hi = (-2 ** (w - 1), 2 ** (w - 1) - 1) if t.get("sg") else (0, 2 ** w - 1)
            if self.lo < lo or self.hi > hi:
                return AR(I.uf("wrap%d" % w, self.p, integer=True), lo, hi)
            return self
        if t["c"] == "float" and t.get("w", 64) <= 32:
            if self.isint(I) and max(abs(self.lo), abs(self.hi)) <= 2 ** 24:
                return self
            if repr(self.p).startswith("round_to_float("):
                return self
            return AR(I.uf("round_to_float", self.p), self.lo, self.hi)
        if t["c"] == "float" and t.get("w", 64) == 64:
            if self.isint(I) and max(abs(self.lo), abs(self.hi)) > 2 ** 53:
                return AR(I.uf("round_to_double", self.p), self.lo, self.hi)
        return self

    def vp_convert(self, I, tid):
        t = I.T[tid]
        if t["c"] == "bool":
            return self.vp_truth(I)
        if t["c"] in ("int", "enum"):
            return self.trunc(I).fit(I, tid)
        return self.fit(I, tid)

    def floor(self, I):
        """greatest integer, exact when the non-integer part is a known constant"""
        if self.isint(I):
            return self
        c = self.p.m.get(((), ()), Fraction(0))
        rest = self.p - c
        if I.isintpoly(rest):
            return AR(rest + math.floor(c), self.lo - 1, self.hi)
        return AR(I.uf("floor", self.p, integer=True), self.lo - 1, self.hi)

    def trunc(self, I):
        if self.isint(I):
            return self
        f = self.floor(I)
        if I.cmp_poly("<", self.p, 0):
            return f + 1 if not I.cmp_poly("==", f.p, self.p) else f
        return f

    def __add__(self, k):
        return AR(self.p + k, self.lo + k, self.hi + k)

    def vp_round(self, I, name):
        if self.isint(I):
            return self
        if name == "floor":
            return self.floor(I)
        if name == "ceil":
            return self.floor(I) + 1
        if name == "trunc":
            return self.trunc(I)
        f = self.floor(I)
        d = self.p - f.p
        if not d.is_const():
            return AR(I.uf(name, self.p, integer=True), self.lo - 1, self.hi + 1)
        d = d.const_value()
        if d == Fraction(1, 2):
            if name in ("nearbyint", "rint"):
                return f if I.decide(("even", f.p)) else f + 1
            return f if I.cmp_poly("<", self.p, 0) else f + 1
        return f if d < Fraction(1, 2) else f + 1

    def vp_abs(self, I):
        return self.vp_unop(I, "-", None) if I.cmp_poly("<", self.p, 0) else self

    def vp_unop(self, I, op, tid):
        if op == "-":
            r = AR(-self.p, -self.hi, -self.lo)
            return r.fit(I, tid) if tid is not None else r
        raise I.err("unary %s on a constant" % op)

    def vp_binop(self, I, op, o, sw, tid):
        a, b = (AR.of(o), self) if sw else (self, AR.of(o))
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return I.cmp_poly(op, a.p, b.p)
        if op == "+":
            r = AR(a.p + b.p, a.lo + b.lo, a.hi + b.hi)
        elif op == "-":
            r = AR(a.p - b.p, a.lo - b.hi, a.hi - b.lo)
        elif op == "*":
            e = [x * y for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
            r = AR(a.p * b.p, min(e), max(e))
        elif op == "/":
            if b.p.is_const():
                c = b.p.const_value()
                if c == 0:
                    raise I.bad("div0", "division by zero")
                e = (a.lo / c, a.hi / c)
                r = AR(a.p * Poly.const(1 / c), min(e), max(e))
                if I.T[tid]["c"] == "int":
                    if abs(c) != 1:
                        r = AR(I.uf("op/", a.p, b.p, integer=True), min(e) - 1, max(e) + 1)
            else:
                r = AR(a.p * I.uf("inv", b.p), -2 ** 80, 2 ** 80)
        elif op == "%":
            if b.p.is_const() and abs(b.p.const_value()) == 1 and a.isint(I):
                return 0
            r = AR(I.uf("op%", a.p, b.p, integer=True), -abs(b.hi), abs(b.hi))
        else:
            raise I.err("%s on a constant" % op)
        return r.fit(I, tid)
