"""Number domain: polynomials with rational coefficients over opaque atoms.

Two kinds of atoms: commuting ones (C++ arithmetic values) and non-commuting
ones (values of opaque scalar types, whose products keep their written order).
Two values are equal for every input iff their normal forms coincide.
"""
from fractions import Fraction


class Atom:
    __slots__ = ("name", "nc", "attr")

    def __init__(self, name, nc=False, attr=None):
        self.name = name
        self.nc = nc
        self.attr = attr

    def __repr__(self):
        return self.name


def _key(a):
    return (str(a.name), id(a))


class Poly:
    """dict {(commuting atoms sorted, non-commuting word): Fraction}"""
    __slots__ = ("m", "_h")

    def __init__(self, m):
        self.m = m
        self._h = None

    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({((), ()): c} if c else {})

    @staticmethod
    def atom(a):
        return Poly({(((), (a,)) if a.nc else ((a,), ())): Fraction(1)})

    @staticmethod
    def of(x):
        if isinstance(x, Poly):
            return x
        if isinstance(x, bool):
            return Poly.const(int(x))
        return Poly.const(x)

    def is_const(self):
        return not self.m or (len(self.m) == 1 and ((), ()) in self.m)

    def const_value(self):
        return self.m.get(((), ()), Fraction(0))

    def simp(self):
        """python number if constant"""
        if self.is_const():
            c = self.const_value()
            return int(c) if c.denominator == 1 else c
        return self

    def __add__(self, o):
        o = Poly.of(o)
        r = dict(self.m)
        for k, v in o.m.items():
            s = r.get(k, 0) + v
            if s:
                r[k] = s
            else:
                r.pop(k, None)
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({k: -v for k, v in self.m.items()})

    def __sub__(self, o):
        return self + (-Poly.of(o))

    def __rsub__(self, o):
        return Poly.of(o) - self

    def __mul__(self, o):
        o = Poly.of(o)
        r = {}
        for (c1, n1), v1 in self.m.items():
            for (c2, n2), v2 in o.m.items():
                k = (tuple(sorted(c1 + c2, key=_key)), n1 + n2)
                s = r.get(k, 0) + v1 * v2
                if s:
                    r[k] = s
                else:
                    r.pop(k, None)
        return Poly(r)

    def __rmul__(self, o):
        return Poly.of(o) * self

    def __eq__(self, o):
        if not isinstance(o, (Poly, int, Fraction)):
            return NotImplemented
        return self.m == Poly.of(o).m

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.m.items()))
        return self._h

    def atoms(self):
        s = set()
        for c, n in self.m:
            s |= set(c) | set(n)
        return s

    def __repr__(self):
        if not self.m:
            return "0"
        out = []
        for (c, n), v in sorted(self.m.items(), key=lambda kv: repr(kv[0])):
            w = "*".join([repr(a) for a in c] + [repr(a) for a in n])
            if not w:
                out.append(str(v))
            elif v == 1:
                out.append(w)
            elif v == -1:
                out.append("-" + w)
            else:
                out.append("%s*%s" % (v, w))
        return " + ".join(out).replace("+ -", "- ")


def subst(p, env):
    """Substitute atoms by numbers/polynomials."""
    p = Poly.of(p)
    r = Poly({})
    for (c, n), v in p.m.items():
        t = Poly.const(v)
        for a in c + n:
            t = t * (Poly.of(env[a]) if a in env else Poly.atom(a))
        r = r + t
    return r


class Facts:
    """Conjunction of linear inequalities p >= 0 / p > 0 / p == 0 (monomials as
    variables), decided by Fourier-Motzkin elimination over the rationals."""

    def __init__(self):
        self.ge = []  # (poly, strict)
        self.memo = {}

    def add(self, p, strict):
        self.ge.append((Poly.of(p), strict))
        self.memo = {}

    def infeasible_with(self, extra):
        cons = [(dict(p.m), s) for p, s in self.ge] + [(dict(Poly.of(p).m), s) for p, s in extra]
        # keep only constraints connected to the query
        return _fm_infeasible(cons)

    def implies_ge(self, p):  # p >= 0 ?
        return self.infeasible_with([(-Poly.of(p), True)])

    def implies_gt(self, p):
        return self.infeasible_with([(-Poly.of(p), False)])

    def sign(self, p):
        """'+', '-', '0', or None when undetermined."""
        k = Poly.of(p)
        if k in self.memo:
            return self.memo[k]
        if self.implies_gt(k):
            r = "+"
        elif self.implies_gt(-k):
            r = "-"
        elif self.implies_ge(k) and self.implies_ge(-k):
            r = "0"
        else:
            r = None
        self.memo[k] = r
        return r


ONE = ((), ())


def _fm_infeasible(cons, limit=4000):
    cons = [(c, s) for c, s in cons]
    while True:
        out = []
        seen = set()
        for c, s in cons:
            c = {k: v for k, v in c.items() if v}
            vs = [k for k in c if k != ONE]
            if not vs:
                k = c.get(ONE, 0)
                if k < 0 or (k == 0 and s):
                    return True
                continue
            # normalise
            f = abs(c[min(vs, key=repr)])
            c = {k: v / f for k, v in c.items()}
            key = (frozenset(c.items()), s)
            if key in seen:
                continue
            seen.add(key)
            out.append((c, s))
        cons = out
        if not cons:
            return False
        count = {}
        for c, s in cons:
            for k, v in c.items():
                if k != ONE:
                    p, n = count.get(k, (0, 0))
                    count[k] = (p + 1, n) if v > 0 else (p, n + 1)
        var = min(count, key=lambda k: (count[k][0] * count[k][1], repr(k)))
        pos = [(c, s) for c, s in cons if c.get(var, 0) > 0]
        neg = [(c, s) for c, s in cons if c.get(var, 0) < 0]
        rest = [(c, s) for c, s in cons if not c.get(var, 0)]
        if len(pos) * len(neg) + len(rest) > limit:
            return False
        for cp, sp in pos:
            for cn, sn in neg:
                a, b = cp[var], -cn[var]
                d = {}
                for k, v in cp.items():
                    d[k] = d.get(k, 0) + v * b
                for k, v in cn.items():
                    d[k] = d.get(k, 0) + v * a
                d.pop(var, None)
                rest.append((d, sp or sn))
        cons = rest
