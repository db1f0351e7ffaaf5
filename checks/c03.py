"""Normal ordering of products, decided by abstract interpretation: the library's
product of operators is analysed on words of generators whose indices are opaque
(only their mutual order is known) and whose coefficients are formal symbols.
The resulting terms are read through the public interface and compared, as
operators, with the word they were made from, in a faithful representation of
the defining relations (Fock space, spin multiplets, regular representations for
the user-defined algebras, which exercise exchange coefficients other than +-1,
constant and linear contributions, vanishing exchanges and power reductions that
leave constants). Words enter as one monomial, and as products of shorter
expressions with several terms, where the coefficients must arrive in the
written order of the factors."""
from exprcases import *
import itertools

LEVEL = "other"
ASSUMPTIONS = ["the zero test answers 'no' for generic coefficients (exact cancellation excepted); the zero-term discipline is C05",
               "the words enumerated (all words up to length 3-4 over each alphabet, selected longer ones) stand for all products: the procedure works on neighbours, positions and runs of equal generators",
               "the user-defined algebras in drivers/expr.cpp stand for all algebras of the documented form"]
NEED = {"normal ordering of a word": 400, "product of expressions": 60}


# ---------------------------------------------------------- representation
def site(d):
    if d[0] == "s":
        return ("s", d[1], d[3])
    if d[0] == "u":
        return ("u", d[1], d[3])
    return (d[0], 0, d[2])


def apply1(d, sites, vec):
    k = sites.index(site(d))
    out = {}

    def put(st, n, a):
        if a:
            ns = st[:k] + (n,) + st[k + 1:]
            out[ns] = out.get(ns, 0) + a
    for st, a in vec.items():
        n = st[k]
        if d[0] == "f":
            sg = (-1) ** sum(st[j] for j in range(k) if sites[j][0] == "f")
            if d[1] and n == 0:
                put(st, 1, a * sg)
            elif not d[1] and n == 1:
                put(st, 0, a * sg)
        elif d[0] == "b":
            put(st, n + 1, a) if d[1] else put(st, n - 1, a * n)
        elif d[0] == "s":
            S = Fraction(d[1] - 1, 2)
            mz = n - S
            if d[2] == 2:
                put(st, n, a * mz)
            elif d[2] == 0:
                if n < d[1] - 1:
                    put(st, n + 1, a * (S * (S + 1) - mz * (mz + 1)))
            elif n > 0:
                put(st, n - 1, a)
        else:
            kind, comp = d[1], d[2]
            if kind == 0:  # a a+ = 2 a+ a + 3
                if comp == 0:
                    put(st, n + 1, a)
                else:
                    c = 0
                    for _ in range(n):
                        c = 2 * c + 3
                    put(st, n - 1, a * c)
            elif kind == 1:  # X^3 = 3 X + 2, regular representation on 1, X, X^2
                if n < 2:
                    put(st, n + 1, a)
                else:
                    put(st, 1, a * 3)
                    put(st, 0, a * 2)
            elif kind == 2:  # P^2 = P
                put(st, 1, a)
            elif kind == 3:  # y x = x y - x
                put(st, n + 1, a) if comp == 0 else put(st, n, a * -n)
            elif kind == 5:  # X and Y commute
                i, j = n
                put(st, (i + 1, j) if comp == 0 else (i, j + 1), a)
            else:  # y x = x, basis x^i y^j coded (i, j)
                i, j = n
                if comp == 0:
                    put(st, (i + 1, j), a)
                else:
                    put(st, (i, j) if i else (i, j + 1), a)
    return {s: a for s, a in out.items() if a}


def states(sites, m):
    out = [()]
    for s in sites:
        r = range(2) if s[0] == "f" else range(m + 1) if s[0] == "b" or s[:2] in (("u", 0), ("u", 3)) else \
            range(s[1]) if s[0] == "s" else (0,) if s[:2] in (("u", 1), ("u", 2)) else ((0, 0),)
        out = [o + (i,) for o in out for i in r]
    return out


def same(lhs, rhs):
    sites = []
    m = 1
    for c, w in lhs + rhs:
        m = max(m, len(w))
        for d in w:
            if site(d) not in sites:
                sites.append(site(d))
    # fermionic modes in one fixed order
    for st in states(sites, m):
        acc = {}
        for sg, side in ((1, lhs), (-1, rhs)):
            for c, w in side:
                v = {st: Fraction(1)}
                for d in reversed(w):
                    v = apply1(d, sites, v)
                for s, a in v.items():
                    acc[s] = acc.get(s, 0) + sg * c * a
        if any(acc.values()):
            return False
    return True


# ------------------------------------------------------------------ words
def F(d, i):
    return ("f", d, (i,))


def B(d, i):
    return ("b", d, (i,))


def S(m, c, i):
    return ("s", m, c, (i,))


def U(k, c, i):
    return ("u", k, c, (i,))


def words(thorough):
    k = 1 if thorough else 0
    al = [
        ([F(True, 0), F(True, 1), F(False, 0), F(False, 1)], 3 + k),
        ([B(True, 0), B(False, 0), B(False, 1)], 4 + k),
        ([S(2, 0, 0), S(2, 1, 0), S(2, 2, 0)], 4 + k),
        ([S(2, 0, 0), S(2, 1, 1), S(2, 2, 0), S(2, 2, 1)], 3 + k),
        ([S(3, 0, 0), S(3, 1, 0), S(3, 2, 0)], 4 + k),
        ([S(3, 0, 0), S(3, 1, 0), S(3, 2, 1), S(2, 2, 0)], 3 + k),
        ([F(True, 0), F(False, 0), B(True, 0), B(False, 0), S(2, 1, 0), S(3, 0, 0), U(0, 0, 0), U(0, 1, 0)], 2 + k),
        ([U(0, 0, 0), U(0, 1, 0), U(0, 1, 1)], 4 + k),
        ([U(1, 0, 0), U(1, 0, 1), U(2, 0, 0)], 5 + k),
        ([U(2, 0, 0), U(2, 0, 1), U(3, 1, 0)], 3 + k),
        ([U(3, 0, 0), U(3, 1, 0), U(3, 1, 1)], 4 + k),
        ([U(4, 0, 0), U(4, 1, 0), U(4, 0, 1)], 4 + k),
    ]
    seen = set()
    for alpha, n in al:
        for ln in range(1, n + 1):
            for w in itertools.product(alpha, repeat=ln):
                if w not in seen:
                    seen.add(w)
                    yield w
    a, ad, a1 = B(False, 0), B(True, 0), B(False, 1)
    f0, f0d, f1, f1d = F(False, 0), F(True, 0), F(False, 1), F(True, 1)
    X, X1, Q, Qd = U(1, 0, 0), U(1, 0, 1), U(0, 1, 0), U(0, 0, 0)
    p, m, z = S(4, 0, 0), S(4, 1, 0), S(4, 2, 0)
    extra = [
        (f0, f0d, f1, f1d, f0, f0d), (f1, f0, f1d, f0d, f1, f1d), (f0, f1, f0d, f1d), (f1, f0, f0d, f1d), (f0d, f1d, f0, f1),
        (a, a, a, ad, ad, ad), (a, a, ad, ad, a, ad), (a, a1, ad, a, ad, f0), (a, f0, ad, f0d, a, f1),
        (p, p, p), (p, p, p, p), (m, m, m), (p, m, p), (m, p, m, p), (f0, p, p, p, z), (f0, p, p, p, p, X), (z, p, z, m), (z, z, z, z),
        (X, X, X, X, X, X), (f0d, X, X, X, X1, X1, X1), (Qd, X, X, X, X1), (X, X1, X, X1, X, X1), (f0, X, X, X), (X, X, X, f0),
        (Q, Qd, X, X, X), (Q, Q, Qd, Qd, Q), (a, S(2, 1, 0), S(2, 0, 0), ad), (S(2, 2, 1), S(2, 0, 0), S(2, 2, 1), S(2, 1, 0)),
        (S(2, 2, 0), S(2, 2, 1), S(2, 2, 0), S(2, 2, 1)), (f0, S(2, 0, 0), f0d, S(2, 0, 0)), (a, a, a, a, ad), (a, ad, ad, ad, ad),
        (U(3, 1, 0), U(3, 1, 0), U(3, 0, 0), U(3, 0, 0), U(3, 1, 1)), (U(4, 1, 0), U(4, 1, 0), U(4, 0, 0), U(4, 1, 0), f0),
        (f0, U(2, 0, 0), U(2, 0, 1), U(2, 0, 0), U(2, 0, 1)), (U(2, 0, 1), U(2, 0, 0), U(2, 0, 1), U(1, 0, 0), U(2, 0, 0)),
    ]
    for w in extra:
        if w not in seen:
            seen.add(w)
            yield w


def exprs():
    f0, f0d, f1, f1d = F(False, 0), F(True, 0), F(False, 1), F(True, 1)
    a, ad = B(False, 0), B(True, 0)
    z, p = S(2, 2, 0), S(2, 0, 0)
    X = U(1, 0, 0)
    yield [((), (f0d, f0)), ((f1d,), (f0,))]
    es = [[(), (f0d,)], [(f0d, f0)], [(f0,), (f1d, f1)], [(ad,), (a,)], [(), (ad, a), (ad, ad)], [(p,), (z,)], [(z,), (S(3, 2, 0),)],
          [(X,), (X, X)], [(), (X, X), (ad, X)], [(U(0, 1, 0),), (U(0, 0, 0),)], [(S(3, 0, 0), S(3, 0, 0)), (S(3, 1, 0),)], [(f1d,), (a,), (p,)]]
    for x in es:
        for y in es:
            yield x, y


def split(p):
    """coefficient polynomial -> {non-commuting word of symbols: number}"""
    out = {}
    for (c, n), v in p.m.items():
        out[tuple(map(repr, c)) + tuple(map(repr, n))] = v
    return out


def run(ctx):
    P = export("expr.cpp")
    D = EDriver(P)
    Sx, I = D.S, D.I
    zero0 = Sx.zero
    Sx.zero = lambda I_, p, t=None: zero0(I_, p, t) if p.is_const() else False
    loc = entryloc(D, "expression::normalize_and_store") or entryloc(D, "expression::operator*=")

    def report(rule, name, k, v, want):
        """want: {word of symbols: [(1, word)]}"""
        if k != "ok":
            ctx.ob(rule, name, False, describe(k, v), getattr(v, "loc", None) if k == "bad" else D.P.loc(v.loc))
            return
        got = {}
        seen = set()
        for m, c in v[1]:
            if m in seen:
                ctx.ob(rule, name, False, "the product %s is stored twice" % mname(m), loc)
                return
            seen.add(m)
            for s, x in split(c).items():
                got.setdefault(s, []).append((x, m))
        for s in list(want) + [s for s in got if s not in want]:
            l, r = got.get(s, []), want.get(s, [])
            if not same(l, r):
                ctx.ob(rule, name, False, "the result contains (%s)*(%s), expected (%s)*(%s)" % (
                    "*".join(s) or "1", " + ".join("%s*%s" % (x, mname(m)) for x, m in l) or "0",
                    "*".join(s) or "1", " + ".join(mname(m) for _, m in r) or "0"), loc)
                return
        ctx.ob(rule, name, True)
        if len(v[1]) > 2:
            ctx.sample({"word": name, "terms": len(v[1])})
    for w in words(ctx.thorough):
        for t in ("SA", "SN") if len(w) < 3 else ("SA",):
            def go():
                k = Sx.fresh(I, t, "K")
                return D.decode(Cell(D.val("emono_%s_%s" % (t, t), Cell(k), D.mono(w))))
            k, v = D.one(go)
            report("normal ordering of a word", "%s over %s" % (mname(w), t), k, v, {("K",): [(1, w)]})
        if len(w) in (3, 4) and (ctx.thorough or hash_(w) % 4 == 0):
            def go():
                a = D.expr("SA", [(w[:1], Sx.fresh(I, "SA", "K"))])
                b = D.expr("SA", [(w[1:2], Sx.fresh(I, "SA", "L"))])
                D.call("mula_SA_SA", a, b)
                c = D.expr("SA", [((), Sx.fresh(I, "SA", "M"))])
                for g in w[2:]:
                    D.call("mula_SA_SA", c, D.expr("SA", [((g,), D.S.mk("SA", 1))]))
                return D.decode(Cell(D.val("mul_SA_SA", a, c)))
            k, v = D.one(go)
            report("product of expressions", "(%s*%s)*(%s)" % (mname(w[:1]), mname(w[1:2]), mname(w[2:])), k, v, {("K", "L", "M"): [(1, w)]})
    for x, y in exprs():
        for l, r in (("SA", "SA"), ("SN", "SN"), ("SA", "SB")) if len(x) * len(y) <= 2 else (("SA", "SA"),):
            def go():
                a = D.expr(l, [(m, Sx.fresh(I, l, "a%d" % i)) for i, m in enumerate(x)])
                b = D.expr(r, [(m, Sx.fresh(I, r, "b%d" % i)) for i, m in enumerate(y)])
                return D.decode(Cell(D.val("mul_%s_%s" % (l, r), a, b)))
            k, v = D.one(go)
            want = {("a%d" % i, "b%d" % j): [(1, m + n)] for i, m in enumerate(x) for j, n in enumerate(y)}
            report("product of expressions", "(%s: %s) * (%s: %s)" % (l, " + ".join(map(mname, x)), r, " + ".join(map(mname, y))), k, v, want)
    ctx.used(D.I)


def hash_(w):
    return sum((i + 1) * sum(ord(ch) for ch in repr(d)) for i, d in enumerate(w))
