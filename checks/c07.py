"""Hermitian conjugation, decided by abstract interpretation of conj() (and of
'+ hc' / '- hc') on expressions whose coefficients are formal non-commuting
symbols and whose generators have opaque indices. The terms of the result are
compared, as operators in a faithful representation, with the sum over the
operand's terms of conj(coefficient) times the reversed product of adjoints;
scalar conjugation is an uninterpreted anti-automorphism, and on the paths where
a conjugated coefficient counts as zero its term must contribute nothing.
A user-defined generator whose conjugate is a linear function with constant and
linear parts is included."""
from c03 import *

LEVEL = "other"
ASSUMPTIONS = ["expressions of up to four terms with products of up to five generators stand for all (terms are treated uniformly)",
               "conj of a scalar is an involutive anti-automorphism"]
NEED = {"conjugate": 150, "hc": 20}


def adj(d):
    """adjoint as a list of (number, word)"""
    if d[0] in "fb":
        return [(1, ((d[0], not d[1], d[2]),))]
    if d[0] == "s":
        return [(1, (("s", d[1], {0: 1, 1: 0, 2: 2}[d[2]], d[3]),))]
    if d[1] == 5:  # conj(X) = 2 + 4 Y, conj(Y) = X / 4 - 1/2 in the test algebra
        if d[2] == 0:
            return [(2, ()), (4, (U(5, 1, d[3][0]),))]
        return [(Fraction(-1, 2), ()), (Fraction(1, 4), (U(5, 0, d[3][0]),))]
    return [(1, (d,))]


def adjoint(w):
    out = [(Fraction(1), ())]
    for d in reversed(w):
        out = [(x * y, u + v) for x, u in out for y, v in adj(d)]
    return out


def combos(thorough):
    f0, f0d, f1, f1d = F(False, 0), F(True, 0), F(False, 1), F(True, 1)
    a, ad, a1 = B(False, 0), B(True, 0), B(False, 1)
    p, m, z = S(2, 0, 0), S(2, 1, 0), S(2, 2, 0)
    P3, Z3 = S(3, 0, 0), S(3, 2, 0)
    X, Y = U(5, 0, 0), U(5, 1, 0)
    gens = [f0, f0d, f1, a, ad, a1, p, m, z, P3, Z3, X, U(1, 0, 0)]
    for g in gens:
        yield [(g,)]
        yield [(), (g,)]
    ok = [d for d in gens]
    for x in ok:
        for y in ok:
            if skey7(x) < skey7(y) and not (x[0] == y[0] == "s" and x[1] == y[1]):
                yield [(x, y)]
    for w in [[(f0d, f1d, f1, f0)], [(f0d, f0, ad, a)], [(f0d, ad, ad, p)], [(P3, P3, Z3)], [(f0d, f1, a, p, P3)], [(ad, ad, a)], [(X, X)], [(X, Y)], [(ad, X, X)],
              [(f0d,), (f0,)], [(f0d,), (f1,), (ad, a)], [(), (f0d, f0), (f0,)], [(ad, ad), (a, a)], [(p,), (m,), (z,)], [(X,), (Y,)],
              [(), (f0d,), (ad,), (p,)], [(f0d, f1), (f1d, f0)], [(f0d, f0), (f1d, f1), ()]]:
        yield w
    if thorough:
        for x in gens:
            for y in gens:
                if skey7(x) < skey7(y) and (x[0], x[1]) != ("s", y[1]):
                    yield [(x,), (y,), (x, y)]


def skey7(d):
    from c23 import skey
    return skey(d)


def run(ctx):
    P = export("expr.cpp")
    D = EDriver(P)
    Sx, I = D.S, D.I
    zero0 = Sx.zero
    loc = entryloc(D, "conj") or entryloc(D, "expression::conj")
    # only the zero tests of conjugated coefficients are partitioned; other generic numbers are not zero
    partition = [False]

    def zero(I_, p, t=None):
        if p.is_const():
            return zero0(I_, p, t)
        if len(p.m) == 1 and partition[0]:
            ((c, n), v), = p.m.items()
            if len(n) == 1 and not c:
                return I_.decide(("zero", Sx.canon(I_, p)), "%r counts as zero" % (p,))
        return False
    Sx.zero = zero

    def check(rule, name, k, v, dec, want):
        if k != "ok":
            ctx.ob(rule, name, False, describe(k, v), getattr(v, "loc", None) if k == "bad" else D.P.loc(v.loc))
            return
        env = {}
        for key, b in I.dec.items():
            if b and key[0] == "zero":
                (a,) = key[1].atoms()
                env[a] = 0
        got = {}
        for m, c in v[1]:
            for s, x in split(Sx.nf(I, c, env)).items():
                got.setdefault(s, []).append((x, m))
        for s in list(want) + [s for s in got if s not in want]:
            l = got.get(s, [])
            r = want.get(s, [])
            if any(repr(a) == y or repr(Sx.conj_atom(I, a)) == y for a in env for y in s):
                r = []
            if not same(l, r):
                ctx.ob(rule, name, False, "the result contains %s*(%s), expected %s*(%s)%s" % (
                    "*".join(s) or "1", " + ".join("%s*%s" % (x, mname(m)) for x, m in l) or "0",
                    "*".join(s) or "1", " + ".join("%s*%s" % (x, mname(m)) for x, m in r) or "0", path(dec)), loc)
                return
        ctx.ob(rule, name, True)
    for ws in combos(ctx.thorough):
        for t in ("SA", "SN"):
            for part in (False, True):
                if part and len(ws) < 2 and len(ws[0]) > 1:
                    continue
                partition[0] = part

                def go():
                    e = D.expr(t, [(m, Sx.fresh(I, t, "a%d" % i, nonzero=not part)) for i, m in enumerate(ws)])
                    return D.decode(Cell(D.val("conj_" + t, e)))
                for k, v, dec in I.explore(go):
                    want = {}
                    for i, m in enumerate(ws):
                        (a,) = I.uf("a%d" % i, nc=True).atoms()
                        want[(repr(Sx.conj_atom(I, a)),)] = adjoint(m)
                    check("conjugate", "conj(%s: %s)" % (t, " + ".join(map(mname, ws))), k, v, dec, want)
        partition[0] = False
        if sum(map(len, ws)) <= 4:
            for fn, sg in (("hcadd_SA", 1), ("hcsub_SA", -1)):
                def go():
                    e = D.expr("SA", [(m, Sx.fresh(I, "SA", "a%d" % i)) for i, m in enumerate(ws)])
                    return D.decode(Cell(D.val(fn, e)))
                for k, v, dec in I.explore(go):
                    want = {}
                    for i, m in enumerate(ws):
                        (a,) = I.uf("a%d" % i, nc=True).atoms()
                        want[(repr(a),)] = [(1, m)]
                        want[(repr(Sx.conj_atom(I, a)),)] = [(sg * x, w) for x, w in adjoint(m)]
                    check("hc", "%s %s hc" % (" + ".join(map(mname, ws)), "+-"[sg < 0]), k, v, dec, want)
    ctx.used(D.I)
