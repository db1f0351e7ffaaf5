"""Canonical form, decided by abstract interpretation of the library's normal
ordering on words of generators with opaque indices (only their order is known)
and formal coefficients. For every enumerated word: every stored product is
sorted strictly according to the generator order (repeated generators allowed
where no rule removes them), contains no fermionic square, no neighbouring pair
of spin-1/2 operators on one site and no vanishing spin power; and, for
fermions, bosons and spin-1/2, all ways of bracketing the product (left to right, right to left, halves, as one monomial)
store exactly the same terms. Every analysed path reaches its end, so the
procedure terminates on them; each rewriting step shortens the product or removes
one inversion because the replacement type holds single generators only."""
from c03 import *

LEVEL = "other"
ASSUMPTIONS = ["the zero test answers 'no' for generic coefficients (exact cancellation excepted)",
               "words enumerated up to length 3-5 per alphabet of the predefined algebras"]
NEED = {"canonical form": 300, "independence of bracketing": 300}


def skey(d):
    from c01 import ALG
    if d[0] in "fb":
        return (ALG[d[0]], 0, d[2]) if d[1] else (ALG[d[0]], 1, tuple(-x for x in d[2]))
    if d[0] == "s":
        return (ALG["s"], d[1], d[3], d[2])
    return (d[1], d[2], d[3])


def defect(m):
    for x, y in zip(m, m[1:]):
        if skey(x) > skey(y):
            return "%s and %s are out of order" % (mname((x,)), mname((y,)))
        if x == y and x[0] == "f":
            return "a fermionic operator is squared"
        if x[0] == y[0] == "s" and x[1] == y[1] == 2 and x[3] == y[3]:
            return "two spin-1/2 operators of one site are left as a product"
    for i, x in enumerate(m):
        if x[0] == "s" and x[2] != 2 and x[1] > 2 and i + x[1] <= len(m) and all(y == x for y in m[i:i + x[1]]):
            return "a vanishing spin power is kept"
    return ""


def cwords(thorough):
    k = 1 if thorough else 0
    al = [([F(True, 0), F(False, 0), F(True, 1), F(False, 1)], 3 + k), ([B(True, 0), B(False, 0), B(False, 1)], 3 + k),
          ([S(2, 0, 0), S(2, 1, 0), S(2, 2, 0), S(2, 2, 1)], 3 + k), ([S(3, 0, 0), S(3, 1, 0), S(3, 2, 0)], 4 + k),
          ([S(3, 0, 0), S(2, 1, 0), F(False, 0), B(True, 0)], 3 + k)]
    seen = set()
    for a, n in al:
        for ln in range(1, n + 1):
            for w in itertools.product(a, repeat=ln):
                if w not in seen:
                    seen.add(w)
                    yield w
    for w in [(S(4, 0, 0),) * 4, (S(4, 1, 0),) * 5, (S(4, 0, 0), S(4, 1, 0), S(4, 0, 0), S(4, 2, 0), S(4, 0, 0)),
              (F(False, 1), F(False, 0), F(True, 1), F(True, 0), F(False, 1)), (B(False, 0), B(False, 0), B(True, 0), B(True, 0)),
              (S(2, 2, 1), S(2, 0, 0), S(2, 1, 1), S(2, 1, 0)), (S(2, 2, 0), S(2, 2, 1), S(2, 2, 0), S(2, 2, 1), S(2, 2, 0))]:
        yield w


def run(ctx):
    P = export("expr.cpp")
    D = EDriver(P)
    Sx, I = D.S, D.I
    zero0 = Sx.zero
    Sx.zero = lambda I_, p, t=None: zero0(I_, p, t) if p.is_const() else False
    loc = entryloc(D, "expression::normalize_and_store") or entryloc(D, "expression::operator*=")

    def one(d):
        return D.expr("SA", [((d,), D.S.mk("SA", 1))])

    def mul(a, b):
        return Cell(D.val("mul_SA_SA", a, b))
    for w in cwords(ctx.thorough):
        def go():
            res = []
            k = Cell(Sx.fresh(I, "SA", "K"))
            res.append(("as one monomial", D.decode(Cell(D.val("emono_SA_SA", k, D.mono(w))))[1]))
            if len(w) > 1:
                e = D.expr("SA", [(w[:1], k.v)])
                for d in w[1:]:
                    e = mul(e, one(d))
                res.append(("left to right", D.decode(e)[1]))
            if len(w) > 2:
                e = one(w[-1])
                for d in reversed(w[1:-1]):
                    e = mul(one(d), e)
                res.append(("right to left", D.decode(mul(D.expr("SA", [(w[:1], k.v)]), e))[1]))
            if len(w) > 3:
                h = len(w) // 2
                a, b = D.expr("SA", [(w[:1], k.v)]), one(w[h])
                for d in w[1:h]:
                    a = mul(a, one(d))
                for d in w[h + 1:]:
                    b = mul(b, one(d))
                res.append(("in two halves", D.decode(mul(a, b))[1]))
            return res
        k, v = D.one(go)
        nm = mname(w)
        if k != "ok":
            ctx.ob("canonical form", nm, False, describe(k, v), getattr(v, "loc", None) if k == "bad" else D.P.loc(v.loc))
            continue
        msg = ""
        for how, ts in v:
            for m, c in ts:
                msg = msg or (defect(m) and "%s, bracketed %s, stores %s: %s" % (nm, how, mname(m), defect(m)))
        ctx.ob("canonical form", nm, not msg, msg, loc)
        # (the products of longer spins kept by the library are linearly dependent, e.g. S+S+Sz = -S+S+
        # for S=1, and the power rule is the only reduction: no unique form is promised there)
        for how, ts in v[1:] if not any(d[0] == "s" and d[1] > 2 for d in w) else ():
            d0, d1 = dict(v[0][1]), dict(ts)
            bad = next((m for m in list(d0) + list(d1) if d0.get(m) != d1.get(m)), None)
            ctx.ob("independence of bracketing", "%s %s" % (nm, how), bad is None and len(ts) == len(d1),
                   "the coefficient of %s is %s as one monomial and %s when multiplied %s" % (
                       bad is not None and mname(bad), d0.get(bad, 0), d1.get(bad, 0), how), loc)
    ctx.used(D.I)
