"""Zero-term discipline of expressions, decided by abstract interpretation over
opaque scalars. The zero test of every scalar type is an opaque predicate; on
every abstract path a coefficient that ends up stored must be known non-zero on
that path: it was tested, or it is (up to sign, conjugation and promotion to a
result type) the coefficient of a term of an operand, which is assumed to hold
no zero terms. A coefficient that was computed or converted and is stored
without a test is reported."""
from exprcases import *

LEVEL = "other"
ASSUMPTIONS = ["the zero test is invariant under negation and complex conjugation",
               "promotion of a non-zero number to the type of an arithmetic result keeps it non-zero (conversions to a narrower type do not)",
               "patterns over three (thorough: four) products stand for all expressions: the loops treat terms uniformly"]
NEED = {"stored coefficients are non-zero": 1500, "products": 30}


def mulcases(D, thorough):
    S, I = D.S, D.I
    lp = [p for p in patterns(False) if all(v in "nl" for v in p.values())]
    words = [(ONE,), (X,), (ONE, X), (X, Y), (ONE, X, Z), ((("f", False, (0,)),),), ((("s", 2, 1, (0,)),),),
             ((("s", 2, 2, (0,)), ("s", 3, 1, (1,))),)]
    for l, r in BIN:
        for wa in words:
            for wb in words:
                if not thorough and len(wa) * len(wb) > 2 and (l, r) != ("SA", "SA"):
                    continue

                def go(l=l, r=r, wa=wa, wb=wb):
                    a = D.expr(l, [(m, S.fresh(I, l, "a%d" % i)) for i, m in enumerate(wa)])
                    b = D.expr(r, [(m, S.fresh(I, r, "b%d" % i)) for i, m in enumerate(wb)])
                    return D.decode(Cell(D.val("mul_%s_%s" % (l, r), a, b))), {}
                yield "(%s: %s) * (%s: %s)" % (l, " + ".join(map(mname, wa)), r, " + ".join(map(mname, wb))), "operator*", go
    for t in ("SA", "SN"):
        for w in words:
            def go(t=t, w=w):
                a = D.expr(t, [(m, S.fresh(I, t, "a%d" % i)) for i, m in enumerate(w)])
                return D.decode(Cell(D.val("conj_" + t, a))), {}
            yield "conj(%s: %s)" % (t, " + ".join(map(mname, w))), "conj", go
    for w in words:
        for fn in ("hcadd_SA", "hcsub_SA"):
            def go(w=w, fn=fn):
                a = D.expr("SA", [(m, S.fresh(I, "SA", "a%d" % i)) for i, m in enumerate(w)])
                return D.decode(Cell(D.val(fn, a))), {}
            yield "%s hc of %s" % ("+" if "add" in fn else "-", " + ".join(map(mname, w))), "conj", go


def run(ctx):
    P = export("expr.cpp")
    D = EDriver(P)
    tf_ext(D)

    def judge(t, terms, exp):
        for m, c in terms:
            z = D.S.known(D.I, c)
            if z is True:
                return "the product %s keeps the coefficient %s although it counts as zero" % (mname(m), c)
            if z is None:
                return "the coefficient %s of %s is stored without a zero test (it may count as zero)" % (c, mname(m))
        return ""
    rule = "stored coefficients are non-zero"
    run_cases(ctx, D, cases(D, ctx.thorough), judge, rule)
    run_cases(ctx, D, convcases(D, ctx.thorough), judge, rule)
    run_cases(ctx, D, mulcases(D, ctx.thorough), judge, "products")
    ctx.used(D.I)
