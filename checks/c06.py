"""Aliasing-safety of compound assignments, decided by abstract interpretation
with an ownership model of the term map: every map element is an abstract
object that dies when it is erased, and any later read, write or iterator step
through it is reported with its location. Each compound assignment is analysed
once with an operand that is the target itself (or one of the target's own
coefficients) and once with an independent copy; coefficients are opaque
non-commuting symbols, the zero test is an opaque predicate on which the state
is partitioned, and on every path both runs must end in the same terms."""
from exprcases import *

LEVEL = "other"
ASSUMPTIONS = ["references to map elements stay valid until the element is erased (std::map, modelled)",
               "patterns over up to four products stand for all expressions: the loops treat terms uniformly"]
NEED = {"aliasing": 80}

W = (("f", False, (1,)),)
S3 = (("s", 3, 1, (0,)),)
SETS = [(), (ONE,), (X,), (ONE, X), (X, Y), (ONE, X, Z), (X, W), (ONE, X, W), (S3,), (S3, ONE), (X, Y, Z)]


def acases(D, thorough):
    S, I = D.S, D.I
    sets = SETS + ([(ONE, X, Y, Z), (ONE, S3, X, W)] if thorough else [])

    def mk(t, w):
        return D.expr(t, [(m, S.fresh(I, t, "a[%s]" % mname(m))) for m in w])
    for t in ("SA", "SN"):
        for w in sets:
            for fn, sym in (("adda", "+="), ("suba", "-="), ("mula", "*=")):
                if fn == "mula" and len(w) > 2 and not thorough:
                    continue
                def go(t=t, w=w, fn=fn):
                    e, r, o = mk(t, w), mk(t, w), mk(t, w)
                    D.call("%s_%s_%s" % (fn, t, t), r, o)
                    D.call("%s_%s_%s" % (fn, t, t), e, e)
                    return D.decode(e)[1], D.decode(r)[1]
                yield "e %s e with e:%s{%s}" % (sym, t, ", ".join(map(mname, w))), "operator" + sym, go
            for i in range(len(w)):
                for fn, sym in (("sadda", "+="), ("ssuba", "-="), ("smula", "*=")):
                    def go(t=t, w=w, fn=fn, i=i):
                        e, r = mk(t, w), mk(t, w)
                        c = Cell(I.copyval(I.load(D.call("e_coef_" + t, e, i))))
                        D.call("%s_%s_%s" % (fn, t, t), r, c)
                        D.call("%s_%s_%s" % (fn, t, t), e, D.call("e_ref_" + t, e, i))
                        return D.decode(e)[1], D.decode(r)[1]
                    yield "e %s (coefficient %d of e) with e:%s{%s}" % (sym, i, t, ", ".join(map(mname, w))), "operator" + sym, go
        for w in sets:
            def go(t=t, w=w):
                e = mk(t, w)
                r = D.decode(e)[1]
                D.call("asgself_" + t, e, e)
                return D.decode(e)[1], r
            yield "e = e with e:%s{%s}" % (t, ", ".join(map(mname, w))), "operator=", go


def run(ctx):
    P = export("expr.cpp")
    D = EDriver(P)
    tf_ext(D)
    for name, entry, go in acases(D, ctx.thorough):
        for k, v, dec in D.I.explore(go):
            if k != "ok":
                ctx.ob("aliasing", name, False, describe(k, v), getattr(v, "loc", None) if k == "bad" else D.P.loc(v.loc))
                break
            env = zero_env(D)
            a, b = ({m: D.S.nf(D.I, c, env) for m, c in x} for x in v)
            a = {m: c for m, c in a.items() if c != 0}
            b = {m: c for m, c in b.items() if c != 0}
            if a != b:
                m = next(m for m in list(a) + list(b) if a.get(m) != b.get(m))
                ctx.ob("aliasing", name, False, "the coefficient of %s becomes %s, with a copy of the operand %s%s" %
                       (mname(m), a.get(m, 0), b.get(m, 0), path(dec)), entryloc(D, entry))
                break
            ctx.ob("aliasing", name, True)
    ctx.used(D.I)
