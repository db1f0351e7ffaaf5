"""Coefficient algebra of expressions, decided by abstract interpretation over
opaque scalar types: coefficients are formal polynomials in non-commuting
symbols (so the written operand order of products counts), the zero test of a
scalar is an opaque predicate on which the abstract state is partitioned, and
index values are known only through their order. For every pattern of terms
present in the left, right, both or neither operand (constant, linear and
quadratic products), every operator, and every combination of equal, different,
convertible and compound-assignment-less scalar types, the resulting map from
products to coefficients must be the one the operation defines."""
from exprcases import *

LEVEL = "other"
ASSUMPTIONS = ["std::map keeps its keys ordered and unique (modelled)",
               "patterns over three (thorough: four) products stand for all expressions: the loops treat terms uniformly"]
NEED = {"coefficients": 1500}


def run(ctx):
    P = export("expr.cpp")
    D = EDriver(P)
    tf_ext(D)

    def judge(t, terms, exp):
        env = zero_env(D)
        got = {}
        for m, c in terms:
            if m in got:
                return "the product %s is stored twice" % mname(m)
            got[m] = c
        for m in list(got) + [m for m in exp if m not in got]:
            r, v = got.get(m, Poly.const(0)), exp.get(m, Poly.const(0))
            if r == v:
                continue
            if m not in got and D.S.known(D.I, v) is True:
                continue
            if env and D.S.nf(D.I, r, env) == D.S.nf(D.I, v, env):
                continue
            return "the coefficient of %s is %s instead of %s" % (mname(m), r, v)
        return ""
    run_cases(ctx, D, cases(D, ctx.thorough), judge, "coefficients")
    run_cases(ctx, D, convcases(D, ctx.thorough), judge, "conversion")
    ctx.used(D.I)
