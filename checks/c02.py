"""Evaluation of the pairwise rewriting rules (swap_with, simplify_prod,
reduce_power, conj) in the abstract interpreter on generators whose indices are
opaque (only their order is known). For every out-of-order pair A > B the
reported (c, f) is decoded and the identity A*B = c*B*A + f is decided in a
faithful representation of the defining relations of the algebra; likewise
A*B = f for in-order pairs and A^p = f for powers whenever a rule claims to
apply, conj(A) = adjoint of A, and the reductions normal ordering relies on
(repeated fermionic operators, spin-1/2 pairs on one site, nilpotent spin powers)
are required to be claimed. The output argument holds a stale value before each
swap_with, simplify_prod and conj, as it does in the callers."""
from util import *
from c01 import make, gname, gkey
from fractions import Fraction

LEVEL = "other"
ASSUMPTIONS = ["rules compare multiplicities with small constants only: 2S+1 in 2..5 (thorough 2..8) stands for all lengths",
               "double-valued structure constants are read as exact rationals"]
NEED = {"swap of an out-of-order pair": 100, "simplification of an in-order pair": 100, "power reduction": 40,
        "Hermitian conjugate": 20}


# ---- reference algebra: operators on (unnormalised) product states
def site(d):
    if d[0] == "s":
        return ("s", d[1], d[3])
    if d[0] in "fb":
        return (d[0], 0, d[2])
    return ("u", d[1], d[2])


def apply1(d, sites, vec):
    k = sites.index(site(d))
    out = {}
    for st, a in vec.items():
        n = st[k]
        r = None
        if d[0] == "f":
            sg = (-1) ** sum(st[j] for j in range(k) if sites[j][0] == "f")
            if d[1] and n == 0:
                r = (1, sg)
            elif not d[1] and n == 1:
                r = (0, sg)
        elif d[0] == "b":
            if d[1]:
                r = (n + 1, 1)
            elif n > 0:
                r = (n - 1, n)
        elif d[0] == "s":
            m = d[1]
            S = Fraction(m - 1, 2)
            mz = n - S
            if d[2] == 2:
                r = (n, mz)
            elif d[2] == 0:
                if n < m - 1:
                    r = (n + 1, S * (S + 1) - mz * (mz + 1))
            else:
                if n > 0:
                    r = (n - 1, 1)
        if r is not None and r[1] != 0:
            ns = st[:k] + (r[0],) + st[k + 1:]
            out[ns] = out.get(ns, 0) + a * r[1]
    return {s: a for s, a in out.items() if a}


def word(ds, sites, st):
    v = {st: Fraction(1)}
    for d in reversed(ds):
        v = apply1(d, sites, v)
    return v


def states(sites):
    out = [()]
    for s in sites:
        n = 2 if s[0] == "f" else 5 if s[0] == "b" else s[1]
        out = [o + (i,) for o in out for i in range(n)]
    return out


def ident(lhs, rhs):
    """lhs, rhs: lists of (coef, word); equality of operators"""
    sites = []
    for c, w in lhs + rhs:
        for d in w:
            if d[0] == "u":
                return None
            if site(d) not in sites:
                sites.append(site(d))
    for st in states(sites):
        acc = {}
        for sgn, side in ((1, lhs), (-1, rhs)):
            for c, w in side:
                if not c:
                    continue
                for s, a in word(w, sites, st).items():
                    acc[s] = acc.get(s, 0) + sgn * c * a
        if any(acc.values()):
            return False
    return True


def decode(D, g, pre="g_"):
    """attributes of a generator object through its public accessors"""
    I = D.I
    o = I.load(g)
    q = D.P.R[o.rec]["q"]
    i = (I.load(D.call("g_idx", g)).attr,)
    if q == "libcommute::generator_fermion":
        return ("f", bool(I.load(D.call("f_dag", g))), i)
    if q == "libcommute::generator_boson":
        return ("b", bool(I.load(D.call("b_dag", g))), i)
    if q == "libcommute::generator_spin":
        return ("s", I.load(D.call("s_mult", g)), I.load(D.call("s_comp", g)), i)
    return ("u", I.load(D.call("g_alg", g)), i)


def decode_lf(D, f):
    n = D.val("lf_size", f)
    return D.val("lf_const", f), [(D.val("lf_coef", f, k), decode(D, D.call("lf_gen", f, k))) for k in range(n)]


def lfs(c, ts):
    return " + ".join(["%s" % c] + ["%s*%s" % (k, gname(g)) for k, g in ts])


def run(ctx):
    P = export("gen.cpp")
    D = Driver(P, idx_ext(("Idx", "Jdx")), budget=20000000)
    mults = (2, 3, 4, 5, 6, 8) if ctx.thorough else (2, 3, 4, 5)
    gens = [(a, dag, (i,)) for a in "fb" for dag in (True, False) for i in (0, 1)]
    gens += [("s", m, c, (i,)) for m in mults for i in (0, 1) for c in (0, 1, 2)]
    gens += [("u", 0, (0,))]
    stale = ("b", True, (7,))

    def fresh():
        f = Cell(D.val("mk_lf"))
        return f

    def dirty():
        f = fresh()
        vn = Cell(D.val("mk_vn", 5))
        D.call("lf_stale", f, vn, SP(make(D, stale)))
        return f

    def algname(d):
        return {"f": "fermion", "b": "boson", "s": "spin"}.get(d[0], "user")

    def where(d, what):
        q = {"f": "generator_fermion", "b": "generator_boson", "s": "generator_spin"}.get(d[0], "generator")
        return floc(D, "libcommute::%s::%s" % (q, what)) or floc(D, "libcommute::generator::" + what)
    # ---- swaps and simplifications
    for A in gens:
        for B in gens:
            if "u" in (A[0], B[0]) and A[0] == B[0]:
                continue
            if A[0] == B[0] == "s" and A[1] != B[1] and (A[1] > 4 or B[1] > 4):
                continue

            def go(swap):
                a = make(D, A)
                b = a if A == B and swap is None else make(D, B)
                f = dirty()
                if swap:
                    c = D.val("vn_d", D.call("g_swap", a, b, f))
                    return (c,) + decode_lf(D, f)
                r = D.I.truth(D.call("g_simp", a, b, f))
                return (True,) + decode_lf(D, f) if r else (False, 0, [])
            nm = "%s * %s" % (gname(A), gname(B))
            if gkey(A) > gkey(B):
                k, r = D.one(lambda: go(True))
                rule = "swap of an out-of-order pair"
                if k != "ok":
                    ctx.ob(rule, nm, False, describe(k, r), getattr(r, "loc", None) or where(A, "swap_with"))
                    continue
                c, c0, ts = r
                if "u" in (A[0], B[0]):
                    okv = c == 1 and c0 == 0 and all(x == 0 for x, _ in ts)
                else:
                    okv = ident([(1, (A, B))], [(c, (B, A)), (c0, ())] + [(x, (g,)) for x, g in ts])
                ctx.ob(rule, nm, okv, "%s is rewritten as %s * %s * %s + (%s), which is a different operator" %
                       (nm, c, gname(B), gname(A), lfs(c0, ts)), where(A, "swap_with"))
                ctx.sample({"pair": nm, "c": str(c), "f": lfs(c0, ts)})
            else:
                for same in ((None, False) if A == B else (False,)):
                    k, r = D.one(lambda: go(same))
                    rule = "simplification of an in-order pair"
                    if k != "ok":
                        ctx.ob(rule, nm, False, describe(k, r), getattr(r, "loc", None) or where(A, "simplify_prod"))
                        continue
                    app, c0, ts = r
                    if app:
                        okv = False if "u" in (A[0], B[0]) else ident([(1, (A, B))], [(c0, ())] + [(x, (g,)) for x, g in ts])
                        ctx.ob(rule, nm, okv, "%s is replaced by %s, which is a different operator" % (nm, lfs(c0, ts)), where(A, "simplify_prod"))
                    else:
                        must = (A[0] == "f" and A == B) or (A[0] == B[0] == "s" and A[1] == B[1] == 2 and A[3] == B[3])
                        ctx.ob(rule, nm, not must, "the product %s is left unreduced although it %s" %
                               (nm, "vanishes" if A == B and not (A[0] == "s" and A[2] == 2) else "reduces"), where(A, "simplify_prod"))
    # ---- powers
    pmax = 10 if ctx.thorough else 7
    for A in gens:
        if A[0] == "u" or A[-1] != (0,):
            continue
        for p in range(3, pmax + 1):
            def go():
                a = make(D, A)
                f = fresh()
                r = D.I.truth(D.call("g_red", a, p, f))
                return (r,) + (decode_lf(D, f) if r else (0, []))
            nm = "%s ^ %d" % (gname(A), p)
            k, r = D.one(go)
            rule = "power reduction"
            if k != "ok":
                ctx.ob(rule, nm, False, describe(k, r), getattr(r, "loc", None) or where(A, "reduce_power"))
                continue
            app, c0, ts = r
            if app:
                ctx.ob(rule, nm, ident([(1, (A,) * p)], [(c0, ())] + [(x, (g,)) for x, g in ts]),
                       "%s is replaced by %s, which is a different operator" % (nm, lfs(c0, ts)), where(A, "reduce_power"))
            else:
                must = A[0] == "s" and A[2] != 2 and p >= A[1] and A[1] > 2
                ctx.ob(rule, nm, not must, "%s vanishes but is not reduced" % nm, where(A, "reduce_power"))
    # ---- conjugation
    for A in gens:
        def go():
            a = make(D, A)
            f = dirty()
            D.call("g_conj", a, f)
            c0, ts = decode_lf(D, f)
            f2 = dirty()
            second = None
            if len(ts) == 1:
                D.call("g_conj", D.call("lf_gen", f, 0), f2)
                second = decode_lf(D, f2)
            return c0, ts, second
        k, r = D.one(go)
        rule = "Hermitian conjugate"
        if k != "ok":
            ctx.ob(rule, gname(A), False, describe(k, r), getattr(r, "loc", None) or where(A, "conj"))
            continue
        c0, ts, second = r
        adj = (A[0], not A[1], A[2]) if A[0] in "fb" else ("s", A[1], {0: 1, 1: 0, 2: 2}[A[2]], A[3]) if A[0] == "s" else A
        comb = {}
        for x, g in ts:
            comb[g] = comb.get(g, 0) + x
        ctx.ob(rule, gname(A), c0 == 0 and {g: x for g, x in comb.items() if x} == {adj: 1},
               "conj reports %s, the adjoint is %s" % (lfs(c0, ts), gname(adj)), where(A, "conj"))
        ctx.ob(rule, "twice " + gname(A), second == (0, [(1, A)]), "conjugating twice gives %s" %
               (second and lfs(*second)), where(A, "conj"))
    # ---- two indices: operators with different second index are independent
    two = [(0, 0), (0, 1), (1, 0)]

    def mk2(a, ij, x):
        i = (D.idx(ij[0]), D.idx(ij[1]))
        return D.gen("mk_f2", x, *i) if a == "f" else D.gen("mk_b2", x, *i) if a == "b" else D.gen("mk_s2", Fraction(1, 2), x, *i)
    for a in "fbs":
        for ij in two:
            for kl in two:
                for x in ((True, False) if a != "s" else (0, 1, 2)):
                    for y in ((True, False) if a != "s" else (0, 1, 2)):
                        A = (a, x, ij) if a != "s" else (a, 2, x, ij)
                        B = (a, y, kl) if a != "s" else (a, 2, y, kl)
                        if ij == kl:
                            continue
                        nm = "%s * %s" % (gname(A), gname(B))

                        def go():
                            f = Cell(D.val("mk_lf2"))
                            g, h = mk2(a, ij, x), mk2(a, kl, y)
                            if gkey(A) > gkey(B):
                                return D.val("vn_d", D.call("g2_swap", g, h, f)), D.val("lf2_const", f), D.val("lf2_size", f)
                            return D.I.truth(D.call("g2_simp", g, h, f)), 0, 0
                        k, r = D.one(go)
                        want = ((-1 if a == "f" else 1), 0, 0) if gkey(A) > gkey(B) else (False, 0, 0)
                        ctx.ob("independent modes with two indices", nm, k == "ok" and tuple(r) == want,
                               "the library treats %s as %s, operators with different indices only %scommute" %
                               (nm, describe(k, r) if k != "ok" else r, "anti" if a == "f" else ""), where(A, "swap_with"))
    ctx.used(D.I)
