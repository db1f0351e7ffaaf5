"""Abstract interpretation over the order abstraction of index values: the
comparison operators of generators, monomials, elementary spaces and dynamic
index sequences touch index values only through their own comparisons (they
are opaque objects here, any other use stops the analysis), so a finite set of
mutual orderings covers every index type and value. Every ordered pair of
abstract objects is compared with ==, !=, < and > as resolved in the
instantiated program and the table is checked against the axioms of a strict
total order and against the order and equality the property prescribes."""
from util import *

LEVEL = "other"
ASSUMPTIONS = ["index types are themselves strictly totally ordered by their own operators",
               "spin multiplicities 2..5 represent all multiplicities (compared only by ==, <, > with one another)"]
NEED = {"total order of generators": 1000, "total order of products": 500, "total order of elementary spaces": 200,
        "total order of two-index objects": 200, "total order of dynamic indices": 200}

ALG = {"f": -3, "b": -2, "s": -1}


def gkey(d):
    """documented order"""
    a = d[0]
    if a in "fb":
        _, dag, i = d
        return (ALG[a], 0, i) if dag else (ALG[a], 1, tuple(-x for x in i))
    if a == "s":
        _, m, c, i = d
        return (ALG[a], m, i, c)
    return (d[1], d[2])


def gname(d):
    if d[0] in "fb":
        return "%s%s%s" % (d[0], "+" if d[1] else "", list(d[2]))
    if d[0] == "s":
        return "S[2S+1=%d]%s%s" % (d[1], "+-z"[d[2]], list(d[3]))
    return "user%d%s" % (d[1], list(d[2]))


def make(D, d):
    a = d[0]
    if a == "f":
        return D.gen("mk_f", d[1], D.idx(d[2][0]))
    if a == "b":
        return D.gen("mk_b", d[1], D.idx(d[2][0]))
    if a == "s":
        if d[1] == 2 and d[3][0] == 1:
            return D.gen("mk_s", d[2], D.idx(d[3][0]))
        from fractions import Fraction
        s = Fraction(d[1] - 1, 2)
        return D.gen("mk_ss", int(s) if s.denominator == 1 else s, d[2], D.idx(d[3][0]))
    return D.gen("mk_u", d[1], D.idx(d[2][0]))


def table(ctx, D, rule, things, names, pre, loc, same, less=None, first=None):
    """things: list of makers run inside the abstract path. same(i,j): equality expected;
    less(i,j): exact order expected or None; first(i,j): True/False/None partial order demand."""
    n = len(things)

    def run():
        A = [t() for t in things]
        B = [t() for t in things]
        T = {}
        for i in range(n):
            for j in range(n):
                b = B[j] if i != j else B[i]
                for op in ("eq", "ne", "lt", "gt"):
                    try:
                        T[op, i, j] = D.I.truth(D.call(pre + op, A[i], b))
                    except (Bad, ThrowEx) as e:
                        T[op, i, j] = e
        return T
    kind, T = D.one(run)
    if kind != "ok":
        ctx.ob(rule, "construction", False, "building the compared objects: " + describe(kind, T), getattr(T, "loc", None))
        return
    sym = {"eq": "==", "ne": "!=", "lt": "<", "gt": ">"}

    def say(op, i, j):
        return "%s %s %s" % (names[i], sym[op], names[j])
    broken = set()
    for (op, i, j), v in T.items():
        if not isinstance(v, bool):
            broken.add((i, j))
            ctx.ob(rule, say(op, i, j), False, describe("bad" if isinstance(v, Bad) else "throw", v), loc)
    for i in range(n):
        for j in range(n):
            if (i, j) in broken or (j, i) in broken:
                continue
            eq, ne, lt, gt = (T[o, i, j] for o in ("eq", "ne", "lt", "gt"))
            want = same(i, j)
            msgs = []
            if eq != want:
                msgs.append("%s is %s, but the operands %s" % (say("eq", i, j), eq, "coincide" if want else "differ"))
            if ne == eq:
                msgs.append("%s and %s are both %s" % (say("eq", i, j), say("ne", i, j), eq))
            if int(eq) + int(lt) + int(gt) != 1:
                msgs.append("not exactly one of ==, <, > holds for %s and %s (== %s, < %s, > %s)" % (names[i], names[j], eq, lt, gt))
            if gt != T["lt", j, i]:
                msgs.append("%s is %s but %s is %s" % (say("gt", i, j), gt, say("lt", j, i), T["lt", j, i]))
            w = less(i, j) if less else first(i, j) if first else None
            if w is not None and lt != w:
                msgs.append("%s is %s, the documented order says %s" % (say("lt", i, j), lt, w))
            ctx.ob(rule, "%s ~ %s" % (names[i], names[j]), not msgs, "; ".join(msgs), loc)
    # transitivity
    if not broken:
        bad = None
        cnt = 0
        for i in range(n):
            js = [j for j in range(n) if T["lt", i, j]]
            for j in js:
                for k in range(n):
                    if T["lt", j, k]:
                        cnt += 1
                        if not T["lt", i, k] and bad is None:
                            bad = (i, j, k)
        ctx.count("transitivity_triples", cnt)
        ctx.ob(rule, "transitivity", bad is None,
               bad and "%s < %s < %s but not %s < %s" % (names[bad[0]], names[bad[1]], names[bad[2]], names[bad[0]], names[bad[2]]), loc)
    ctx.sample({"rule": rule, "objects": names[:12], "pairs": n * n})


def run(ctx):
    P = export("gen.cpp")
    ext = idx_ext(("Idx", "Jdx"))
    D = Driver(P, ext, budget=20000000)
    mults = (2, 3, 4, 5) if ctx.thorough else (2, 3, 4)
    ranks = (0, 1, 2)
    gens = [(a, dag, (i,)) for a in "fb" for dag in (True, False) for i in ranks]
    gens += [("s", m, c, (i,)) for m in mults for i in (0, 1) for c in (0, 1, 2)]
    gens += [("u", k, (i,)) for k in (0, 3) for i in (0, 1)]
    loc = floc(D, "libcommute::operator<")
    table(ctx, D, "total order of generators", [lambda d=d: make(D, d) for d in gens], [gname(d) for d in gens], "g_",
          loc, lambda i, j: i == j, less=lambda i, j: gkey(gens[i]) < gkey(gens[j]))
    # algebra predicates
    def preds():
        out = []
        for d in gens:
            g = make(D, d)
            out.append((d, tuple(D.I.truth(D.call(p, g)) for p in ("p_fermion", "p_boson", "p_spin"))))
        return out
    k, r = D.one(preds)
    for d, v in (r if k == "ok" else []):
        ctx.ob("algebra predicates", gname(d), v == (d[0] == "f", d[0] == "b", d[0] == "s"),
               "is_fermion/is_boson/is_spin report %s" % (v,), floc(D, "libcommute::is_fermion"))
    # products
    base = [("f", True, (0,)), ("f", False, (0,)), ("b", False, (1,)), ("s", 3, 1, (0,))]
    prods = [()] + [(a,) for a in range(4)] + [(a, b) for a in range(4) for b in range(4)]
    prods += [(a, b, c) for a in range(4) for b in range(4) for c in range(4)
              if ctx.thorough or (a + 2 * b + 3 * c) % 7 == 0 or a == b == c]

    def mono(p):
        gs = [SP(make(D, base[i])) for i in p]
        return Cell(D.val("m_make", Cell(Vec(None, [Cell(x) for x in gs]))))
    table(ctx, D, "total order of products", [lambda p=p: mono(p) for p in prods],
          ["*".join(gname(base[i]) for i in p) or "1" for p in prods], "m_", floc(D, "libcommute::operator<"),
          lambda i, j: i == j, first=lambda i, j: True if len(prods[i]) < len(prods[j]) else
          False if len(prods[i]) > len(prods[j]) else None)
    order = sorted(range(4), key=lambda i: gkey(base[i]))
    rank = {g: n for n, g in enumerate(order)}

    def ordered():
        return [(p, D.I.truth(D.call("m_ordered", mono(p)))) for p in prods]
    k, r = D.one(ordered)
    for p, v in (r if k == "ok" else []):
        want = all(rank[a] <= rank[b] for a, b in zip(p, p[1:]))
        ctx.ob("ordered products recognised", "*".join(gname(base[i]) for i in p) or "1", v == want,
               "is_ordered() is %s" % v, floc(D, "libcommute::monomial::is_ordered"))
    # elementary spaces
    from fractions import Fraction

    def frac(m):
        s = Fraction(m - 1, 2)
        return int(s) if s.denominator == 1 else s
    es = [("f", i) for i in ranks] + [("b", d, i) for d in (2, 7) for i in ranks] + \
         [("s", m, i) for m in mults for i in ranks] + [("u", k, i) for k in (0, 3) for i in (0, 1)]

    def mkes(e):
        if e[0] == "f":
            return Cell(D.val("mk_esf", D.idx(e[1])))
        if e[0] == "b":
            return Cell(D.val("mk_esb", e[1], D.idx(e[2])))
        if e[0] == "s":
            return Cell(D.val("mk_ess", frac(e[1]), D.idx(e[2])))
        return Cell(D.val("mk_ues", e[1], D.idx(e[2])))

    def ekey(e):
        return (e[0], e[2]) if e[0] == "b" else e

    def ealg(e):
        return ALG.get(e[0], e[1])
    table(ctx, D, "total order of elementary spaces", [lambda e=e: mkes(e) for e in es], [str(e) for e in es], "es_",
          floc(D, "libcommute::elementary_space::equal"), lambda i, j: ekey(es[i]) == ekey(es[j]),
          first=lambda i, j: ealg(es[i]) < ealg(es[j]) if ealg(es[i]) != ealg(es[j]) else None)
    # two indices
    two = [(i, j) for i in (0, 1) for j in (0, 1, 2)]
    g2 = [("f", d, ij) for d in (True, False) for ij in two] + [("b", d, ij) for d in (True, False) for ij in two] + \
         [("s", m, c, ij) for m in (2, 3) for c in (0, 2) for ij in two[:5]]

    def key2(d):
        return gkey(d)

    def mk2(d):
        ij = d[-1]
        a = (D.idx(ij[0]), D.idx(ij[1]))
        if d[0] == "f":
            return D.gen("mk_f2", d[1], *a)
        if d[0] == "b":
            return D.gen("mk_b2", d[1], *a)
        return D.gen("mk_s2", frac(d[1]), d[2], *a)
    table(ctx, D, "total order of two-index objects", [lambda d=d: mk2(d) for d in g2], [gname(d) for d in g2], "g2_",
          loc, lambda i, j: i == j, less=lambda i, j: key2(g2[i]) < key2(g2[j]))
    e2 = [("f", ij) for ij in two] + [("b", d, ij) for d in (2, 5) for ij in two] + [("s", m, ij) for m in (2, 3) for ij in two]

    def mke2(e):
        ij = e[-1]
        a = (D.idx(ij[0]), D.idx(ij[1]))
        if e[0] == "f":
            return Cell(D.val("mk_esf2", *a))
        if e[0] == "b":
            return Cell(D.val("mk_esb2", e[1], *a))
        return Cell(D.val("mk_ess2", frac(e[1]), *a))
    table(ctx, D, "total order of two-index objects", [lambda e=e: mke2(e) for e in e2], [str(e) for e in e2], "es2_",
          floc(D, "libcommute::elementary_space::equal"), lambda i, j: ekey(e2[i]) == ekey(e2[j]),
          first=lambda i, j: ealg(e2[i]) < ealg(e2[j]) if ealg(e2[i]) != ealg(e2[j]) else None)
    # dynamic indices
    dyn = [("0",)] + [("1i", i) for i in (0, 1, 2)] + [("1j", i) for i in (0, 1, 2)] + \
          [("2ii", i, j) for i in (0, 1) for j in (0, 1)] + [("2ij", i, j) for i in (0, 1) for j in (0, 1)] + \
          [("2ji", i, j) for i in (0, 1) for j in (0, 1)]

    def mkd(d):
        a = [D.idx(x, "Idx" if c == "i" else "Jdx") for c, x in zip(d[0][1:], d[1:])]
        return Cell(D.val("d_mk" + d[0], *a))
    table(ctx, D, "total order of dynamic indices", [lambda d=d: mkd(d) for d in dyn], [str(d) for d in dyn], "d_",
          floc(D, "libcommute::dynamic_indices::operator<"), lambda i, j: i == j)
    ctx.used(D.I)
