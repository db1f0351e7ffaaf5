"""Abstract operand patterns for the arithmetic of expressions, shared by C04 and C05."""
from salg import *
import itertools

ONE = ()
X = (("f", True, (0,)),)
Y = (("f", True, (0,)), ("f", False, (1,)))
Z = (("b", True, (0,)),)


def patterns(thorough):
    """each monomial: absent, in the left, in the right operand, in both"""
    mons = (ONE, X, Y, Z) if thorough else (ONE, X, Y)
    for p in itertools.product("nlrb", repeat=len(mons)):
        yield dict(zip(mons, p))


def short(pat):
    return ",".join("%s:%s" % (mname(m), {"n": "-", "l": "left", "r": "right", "b": "both"}[k]) for m, k in pat.items())


def operand(D, t, pat, sides, pre):
    S, I = D.S, D.I
    out = {}
    terms = []
    for m, k in pat.items():
        if k in sides:
            s = S.fresh(I, t, "%s[%s]" % (pre, mname(m)))
            out[m] = s.attr
            terms.append((m, s))
    return D.expr(t, terms), out


def narrow(D, t, u, p):
    """value of polynomial p, computed in the common type of t and u, stored as t"""
    if u == t or (u, t) in PROMO or p.is_const():
        return p
    return D.S.to(D.I, t, p)


BIN = [("SA", "SA"), ("SA", "SB"), ("SB", "SA"), ("SA", "SD"), ("SN", "SN")]
CMP = [("SA", "SA"), ("SA", "SD"), ("SA", "SC"), ("SN", "SN")]


def cases(D, thorough):
    """yields (name, library entry, thunk); thunk() -> (actual (type, terms), expected {mono: Poly})"""
    S, I = D.S, D.I
    pats = list(patterns(thorough))
    for op in ("add", "sub"):
        sg = 1 if op == "add" else -1
        for l, r in BIN:
            for pat in pats:
                def go(l=l, r=r, pat=pat, op=op, sg=sg):
                    a, ca = operand(D, l, pat, "lb", "a")
                    b, cb = operand(D, r, pat, "rb", "b")
                    res = Cell(D.val("%s_%s_%s" % (op, l, r), a, b))
                    exp = {m: ca.get(m, Poly.const(0)) + cb.get(m, Poly.const(0)) * sg for m in pat if pat[m] != "n"}
                    return D.decode(res), exp
                yield "%s %s %s on {%s}" % (l, "+" if sg > 0 else "-", r, short(pat)), "operator" + ("+" if sg > 0 else "-"), go
        for l, r in CMP:
            for pat in pats:
                def go(l=l, r=r, pat=pat, op=op, sg=sg):
                    a, ca = operand(D, l, pat, "lb", "a")
                    b, cb = operand(D, r, pat, "rb", "b")
                    D.call("%sa_%s_%s" % (op, l, r), a, b)
                    exp = {}
                    for m in pat:
                        if pat[m] == "l":
                            exp[m] = ca[m]
                        elif pat[m] != "n":
                            exp[m] = narrow(D, l, r, ca.get(m, Poly.const(0)) + cb[m] * sg)
                    return D.decode(a), exp
                yield "%s %s= %s on {%s}" % (l, "+" if sg > 0 else "-", r, short(pat)), "operator" + ("+=" if sg > 0 else "-="), go
    lp = [p for p in pats if all(v in "nl" for v in p.values())]
    for l, r in (("SA", "SA"), ("SA", "SB"), ("SA", "SD"), ("SN", "SN")):
        for pat in lp:
            for fn, sym in (("sadd", "e + s"), ("ssub", "e - s"), ("smul", "e * s"), ("padd", "s + e"), ("psub", "s - e"), ("pmul", "s * e")):
                def go(l=l, r=r, pat=pat, fn=fn):
                    a, ca = operand(D, l, pat, "l", "a")
                    s = S.fresh(I, r, "s", nonzero=False)
                    ops = (Cell(s), a) if fn[0] == "p" else (a, Cell(s))
                    res = Cell(D.val("%s_%s_%s" % (fn, l, r), *ops))
                    exp = dict(ca)
                    p = s.attr
                    if fn == "sadd" or fn == "padd":
                        exp[ONE] = exp.get(ONE, Poly.const(0)) + p
                    elif fn == "ssub":
                        exp[ONE] = exp.get(ONE, Poly.const(0)) - p
                    elif fn == "psub":
                        exp = {m: -c for m, c in exp.items()}
                        exp[ONE] = p + exp.get(ONE, Poly.const(0))
                    elif fn == "smul":
                        exp = {m: c * p for m, c in exp.items()}
                    else:
                        exp = {m: p * c for m, c in exp.items()}
                    return D.decode(res), exp
                yield "%s with e:%s{%s}, s:%s" % (sym, l, short(pat), r), "operator" + sym.split()[1], go
    for l, r in CMP:
        for pat in lp:
            for fn, sym in (("sadda", "+="), ("ssuba", "-="), ("smula", "*=")):
                def go(l=l, r=r, pat=pat, fn=fn):
                    a, ca = operand(D, l, pat, "l", "a")
                    s = S.fresh(I, r, "s", nonzero=False)
                    D.call("%s_%s_%s" % (fn, l, r), a, Cell(s))
                    exp = dict(ca)
                    p = s.attr
                    if fn == "smula":
                        exp = {m: narrow(D, l, r, c * p) for m, c in exp.items()}
                    else:
                        exp[ONE] = narrow(D, l, r, exp.get(ONE, Poly.const(0)) + (p if fn == "sadda" else -p))
                    return D.decode(a), exp
                yield "e %s s with e:%s{%s}, s:%s" % (sym, l, short(pat), r), "operator" + sym, go
    for t in ("SA", "SN", "SU"):
        for pat in lp:
            def go(t=t, pat=pat):
                a, ca = operand(D, t, pat, "l", "a")
                res = Cell(D.val("neg_" + t, a))
                return D.decode(res), {m: -c for m, c in ca.items()}
            yield "-e with e:%s{%s}" % (t, short(pat)), "operator-", go


def convcases(D, thorough):
    """construction from scalars and monomials, conversions between scalar types"""
    S, I = D.S, D.I
    lp = [p for p in patterns(thorough) if all(v in "nl" for v in p.values())]
    for t, u in (("SA", "SC"), ("SC", "SA"), ("SB", "SA"), ("SA", "SD")):
        for pat in lp:
            for kind in ("conv", "asg"):
                def go(t=t, u=u, pat=pat, kind=kind):
                    a, ca = operand(D, u, pat, "l", "a")
                    if kind == "conv":
                        res = Cell(D.val("conv_%s_%s" % (t, u), a))
                    else:
                        # the old contents must disappear
                        res, _ = operand(D, t, {ONE: "l", Z: "l"}, "l", "old")
                        D.call("asg_%s_%s" % (t, u), res, a)
                    return D.decode(res), {m: narrow(D, t, u, c) for m, c in ca.items()}
                yield "%s of %s{%s} to %s" % ("construction" if kind == "conv" else "assignment", u, short(pat), t), \
                    "expression::expression" if kind == "conv" else "expression::operator=", go

        def goc(t=t, u=u):
            s = S.fresh(I, u, "s", nonzero=False)
            res = Cell(D.val("econst_%s_%s" % (t, u), Cell(s)))
            return D.decode(res), {ONE: narrow(D, t, u, s.attr)}
        yield "expression<%s>(s:%s)" % (t, u), "expression::expression", goc
        for m in (ONE, X, Y, Z):
            def gom(t=t, u=u, m=m):
                s = S.fresh(I, u, "s", nonzero=False)
                res = Cell(D.val("emono_%s_%s" % (t, u), Cell(s), D.mono(m)))
                return D.decode(res), {m: narrow(D, t, u, s.attr)}
            yield "expression<%s>(s:%s, %s)" % (t, u, mname(m)), "expression::expression", gom
    for pat in lp:
        def gof(pat=pat):
            a, ca = operand(D, "SA", pat, "l", "a")
            res = Cell(D.val("transform_SA_SB", a))
            return D.decode(res), {m: I.uf("F", mname(m), c, nc=True) for m, c in ca.items()}
        yield "transform(e:SA{%s}, f) with values in SB" % short(pat), "transform", gof


def tf_ext(D):
    def h(I, f, this, args):
        m = D.decode_mono(args[0])
        c = I.load(args[1]).attr
        return D.S.mk("SB", I.uf("F", mname(m), c, nc=True))
    D.I.ext["vp::call_tf"] = h


def run_cases(ctx, D, gen, judge, rule):
    for name, entry, go in gen:
        for k, v, dec in D.I.explore(go):
            if k != "ok":
                ctx.ob(rule, name, False, describe(k, v), getattr(v, "loc", None) if k == "bad" else D.P.loc(v.loc))
                continue
            (t, terms), exp = v
            msg = judge(t, terms, exp)
            ctx.ob(rule, name, not msg, msg + path(dec) if msg else "", entryloc(D, entry))
            if msg:
                break


def path(dec):
    d = ["%s%s" % ("" if b else "not: ", w) for w, b in dec]
    return " [when %s]" % "; ".join(map(str, d)) if d else ""


def entryloc(D, entry):
    short_ = entry.split("::")[-1]
    for q in ("libcommute::expression::" + short_, "libcommute::" + short_):
        for f in D.P.byq.get(q, ()):
            if D.P.in_lib(f.get("l")):
                return "%s (%s)" % (D.P.loc(f["l"]), q)
    return None


def zero_env(D):
    env = {}
    for k, b in D.I.dec.items():
        if b and k[0] == "zero":
            p = k[1]
            if len(p.m) == 1:
                (c, n), = p.m
                if not c and len(n) == 1:
                    env[n[0]] = 0
    return env
