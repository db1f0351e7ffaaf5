"""Access to what products and expressions hold, decided by abstract interpretation of their
constructors, element access, iterators, concatenation and appending on products of
generators with opaque indices and on expressions with formal coefficients. Whatever way
an element is reached (every iterator operation in every direction, subscripts, ranges,
reverse iteration), it must be the generator or the term that stands at that position, and
the positions must be those of the sequence the product was built from; transform() must
hand every stored term to the functor once and store the value under the same product."""
from exprcases import *
import itertools

LEVEL = "other"
ASSUMPTIONS = ["products of up to four (thorough: five) generators and expressions of up to four terms stand for all"]
NEED = {"construction": 20, "element access": 250, "iterator arithmetic": 120, "concatenation": 60, "terms": 60, "transform": 20, "order test": 60}

F0, F0d, F1d, B0, B1d = ("f", False, (0,)), ("f", True, (0,)), ("f", True, (1,)), ("b", False, (0,)), ("b", True, (1,))
P0, Z1, T0 = ("s", 2, 0, (0,)), ("s", 2, 2, (1,)), ("s", 3, 1, (0,))
WORDS = [(), (F0,), (B0, F0d), (F0d, F0d), (P0, F1d, B0), (F0, F0d, F0), (Z1, P0, F0, B1d), (F0d, F1d, F0, T0)]


def run(ctx):
    P = export("content.cpp")
    D = EDriver(P)
    tf_ext(D)
    S, I = D.S, D.I
    names = sorted(n.split("::")[-1] for n in P.byq if n.startswith("vp::"))
    walks = [n for n in names if n.startswith("w_")]
    ewalks = [n[3:] for n in names if n.startswith("em_")]
    words = WORDS + ([(F0, B0, F0d, P0, Z1), (T0, T0, P0, F1d, F0), (B0, B0, B0, B0, B0)] if ctx.thorough else [])
    loc = {"mono": floc(D, "libcommute::monomial::monomial"), "it": floc(D, "libcommute::monomial::const_iterator::const_iterator"),
           "cat": floc(D, "libcommute::monomial::append"), "e": floc(D, "libcommute::expression::begin"), "tf": floc(D, "libcommute::transform"),
           "ord": floc(D, "libcommute::monomial::is_ordered")}

    def check(rule, name, go, want, where):
        """want: value, or function of the result giving a message"""
        for k, v, dec in I.explore(go):
            if k != "ok":
                ctx.ob(rule, name, False, describe(k, v), getattr(v, "loc", None) if k == "bad" else D.P.loc(v.loc))
                return
            msg = want(v, dec) if callable(want) else "" if v == want and type(v) == type(want) else "gives %s instead of %s" % (show(v), show(want))
            ctx.ob(rule, name, not msg, msg + path(dec) if msg else "", loc[where])
            if msg:
                return

    def show(x):
        return mname(x) if isinstance(x, tuple) and all(isinstance(y, tuple) for y in x) else mname((x,)) if isinstance(x, tuple) and x and x[0] in ("f", "b", "s") else repr(x)

    def ptr(d):
        return Cell(SP(D.make(d)))

    # construction
    for w in words:
        check("construction", "product of the vector [%s]" % mname(w), lambda: D.decode_mono(D.mono(w)), w, "mono")
        check("construction", "size of %s" % mname(w), lambda: D.val("m_size", D.mono(w)), len(w), "mono")
        check("construction", "empty() of %s" % mname(w), lambda: bool(D.val("c_isempty", D.mono(w))), not w, "mono")
        if 1 <= len(w) <= 3:
            check("construction", "product of the list {%s}" % mname(w), lambda: D.decode_mono(Cell(D.val("c_init%d" % len(w), *[ptr(d) for d in w]))), w, "mono")
    check("construction", "default product", lambda: D.decode_mono(Cell(D.val("c_empty"))), (), "mono")
    for fn, w in (("c_val1", (F0d,)), ("c_val2", (F0, B1d)), ("c_val3", (F0, B1d, Z1)), ("c_val4", (P0, F0, F0, T0)), ("c_val4", (Z1, F1d, F0, P0)), ("c_val4", (P0, F1d, F0d, T0)),
                  ("c_val5", (T0, F1d, B0, F0, B1d)),
                  ("c_rval2", (F0d, B0)), ("c_mix3", (F1d, B0, T0))):
        check("construction", "%s generators %s given by value" % (fn, mname(w)), lambda: D.decode_mono(Cell(D.val(fn, *[D.make(d) for d in w]))), w, "mono")
    # element access
    for w in words:
        n = len(w)
        for i in range(n):
            for f in walks:
                check("element access", "%s: generator %d of %s" % (f[2:], i, mname(w)), lambda: D.decode_gen(D.call(f, D.mono(w), i, n)), w[i], "it")
    for w in words[2:]:
        n = len(w)
        for f in ("d_all", "d_std", "d_rev"):
            check("iterator arithmetic", "%s of %s" % (f, mname(w)), lambda: D.val(f, D.mono(w)), n, "it")
    for w in [x for x in words if len(x) in (2, 3, 5)]:
        n = len(w)
        for i in range(n + 1):
            for j in range(n + 1):
                check("iterator arithmetic", "distance of positions %d, %d in %s" % (i, j, mname(w)), lambda: D.val("d_dist", D.mono(w), i, j), i - j, "it")
                for f, op in (("eq", "=="), ("ne", "!="), ("lt", "<"), ("gt", ">"), ("le", "<="), ("ge", ">=")):
                    check("iterator arithmetic", "positions %d %s %d in %s" % (i, op, j, mname(w)), lambda: bool(D.val("i_" + f, D.mono(w), i, j)), OPS[op](i, j), "it")
    # concatenation and appending

    def dm(c):
        return D.decode_mono(c)
    for a in words:
        check("concatenation", "concatenate(%s)" % mname(a), lambda: dm(Cell(D.val("k_m", D.mono(a)))), a, "cat")
        for b in words:
            if not ctx.thorough and len(a) + len(b) > 6:
                continue
            nm = "%s and %s" % (mname(a), mname(b))
            check("concatenation", "concatenate " + nm, lambda: dm(Cell(D.val("k_mm", D.mono(a), D.mono(b)))), a + b, "cat")
            if len(a) + len(b) <= 4:
                check("concatenation", "concatenate temporaries " + nm, lambda: dm(Cell(D.val("k_rvmm", D.mono(a), D.mono(b)))), a + b, "cat")
                check("concatenation", "concatenate %s and %s" % (nm, mname(a)), lambda: dm(Cell(D.val("k_mmm", D.mono(a), D.mono(b), D.mono(a)))), a + b + a, "cat")

            def app():
                m, x = D.mono(a), D.mono(b)
                D.call("a_mon", m, x)
                return dm(m), dm(x)
            check("concatenation", "append %s to %s" % (mname(b), mname(a)), app,
                  lambda v, d: "" if v == (a + b, b) else "the products become %s and %s" % (mname(v[0]), mname(v[1])), "cat")

        def appself():
            m = D.mono(a)
            D.call("a_mon", m, m)
            return dm(m)
        if len(a) <= 2:
            check("concatenation", "concatenate %s with itself" % mname(a), lambda: (lambda m: dm(Cell(D.val("k_mm", m, m))))(D.mono(a)), a + a, "cat")
        for g in (F0, B0, T0):
            def gm(fn):
                def go():
                    args = (ptr(g).v.cell, D.mono(a)) if fn == "k_gm" else (D.mono(a), ptr(g).v.cell)
                    if fn == "a_gen":
                        D.call(fn, *args)
                        return dm(args[0])
                    return dm(Cell(D.val(fn, *args)))
                return go
            check("concatenation", "append generator %s to %s" % (mname((g,)), mname(a)), gm("a_gen"), a + (g,), "cat")
            check("concatenation", "concatenate %s and generator %s" % (mname(a), mname((g,))), gm("k_mg"), a + (g,), "cat")
            check("concatenation", "concatenate generator %s and %s" % (mname((g,)), mname(a)), gm("k_gm"), (g,) + a, "cat")
    for w in [x for x in words if 2 <= len(x) <= 4]:
        n = len(w)
        cuts = [(i, j, k, l) for i in range(n + 1) for j in range(i, n + 1) for k in range(j, n + 1) for l in range(k, n + 1)
                if i == 0 and l == n or (n == 3 and (i, l) == (1, 2)) or (j, k) == (i + 1, l - 1)]
        for i, j, k, l in cuts:
            nm = "[%d,%d) and [%d,%d) of %s" % (i, j, k, l, mname(w))
            check("concatenation", "concatenate ranges " + nm, lambda: dm(Cell(D.val("k_rr", D.mono(w), i, j, k, l))), w[i:j] + w[k:l], "cat")
            check("concatenation", "concatenate ranges and a generator " + nm,
                  lambda: dm(Cell(D.val("k_rgr", D.mono(w), i, j, ptr(B1d).v.cell, k, l))), w[i:j] + (B1d,) + w[k:l], "cat")
        for i in range(n + 1):
            for j in range(i, n + 1):
                def ar():
                    m = D.mono((T0,))
                    D.call("a_rng", m, D.mono(w), i, j)
                    return dm(m)
                check("concatenation", "append the range [%d,%d) of %s" % (i, j, mname(w)), ar, (T0,) + w[i:j], "cat")
                check("concatenation", "concatenate product, range [%d,%d) of %s, generator" % (i, j, mname(w)),
                      lambda: dm(Cell(D.val("k_mrg", D.mono((P0, B0)), D.mono(w), i, j, ptr(F0).v.cell))), (P0, B0) + w[i:j] + (F0,), "cat")
        for i in range(n):
            for j in range(n):
                def sw():
                    m = D.mono(w)
                    c = Cell(I.copyval(m.v))
                    D.call("s_swap", m, i, j)
                    return dm(m), dm(c)
                x = list(w)
                x[i], x[j] = x[j], x[i]
                check("concatenation", "swap generators %d, %d of %s" % (i, j, mname(w)), sw,
                      lambda v, d: "" if v == (tuple(x), w) else "gives %s, the copy becomes %s" % (mname(v[0]), mname(v[1])), "cat")
    # order test
    from c23 import skey
    gs = (F0, F0d, B0, B1d, P0, T0)
    for n in (1, 2, 3) if not ctx.thorough else (1, 2, 3, 4):
        for w in itertools.product(gs, repeat=n):
            if n == 3 and not ctx.thorough and w[0] not in (F0, B0, F0d):
                continue
            want = all(skey(x) <= skey(y) for x, y in zip(w, w[1:]))
            check("order test", "is_ordered() of %s" % mname(w), lambda: bool(D.val("m_ordered", D.mono(w))), want, "ord")
    check("order test", "is_ordered() of 1", lambda: bool(D.val("m_ordered", D.mono(()))), True, "ord")

    # expressions
    sets = [[], [()], [(F0d,)], [(), (F0d,)], [(F0d,), (F0d, F0)], [(), (F0d,), (B0,), (F0d, F0)], [(P0,), (Z1,), (F1d, B0)]]

    def build(ms):
        return D.expr("SA", [(m, S.fresh(I, "SA", "a[%s]" % mname(m))) for m in ms])
    for ms in sets:
        order = sorted(ms, key=lambda m: (len(m), [skey(g) for g in m]))
        nm = "{%s}" % ", ".join(map(mname, ms))
        n = len(order)
        for f, want in (("e_count", n), ("e_countc", n), ("e_size_SA", n), ("it_count", n)):
            check("terms", "%s of %s" % (f, nm), lambda: D.val(f, build(ms)), want, "e")
        for i, m in enumerate(order):
            for f in ewalks:
                check("terms", "%s: product of term %d of %s" % (f, i, nm), lambda: D.decode_mono((lambda r: r if isinstance(r, Cell) else Cell(I.load(r)))(D.call("em_" + f, build(ms), i, n))), m, "e")
                check("terms", "%s: coefficient of term %d of %s" % (f, i, nm), lambda: repr(D.val("ec_" + f, build(ms), i, n).attr), repr(I.uf("a[%s]" % mname(m), nc=True)), "e")

        def clr():
            e = build(ms)
            D.call("e_clr", e)
            return D.val("e_count", e)
        check("terms", "clear() of %s" % nm, clr, 0, "e")
        calls = []

        def hts(I_, f, this, args):
            m = D.decode_mono(args[0])
            c = I_.load(args[1]).attr
            calls.append((m, c))
            return S.mk("SA", I.uf("F", mname(m), c, nc=True))
        D.I.ext["vp::call_ts"] = hts
        tfb = D.I.ext["vp::call_tf"]

        def htb(I_, f, this, args):
            calls.append((D.decode_mono(args[0]), I_.load(args[1]).attr))
            return tfb(I_, f, this, args)
        D.I.ext["vp::call_tf"] = htb
        for fn in ("e_tfsame", "transform_SA_SB"):
            def tf():
                del calls[:]
                e = build(ms)
                r = D.decode(Cell(D.val(fn, e)))
                return r, list(calls), D.decode(e)

            def judge(v, dec):
                (t, terms), seen, src = v
                coef = {m: I.uf("a[%s]" % mname(m), nc=True) for m in ms}
                if sorted((mname(m), repr(c)) for m, c in seen) != sorted((mname(m), repr(c)) for m, c in coef.items()):
                    return "the functor is called with %s" % ", ".join("(%s, %s)" % (mname(m), c) for m, c in seen)
                env = zero_env(D)
                got = {}
                for m, c in terms:
                    if m in got:
                        return "the product %s is stored twice" % mname(m)
                    got[m] = S.nf(I, c, env)
                want = {m: S.nf(I, I.uf("F", mname(m), c, nc=True), env) for m, c in coef.items()}
                for m in list(want) + list(got):
                    if got.get(m, Poly.const(0)) != want.get(m, Poly.const(0)):
                        return "the coefficient of %s becomes %s, the functor returned %s" % (mname(m), got.get(m), want.get(m))
                if {m: repr(c) for m, c in src[1]} != {m: repr(c) for m, c in coef.items()}:
                    return "the operand is changed"
                return ""
            check("transform", "%s of %s" % (fn, nm), tf, judge, "tf")
        D.I.ext["vp::call_tf"] = tfb
    ctx.used(D.I)
