"""Hilbert spaces, decided by abstract interpretation of every constructor and of add()
over elementary spaces whose bit widths and dimensions are symbolic integers: linear
facts about them decide (or partition) the branches. For every number of spaces up to 4,
every assignment of algebras along the sort order and every order of insertion, the
accessors must give the sums and products of the symbolic widths and dimensions; the total
is refused exactly above 63 bits; a refused extension leaves all accessors unchanged; an
extended space has the same abstract structure (including the enumerator) as one built in
one step. Widths of the library's own elementary spaces are evaluated at every power of
two and its neighbours."""
import itertools
from fractions import Fraction
from util import *
from heap import shape, diff

LEVEL = "other"
ASSUMPTIONS = ["an elementary space reports a positive dimension not exceeding two to the power of its bit count"]
NEED = {"ranges": 180, "refusal": 60, "add = construct": 30, "width": 150, "enumeration": 10}


def patterns(n):
    """algebra of each space in sort order (algebras sort first)"""
    out = []
    for cuts in itertools.product((0, 1), repeat=max(n - 1, 0)):
        a, p = 0, []
        for i in range(n):
            if i and cuts[i - 1]:
                a += 1
            p.append((-3, -1, 2, 5)[a])
        out.append(tuple(p))
    return out if n else [()]


def run(ctx):
    P = export("hs.cpp")
    D = Driver(P, idx_ext(), budget=5000000)
    I = D.I
    HL = floc(D, "libcommute::hilbert_space::recompute_bit_ranges") or floc(D, "libcommute::hilbert_space::add")
    visited = []
    D.I.ext["vp::visit_es"] = lambda I, f, this, a: visited.append(a[0])
    D.I.ext["vp::visit_state"] = lambda I, f, this, a: visited.append(I.load(a[0]))

    def spaces(pat, full, zero=()):
        """spaces in sort order with symbolic widths"""
        es, b, d = [], [], []
        for i, al in enumerate(pat):
            if i in zero:
                bi, di = 0, 1
            else:
                bi = I.sym("b%d" % i, 1, 64)
                if i in full:
                    di = I.uf("pow2", bi, integer=True)
                    I.facts.add(di - 2, False)
                else:
                    di = I.sym("d%d" % i, 2)
                    I.facts.add(I.uf("pow2", bi, integer=True) - di - 1, False)
            # within one algebra the index decides; indices decrease from one algebra to the next
            rank = i - 10 * sorted(set(pat)).index(al)
            es.append(Cell(D.val("mk_es", D.idx(rank), al, bi, di)))
            b.append(bi)
            d.append(di)
        return es, b, d

    def observe(h, es, algs):
        o = {"size()": D.val("h_size", h), "total_n_bits()": D.val("h_bits", h), "dim()": D.val("h_dim", h), "get_dim()": D.val("h_gdim", h),
             "vec_size()": D.val("h_vec", h), "get_vec_size()": D.val("h_gvec", h)}
        for i, e in enumerate(es):
            hs = o["has(%d)" % i] = D.val("h_has", h, e)
            if hs:
                o["index(%d)" % i] = D.val("h_index", h, e)
                o["bit_range(%d)" % i] = (D.val("h_first", h, e), D.val("h_last", h, e))
                o["dim(%d)" % i] = D.val("h_dim1", h, e)
        for a in algs:
            ha = o["has_algebra(%d)" % a] = bool(D.val("h_hasalg", h, a))
            if ha:
                o["algebra_bit_range(%d)" % a] = (D.val("h_afirst", h, a), D.val("h_alast", h, a))
        del visited[:]
        D.call("h_each", h)
        o["spaces visited"] = tuple(I.load(c).f and D.val("h_index", h, c) for c in visited)
        return o

    def expect(pat, b, d, algs, n=None):
        n = len(pat) if n is None else n
        tot, dim = Poly.const(0), Poly.const(1)
        o = {"size()": n}
        ar = {}
        for i in range(n):
            lo, hi = tot, tot + Poly.of(b[i]) - 1
            o["has(%d)" % i], o["index(%d)" % i], o["bit_range(%d)" % i], o["dim(%d)" % i] = True, i, (lo, hi), d[i]
            ar[pat[i]] = (ar.get(pat[i], (lo,))[0], hi)
            tot = tot + Poly.of(b[i])
            dim = dim * Poly.of(d[i])
        for a in algs:
            o["has_algebra(%d)" % a] = a in ar
            if a in ar:
                o["algebra_bit_range(%d)" % a] = ar[a]
        o["total_n_bits()"] = tot
        o["dim()"] = o["get_dim()"] = dim
        v = I.arith("<<", 1, tot.simp(), P.func("vp::h_vec")["ret"])
        o["vec_size()"] = o["get_vec_size()"] = v
        o["spaces visited"] = tuple(range(n))
        return o

    def same(a, b):
        if isinstance(a, tuple):
            return isinstance(b, tuple) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
        if isinstance(a, bool) or isinstance(b, bool):
            return bool(a) == bool(b)
        x = Poly.of(a) - Poly.of(b)
        return x == 0 or I.facts.sign(x) == "0"

    def compare(o, e):
        for k in e:
            if k not in o:
                return "%s is not available" % k
            if not same(o[k], e[k]):
                return "%s is %r instead of %r" % (k, o[k], e[k])
        for k in o:
            if k not in e and o[k] is not False:
                return "%s is %r" % (k, o[k])

    def build(mode, es, order):
        a = [es[i] for i in order]
        n = len(a)
        if mode == "add":
            h = Cell(D.val("hs0"))
            for e in a:
                D.call("add", h, e)
        elif mode == "vector":
            h = Cell(D.val("hsv%d" % n, *a) if n else D.val("hs0"))
        elif mode == "list":
            h = Cell(D.val("hs%d" % n, *a))
        elif mode == "copy, add":
            h = Cell(D.val("hs0"))
            for e in a[:-1]:
                D.call("add", h, e)
            h = Cell(D.val("copy", h))
            D.call("add", h, a[-1])
        elif mode == "assign, add":
            h = Cell(D.val("hs0"))
            for e in a[:-1]:
                D.call("add", h, e)
            g = Cell(D.val("hs1", a[-1]))
            D.call("assign", g, h)
            h = g
            D.call("add", h, a[-1])
        elif mode == "move, add":
            h = Cell(D.val("hs0"))
            for e in a[:-1]:
                D.call("add", h, e)
            h = Cell(D.val("move", h))
            D.call("add", h, a[-1])
        return h

    algs = (-3, -1, 2, 5, 7)
    nmax = 4 if ctx.thorough else 3
    for n in range(0, nmax + 1):
        for pat in patterns(n):
            orders = list(itertools.permutations(range(n)))
            if n == 4:
                orders = orders[::5] + [orders[-1]]
            fulls = [()] + ([tuple(range(n))] if n else []) + ([(1,)] if n > 2 else [])
            for oi, order in enumerate(orders):
                modes = ["list", "vector", "add"] if n else ["list"]
                if n > 1 and oi in (0, len(orders) - 1):
                    modes += ["copy, add", "assign, add", "move, add"]
                for mode in modes:
                    for full in (fulls if oi == 0 and mode == "add" else fulls[:1]):
                        inst = "%s of %d spaces, algebras %r, order %r%s" % (mode, n, pat, order, ", full %r" % (full,) if full else "")

                        def go():
                            es, b, d = spaces(pat, full)
                            tot = sum((Poly.of(x) for x in b), Poly.const(0))
                            try:
                                h = build(mode, es, order)
                            except ThrowEx as t:
                                return "throw", t, tot
                            if I.facts.sign(tot - 64) in ("+", "0") or not I.facts.implies_ge(63 - tot):
                                return "big", None, tot
                            return "ok", compare(observe(h, es, algs), expect(pat, b, d, algs)), (shape(h), h, b, d, es)
                        for k, v, dec in I.explore(go):
                            if k != "ok":
                                ctx.ob("ranges", inst, False, describe(k, v), getattr(v, "loc", None) or HL)
                                continue
                            kind, r, x = v
                            if kind == "throw":
                                ok = r.q.endswith("hilbert_space_too_big") and I.facts.implies_ge(x - 64)
                                ctx.ob("refusal", inst + " refused", ok, "%s is thrown for a total of possibly no more than 63 bits" % r.q, HL)
                            elif kind == "big":
                                ctx.ob("refusal", inst + " accepted", False, "a total of possibly more than 63 bits (%r) is accepted" % x, HL)
                            else:
                                ctx.ob("ranges", inst, r is None, r or "", HL)
                                if mode != "list":
                                    h2 = build("list", x[4], tuple(range(n)))
                                    df = diff(x[0], shape(h2))
                                    ctx.ob("add = construct", inst, df is None,
                                           "the space differs from the one constructed from all elementary spaces at once: %s" % df, HL)
    # zero-width spaces
    for zero in ((0,), (1,), (0, 1), (2,)):
        for order in itertools.permutations(range(3)):
            def go():
                es, b, d = spaces((-3, -3, -1), (), zero)
                I.facts.add(Poly.of(63) - sum((Poly.of(x) for x in b), Poly.const(0)), False)
                h = build("add", es, order)
                return compare(observe(h, es, algs), expect((-3, -3, -1), b, d, algs))
            for k, v, dec in I.explore(go):
                ctx.ob("ranges", "one-dimensional spaces %r, order %r" % (zero, order), k == "ok" and v is None, describe(k, v) if k != "ok" else v or "",
                       getattr(v, "loc", None) if k == "bad" else HL)
    # refused extensions leave the space as it was
    for pat in ((-3,), (-3, -3), (-3, -1)):
        n = len(pat)
        for full in ((), tuple(range(n))):
            for what in ["dup%d" % i for i in range(n)] + ["big first", "big last"]:
                def go():
                    es, b, d = spaces(pat, full)
                    I.facts.add(Poly.of(63) - sum((Poly.of(x) for x in b), Poly.const(0)), False)
                    h = build("list", es, tuple(range(n)))
                    before, s0 = observe(h, es, algs), shape(h)
                    if what[:3] == "dup":
                        x = Cell(D.val("mk_es", D.idx(int(what[3:])), pat[int(what[3:])], I.sym("bx", 1, 3), I.sym("dx", 2)))
                        x.v.f  # same algebra and indices as space i
                        x = es[int(what[3:])] if True else x
                    else:
                        bx = I.sym("bx", 64, 64)
                        x = Cell(D.val("mk_es", D.idx(-5 if what == "big first" else 50), -9 if what == "big first" else 9, bx, I.sym("dx", 2)))
                    try:
                        D.call("add", h, x)
                    except ThrowEx as t:
                        after = observe(h, es, algs)
                        want = "elementary_space_exists" if what[:3] == "dup" else "hilbert_space_too_big"
                        if not t.q.endswith(want):
                            return "throws %s instead of %s" % (t.q, want)
                        if what[:3] != "dup" and D.val("h_has", h, x):
                            return "the refused elementary space is part of the Hilbert space"
                        return compare(after, before) or ((lambda df: "after the refusal the Hilbert space differs: %s" % df if df else None)(diff(shape(h), s0)))
                    return "the extension is accepted"
                for k, v, dec in I.explore(go):
                    ctx.ob("refusal", "add(%s) to %r%s" % (what, pat, " (powers of two)" if full else ""), k == "ok" and v is None,
                           describe(k, v) if k != "ok" else v or "", getattr(v, "loc", None) if k == "bad" else floc(D, "libcommute::hilbert_space::add"))
    # duplicates in the constructors
    for fn, args in (("hs2", (0, 0)), ("hs3", (0, 1, 0)), ("hsv2", (0, 0)), ("hsv3", (1, 0, 1))):
        def go():
            es, b, d = spaces((-3, -3), ())
            I.facts.add(Poly.of(20) - sum((Poly.of(x) for x in b), Poly.const(0)), False)
            try:
                D.call(fn, *[es[i] for i in args])
            except ThrowEx as t:
                return None if t.q.endswith("elementary_space_exists") else "throws " + t.q
            return "a repeated elementary space is accepted"
        for k, v, dec in I.explore(go):
            ctx.ob("refusal", "%s%r" % ("hilbert_space(vector)" if fn[2] == "v" else "hilbert_space(es...)", args), k == "ok" and v is None,
                   describe(k, v) if k != "ok" else v or "", HL)
    # deduced from an expression
    gens = {}

    def space_of(I, f, this, a):
        al = D.val("g_alg", a[0])
        r = I.load(D.call("g_idx", a[0])).attr
        if (al, r) not in gens:
            gens[al, r] = (I.sym("b%d_%d" % (-al, r), 1, 10), I.sym("d%d_%d" % (-al, r), 2))
        b, d = gens[al, r]
        I.facts.add(I.uf("pow2", b, integer=True) - d - 1, False)
        return D.val("up", Cell(D.val("mk_es", D.idx(r), al, b, d)))
    I.ext["vp::space_of"] = space_of
    for fn in ("hse", "hsm"):
        for ex, ranks in (("ex_one", ()), ("ex_word2", (0, 1)), ("ex_word2", (1, 0)), ("ex_word2", (2, 2)), ("ex_sum", (0, 1, 2)), ("ex_sum", (2, 0, 1)), ("ex_sum", (1, 1, 1))):
            def go():
                gens.clear()
                e = Cell(D.val(ex, *[D.idx(r) for r in ranks]))
                h = Cell(D.val(fn, e))
                if ex == "ex_one":
                    want = []
                elif ex == "ex_word2":
                    want = [(-3, ranks[0]), (-2, ranks[1])]
                else:
                    want = sorted({(-3, ranks[0]), (-2, ranks[1]), (-1, ranks[2])})
                b = [gens.get(w, (0, 0))[0] for w in want]
                d = [gens.get(w, (0, 0))[1] for w in want]
                es = [Cell(D.val("mk_es", D.idx(r), al, bb, dd)) for (al, r), bb, dd in zip(want, b, d)]
                al = (-3, -2, -1, 4)
                m = compare(observe(h, es, al), expect([w[0] for w in want], b, d, al))
                if m is None and es:
                    n = len(es)
                    h2 = Cell(D.val("hs%d" % n, *es))
                    df = diff(shape(h), shape(h2))
                    if df or not D.val("h_eq", h, h2):
                        m = "the deduced space differs from the one built from its elementary spaces: %s" % df
                return m
            for k, v, dec in I.explore(go):
                ctx.ob("ranges", "%s(%s%r)" % ("hilbert_space" if fn == "hse" else "make_hilbert_space", ex, ranks), k == "ok" and v is None,
                       describe(k, v) if k != "ok" else v or "", getattr(v, "loc", None) if k == "bad" else HL)
    # widths of the library's elementary spaces
    for k in range(0, 63):
        for dim in sorted({2 ** k, 2 ** k + 1, 2 ** (k + 1) - 1}):
            kk, v = D.one(lambda: (D.val("e_bits", Cell(D.val("bos", dim))), D.val("e_dim", Cell(D.val("bos", dim)))))
            want = ((dim - 1).bit_length(), dim)
            ctx.ob("width", "boson space of dimension %d" % dim, kk == "ok" and v == want,
                   describe(kk, v) if kk != "ok" else "n_bits(), dim() are %r instead of %r" % (v, want), floc(D, "libcommute::elementary_space_boson::elementary_space_boson"))
    for m in list(range(2, 20)) + [31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025]:
        kk, v = D.one(lambda: (lambda s: (D.val("e_bits", s), D.val("e_dim", s)))(Cell(D.val("spn", Fraction(m - 1, 2)))))
        want = ((m - 1).bit_length(), m)
        ctx.ob("width", "spin space of multiplicity %d" % m, kk == "ok" and v == want,
               describe(kk, v) if kk != "ok" else "n_bits(), dim() are %r instead of %r" % (v, want), floc(D, "libcommute::elementary_space_spin::elementary_space_spin"))
    kk, v = D.one(lambda: (lambda s: (D.val("e_bits", s), D.val("e_dim", s)))(Cell(D.val("fer"))))
    ctx.ob("width", "fermion space", kk == "ok" and v == (1, 2), describe(kk, v), floc(D, "libcommute::elementary_space_fermion::n_bits"))
    # the enumeration follows the layout after every change
    for dims in ((2, 3), (3, 2), (3, 3), (2, 2, 3), (2, 3, 2), (3, 2, 2), (3, 4, 3), (1, 3, 2), (3, 1, 5), (4, 2), (5,), (1,), (), (3, 2, 3, 2)):
        n = len(dims)
        for order, mode in [(o, m) for o in sorted(itertools.permutations(range(n)))[:: max(1, len(list(itertools.permutations(range(n)))) // 4)]
                            for m in (["add", "vector", "list"] if n else ["add"])]:
            def go():
                es = [Cell(D.val("mk_es", D.idx(i), -3, (x - 1).bit_length(), x)) for i, x in enumerate(dims)]
                h = build(mode, es, order)
                del visited[:]
                D.call("h_states", h)
                states = list(visited)
                want = [0]
                sh = 0
                for x in dims:
                    want = [w + (y << sh) for y in range(x) for w in want]
                    sh += (x - 1).bit_length()
                full = compare(observe(h, es, algs), expect((-3,) * n, [(x - 1).bit_length() for x in dims], dims, algs))
                m = full if full else None if states == sorted(want) else "visits %r instead of %r" % (states[:20], sorted(want)[:20])
                if m is None and bool(D.val("h_sparse", h)) != (len(want) < 2 ** sh):
                    m = "is_sparse() is wrong"
                for i, e in enumerate(es):
                    f = sum((x - 1).bit_length() for x in dims[:i])
                    if m is None and D.val("h_bsi", h, e, dims[i] - 1) != (dims[i] - 1) << f:
                        m = "basis_state_index() of space %d is wrong" % i
                return m
            k, v = D.one(go)
            ctx.ob("enumeration", "dimensions %r in order %r, %s" % (dims, order, mode), k == "ok" and v is None,
                   describe(k, v) if k != "ok" else v or "", floc(D, "libcommute::hilbert_space::init_foreach_alg") or HL)
    ctx.used(I)
