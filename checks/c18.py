"""Refusal of impossible requests, decided by abstract interpretation of every entry point:
on each enumerated request the interpreted call must end in an exception on every path (or in
a reported size of zero, where that is the documented answer), and the nearest acceptable
requests must reach their end without one. Enumerated are, for the sector functions and
views, sparse spaces, particle numbers, overlapping sectors and foreign modes; for operators
every position of an unacceptable generator in a product, with every list of supported
algebras; for lookups every absent space, algebra, subspace and basis state; for automatic
construction every unsupported algebra at every position in the expression."""
import itertools
from fractions import Fraction
from util import *

LEVEL = "other"
ASSUMPTIONS = ["requests enumerated over spaces of up to 5 modes and products of up to 4 generators"]
NEED = {"sector refused": 250, "sector accepted": 250, "operator refused": 500, "operator accepted": 200,
        "lookup refused": 60, "lookup accepted": 60, "construction refused": 30, "construction accepted": 30}
UID = 5
HALF = {2: Fraction(1, 2), 3: Fraction(1), 4: Fraction(3, 2)}
ORD = {"f": 0, "b": 1, "s": 2, "u": 3}


class RD(Driver):
    def __init__(self):
        super().__init__(export("refuse.cpp"), {}, budget=4000000)

    def space(self, s):
        """('f', i) / ('b', dim, i) / ('s', mult, i) / ('u', id, i)"""
        if s[0] == "f":
            v = self.val("es_f", s[1])
        elif s[0] == "s":
            v = self.val("es_s", HALF[s[1]], s[2])
        else:
            v = self.val("es_" + s[0], s[1], s[2])
        return Cell(v)

    def hs(self, spec):
        h = Cell(self.val("hs_new"))
        for s in spec:
            self.call("hs_add", h, self.space(s))
        return h

    def gen_of(self, g):
        """('f', dag, i) / ('b', dag, i) / ('s', mult, comp, i) / ('u', id, i)"""
        if g[0] == "s":
            return self.gen("mk_s", HALF[g[1]], g[2], g[3])
        return self.gen("mk_" + g[0], g[1], g[2])

    def mono(self, word):
        return Cell(self.val("m_make", Cell(Vec(None, [Cell(SP(self.gen_of(g))) for g in word]))))

    def sds(self, sectors):
        l = Cell(self.val("sd_new"))
        for ind, n in sectors:
            self.call("sd_add", l, n)
            for i in ind:
                self.call("sd_idx", l, i)
        return l

    def expr(self, words):
        e = Cell(self.val("ex_0"))
        for w in words:
            e = Cell(self.val("ex_add", e, Cell(self.val("ex_m", self.mono(w)))))
        return e


def gtxt(g):
    if g[0] in "fb":
        return "%s(%d)" % ({"f": "c", "b": "a"}[g[0]] + "+" * g[1], g[2])
    if g[0] == "s":
        return "S%s[%d/2](%d)" % ("+-z"[g[2]], g[1] - 1, g[3])
    return "u%d(%d)" % g[1:]


def wtxt(w):
    return " ".join(gtxt(g) for g in w) or "1"


def needs(g):
    """elementary space a generator acts in"""
    return ("f", g[2]) if g[0] == "f" else ("b", g[2]) if g[0] == "b" else ("s", g[1], g[3]) if g[0] == "s" else ("u", g[1], g[2])


def spaces(spec):
    return {("b", s[2]) if s[0] == "b" else s for s in spec}


def sortkey(g):
    if g[0] in "fb":
        return (ORD[g[0]], 0, g[2]) if g[1] else (ORD[g[0]], 1, -g[2])
    if g[0] == "s":
        return (ORD["s"], g[1], g[3], g[2])
    return (ORD["u"], g[1], g[2])


def F(*i):
    return [("f", k) for k in i]


# forms taking (space, N or sectors, vector)
NF = {"nf_size": "n_fermion_sector_size()", "nf_states": "n_fermion_sector_basis_states()", "nf_make": "make_nfs_view(v)",
      "nf_maker": "make_nfs_view(std::move(v))", "nf_makec": "make_const_nfs_view(v)", "nf_makecr": "make_const_nfs_view(std::move(v))",
      "nf_ctor": "n_fermion_sector_view constructor", "nf_ctorc": "n_fermion_sector_view constructor (constant vector)",
      "nf_stag": "n_fermion_sector_view constructor (staggered_ranking)", "nf_trie": "n_fermion_sector_view constructor (trie_ranking)"}
NM = {k.replace("nf", "nm"): v.replace("n_fermion_sector", "n_fermion_multisector").replace("nfs_view", "nfms_view") for k, v in NF.items()}
LOCS = {"size": "size", "states": "basis_states"}


def run(ctx):
    D = RD()
    I = D.I

    def ask(rule, inst, thunk, refuse, loc, value=None):
        """refuse: the request must end in an exception; otherwise it must not, with the value expected"""
        def bounded():
            try:
                return thunk()
            except AnalysisLimit as e:
                if not refuse:
                    raise
                raise Bad("limit", "the request is worked on (%s) instead of refused" % e)
        for k, v, dec in I.explore(bounded):
            l, msg = loc, ""
            if k == "bad":
                msg, l = describe(k, v), getattr(v, "loc", None) or loc
            elif refuse and k != "throw":
                msg = "the request is answered (%r) instead of refused" % (v,) if v is not None else "the request is accepted instead of refused"
            elif not refuse and k == "throw":
                msg, l = "an acceptable request is refused (%s)" % v.q, D.P.loc(v.loc) or loc
            elif not refuse and value is not None and v != value:
                msg = "the answer is %r instead of %r" % (v, value)
            ctx.ob(rule, inst, not msg, msg, l)

    sectors(ctx, D, ask)
    operators(ctx, D, ask)
    lookups(ctx, D, ask)
    construction(ctx, D, ask)
    ctx.used(I)


def sectors(ctx, D, ask):
    fl = "n_fermion_sector_view.hpp"
    lo = {}
    for f, q in (("nf", "n_fermion_sector"), ("nm", "n_fermion_multisector")):
        lo[f, "size"] = floc(D, "libcommute::%s_size" % q, fl)
        lo[f, "states"] = floc(D, "libcommute::%s_basis_states" % q, fl)
        lo[f, "view"] = floc(D, "libcommute::%s_view::%s_view" % (q, q), fl) or lo[f, "size"]

    def each(spec, arg, refuse, zero, what):
        """zero: size functions report an empty sector"""
        multi = not isinstance(arg, int)
        for fn, nm in (NM if multi else NF).items():
            fam, kind = fn.split("_")
            loc = lo[fam, kind if kind in ("size", "states") else "view"]
            inst = "%s: %s, %r in %r" % (what, nm, arg, spec)
            r = refuse and not (zero and kind == "size")

            def go():
                h = D.hs(spec)
                a = D.sds(arg) if multi else arg
                x = D.val(fn, h, a, Cell(D.val("v_new", 16))) if kind in ("size",) else D.call(fn, h, a, Cell(D.val("v_new", 16)))
                if kind == "size":
                    return x
                if kind == "states":
                    return D.val("il_size", x if isinstance(x, Cell) else Cell(x))
            ask("sector refused" if r else "sector accepted", inst, go, r, loc, 0 if zero and kind == "size" else None)
    T = ctx.thorough
    sparse = [[("b", 3, 0)], F(0, 1) + [("b", 3, 0)], F(0, 1) + [("s", 3, 0)], [("b", 2, 0), ("b", 5, 1)] + F(0, 1, 2)]
    for spec in sparse + ([[("s", 4, 0), ("s", 3, 1)] + F(0), [("b", 1, 3), ("b", 7, 0)] + F(1, 2)] if T else []):
        m = sum(s[0] == "f" for s in spec)
        for n in sorted({0, 1, m}):
            if n <= m:
                each(spec, n, True, False, "sparse space")
        fs = [s[1] for s in spec if s[0] == "f"]
        for sec in [[]] + ([[(fs[:1], 0)], [(fs[:1], 1)], [([fs[0]], 1), (fs[1:], 0)]] if fs else [[([], 0)]]):
            each(spec, sec, True, False, "sparse space")
    dense = [F(0), F(0, 1), F(0, 1, 2), F(0, 1) + [("b", 2, 0)], [("b", 4, 0)], F(1, 4, 6) + [("s", 2, 0)]] + ([F(*range(6))] if T else [])
    for spec in dense:
        m = sum(s[0] == "f" for s in spec)
        for n in range(m + 1):
            each(spec, n, False, False, "acceptable")
        for n in (m + 1, m + 2, 64, 2 ** 32 - 1):
            each(spec, n, True, True, "too many particles")
    # sectors of chosen modes
    sp4 = F(0, 1, 2, 3) + [("b", 2, 7)]
    good = [[], [([], 0)], [([0], 0)], [([0], 1)], [([0, 2], 1), ([1], 1)], [([0, 1], 1), ([2, 3], 1)], [([0, 1, 2, 3], 2)],
            [([3, 1], 2), ([], 0)], [([0], 1), ([1], 0), ([2], 1), ([3], 1)]]
    for sec in good:
        each(sp4, sec, False, False, "acceptable")
    many = [[([], 1)], [([0], 2)], [([0, 1], 3)], [([0], 1), ([1], 2)], [([0], 2), ([1], 1)], [([0, 1], 1), ([2], 2)], [([0, 1], 0), ([], 1)],
            [([0, 1, 2, 3], 5)], [([0], 2 ** 32 - 1)], [([0, 1], 1), ([2], 64), ([3], 0)]]
    for sec in many:
        each(sp4, sec, True, True, "too many particles")
    over = [[([0], 0), ([0], 0)], [([0], 1), ([0], 1)], [([0, 1], 1), ([1], 1)], [([0, 1], 1), ([1, 2], 1)], [([0, 1], 1), ([2], 1), ([0], 0)],
            [([0], 1), ([1, 2], 1), ([2, 3], 1)], [([0, 1, 2, 3], 2), ([3], 1)], [([0, 1], 0), ([2, 1], 0)], [([0, 1], 2), ([], 0), ([0, 1], 2)]]
    for sec in over:
        each(sp4, sec, True, False, "overlapping sectors")
    # spaces smaller than the list of sectors
    for spec, sec in ((F(0), [([0], 1), ([0], 0)]), (F(0), [([0], 0)] * 4), (F(0, 1), [([0], 1), ([1], 0), ([0], 1)]), (F(0, 1), [([0, 1], 1), ([1], 0), ([0], 1)]),
                      (F(0, 1), [([0], 1), ([1], 1), ([], 0), ([1], 1)]), (F(2, 5, 9), [([5], 0), ([9, 2], 1), ([], 0), ([], 0), ([5], 0)]),
                      (F(0, 1, 2), [([0], 0), ([1], 0), ([2], 0), ([0], 0), ([1], 0), ([2], 0)]), (F(0, 1) + [("b", 4, 0)], [([1], 1)] * 6)):
        each(spec, sec, True, False, "overlapping sectors")
    for spec, sec in ((F(0), [([], 0), ([0], 1), ([], 0)]), (F(0, 1), [([1], 0), ([], 0), ([0], 1), ([], 0)]), (F(2, 5, 9), [([9], 1), ([5], 0), ([2], 1), ([], 0), ([], 0)])):
        each(spec, sec, False, False, "acceptable")
    foreign = [[([4], 0)], [([4], 1)], [([7], 1)], [([0, 4], 1)], [([7, 2], 1)], [([0], 1), ([4], 1)], [([4], 1), ([0], 1)],
               [([0, 1], 1), ([2, 5], 2)], [([0], 1), ([1], 1), ([2, 3, 9], 1)], [([-1, 0], 1)]]
    for sec in foreign:
        each(sp4, sec, True, False, "modes not in the space")
    each([("b", 4, 0)], [([0], 1)], True, False, "modes not in the space")
    each([("s", 2, 0)], [([0], 0)], True, False, "modes not in the space")


LISTS = {"fbs": "fbs", "fb": "fb", "fs": "fs", "bs": "bs", "f": "f", "b": "b", "s": "s", "none": "", "make": "fbs"}


def operators(ctx, D, ask):
    I = D.I
    T = ctx.thorough
    spec = F(0, 1) + [("b", 4, 0), ("s", 2, 0), ("s", 3, 1), ("u", UID, 0)]
    have = spaces(spec)
    alpha = [("f", True, 0), ("f", False, 1), ("f", False, 3), ("f", True, 3), ("f", True, 4), ("b", True, 0), ("b", False, 0), ("b", True, 1), ("b", False, 1),
             ("s", 2, 0, 0), ("s", 2, 2, 0), ("s", 3, 0, 1), ("s", 3, 1, 0), ("s", 4, 2, 0), ("s", 2, 1, 1), ("u", UID, 0), ("u", UID, 1)]
    words = {()}
    for n in (1, 2):
        words |= {tuple(sorted(w, key=sortkey)) for w in itertools.combinations(alpha, n)}
    three = {tuple(sorted(w, key=sortkey)) for w in itertools.combinations(alpha, 3)}
    # longer products with one bad generator at every position, and powers
    base = (("f", True, 0), ("f", False, 1), ("b", True, 0), ("b", False, 0), ("s", 2, 0, 0), ("s", 3, 1, 1))
    for b in [g for g in alpha if needs(g) not in have]:
        words.add(tuple(sorted(base + (b,), key=sortkey)))
        if b[0] == "b" or b[0] == "s" and b[1] > 2:
            words.add((b, b))
            words.add((b, b, b))
    words |= {base, base[:5], (base[2],) * 3, (base[2],) * 4 + (base[3],), (base[2],) * 5, (base[3],) * 4 + (("b", False, 1),),
              (("b", True, 0),) * 5 + (("b", True, 1),), (("b", True, 1),) + (("b", False, 0),) * 5, (("s", 3, 0, 1),) * 2, (("s", 3, 0, 1),) * 3 + (("s", 3, 1, 0),),
              (("s", 3, 1, 0),) + (("s", 3, 0, 1),) * 3}
    words = sorted(words, key=lambda w: (len(w), repr(w))) + (sorted(three, key=repr) if T else [])
    loc = {k: floc(D, "libcommute::monomial_action::monomial_action", "monomial_action%s.hpp" % x)
           for k, x in (("f", "_fermion"), ("b", "_boson"), ("s", "_spin"), ("", ""))}
    h0 = {}

    def space():
        return D.hs(spec)
    for w in words:
        w = tuple(sorted(w, key=sortkey))
        for nm, ids in LISTS.items():
            bad = [g for g in w if g[0] not in ids or needs(g) not in have]
            forms = ("lo", "po") if nm == "make" else ("ma",) if not (len(w) <= 1 or len(w) > 2) or nm in ("none",) and w else ("ma", "lo", "po")
            if nm != "make" and len(w) == 2 and not T and not bad:
                forms = ()
            for fm in forms:
                if fm != "ma" and any(x[0] == "f" and x == y for x, y in zip(w, w[1:])):
                    continue
                if fm == "ma" and any(x[0] == "s" and x[1] == y[1] == 2 and x[3] == y[3] for x, y in zip(w, w[1:])):
                    continue

                def go():
                    h = space()
                    a = D.mono(w)
                    if fm != "ma":
                        a = Cell(D.val("ex_m", a))
                        if D.val("ex_size", a) != 1:
                            return "vanishes"
                    D.call("%s_%s" % (fm, nm), a, h)
                name = {"ma": "monomial_action<%s>", "lo": "loperator<%s>", "po": "parametric_loperator<%s>"}[fm] % ",".join(ids)
                if nm == "make":
                    name = {"lo": "make_loperator()", "po": "make_param_loperator()"}[fm]
                if fm != "ma" and vanishes(w):
                    continue
                first = bad[0][0] if bad and bad[0][0] in ids else ""
                ask("operator refused" if bad else "operator accepted", "%s of %s" % (name, wtxt(w)), go, bool(bad), loc[first] or loc[""])
    # a bad term among good ones
    good = [(), (("f", True, 0), ("f", False, 1)), (("b", True, 0),), (("s", 2, 2, 0),)]
    bads = [(("f", True, 3),), (("b", True, 0), ("b", False, 1)), (("s", 4, 2, 0),), (("s", 2, 0, 0), ("u", UID, 0)), (("u", UID, 1),)]
    for fm, nm in (("lo", "fbs"), ("po", "fbs"), ("lo", "make"), ("po", "make")):
        for b in [None] + bads:
            ws = good + ([b] if b else [])

            def go():
                h = space()
                D.call("%s_%s" % (fm, nm), D.expr(ws), h)
            ask("operator refused" if b else "operator accepted", "%s_%s of a sum with %s" % (fm, nm, b and wtxt(b)), go, bool(b), loc[""])
        # an empty space supports constants only
        for w in ((), (("f", True, 0),), (("b", True, 0),), (("s", 2, 2, 0),), (("u", UID, 0),)):
            def go():
                h = D.hs([])
                D.call("%s_%s" % (fm, nm), D.expr([w]), h)
            ask("operator refused" if w else "operator accepted", "%s_%s of %s in an empty space" % (fm, nm, wtxt(w)), go, bool(w), loc[""])


def vanishes(w):
    for i, g in enumerate(w):
        if g[0] == "s" and g[2] != 2 and w[i:i + g[1]] == (g,) * g[1]:
            return True
    return False


def lookups(ctx, D, ask):
    T = ctx.thorough
    fl = "hilbert_space.hpp"
    L = lambda n: floc(D, "libcommute::hilbert_space::" + n, fl)
    specs = [[], F(0), F(0, 1) + [("b", 4, 0)], [("b", 3, 1), ("s", 2, 0), ("s", 3, 1)], [("s", 2, 0)], F(1) + [("b", 2, 0), ("s", 2, 0), ("u", UID, 0)]]
    probes = F(0, 1, 2) + [("b", 4, 0), ("b", 2, 1), ("b", 7, 2), ("s", 2, 0), ("s", 2, 1), ("s", 3, 0), ("s", 3, 1), ("s", 4, 0), ("u", UID, 0), ("u", UID, 1), ("u", UID + 1, 0)]
    AL = {"f": -3, "b": -2, "s": -1}
    for spec in specs:
        have = spaces(spec)
        for p in probes:
            key = ("b", p[2]) if p[0] == "b" else p
            absent = key not in have
            for fn, nm in (("l_index", "index"), ("l_dim", "dim"), ("l_bits", "bit_range"), ("l_state", "basis_state_index")):
                def go():
                    D.call(fn, D.hs(spec), D.space(p))
                ask("lookup refused" if absent else "lookup accepted", "%s() of %r in %r" % (nm, p, spec), go, absent, L(nm))

            def has():
                return bool(D.val("l_has", D.hs(spec), D.space(p)))
            ask("lookup accepted", "has() of %r in %r" % (p, spec), has, False, L("has"), not absent)

            def add():
                D.call("hs_add", D.hs(spec), D.space(p))
            ask("lookup accepted" if absent else "lookup refused", "add() of %r to %r" % (p, spec), add, not absent, L("add"))
        ids = {AL.get(s[0], s[1]) for s in spec}
        for a in (-4, -3, -2, -1, 0, UID, UID + 1):
            def go():
                D.call("l_alg", D.hs(spec), a)
            ask("lookup accepted" if a in ids else "lookup refused", "algebra_bit_range(%d) in %r" % (a, spec), go, a not in ids, L("algebra_bit_range"))

            def has():
                return bool(D.val("l_hasalg", D.hs(spec), a))
            ask("lookup accepted", "has_algebra(%d) in %r" % (a, spec), has, False, L("has_algebra"), a in ids)
    # repeated spaces given to constructors
    for fn, sps, dup in (("hs_ff", F(0, 0), True), ("hs_ff", F(1, 0), False), ("hs_bfb", [("b", 2, 0), ("f", 0), ("b", 2, 0)], True),
                         ("hs_bfb", [("b", 2, 0), ("f", 0), ("b", 3, 0)], True), ("hs_bfb", [("b", 2, 1), ("f", 0), ("b", 2, 0)], False),
                         ("hs_2", [("s", 2, 0), ("s", 2, 0)], True), ("hs_2", [("s", 2, 0), ("s", 3, 0)], False), ("hs_1", [("s", 2, 0)], False),
                         ("hs_3", [("f", 0), ("b", 2, 0), ("f", 0)], True), ("hs_3", [("f", 0), ("b", 2, 0), ("f", 2)], False)):
        def go():
            D.call(fn, *[D.space(s) for s in sps])
        ask("lookup refused" if dup else "lookup accepted", "hilbert_space of %r" % (sps,), go, dup, L("hilbert_space"))
    # partitions
    fl2 = "space_partition.hpp"
    P = lambda n: floc(D, "libcommute::space_partition::" + n, fl2)
    cases = [(F(0, 1), [(("f", True, 0), ("f", False, 1)), (("f", True, 1), ("f", False, 0))], 3),
             ([("b", 3, 0), ("b", 2, 1)], [(("b", True, 0),), (("b", False, 0),)], None), ([("b", 3, 0)] + F(1), [()], None),
             ([("s", 3, 0), ("s", 2, 0)], [(("s", 3, 2, 0),)], None)]
    for spec, ws, _ in cases:
        valid = set()
        dims = [(2, 1) if s[0] == "f" else (s[1], (s[1] - 1).bit_length()) for s in sorted(spec, key=lambda s: (ORD[s[0]],) + tuple(s[1:] if s[0] == "s" else s[-1:]))]
        for ds in itertools.product(*[range(d) for d, _ in dims]):
            st, sh = 0, 0
            for x, (d, b) in zip(ds, dims):
                st += x << sh
                sh += b
            valid.add(st)
        tot = 1 << sum(b for _, b in dims)
        for mk in ("sp_make", "sp_ctor", "sp_makem"):
            def part():
                h = D.hs(spec)
                lo = Cell(D.val("lo_of", D.expr(ws), h))
                return Cell(D.val(mk, lo, h)), lo
            for merge in ((False, True) if mk == "sp_ctor" else (False,)):
                def part2():
                    s, lo = part()
                    if merge:
                        D.call("sp_merge", s, lo, lo)
                    return s
                for n in range(tot):
                    def at():
                        D.call("sp_at", part2(), n)
                    ask("lookup accepted" if n in valid else "lookup refused", "%s%s over %r, [%d]" % (mk, " merged" * merge, spec, n), at, n not in valid, P("operator[]"))
                for dn in (-1, 0, 1, 100, 2 ** 60):
                    def basis():
                        s = part2()
                        n = D.val("sp_n", s) + dn
                        D.call("sp_basis", s, n)
                    ask("lookup accepted" if dn < 0 else "lookup refused", "%s%s over %r, subspace_basis(n_subspaces() + %d)" % (mk, " merged" * merge, spec, dn),
                        basis, dn >= 0, P("subspace_basis"))


def construction(ctx, D, ask):
    I = D.I
    alpha = [("f", True, 0), ("f", False, 1), ("b", True, 0), ("b", False, 1), ("s", 2, 2, 0), ("s", 3, 0, 1), ("u", UID, 0), ("u", 0, 0)]
    sup = {"def": "fs", "bos": "fbs", "fb": "fb", "bs": "bs", "ctor": "fs"}
    le = floc(D, "libcommute::es_constructor::operator()", "es_constructor.hpp") or floc(D, "libcommute::detail::es_constructor_impl::operator()", "es_constructor.hpp")
    for g in alpha:
        for e in ("def", "bos", "fb", "bs"):
            def go():
                D.call("ec_" + e, D.gen_of(g))
            bad = g[0] not in sup[e]
            ask("construction refused" if bad else "construction accepted", "es_constructor %s of %s" % (e, wtxt((g,))), go, bad, le)
    words = [()] + [(g,) for g in alpha] + [tuple(sorted(w, key=sortkey)) for w in itertools.combinations(alpha, 2)]
    sums = [[w] for w in words] + [[(), (("f", True, 0),), (("s", 2, 2, 0),), (g,)] for g in alpha] + \
        [[(("f", True, 0), ("f", False, 1)), (("f", True, 2), ("b", True, 0), ("s", 2, 2, 0)), (("s", 2, 0, 0),)]]
    for ws in sums:
        for e in ("def", "bos", "fb", "ctor"):
            bad = any(g[0] not in sup[e] for w in ws for g in w)

            def go():
                D.call("mh_" + e, D.expr(ws))
            ask("construction refused" if bad else "construction accepted", "space (%s) of %s" % (e, " + ".join(map(wtxt, ws))), go, bad, le)
