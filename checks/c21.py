"""Spaces deduced from expressions, decided by abstract interpretation of the constructors
of elementary spaces, of the library's es_constructor for every list of algebras and of
hilbert_space's deducing constructors, on expressions over opaque indices (only their order
is known). What an expression contains is read through the public iteration interface; the
spaces the result holds are read through foreach_elementary_space. The two sets must
coincide: algebra, all indices, dimension and number of bits, each once. Enumerated are all
single generators, all pairs and triples in one product or spread over terms, every position in
longer products, zero, one and two indices per generator, spin lengths up to 7/2 (and lengths
about powers of two), requested dimensions at and next to powers of two up to 2^62, and
temporary, constant and reused constructors."""
import itertools
from fractions import Fraction
from util import *

LEVEL = "other"
ASSUMPTIONS = ["expressions of up to 6 terms and products of up to 5 generators",
               "the order of opaque indices is strict and total"]
NEED = {"deduced spaces": 900, "unsupported algebra": 150, "width of a space": 250}
UID = 4
ALG = {"f": -3, "b": -2, "s": -1, "u": UID}
# form -> algebras it supports
FORMS = {"h_def": "fs", "h_defm": "fs", "h_defc": "fs", "h_bos": "fbs", "h_bosm": "fbs", "h_bosl": "fbs", "h_bosc": "fbs", "h_f": "f", "h_b": "b",
         "h_s": "s", "h_fb": "fb", "h_fs": "fs", "h_bs": "bs", "h_fbs": "fbs", "h_fbsu": "fbsu", "h_fu": "fu", "h_bu": "bu"}
NAMES = {"h_def": "hilbert_space(e)", "h_defm": "make_hilbert_space(e)", "h_defc": "hilbert_space(e, default_es_constructor())",
         "h_bos": "hilbert_space(e, boson_es_constructor(d))", "h_bosm": "make_hilbert_space(e, boson_es_constructor(d))",
         "h_bosl": "make_hilbert_space(e, c) with a constant c", "h_bosc": "hilbert_space(e, c) with a reused copy c"}


def bits(d):
    return (d - 1).bit_length()


def key(g, k):
    """algebra, indices, multiplicity"""
    return (ALG[g[0]],) + tuple(g[-1][:k]) + ((g[1],) if g[0] == "s" else ())


def gtxt(g, k):
    i = "(%s)" % ",".join(map(str, g[-1][:k]))
    if g[0] in "fb":
        return {"f": "c", "b": "a"}[g[0]] + "+" * g[1] + i
    return "S%s[%d/2]%s" % ("+-z"[g[2]], g[1] - 1, i) if g[0] == "s" else "u" + i


class DD(Driver):
    def __init__(self, P):
        super().__init__(P, idx_ext(), budget=6000000)
        self.seen = []
        for k in "012":
            for n in ("seen_g", "seen_s"):
                self.I.ext["vp::" + n + k] = lambda I, f, this, a: self.seen.append(a[0])

    def gen_of(self, g, k):
        ix = [self.idx(x) for x in g[-1][:k]]
        if g[0] == "s":
            return self.gen("mk_s%d" % k, Fraction(g[1] - 1, 2), g[2], *ix)
        if g[0] == "u":
            return self.gen("mk_u%d" % k, *ix)
        return self.gen("mk_%s%d" % (g[0], k), g[1], *ix)

    def expr(self, words, k):
        e = Cell(self.val("ex_0%d" % k))
        for w in words:
            m = Cell(self.val("m_make%d" % k, Cell(Vec(None, [Cell(SP(self.gen_of(g, k))) for g in w]))))
            e = Cell(self.val("ex_add%d" % k, e, Cell(self.val("ex_m%d" % k, m))))
        return e

    def indices(self, c, p, k):
        ix = []
        for n in ("a", "b")[:k]:
            v = self.val("%s_i%s%d" % (p, n, k), c)
            ix.append(v.attr if isinstance(v, Obj) else None)
        return tuple(ix)

    def contained(self, e, k):
        del self.seen[:]
        self.call("gens%d" % k, e)
        out = set()
        for c in list(self.seen):
            a = self.val("g_alg%d" % k, c)
            out.add((a,) + self.indices(c, "g", k) + ((self.val("g_mult%d" % k, c),) if a == -1 else ()))
        return out

    def spaces(self, h, k):
        del self.seen[:]
        self.call("spaces%d" % k, h)
        return [(self.val("s_alg%d" % k, c),) + self.indices(c, "s", k) + (self.val("s_dim%d" % k, c), self.val("s_bits%d" % k, c)) for c in list(self.seen)]


def run(ctx):
    P = export("deduce.cpp")
    D = DD(P)
    le = floc(D, "libcommute::es_constructor::operator()", "es_constructor.hpp") or "include/libcommute/loperator/es_constructor.hpp"
    lh = floc(D, "libcommute::hilbert_space::hilbert_space") or "include/libcommute/loperator/hilbert_space.hpp"

    def one(words, form, k, dim, ub):
        nm = "%s of %s%s" % (NAMES.get(form, "hilbert_space(e, es_constructor<%s>)" % form[2:]), " + ".join(" ".join(gtxt(g, k) for g in w) or "1" for w in words) or "0",
                             ", d = %d" % dim if "b" in FORMS[form] else "")

        def go():
            e = D.expr(words, k)
            have = D.contained(e, k)
            h = Cell(D.val(form + str(k), e, dim, ub))
            return have, D.spaces(h, k), D.val("h_size%d" % k, h), D.val("h_dim%d" % k, h)
        kind, v = D.one(go)
        if not fits(words, form):
            ctx.ob("unsupported algebra", nm, kind == "throw", "%s is accepted and contains %s" % (nm, v[1]) if kind == "ok" else "%s: %s" % (nm, describe(kind, v)), le)
            return
        if kind != "ok":
            ctx.ob("deduced spaces", nm, False, "%s: %s" % (nm, describe(kind, v)), getattr(v, "loc", None) if kind == "bad" else le)
            return
        have, got, size, tot = v
        want = {}
        for g in have:
            d = {-3: 2, -2: dim, -1: g[-1], UID: 1 << ub}[g[0]]
            ix = g[1:1 + k]
            want[(g[0],) + ix + (d, bits(d))] = 0
        msg = ""
        for s in got:
            if s not in want:
                msg = msg or "%s contains the space (algebra %d, indices %s, dimension %s, %s bits) no generator asks for" % (nm, s[0], s[1:1 + k], s[-2], s[-1])
            elif want[s]:
                msg = msg or "%s contains the space (algebra %d, indices %s) twice" % (nm, s[0], s[1:1 + k])
            else:
                want[s] = 1
        for s, n in want.items():
            if not n:
                msg = msg or "%s lacks the space (algebra %d, indices %s, dimension %s, %s bits)" % (nm, s[0], s[1:1 + k], s[-2], s[-1])
        if not msg:
            p = 1
            for s in want:
                p *= s[-2]
            if size != len(want) or tot != p % 2 ** 64:
                msg = "%s: size() is %r and dim() is %r for %d spaces of total dimension %d" % (nm, size, tot, len(want), p)
        ctx.ob("deduced spaces", nm, not msg, msg, le if got else lh)

    A = [("f", True, (0, 1)), ("f", False, (1, 0)), ("b", True, (0, 1)), ("b", False, (1, 0)), ("s", 2, 2, (0, 1)), ("s", 3, 0, (0, 1)),
         ("s", 2, 1, (1, 0)), ("s", 4, 1, (1, 1)), ("u", (0, 1)), ("u", (1, 1))]

    def fits(words, form):
        return all(g[0] in FORMS[form] for w in words for g in w)
    dims = [1, 2, 3, 4, 5, 7, 8, 9, 255, 256, 257, 65537, 2 ** 20 - 1]
    jobs = []
    # single generators, everywhere
    singles = A + [("s", m, c, (0, 0)) for m in range(2, 9) for c in (0, 1, 2)] + [("f", False, (0, 0)), ("b", True, (0, 0))]
    for form in FORMS:
        for g in singles:
            for k in (1, 2, 0):
                if fits([(g,)], form) or k == 1:
                    for d in (dims if g[0] == "b" and k == 1 and form in ("h_bos", "h_b") else (5,)):
                        jobs.append(([(g,)], form, k, d, 3))
        for k in (0, 1, 2):
            jobs += [([], form, k, 5, 3), ([()], form, k, 5, 3)]
    # pairs in one product and in two terms; a constant term among them
    pf = ("h_bos", "h_fbsu") if not ctx.thorough else ("h_bos", "h_bosm", "h_fbsu", "h_bosc")
    for x, y in itertools.combinations_with_replacement(A, 2):
        for words in ([(x, y)], [(x,), (y,)], [(), (x,), (y, x)]):
            for form in pf + ("h_defm",):
                jobs.append((words, form, 1, 6, 2))
            if fits(words, "h_bosm"):
                jobs.append((words, "h_bosm", 2, 3, 2))
    # triples
    for w in itertools.combinations(A, 3):
        for words in ([w], [w[:2], w[2:]], [(g,) for g in w]):
            jobs.append((words, "h_fbsu", 1, 4, 1))
            if ctx.thorough:
                jobs.append((words, "h_fbsu", 2, 4, 1))
    # long products and sums: every generator counts, wherever it stands
    L = [("f", True, (i, 0)) for i in range(3)] + [("b", False, (i, 0)) for i in range(2)] + [("s", 3, 2, (0, 0)), ("u", (0, 0))]
    for n in range(1, 6):
        for s in range(len(L) - n + 1):
            jobs.append(([tuple(L[s:s + n])], "h_fbsu", 1, 3, 2))
    jobs.append(([(g,) for g in L], "h_fbsu", 1, 3, 2))
    jobs.append(([()] + [tuple(L[:i]) for i in range(1, 6)], "h_fbsu", 1, 3, 2))
    jobs.append(([(("f", True, (i, 0)), ("f", False, (i + 1, 0))) for i in range(5)], "h_f", 1, 3, 2))
    # large total dimensions
    for n, d in ((3, 2 ** 20), (2, 2 ** 31), (2, 2 ** 31 - 1), (6, 1000), (1, 2 ** 62), (1, 2 ** 63 - 1), (4, 32768), (3, 32769)):
        for ws in ([tuple(("b", False, (i, 0)) for i in range(n))], [(("b", True, (i, 0)),) for i in range(n)]):
            for form in ("h_bos", "h_b"):
                jobs.append((ws, form, 1, d, 1))
    # the same mode in all its guises
    for ws in ([(("s", m, 2, (0, 0)),) for m in (2, 3, 4)], [(("s", m, 2, (0, 0)) for m in (2, 3, 4))],
               [(("f", True, (0, 0)),), (("f", False, (0, 0)),), (("b", True, (0, 0)),), (("b", False, (0, 0)),), (("s", 2, 2, (0, 0)),)],
               [(("f", True, (0, 0)), ("f", False, (0, 0)), ("b", True, (0, 0)), ("b", False, (0, 0)), ("s", 2, 2, (0, 0)))]):
        ws = [tuple(w) for w in ws]
        for form in ("h_bos", "h_bosm", "h_bosl", "h_bosc", "h_fbs", "h_fbsu"):
            for k in (0, 1, 2):
                jobs.append((ws, form, k, 4, 1))
    for j in jobs:
        one(*j)
    ctx.sample({"expressions": len(jobs)})

    # widths: 2^(n_bits-1) < dim <= 2^n_bits
    def width(nm, thunk, alg, d, loc):
        kind, v = D.one(thunk)
        ok = kind == "ok" and v == (alg, d, bits(d))
        ctx.ob("width of a space", nm, ok, "%s: %s, expected dimension %d and %d bits" % (
            nm, "algebra, dimension and bits are %r" % (v,) if kind == "ok" else describe(kind, v), d, bits(d)), loc)

    def see(c, sfx=""):
        return tuple(D.val("d_%s%s" % (n, sfx), c) for n in ("alg", "dim", "bits"))
    loc = {t: floc(D, "libcommute::elementary_space_%s::elementary_space_%s" % (t, t)) for t in ("boson", "spin", "fermion")}
    bd = sorted({x for p in range(0, 63) for x in (2 ** p - 1, 2 ** p, 2 ** p + 1) if 0 < x <= 2 ** 62} | {3 * 2 ** 40, 10 ** 18, 1000})
    for d in bd:
        width("elementary_space_boson(%d)" % d, lambda: see(Cell(D.val("d_b", d))), -2, d, loc["boson"])
    for m in sorted({x for p in range(1, 17) for x in (2 ** p - 1, 2 ** p, 2 ** p + 1) if x >= 2} | set(range(2, 20)) | {1000}):
        width("elementary_space_spin(%d/2)" % (m - 1), lambda: see(Cell(D.val("d_s", Fraction(m - 1, 2)))), -1, m, loc["spin"])
    width("elementary_space_fermion", lambda: see(Cell(D.val("d_f"))), -3, 2, loc["fermion"])
    for d in (1, 2, 3, 8, 9, 100):
        width("make_space_boson(%d)" % d, lambda: see(Cell(D.val("d_bm", d))), -2, d, loc["boson"])
        width("dynamic make_space_boson(%d)" % d, lambda: see(Cell(D.val("d_bd", d)), "d"), -2, d, loc["boson"])
        width("clone of elementary_space_boson(%d)" % d, lambda: see(D.call("d_of", Cell(D.val("d_cl", Cell(D.val("d_b", d)))))), -2, d, loc["boson"])
        if d > 1:
            s = Fraction(d - 1, 2)
            width("make_space_spin(%d/2)" % (d - 1), lambda: see(Cell(D.val("d_sm", s))), -1, d, loc["spin"])
            width("dynamic make_space_spin(%d/2)" % (d - 1), lambda: see(Cell(D.val("d_sd", s)), "d"), -1, d, loc["spin"])
            width("clone of elementary_space_spin(%d/2)" % (d - 1), lambda: see(D.call("d_of", Cell(D.val("d_cl", Cell(D.val("d_s", s)))))), -1, d, loc["spin"])
    width("make_space_fermion", lambda: see(Cell(D.val("d_fm"))), -3, 2, loc["fermion"])
    width("dynamic make_space_fermion", lambda: see(Cell(D.val("d_fd")), "d"), -3, 2, loc["fermion"])
    ctx.used(D.I)
