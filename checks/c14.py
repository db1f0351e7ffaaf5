"""Products of generators acting on basis states, decided by abstract interpretation of the
constructors and of act() of monomial_action over vectors of symbolic bits. The bits of the
modes named in the product take every value of the modes' ranges, every other bit of the
index is an unknown bit. The returned index must be the initial one with exactly the named
modes changed, the unknown bits being carried through unread; parities of occupied modes
are affine forms over GF(2) of the unknown bits, and the fermionic sign must be the form
obtained by moving the operators one by one past the modes below their own. Square roots
are kept symbolic (sqrt(n)^2 = n), so the factor of bosons and spins is compared exactly."""
import itertools
from fractions import Fraction
from salg import *
from bv import BV, Aff, ZERO, ONE, reduce

LEVEL = "other"
ASSUMPTIONS = ["the basis state is a valid one: the fields of bosonic and spin modes hold values within the modes' dimensions"]
NEED = {"fermion": 2000, "boson": 700, "spin": 700, "mixed": 300}
PLUS, MINUS, Z = 0, 1, 2


class Layout:
    """a Hilbert space; bits of each mode"""

    def __init__(self, D, fer=(), bos=(), spn=()):
        self.h = Cell(D.val("hs0"))
        self.fer, self.bos, self.spn = tuple(fer), dict(bos), tuple(spn)
        for i in fer:
            D.call("add_f", self.h, D.idx(i))
        for i, d in self.bos.items():
            D.call("add_b", self.h, d, D.idx(i))
        for m, i in spn:
            D.call("add_s", self.h, half(m - 1), D.idx(i))
        self.pos = {}
        for i in fer:
            self.pos["f", i] = (D.val("bit_f", self.h, D.idx(i)), 1, 2)
        for i, d in self.bos.items():
            self.pos["b", i] = (D.val("bit_b", self.h, D.idx(i)), (d - 1).bit_length(), d)
        for m, i in spn:
            self.pos["s", m, i] = (D.val("bit_s", self.h, half(m - 1), D.idx(i)), (m - 1).bit_length(), m)
        # fermionic modes in the order of their bits
        self.fbits = sorted(self.pos["f", i][0] for i in fer)


def half(n):
    x = Fraction(n, 2)
    return int(x) if x.denominator == 1 else x


def mode(g):
    return ("f", g[2]) if g[0] == "f" else ("b", g[2]) if g[0] == "b" else ("s", g[1], g[3])


def gtxt(g):
    if g[0] == "f":
        return "c%s%d" % ("+" if g[1] else "", g[2])
    if g[0] == "b":
        return "a%s%d" % ("+" if g[1] else "", g[2])
    return "S%s%d(%s)" % ("+-z"[g[2]], g[3], half(g[1] - 1))


def wtxt(w):
    return " ".join(gtxt(g) for g in w) or "1"


def expected(lay, word, vals, bits):
    """None or (new values of the modes, sign form, rational square of the factor, sign of the factor)"""
    v = dict(vals)
    b = dict(bits)                 # bit position -> Aff, fermionic modes
    par, sq, sg = ZERO, Fraction(1), 1
    for g in reversed(word):
        m = mode(g)
        p, w, dim = lay.pos[m]
        if g[0] == "f":
            if v[m] != (0 if g[1] else 1):
                return None
            for q in lay.fbits:
                if q < p:
                    par = par ^ b[q]
            v[m] = 1 if g[1] else 0
            b[p] = Aff(c=v[m])
        elif g[0] == "b":
            if g[1]:
                v[m] += 1
                if v[m] >= dim:
                    return None
                sq *= v[m]
            else:
                if v[m] == 0:
                    return None
                sq *= v[m]
                v[m] -= 1
        else:
            s2, n = dim - 1, v[m]
            if g[2] == Z:
                x = Fraction(2 * n - s2, 2)
                if x == 0:
                    return None
                sq *= x * x
                if x < 0:
                    sg = -sg
            elif g[2] == PLUS:
                if n == s2:
                    return None
                sq *= (s2 - n) * (n + 1)
                v[m] += 1
            else:
                if n == 0:
                    return None
                sq *= n * (s2 - n + 1)
                v[m] -= 1
    return v, par, sq, sg


def run(ctx):
    for drv in ("act.cpp", "act_sqrt.cpp"):
        P = export(drv)
        S = SAlg(P)
        ext = idx_ext(("Idx",))
        for k, h in S.ext().items():
            ext[k] = EDriver._both(ext[k], h) if k in ext else h
        D = Driver(P, ext, budget=4000000)
        I = D.I
        lcache = {}
        small = drv == "act_sqrt.cpp"
        loc = {k: floc(D, "libcommute::monomial_action::act") for k in "fbs"}
        for f in P.byq.get("libcommute::monomial_action::act", ()):
            s = str(P.loc(f["l"])) if f.get("l") else ""
            for k, nm in (("f", "action_fermion"), ("b", "action_boson"), ("s", "action_spin")):
                if nm in s:
                    loc[k] = P.loc(f["l"])

        def gen(g):
            if g[0] == "f":
                return D.gen("mk_f", g[1], D.idx(g[2]))
            if g[0] == "b":
                return D.gen("mk_b", g[1], D.idx(g[2]))
            return D.gen("mk_ss", half(g[1] - 1), g[2], D.idx(g[3]))

        def factor(p, c):
            """sign and square of the number p/c where c is the atom of the initial coefficient"""
            if len(p.m) != 1:
                return None
            ((cm, nc), v), = p.m.items()
            if len(nc) != 1 or Poly.atom(nc[0]) != c:
                return None
            sq = Fraction(v) * v
            for a in cm:
                k = [key for key, at in I.uf_table.items() if at == a]
                if not k or k[0][0] != "sqrt" or not Poly.of(k[0][1]).is_const():
                    return None
                sq *= Fraction(Poly.of(k[0][1]).const_value())
            return (1 if v > 0 else -1 if v < 0 else 0), sq

        def check(rule, T, word, dims, states=None):
            """dims: (fer, bos, spn)"""
            named = sorted({mode(g) for g in word}, key=repr)

            if dims not in lcache:
                k, v = D.one(lambda: Layout(D, *dims))
                if k != "ok":
                    raise AnalysisError("the Hilbert space cannot be built: " + describe(k, v))
                lcache[dims] = v
            lay = lcache[dims]

            def build():
                gs = [SP(gen(g)) for g in word]
                m = Cell(D.val("m_make", Cell(Vec(None, [Cell(x) for x in gs]))))
                if not D.val("m_ordered", m):
                    raise AnalysisError("the product %s is not in canonical order" % wtxt(word))
                return Cell(D.val("mk_" + T, m, lay.h)), m
            k, v = D.one(build)
            if k != "ok":
                ctx.ob(rule, "%s, %s" % (T, wtxt(word)), False, describe(k, v), getattr(v, "loc", None) or loc[word[0][0] if word else "f"])
                return
            act = v[0]

            def ranges():
                rr = []
                for m in named:
                    d = 2 if m[0] == "f" else dict(dims[1])[m[1]] if m[0] == "b" else m[1]
                    rr.append(states(m, d) if states else range(d))
                return itertools.product(*rr)
            for vals in ranges():
                vals = dict(zip(named, vals))

                def go():
                    bits = [Aff({i}) for i in range(64)]
                    for md, x in vals.items():
                        p, w, d = lay.pos[md]
                        for j in range(w):
                            bits[p + j] = Aff(c=(x >> j) & 1)
                    ini = list(bits)
                    index = Cell(BV(bits).out(I))
                    C = I.uf("C", nc=True)
                    coeff = Cell(S.mk("SA", C))
                    r = I.truth(D.call("act_" + T, act, index, coeff))
                    fb = {q: ini[q] for q in lay.fbits}
                    e = expected(lay, word, vals, fb)
                    cf = I.load(coeff).attr
                    if not r:
                        return None if e is None else "the product gives zero on a state where its action is defined"
                    if e is None:
                        if cf == 0:
                            # a zero factor; the state must still be a valid one
                            got = BV.of(I.load(index)).b
                            inside = {p + j for md in vals for p, w, d in (lay.pos[md],) for j in range(w)}
                            for i in range(64):
                                if i not in inside and reduce(I, got[i] ^ ini[i]) != ZERO:
                                    return "the product reports a state with bit %d changed (and a zero factor)" % i
                            for md in vals:
                                p, w, d = lay.pos[md]
                                if sum(reduce(I, got[p + j]).c << j for j in range(w)) >= d:
                                    return "the product reports an invalid state (and a zero factor) where its action is zero"
                            return None
                        return "the product gives a non-zero result where its action is zero"
                    v2, par, sq, sg = e
                    want = list(ini)
                    for md, x in v2.items():
                        p, w, d = lay.pos[md]
                        for j in range(w):
                            want[p + j] = Aff(c=(x >> j) & 1)
                    got = BV.of(I.load(index)).b
                    for i in range(64):
                        if reduce(I, got[i] ^ want[i]) != ZERO:
                            return "bit %d of the resulting index is %r instead of %r" % (i, got[i], want[i])
                    f = factor(cf, C)
                    if f is None:
                        return "the factor is %r" % (cf,)
                    par = reduce(I, par)
                    if par.s:
                        return "the sign does not depend on the occupation of the modes %r" % (sorted(par.s),)
                    if par.c:
                        sg = -sg
                    if f != (sg, sq):
                        return "the factor is %s with square %s, it should be %s with square %s" % ("+-"[f[0] < 0], f[1], "+-"[sg < 0], sq)
                    return None
                inst = "%s, %s on %s%s" % (T, wtxt(word), ", ".join("%s%s=%d" % (m[0], m[-1], vals[m]) for m in named), ", small tables" if small else "")
                for k, v, dec in I.explore(go):
                    first = word[0][0] if word else "f"
                    if not ctx.ob(rule, inst, k == "ok" and v is None, describe(k, v) if k != "ok" else v or "",
                                  getattr(v, "loc", None) if k == "bad" else loc[first]):
                        break

        def fwords(modes):
            """canonical products over the modes: every set of creation and annihilation operators"""
            for cs in itertools.product((0, 1, 2, 3), repeat=len(modes)):
                cr = [("f", True, m) for m, c in zip(modes, cs) if c & 1]
                an = [("f", False, m) for m, c in reversed(list(zip(modes, cs))) if c & 2]
                yield tuple(cr + an)
        thorough = ctx.thorough
        if not small:
            # fermions
            lay = (tuple(range(7)), ((0, 3),), ((2, 0),))
            seen = set()
            for modes in ((1, 2, 4, 6), (0, 3, 5)) if not thorough else ((1, 2, 4, 6), (0, 3, 5), (0, 1, 2, 3, 5)):
                for w in fwords(modes):
                    if w in seen or (len({g[2] for g in w}) == 4 and len(w) > 6 and not thorough):
                        continue
                    seen.add(w)
                    check("fermion", "MF", w, lay)
            far = (tuple(range(62)), (), ())
            for modes in ((3, 31, 33, 61),) if thorough else ((3, 33, 61),):
                for w in fwords(modes):
                    if w and len(w) <= 3:
                        check("fermion", "MF", w, far)
        # bosons
        dims = (2, 3, 4, 5, 8) if not thorough else (2, 3, 4, 5, 6, 7, 8, 9, 16)
        pmax = 3 if not thorough else 5
        for d in dims if not small else (2, 4, 5):
            for p in range(pmax + 1):
                for q in range(pmax + 1):
                    if p + q == 0:
                        continue
                    w = (("b", True, 1),) * p + (("b", False, 1),) * q
                    check("boson", "MB", w, ((0, 1), ((0, 3), (1, d), (2, 2)), ()))
        two = [w for w in (
            (("b", True, 0), ("b", True, 2)), (("b", True, 0), ("b", False, 2)), (("b", True, 2), ("b", False, 0)),
            (("b", False, 2), ("b", False, 0)), (("b", True, 0), ("b", True, 0), ("b", True, 2), ("b", False, 2), ("b", False, 0)),
            (("b", True, 0), ("b", True, 2), ("b", True, 2), ("b", False, 0)), (("b", True, 0), ("b", False, 2), ("b", False, 2), ("b", False, 2)))]
        for w in two:
            check("boson", "MB", w, ((), ((0, 3), (1, 4), (2, 5)), ((3, 1),)))
        if not small:
            some = lambda m, d: sorted({x for x in (0, 1, 2, 126, 127, 128, 129, 130, d - 2, d - 1) if 0 <= x < d})
            for p, q in ((1, 0), (0, 1), (2, 0), (0, 2), (3, 3), (40, 0), (0, 40)):
                check("boson", "MB", (("b", True, 1),) * p + (("b", False, 1),) * q, ((0,), ((0, 2), (1, 200)), ()), states=some)
        # spins
        for m in (2, 3, 4, 5, 6) if not thorough else (2, 3, 4, 5, 6, 7, 8, 9):
            if small and m not in (2, 3, 4):
                continue
            for p, q, r in itertools.product(range(4), repeat=3):
                if p + q + r == 0 or (p + q + r > 5 and not thorough):
                    continue
                w = (("s", m, PLUS, 1),) * p + (("s", m, MINUS, 1),) * q + (("s", m, Z, 1),) * r
                check("spin", "MS", w, ((0,), (), ((2, 0), (3, 0), (m, 1), (5, 2)) if m != 5 else ((2, 0), (m, 1), (5, 2))))
        if not small:
            some = lambda m, d: sorted({0, 1, 2, d // 2 - 1, d // 2, d - 3, d - 2, d - 1})
            for m in (24, 25, 40):
                for c, p in ((PLUS, 1), (MINUS, 1), (PLUS, 3), (MINUS, 3), (Z, 1), (Z, 2), (Z, 3)):
                    check("spin", "MS", (("s", m, c, 1),) * p, ((), (), ((2, 0), (m, 1), (3, 2))), states=some)
        for w in ((("s", 2, PLUS, 0), ("s", 2, MINUS, 1)), (("s", 2, MINUS, 0), ("s", 2, PLUS, 1)), (("s", 2, PLUS, 0), ("s", 3, PLUS, 0)),
                  (("s", 2, Z, 0), ("s", 3, MINUS, 0)), (("s", 3, PLUS, 0), ("s", 3, Z, 0), ("s", 3, MINUS, 1)),
                  (("s", 3, PLUS, 0), ("s", 3, PLUS, 0), ("s", 3, MINUS, 1), ("s", 3, MINUS, 1)), (("s", 2, Z, 0), ("s", 2, Z, 1)),
                  (("s", 2, PLUS, 0), ("s", 2, Z, 1), ("s", 3, Z, 0), ("s", 3, Z, 0), ("s", 3, PLUS, 1))):
            check("spin", "MS", w, ((0, 1), ((0, 3),), ((2, 0), (2, 1), (3, 0), (3, 1))))
        # products of several algebras
        if small and not thorough:
            ctx.used(I)
            continue
        fs = ((), (("f", True, 1),), (("f", False, 2),), (("f", True, 1), ("f", False, 1)), (("f", True, 0), ("f", False, 2)), (("f", True, 0), ("f", True, 2), ("f", False, 1)))
        bs = ((), (("b", True, 0),), (("b", True, 1), ("b", False, 0)), (("b", True, 0), ("b", False, 0), ("b", False, 0)))
        ss = ((), (("s", 2, PLUS, 0),), (("s", 3, MINUS, 0), ("s", 3, Z, 0)), (("s", 2, MINUS, 0), ("s", 3, PLUS, 0)))
        for f, b, s in itertools.product(fs, bs, ss):
            lay = ((0, 1, 2, 3), ((0, 3), (1, 2)), ((2, 0), (3, 0)))
            check("mixed", "MA", f + b + s, lay)
            if not b:
                check("mixed", "MFS", f + s, lay)
        ctx.used(I)
