"""Index translations of views as linear forms over the bits of the state index (shared by the
checks of compressed and of sector views)."""
import itertools
from fractions import Fraction
from util import *
import absint
from bv import BV, Aff, Lin, ZERO, ONE, reduce, merge, decide


def half(n):
    x = Fraction(n, 2)
    return int(x) if x.denominator == 1 else x


class VD(Driver):
    """driver of views over a recording vector"""

    def __init__(self):
        self.log = []
        self.ranks = {}
        ext = {"vp::get_element": self._get, "vp::update_add_element": self._upd, "vp::got": self._got,
               "vp::rank_new": self._rnew, "vp::rank_state": self._rstate, "vp::Rank::operator()": self._rank,
               "libcommute::scalar_traits::is_zero": self._zero}
        super().__init__(export("index.cpp"), ext, budget=6000000)
        self.zeros = False

    # hooks
    def _amp(self, what):
        return self.idx(what, "DA")

    def _get(self, I, f, this, args):
        if "Rec" not in I.T[f["params"] and I.V[f["params"][0]]["t"]]["s"]:
            return NotImplemented
        n = I.load(args[1])
        self.log.append(("get", n))
        return self._amp(("amp", n))

    def _upd(self, I, f, this, args):
        n, x = I.load(args[1]), I.load(args[2])
        self.log.append(("upd", n, x.attr if isinstance(x, Obj) else x))

    def _got(self, I, f, this, args):
        n, x = I.load(args[0]), I.load(args[1])
        self.log.append(("got", n, x.attr if isinstance(x, Obj) else x))

    def _zero(self, I, f, this, args):
        v = I.load(args[0])
        if not isinstance(v, Obj) or v.attr is None:
            return NotImplemented
        if not self.zeros:
            return False
        return I.decide(("zero", v.attr), "%r is zero" % (v.attr,))

    def _rnew(self, I, f, this, args):
        k = len(self.ranks) + 1
        self.ranks[k] = [I.load(args[0]), []]
        return k

    def _rstate(self, I, f, this, args):
        self.ranks[I.load(args[0])][1].append(I.load(args[1]))

    def _rank(self, I, f, this, args):
        tag = None
        for fl in self.P.all_fields(this.v.rec):
            tag = this.v.f[fl["d"]].v
        size, states = self.ranks[tag]
        s = I.load(args[0])
        self.log.append(("rank", tag, s))
        if isinstance(s, (BV, Aff, Lin)):
            b = s.bits() if isinstance(s, Lin) else BV.of(s)
            if b is None:
                raise I.bad("rank", "a sector's states are ranked by %r, which is not a bit pattern" % (s,))
            s = b.out(I)
        if isinstance(s, int):
            if len(states) == size:
                if s not in states:
                    raise absint.Infeasible()  # not a state of the sector
                return states.index(s)
            if size == 1:
                return 0
            return Lin({("r", "rank of state %d" % s, size): 1})
        if size == 1:
            return 0
        return Lin({("r", "rank of [%s]" % " ".join(map(repr, [x for x in s.b if x != ZERO])), size): 1})

    # evaluation
    def space(self, fer, bos, spn):
        h = Cell(self.val("hs_new"))
        for i in fer:
            self.call("hs_f", h, i)
        for i, d in bos:
            self.call("hs_b", h, d, i)
        for i, m in spn:
            self.call("hs_s", h, half(m - 1), i)
        return h

    def fields(self, h):
        """(first bit, number of bits, dimension) of the spaces, lowest bits first"""
        dims = [self.I.load(c) for c in self.val("hs_dims", h).items]
        first = [self.I.load(c) for c in self.val("hs_first", h).items]
        return [(f, max(1, (d - 1).bit_length()) if d > 1 else 0, d) for f, d in zip(first, dims)]

    def symbol(self, nbits):
        return BV([Aff({"n%d" % i}) for i in range(nbits)] + [ZERO] * (64 - nbits))


def paths(D, thunk, merging=True):
    """[(kind, value, log)] of thunk() in the linear domain; thunk returns the value"""
    I = D.I
    I.merger = merge if merging else None
    out = []
    try:
        def t():
            D.log, D.ranks = [], {}
            return thunk()
        for k, v, dec in I.explore(t, maxpaths=24 if merging else 3000):
            out.append((k, v, list(D.log), dict(I.dec), dict(D.ranks)))
    finally:
        I.merger = None
    return out


def target(log):
    """index the recorder was asked for, with what"""
    r = [x for x in log if x[0] in ("get", "upd")]
    return r


def good(form, v, log):
    """one element touched in the way asked"""
    t = target(log)
    if len(t) != 1:
        return False
    if form.endswith("upd"):
        return t[0][0] == "upd" and t[0][2] == ("x",)
    return t[0][0] == "get" and v == ("amp", t[0][1])


def radix(digits, total):
    """do the digits (weight, base) enumerate 0..total-1 one to one?"""
    at = 1
    for w, n in sorted(digits):
        if w != at:
            return "weights %s of the digits with bases %s do not enumerate 0..%d" % (
                [d[0] for d in sorted(digits)], [d[1] for d in sorted(digits)], total - 1)
        at *= n
    if at != total:
        return "the index takes %d values for %d states" % (at, total)
    return ""


def value(form, bit, rank):
    """value of a form for given bits (name -> 0/1) and rank atoms (key -> number)"""
    if isinstance(form, int):
        return form
    if isinstance(form, Aff):
        form = BV.of(form)
    par = lambda x: (sum(bit[n] for n in x.s) + x.c) & 1
    if isinstance(form, BV):
        return sum(par(x) << i for i, x in enumerate(form.b))
    r = form.c
    for k, w in form.t.items():
        r += w * ((sum(bit[n] for n in k[1]) & 1) if k[0] == "b" else rank(k))
    return r


def rejoin(I, ps, pick):
    """the element (pick(path)) as one form, from the forms on the paths of an analysis that
    split on single bits; None when they do not join"""
    def go(ps, i):
        if len(ps) == 1:
            return pick(ps[0])
        ks = [list(p[3].items()) for p in ps]
        if any(len(k) <= i or k[i][0] != ks[0][i][0] or k[i][0][0] != "gf2" for k in ks):
            return None
        a = go([p for p, k in zip(ps, ks) if k[i][1]], i + 1)
        b = go([p for p, k in zip(ps, ks) if not k[i][1]], i + 1)
        if a is None or b is None:
            return None
        r = merge(I, Aff(ks[0][i][0][1]), a, b)
        return None if r is NotImplemented else r
    I.reset()
    return go(ps, 0) if ps else None
