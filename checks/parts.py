"""Space partitions of operators whose matrix elements are formal amplitudes."""
import itertools
from salg import *


class PD(Driver):
    def __init__(self, budget=4000000, src="partition.cpp"):
        P = export(src)
        self.S = SAlg(P)
        self.table = {}
        ext = {}
        ext.update(self.S.ext())
        ext["vp::act_hook"] = self.act
        super().__init__(P, ext, budget)
        self.err = None
        fl = "space_partition.hpp"
        self.L = {n: floc(self, "libcommute::space_partition::" + n, fl) for n in
                  ("space_partition", "merge_subspaces", "find_connections", "operator[]", "subspace_basis", "subspace_bases")}

    def act(self, I, f, this, a):
        t, n, c = I.load(a[0]), I.load(a[1]), I.load(a[2])
        r = self.table[t].get(n)
        if r is None:
            # whatever is left behind must not matter
            I.store(a[1], 0)
            I.store(a[2], self.S.mk("DA", I.uf("junk", t, n)))
            return False
        I.store(a[1], r)
        I.store(a[2], self.S.mk("DA", c.attr * self.me(t, n)))
        return True

    def me(self, t, n):
        """non-zero matrix element of term t between state n and its image"""
        p = self.I.uf("me%d" % t, n, nc=True)
        (a,) = p.atoms()
        self.S.coef_atoms[a] = "DA"
        return p

    def op(self, terms, k=None):
        """operator: sum of the terms, with formal coefficients for the terms in k"""
        e = Cell(self.val("e_new"))
        for t in terms:
            m = Cell(self.val("m_make", Cell(Vec(None, [Cell(SP(self.gen("gen_u", t)))]))))
            self.call("e_put", e, m, Cell(self.S.mk("DA", self.I.uf("K", t, nc=True) if k and t in k else 1)))
        return Cell(self.val("l_make", e))

    def space(self, spec):
        """('u', size, states) or ('h', elementary spaces)"""
        if spec[0] == "u":
            s = Cell(self.val("u_new", spec[1]))
            for n in spec[2]:
                self.call("u_put", s, n)
            return s
        h = Cell(self.val("h_new"))
        for x in spec[1]:
            if x[0] == "f":
                self.call("h_f", h, x[1])
            else:
                self.call("h_b", h, x[1], x[2])
        return h

    def elements(self, terms, states, k=None):
        """oracle: {(in, out): amplitude} with the amplitudes decided zero on this path left out"""
        out = {}
        for n in states:
            for t in terms:
                r = self.table[t].get(n)
                if r is not None:
                    c = self.I.uf("K", t, nc=True) if k and t in k else Poly.const(1)
                    x = c * self.me(t, n)
                    if self.S.known(self.I, x) is not True:
                        out[n, r] = out.get((n, r), Poly.const(0)) + x
        res = {}
        for e, p in out.items():
            z = True if p == 0 else self.S.known(self.I, p)
            if z is None:
                return None, "the amplitude of %d in the image of %d, %r, is never tested" % (e[1], e[0], p)
            if not z:
                res[e] = p
        return res, None

    def observe(self, kind, p, states):
        return {n: self.val("at_" + kind, p, n) for n in states}

    def melems(self, c):
        """the recorded matrix elements as {(row, column): amplitude}"""
        return {(self.val("m_row", c, k), self.val("m_col", c, k)): self.val("m_at", c, k).attr for k in range(self.val("m_size", c))}

    def conns(self, c):
        return {(self.val("c_row", c, k), self.val("c_col", c, k)) for k in range(self.val("c_size", c))}

    def il(self, c):
        return [self.val("il_at", c, i) for i in range(self.val("il_n", c))]


def states_of(spec):
    if spec[0] == "u":
        return list(spec[2]), spec[1]
    dims = [2 if x[0] == "f" else x[1] for x in spec[1]]
    out, sh = [0], 0
    for d in dims:
        out = [s + (x << sh) for x in range(d) for s in out]
        sh += (d - 1).bit_length()
    return sorted(out), 1 << sh


def components(states, edges):
    par = {s: s for s in states}

    def find(x):
        while par[x] != x:
            x = par[x]
        return x
    for a, b in edges:
        par[find(a)] = find(b)
    return {s: find(s) for s in states}


def same_partition(states, got, want):
    """'' or the first pair of states the two partitions disagree about"""
    for x, y in itertools.combinations(states, 2):
        if (got[x] == got[y]) != (want[x] == want[y]):
            return "states %d and %d are %s" % (x, y, "in one subspace although nothing connects them" if got[x] == got[y] else
                                               "connected but put into different subspaces")
    return ""


def closure(states, comp, ops):
    """coarsest necessary merging: each operator connects a subspace to one subspace at most"""
    comp = dict(comp)
    while True:
        done = True
        for edges in ops:
            to = {}
            for a, b in edges:
                x, y = comp[a], comp[b]
                z = to.setdefault(x, y)
                if z != y:
                    for s in states:
                        if comp[s] == y:
                            comp[s] = z
                    done = False
                    break
            if not done:
                break
        if done:
            return comp


def maps(states, k=None):
    """all partial maps of the states"""
    for im in itertools.product([None] + list(states), repeat=len(states)):
        yield dict(zip(states, im))
