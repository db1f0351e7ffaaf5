"""State vectors of every type and views of them with formal amplitudes."""
import itertools
from salg import *

READABLE = ("mb", "mbo", "mbc", "mboc", "cs", "cso", "csc", "csoc", "nf", "nfo", "nfc", "nfoc", "nfs", "nft",
            "nm", "nmo", "nmc", "nmoc", "nms", "nmt")
CONSTV = tuple(k for k in READABLE if k.endswith("c"))
OWNING = ("mbo", "mboc", "cso", "csoc", "nfo", "nfoc", "nmo", "nmoc")
BASE = ("v", "n", "s", "ev", "seg", "col", "blk", "map")
NAMES = {"v": "std::vector", "n": "std::vector of scalars without +=", "s": "sparse_state_vector", "ev": "Eigen vector",
         "seg": "Eigen vector block", "col": "Eigen matrix column", "blk": "Eigen N x 1 block", "map": "Eigen map",
         "mb": "mapped_basis_view", "cs": "compressed_state_view", "nf": "n_fermion_sector_view",
         "nm": "n_fermion_multisector_view"}


FILES = {"v": "state_vector.hpp", "n": "state_vector.hpp", "s": "sparse_state_vector.hpp", "mb": "mapped_basis_view.hpp",
         "cs": "compressed_state_view.hpp", "nf": "n_fermion_sector_view.hpp", "nm": "n_fermion_sector_view.hpp"}


def kfile(k):
    return FILES.get(k) or FILES.get(k[:2]) or "state_vector_eigen3.hpp"


def kname(k):
    b = NAMES.get(k) or NAMES[k[:2]]
    s = k[2:] if k not in NAMES else ""
    return b + {"": "", "o": " (owning)", "c": " of a constant vector", "oc": " owning a constant vector",
                "s": " with staggered_ranking", "t": " with trie_ranking"}[s]


class VD(Driver):
    def __init__(self, budget=4000000):
        P = export("vectors.cpp", includes=["stub"])
        self.S = SAlg(P)
        ext = idx_ext(())
        for k, h in self.S.ext().items():
            ext[k] = EDriver._both(ext[k], h) if k in ext else h
        super().__init__(P, ext, budget)

    def kloc(self, q, kind):
        return floc(self, "libcommute::" + q, kfile(kind))

    def amps(self, kinds, name="a", t="DA"):
        out = []
        for k, c in enumerate(kinds):
            out.append(self.S.mk(t, 0) if c == "z" else self.S.fresh(self.I, t, "%s%d" % (name, k), nonzero=c == "n"))
        return out

    def scalar(self, name, t="DA", nonzero=False):
        return self.S.fresh(self.I, t, name, nonzero=nonzero)

    def same(self, got, want):
        d = got - want
        return d == 0 or self.S.known(self.I, d) is True

    def vector(self, objs):
        c = Cell(self.val("v_new"))
        for o in objs:
            self.call("v_push", c, Cell(o))
        return c

    def vobs(self, c):
        return [self.val("v_at", c, i).attr for i in range(self.val("v_n", c))]

    # -- underlying vectors
    def base(self, kind, kinds, pad=1):
        """vector under test, function reading its elements, function reading what surrounds it"""
        objs = self.amps(kinds, t="DN" if kind == "n" else "DA")
        n = len(objs)
        if kind == "v":
            c = self.vector(objs)
            return c, lambda: self.vobs(c), lambda: [], [o.attr for o in objs]
        if kind == "n":
            c = Cell(self.val("n_new"))
            for o in objs:
                self.call("n_push", c, Cell(o))
            return c, lambda: [self.val("n_at", c, i).attr for i in range(self.val("n_n", c))], lambda: [], [o.attr for o in objs]
        if kind == "s":
            c = Cell(self.val("s_new", n))
            for i, o in enumerate(objs):
                if not (o.attr == 0):
                    self.call("s_put", c, i, Cell(o))
            return c, lambda: [self.val("get_s", c, i).attr for i in range(self.val("s_size", c))], lambda: [], [o.attr for o in objs]
        rim = self.amps("n" * (2 * pad), "rim")
        if kind in ("ev", "seg", "map"):
            full = objs if kind == "ev" else rim[:pad] + objs + rim[pad:]
            off = 0 if kind == "ev" else pad
            bk = self.vector(full)
            if kind == "map":
                c = Cell(self.val("map_new", bk, off, n))
                return c, lambda: self.vobs(bk)[off:off + n], lambda: self.vobs(bk)[:off] + self.vobs(bk)[off + n:], [o.attr for o in objs]
            e = Cell(self.val("ev_new", bk))
            obs = lambda: [self.val("ev_at", e, i).attr for i in range(self.val("ev_n", e))]
            if kind == "ev":
                return e, obs, lambda: [], [o.attr for o in objs]
            c = Cell(self.val("seg_new", e, off, n))
            return c, lambda: obs()[off:off + n], lambda: obs()[:off] + obs()[off + n:], [o.attr for o in objs]
        # a column (part) of a matrix with three columns
        rows = n if kind == "col" else n + 2
        i0 = 0 if kind == "col" else 1
        rest = iter(self.amps("n" * (3 * rows - n), "rim"))
        full = [objs[i - i0] if j == 1 and i0 <= i < i0 + n else next(rest) for j in range(3) for i in range(rows)]
        e = Cell(self.val("em_new", self.vector(full), rows, 3))
        at = lambda i, j: self.val("em_at", e, i, j).attr
        c = Cell(self.val("col_new", e, 1, n) if kind == "col" else self.val("blk_new", e, i0, 1, n))
        return (c, lambda: [at(i0 + i, 1) for i in range(n)],
                lambda: [at(i, j) for j in range(3) for i in range(rows) if not (j == 1 and i0 <= i < i0 + n)], [o.attr for o in objs])

    def log(self, kind, c, lv=False):
        n = kind == "n"
        l = Cell(self.val("logn_new" if n else "log_new"))
        self.call(("eachl_" if lv else "each_") + kind, c, l)
        p = "logn_" if n else "log_"
        return [(self.val(p + "n", l, i), self.val(p + "a", l, i).attr) for i in range(self.val(p + "size", l))]

    # -- Hilbert spaces and views
    def hs(self, spec):
        """spec: list of ('f', index) / ('b', dim, index), in the order of the bits"""
        h = Cell(self.val("hs_new"))
        for s in spec:
            if s[0] == "f":
                self.call("hs_f", h, s[1])
            else:
                self.call("hs_b", h, s[1], s[2])
        return h

    def sds(self, sectors):
        l = Cell(self.val("sd_new"))
        for ind, n in sectors:
            self.call("sd_add", l, n)
            for i in ind:
                self.call("sd_idx", l, i)
        return l

    def mapper(self, states):
        l = Cell(self.val("il_new"))
        for n in states:
            self.call("il_push", l, n)
        return Cell(self.val("bm_new", l))

    def view(self, kind, conf, W, vec):
        fam = kind[:2]
        if fam == "mb":
            a = [self.mapper(conf)]
        elif fam == "cs":
            a = [self.hs(conf)]
        elif fam == "nf":
            a = [self.hs(conf[0]), conf[1]]
        else:
            a = [self.hs(conf[0]), self.sds(conf[1])]
        return Cell(self.val("mk_%s_%s" % (kind, W), *(a + [vec])))


def bits(dim):
    return (dim - 1).bit_length()


def layout(spec):
    out, b = [], 0
    for s in spec:
        d = 2 if s[0] == "f" else s[1]
        out.append((b, bits(d), d, s))
        b += bits(d)
    return out, b


def states(kind, conf):
    """valid basis states of a view (oracle)"""
    fam = kind[:2]
    if fam == "mb":
        return list(conf)
    spec = conf if fam == "cs" else conf[0]
    lay, nb = layout(spec)
    out = []
    for digits in itertools.product(*[range(d) for _, _, d, _ in reversed(lay)]):
        digits = digits[::-1]
        st = sum(x << l[0] for x, l in zip(digits, lay))
        occ = {l[3][1]: x for x, l in zip(digits, lay) if l[3][0] == "f"}
        if fam == "nf" and sum(occ.values()) != conf[1]:
            continue
        if fam == "nm" and any(sum(occ[i] for i in ind) != n for ind, n in conf[1]):
            continue
        out.append(st)
    return sorted(out)


def F(*i):
    return [("f", k) for k in i]


CONFS = {
    "mb": [[], [5], [5, 2, 9]],
    "cs": [[("b", 3, 0)], F(0) + [("b", 3, 0)], [("b", 3, 0), ("b", 2, 1)], [("b", 3, 0), ("b", 3, 1)],
           F(0, 1), [("b", 1, 0)], [("b", 1, 0), ("b", 3, 1)], F(0) + [("b", 3, 0), ("b", 2, 1), ("b", 3, 2)]],
    "nf": [(F(0, 1, 2), 1), (F(0, 1, 2), 2), (F(0, 1, 2, 3), 2), (F(0, 1), 0), (F(0, 1), 2), ([("b", 4, 0)], 0),
           (F(0, 1) + [("b", 2, 0)], 1), (F(0, 1, 2) + [("b", 4, 0)], 2), (F(0), 1)],
    "nm": [(F(0, 1, 2, 3), [([0, 2], 1), ([1], 1)]), (F(0, 1, 2, 3), [([0, 1], 1), ([2, 3], 1)]),
           (F(0, 1), []), (F(0, 1, 2), [([], 0), ([0, 2], 1)]), (F(0, 1, 2) + [("b", 2, 0)], [([2, 0], 1)]),
           (F(0, 1, 2), [([1, 2], 2), ([0], 0)]), (F(0, 1, 2, 3), [([0, 1, 3], 2)])],
}
CONFS_T = {
    "mb": [[0, 1, 2, 3], [7, 3, 1, 0, 12]],
    "cs": [[("b", 5, 0), ("b", 3, 1)], [("b", 3, 0), ("b", 3, 1), ("b", 3, 2)], [("b", 4, 0), ("b", 6, 1), ("b", 2, 2)]],
    "nf": [(F(0, 1, 2, 3, 4), n) for n in range(6)] + [(F(0, 1, 2, 3, 4, 5), 3), (F(0, 1, 2) + [("b", 2, 0), ("b", 4, 1)], 1)],
    "nm": [(F(0, 1, 2, 3, 4), [([4, 0, 2], 1), ([1, 3], 1)]), (F(0, 1, 2, 3, 4), [([1, 3, 4], 2)]),
           (F(0, 1, 2, 3) + [("b", 2, 0), ("b", 2, 1)], [([3, 1], 1)])],
}
