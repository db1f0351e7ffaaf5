"""Basis mappers, decided by abstract interpretation of the constructors of basis_mapper.
Products of operators act through a user-defined monomial_action whose matrix elements are
distinct formal amplitudes, so that every amplitude arrived at identifies the sequence of
operators it comes from; sums of amplitudes may or may not cancel (both are explored). The
mapper must contain exactly the states with a non-zero amplitude in at least one of
O_1^{n_1} ... O_M^{n_M}|0>, n_1 + ... + n_M = N, numbered 0 to size - 1; its size and inverse
must describe the same mapping."""
from parts import *

LEVEL = "other"
ASSUMPTIONS = ["lists of up to 3 operators, powers up to 4, couplings of up to 6 states enumerated (chosen partial maps of the states)",
               "products of numbers that count as non-zero count as non-zero"]
NEED = {"states": 600, "numbering": 600, "inverse": 600, "list of states": 20, "single operator": 60}


class MD(PD):
    def __init__(self):
        super().__init__(src="mapper.cpp")
        S, fl = self.S, "mapped_basis_view.hpp"

        def assign(I, f, this, args):
            v = I.load(args[0])
            if S.isS(v):
                return NotImplemented
            I.store(this, S.mk("DA", v))
            return this
        self.I.ext["vp::DA::operator="] = assign
        old = S.zero

        def zero(I, p, t=None):
            if not p.is_const() and product(S, p):
                return False
            return old(I, p, t)
        S.zero = zero
        self.lc = floc(self, "libcommute::basis_mapper::basis_mapper", fl)
        self.li = floc(self, "libcommute::basis_mapper::inverse_map", fl)

    def tab(self, m):
        return {self.val("mp_key", m, k): self.val("mp_val", m, k) for k in range(self.val("mp_n", m))}

    def op(self, terms, k=None):
        for t in k or ():
            (a,) = self.I.uf("K", t, nc=True).atoms()
            self.S.coef_atoms[a] = "DA"
        return super().op(terms, k)

    def optional(self, p):
        """a sum that was never tested itself, while other (maybe partial) sums counted as zero"""
        return not product(self.S, p) and self.S.known(self.I, p) is None and any(k[0] == "zero" and v for k, v in self.I.dec.items())

    def apply(self, terms, vec, fk):
        """oracle: one operator applied to {state: amplitude}"""
        out = {}
        for n, a in vec.items():
            for t in terms:
                r = self.table[t].get(n)
                if r is not None:
                    c = self.I.uf("K", t, nc=True) if t in fk else Poly.const(1)
                    out[r] = out.get(r, Poly.const(0)) + a * c * self.me(t, n)
        return {r: p for r, p in out.items() if not (p == 0 or (not product(self.S, p) and self.S.known(self.I, p) is True))}

    def reach(self, ops, N, fk):
        """{state: witness} of the states that must be present"""
        must = {}
        for comp in compositions(len(ops), N):
            v = {0: Poly.const(1)}
            for o, k in reversed(list(zip(ops, comp))):
                for _ in range(k):
                    v = self.apply(o, v, fk)
            for s, p in v.items():
                if s not in must or must[s][2]:
                    must[s] = (comp, p, self.optional(p))
        return must


def product(S, p):
    if len(p.m) != 1:
        return False
    (c, n), = p.m
    return all(a in S.coef_atoms for a in c + n)


def compositions(m, n):
    if m == 0:
        if n == 0:
            yield ()
        return
    for k in range(n + 1):
        for r in compositions(m - 1, n - k):
            yield (k,) + r


def wname(comp):
    return " ".join("O%d^%d" % (i + 1, k) for i, k in enumerate(comp)) + "|0>"


def judge(D, b, want):
    got = D.tab(Cell(D.val("bm_map", b)))
    for s in sorted(set(got) | set(want)):
        if s not in got and not want[s][2]:
            return "states", "state %d has the amplitude %r in %s and is missing" % (s, want[s][1], wname(want[s][0]))
        if s in got and s not in want:
            return "states", "state %d is included although it does not contribute to any of the states" % s
    if sorted(got.values()) != list(range(len(got))):
        return "numbering", "states are mapped to %r" % (sorted(got.items()),)
    if D.val("bm_size", b) != len(got):
        return "numbering", "size() is %r with %d states" % (D.val("bm_size", b), len(got))
    inv = D.tab(Cell(D.val("bm_inv", b)))
    if inv != {v: k for k, v in got.items()}:
        return "inverse", "inverse_map() is %r for the mapping %r" % (sorted(inv.items()), sorted(got.items()))
    c = Cell(D.val("bm_copy", b))
    if D.tab(Cell(D.val("bm_map", c))) != got:
        return "inverse", "a copy of the mapper contains another mapping"


def run(ctx):
    D = MD()
    I = D.I
    T = ctx.thorough

    def record(rules, inst, thunk):
        for k, v, dec in I.explore(thunk):
            rule, msg = (rules[0], describe(k, v)) if k != "ok" else v if v else (None, "")
            if rule is not None and rule not in rules:
                rule = rules[0]
            for r in rules:
                bad = rule == r
                ctx.ob(r, inst, not bad, msg if bad else "", (getattr(v, "loc", None) if k == "bad" else None) or (D.li if r == "inverse" else D.lc))
            if rule is not None:
                break

    # lists of distinct states
    lists = [(), (0,), (5,), (3, 5, 6), (6, 5, 3), (0, 1, 2, 3), (3, 1, 0, 2), (9, 3, 0, 12, 5), (1 << 40, 1 << 33, 7), ((1 << 63) + 1, 1, (1 << 32) + 1)]
    lists += list(itertools.permutations((0, 2, 7))) + (list(itertools.permutations((1, 4, 6, 9))) if T else list(itertools.permutations((1, 4, 6, 9)))[::3])
    for l in lists:
        def go():
            v = Cell(D.val("il_new"))
            for n in l:
                D.call("il_put", v, n)
            b = Cell(D.val("bm_list", v))
            want = {n: k for k, n in enumerate(l)}
            got = D.tab(Cell(D.val("bm_map", b)))
            if got != want:
                return "list of states", "the mapping is %r, positions in the list are %r" % (sorted(got.items()), sorted(want.items()))
            if D.val("bm_size", b) != len(l):
                return "list of states", "size() is %r" % D.val("bm_size", b)
            if D.tab(Cell(D.val("bm_inv", b))) != {k: n for n, k in want.items()}:
                return "list of states", "inverse_map() is %r" % sorted(D.tab(Cell(D.val("bm_inv", b))).items())
        record(("list of states",), "states %r" % (list(l),), go)

    # operators: each is a tuple of term numbers with its table
    def case(spec, table, ops, N, fk, single=False):
        st, size = states_of(spec)
        inst = "%s; %s%s" % (", ".join("O%d = %s" % (k + 1, " + ".join("%st%d" % ("K*" if t in fk else "", t) for t in o) or "0") for k, o in enumerate(ops)) or "no operators",
                             "; ".join("t%d: %s" % (t, ", ".join("%d->%d" % x for x in sorted(m.items())) or "nothing") for t, m in sorted(table.items())),
                             "" if single else "; N = %d" % N)

        def go():
            D.table = table
            sp = D.space(spec)
            if single:
                b = Cell(D.val("bm_op_" + spec[0], D.op(ops[0], fk), sp))
            else:
                l = Cell(D.val("ll_new"))
                for o in ops:
                    D.call("ll_put", l, D.op(o, fk))
                b = Cell(D.val("bm_ops_" + spec[0], l, sp, N))
            e = judge(D, b, D.reach(ops, N, fk))
            return ("single operator", e[1]) if single and e else e
        record(("single operator",) if single else ("states", "numbering", "inverse"), inst, go)

    def prune(m):
        return {a: b for a, b in m.items() if b is not None}

    U3, U4, U6 = ("u", 4, (0, 1, 2)), ("u", 4, (0, 1, 2, 3)), ("u", 8, (0, 1, 2, 3, 4, 5))
    H = ("h", (("f", 0), ("b", 3, 0)))
    hst = states_of(H)[0]
    m3 = [prune(m) for m in maps((0, 1, 2))]
    m4 = [prune(m) for m in maps((0, 1, 2, 3))]
    up = {n: n + 1 for n in range(5)}
    dn = {n + 1: n for n in range(5)}
    hup, hdn = dict(zip(hst, hst[1:])), dict(zip(hst[1:], hst))
    # one operator
    for m in m3:
        case(U3, {0: m}, ((0,),), 1, (), single=True)
    for m in m4[::29]:
        case(U4, {0: m, 1: {0: 2, 1: 0}}, ((0, 1),), 1, (1,), single=True)
    for o, tb in [((0, 1), {0: {0: 1}, 1: {0: 1}}), ((0, 1, 2), {0: {0: 1}, 1: {0: 1}, 2: {0: 3}}), ((), {}), ((0, 1, 2), {0: {0: 2}, 1: {0: 2}, 2: {0: 2}})]:
        case(U4, tb, (o,), 1, (0,), single=True)
    case(H, {0: hup}, ((0,),), 1, (), single=True)
    case(H, {0: {0: hst[-1]}, 1: {0: hst[2]}}, ((0, 1),), 1, (), single=True)
    # lists
    for N in range(5 if T else 4):
        case(U3, {}, (), N, ())
        for m in m3[::1 if T else 3]:
            case(U3, {0: m}, ((0,),), N, ())
        case(U6, {0: up}, ((0,),), N, (0,))
        for a, b in ((up, dn), (dn, up), (up, up), (dn, dn)):
            case(U6, {0: a, 1: b}, ((0,), (1,)), N, ())
            case(U6, {0: a, 1: b}, ((0, 1), (1,)), N, ())
            case(U6, {0: a, 1: b}, ((1,), (0, 1)), N, (1,))
        case(U6, {0: up}, ((0,), (0,)), N, ())                      # the same operator twice
        case(U6, {0: up}, ((), (0,)), N, ())                        # an operator that vanishes
        case(U6, {0: up}, ((0,), ()), N, ())
        case(H, {0: hup, 1: hdn}, ((0,), (1,)), N, ())
        case(H, {0: hup, 1: {hst[1]: hst[-1], hst[2]: 0}}, ((1,), (0,)), N, ())
    k = 7 if T else 61
    for i, (a, b) in enumerate(itertools.product(m3, m3)):
        if i % k == 0:
            case(U3, {0: a, 1: b}, ((0,), (1,)), 2, ())
        if i % k == 1:
            case(U3, {0: a, 1: b}, ((0,), (1,)), 3, ())
        if i % k == 2:
            case(U3, {0: a, 1: b}, ((0,), (1,)), 1, (0,))
    # many states at once
    wide = {t: {n: (n + t) % 6 for n in range(6)} for t in range(6)}
    case(U6, wide, (tuple(range(6)),), 1, (3,), single=True)
    case(U6, wide, ((1, 4), (0,)), 2, ())
    case(U6, wide, (tuple(range(6)),), 1, ())
    case(U6, wide, ((0, 1), (3,), (5,)), 1, ())
    # raising operators of modes: fixed numbers of particles
    modes = {t: {n: n | 1 << t for n in range(8) if not n >> t & 1} for t in range(3)}
    U8 = ("u", 8, tuple(range(8)))
    for N in range(5):
        case(U8, modes, ((0,), (1,), (2,)), N, ())
        case(U8, modes, ((2,), (0,), (1,)), N, ())
        case(U8, modes, ((0,), (1,)), N, ())
        case(U8, modes, ((0,), (1,), (0,)), N, ())
        if N <= 3:
            case(U8, modes, ((0, 1), (2,)), N, ())
            case(U8, modes, ((2,), (0, 1)), N, (0,))
        if N <= (3 if T else 2):
            case(U8, modes, ((0, 1), (1, 2)), N, ())
    # order: an operator acts only after another one
    for x in itertools.permutations(range(3)):
        tb = {0: {0: 1}, 1: {1: 2}, 2: {2: 4, 0: 3}}
        for N in range(1, 4):
            case(U6, tb, tuple((t,) for t in x), N, ())
    # sums that may cancel on the way
    for N in range(1, 4):
        case(U6, {0: {0: 1, 1: 3}, 1: {0: 1, 3: 4}, 2: {1: 2}}, ((2,), (0, 1)), N, ())
        case(U6, {0: {0: 1, 1: 3}, 1: {0: 2, 2: 3}, 2: {3: 5}}, ((2,), (0, 1)), N, ())
        case(U6, {0: {0: 0, 1: 1}, 1: {0: 0, 1: 2}}, ((0, 1),), N, ())
    ctx.used(I)
