"""Sector views, decided by abstract interpretation over linear forms. The ranking of one
sector's states is left opaque: a ranking algorithm supplied by the analysis answers an
unknown bit pattern with an unknown number between 0 and the size of the sector. For every
enumerated arrangement of sectors (one N-fermion sector; up to three sectors of interleaved
modes; modes in no sector; bosons and spins) a view over a recording vector is asked for the
amplitude of a state with unknown bits. The ranking of every sector must have been asked
about exactly that sector's own bits in ascending order, and the index reached must be a
linear form in the ranks and the remaining bits whose weights enumerate 0, ..., size-1 one to
one. foreach() (every pattern of zero amplitudes) and the lists of basis states must pair
the elements with the same states, a sector's states being ranked in the order of the
library's own unranking generator."""
from viewmap import *

LEVEL = "other"
ASSUMPTIONS = ["a ranking algorithm numbers the states of one sector in the order of unranking_generator (see C22, not claimed)",
               "arrangements enumerated: up to 5 fermionic modes in up to 3 sectors with up to 3 further bits, and selected spaces of up to 60 bits"]
NEED = {"index": 200, "element": 50, "foreach": 50, "states": 200}


def binom(n, k):
    r = 1
    for i in range(k):
        r = r * (n - i) // (i + 1)
    return r if 0 <= k <= n else 0


def arrangements():
    """(fermions, bosons, spins, sectors as tuples of modes with N or a single N)"""
    out = []
    ex = [((), ()), ((2,), ()), ((4,), (2,)), ((), (4,))]
    for nf in range(6):
        for n in range(nf + 1):
            for b, s in ex:
                if nf or b or s:
                    out.append((nf, b, s, n))
    for nf in range(5):
        for a in itertools.product(range(4), repeat=nf):
            # in order of first use; 3: in no sector
            u = [x for x in a if x < 3]
            if [x for i, x in enumerate(u) if x not in u[:i]] != sorted(set(u)):
                continue
            k = len(set(u))
            secs = [tuple(i for i, x in enumerate(a) if x == j) for j in range(k)]
            for ns in itertools.product(*[range(len(x) + 1) for x in secs]):
                b, s = ex[(len(out) * 7) % 4]
                if nf or b or s:
                    out.append((nf, b, s, tuple(zip(secs, ns))))
    # more than one order of the sectors, empty sectors
    out += [(4, (), (), (((3, 1), 1), ((0, 2), 1))), (5, (2,), (), (((4, 2, 0), 2), ((1,), 0), ((3,), 1))), (3, (4,), (), (((), 0), ((2, 0), 1))),
            (4, (), (2,), (((2, 3), 1), ((), 0), ((0, 1), 2))), (5, (), (), (((2, 4), 1), ((0, 3), 1), ((1,), 1))), (6, (2,), (), (((5, 3, 1), 1), ((4, 2), 1)))]
    wide = []
    for nf, n in ((12, 5), (30, 7), (40, 20), (59, 3), (33, 32), (20, 0)):
        for b, s in (((), ()), ((16,), (2, 2))) if nf < 50 else (((), ()),):
            wide.append((nf, b, s, n))
    ev = lambda n, m, r: tuple(range(r, n, m))
    for nf, m in ((12, 2), (24, 3), (40, 3), (50, 5), (33, 2)):
        for b in ((), (8,)):
            wide.append((nf, b, (), tuple((ev(nf, m, r), len(ev(nf, m, r)) // 2 - r) for r in range(m))))
            wide.append((nf, b, (2,), tuple((ev(nf, m, r), r + 1) for r in reversed(range(1, m)))))
    wide.append((48, (), (), ((tuple(range(24)), 12), (tuple(range(24, 48)), 11))))
    return out, wide


def txt(s):
    t = "%d fermions" % s[0]
    if s[1]:
        t += ", bosons %s" % list(s[1])
    if s[2]:
        t += ", spins %s" % [str(half(m - 1)) for m in s[2]]
    if isinstance(s[3], int):
        return t + ", N = %d" % s[3]
    return t + ", sectors " + ("; ".join("%d in {%s}" % (n, ",".join(map(str, x))) for x, n in s[3]) or "none")


def run(ctx):
    D = VD()
    I = D.I
    small, wide = arrangements()
    floc_ = {k: floc(D, "libcommute::n_fermion_%s_view::map_index" % v) or "include/libcommute/loperator/n_fermion_sector_view.hpp"
             for k, v in (("nf", "sector"), ("nm", "multisector"))}
    skipped = []

    def setup(shape):
        h = D.space(range(shape[0]), list(enumerate(shape[1])), list(enumerate(shape[2])))
        a = shape[3]
        if not isinstance(a, int):
            l = Cell(D.val("sd_new"))
            for ind, n in a:
                D.call("sd_add", l, n)
                for i in ind:
                    D.call("sd_idx", l, i)
            a = l
        return h, a

    def geometry(shape):
        nb = shape[0] + sum((d - 1).bit_length() for d in shape[1] + shape[2])
        secs = [(tuple(range(shape[0])), shape[3])] if isinstance(shape[3], int) else shape[3]
        secs = [(tuple(sorted(x)), n) for x, n in secs]
        return nb, secs

    def ask(form, shape, n):
        h, a = setup(shape)
        r = Cell(D.val("rec_new"))
        if form.endswith("upd"):
            D.call(form, r, h, a, n, Cell(D._amp(("x",))))
        elif form.endswith("get"):
            v = D.val(form, r, h, a, n)
            return v.attr if isinstance(v, Obj) else v
        else:
            D.call(form, r, h, a)

    def index(form, shape, iswide):
        """(message, location, state -> element)"""
        loc = floc_[form[:2]]
        nb, secs = geometry(shape)
        total = 1 << (nb - sum(len(x) for x, n in secs))
        for x, n in secs:
            total *= binom(len(x), n)
        n = D.symbol(nb)
        try:
            ps = paths(D, lambda: ask(form, shape, n))
        except AnalysisError:
            ps = None
        lin = ps is not None and len(ps) == 1
        if not lin:
            if nb > 6:
                m = probe(form, shape, nb, secs)
                if m:
                    return m, loc, None
                raise AnalysisLimit("the index is not a linear form")
            ps = paths(D, lambda: ask(form, shape, n), False)
        table = []
        for k, v, log, dec, ranks in ps:
            fixed = [(a[1], int(x)) for a, x in dec.items() if isinstance(a, tuple) and a[0] == "gf2"]
            if k != "ok":
                if fixed and not any(agrees(st, fixed) for st in states(nb, secs)):
                    continue
                return describe(k, v), getattr(v, "loc", None) or loc, None
            t = target(log)
            if len(t) != 1:
                return "%d elements of the vector are touched" % len(t), loc, None
            if not good(form, v, log):
                return "the element is not increased by the given amount" if form.endswith("upd") else "the value returned is not the element read", loc, None
            if not lin:
                table.append((fixed, t[0][1]))
                continue
            L = Lin.of(I, t[0][1])
            left = dict(L.t)
            digits = []
            asked = {}
            for x in log:
                if x[0] == "rank":
                    asked.setdefault(Lin.of(I, x[2]), set()).add(x[1])
            order = {}
            for modes, N in secs:
                if not modes:
                    continue
                arg = Lin.of(I, BV([Aff({"n%d" % i}) for i in modes] + [ZERO] * (64 - len(modes))))
                size = binom(len(modes), N)
                tags = asked.get(arg, set())
                if size == 1 and not tags:
                    continue
                if len(tags) != 1:
                    return ("the sector's own bits %s are not ranked; ranked are %s" % (list(modes), ["{%r}" % a for a in asked]) if not tags
                            else "two rankings are asked about the bits %s" % list(modes)), loc, None
                got, sts = ranks[next(iter(tags))]
                if got != size or any(bin(s).count("1") != N or s >> len(modes) for s in sts):
                    return "the sector of %d fermions in modes %s is ranked as one of %d states like %s" % (N, list(modes), got, [bin(s) for s in sts[:3]]), loc, None
                order[modes] = sts
                if size > 1:
                    hit = [a for a in left if a[0] == "r" and a[1] == "rank of [%s]" % " ".join("n%d" % i for i in modes)]
                    w = left.pop(hit[0], 0) if hit else 0
                    digits.append((w, size))
            used = {i for m, N in secs for i in m}
            for i in range(nb):
                if i not in used:
                    digits.append((left.pop(("b", frozenset(["n%d" % i])), 0), 2))
            if left or L.c:
                return "the index is %r" % L, loc, None
            m = radix(digits, total)
            if m:
                return "the index is %r: %s" % (L, m), loc, None

            def g(st, L=L, order=order):
                def rank(key):
                    for modes, sts in order.items():
                        if key[1] == "rank of [%s]" % " ".join("n%d" % i for i in modes):
                            return sts.index(sum((st >> b & 1) << j for j, b in enumerate(modes)))
                return value(L, {"n%d" % i: st >> i & 1 for i in range(64)}, rank)
            return "", loc, g
        out = {}
        for st in states(nb, secs):
            hit = {value(e, {"n%d" % i: st >> i & 1 for i in range(64)}, None) for fixed, e in table if agrees(st, fixed)}
            if len(hit) != 1:
                return "state %d reaches %d elements" % (st, len(hit)), loc, None
            e = hit.pop()
            if not 0 <= e < total or e in out.values():
                return "state %d is given element %d, which is %s" % (st, e, "outside the vector" if not 0 <= e < total else "that of state %d" % next(a for a, b in out.items() if b == e)), loc, None
            out[st] = e
        return "", loc, out.get

    def probe(form, shape, nb, secs):
        """the index is not found to be a linear form: are there states that show it is wrong?"""
        base = sum(1 << i for x, n in secs for i in x[:n])
        top = sum(1 << i for x, n in secs for i in x[len(x) - n:])
        used = {i for x, n in secs for i in x}
        rest = [i for i in range(nb) if i not in used]
        seen = {}
        for st in [base, top] + [base | 1 << i for i in rest]:
            for k, v, log, dec, _ in paths(D, lambda: ask(form, shape, st)):
                if k != "ok":
                    return "state %d: %s" % (st, describe(k, v))
                if not good(form, v, log):
                    return "state %d: the element is not the one asked for" % st
                asked = [x[2] for x in log if x[0] == "rank"]
                for x, n in secs:
                    p = sum((st >> b & 1) << j for j, b in enumerate(x))
                    if binom(len(x), n) > 1 and p not in asked:
                        return "state %d: the occupation pattern %d of the modes %s is not ranked; ranked are %s" % (st, p, list(x), asked)
                e = Lin.of(I, target(log)[0][1])
                if e in seen and seen[e] != st:
                    return "states %d and %d are given the same element %r" % (seen[e], st, e)
                seen[e] = st
        return ""

    def agrees(st, fixed):
        return all((sum(st >> int(a[1:]) & 1 for a in s) & 1) == v for s, v in fixed)

    def states(nb, secs):
        for st in range(1 << nb):
            if all(sum(st >> i & 1 for i in x) == n for x, n in secs):
                yield st

    def one(rule, form, shape, iswide):
        try:
            m, l, g = index(form, shape, iswide)
        except AnalysisLimit as e:
            skipped.append((form, shape, str(e)))
            return None
        ctx.ob(rule, "%s: %s" % (form, txt(shape)), not m, m, l)
        return g

    def lists(form, shape, g):
        """basis_states(), size, foreach()"""
        nb, secs = geometry(shape)
        sts = list(states(nb, secs))
        back = {g(st): st for st in sts}
        p = form[:2]
        loc = floc(D, "libcommute::n_fermion_%ssector_basis_states" % ("" if p == "nf" else "multi")) or floc_[p]
        for k, v, log, dec, _ in paths(D, lambda: [I.load(c) for c in D.val(p + "_states", *setup(shape)).items], False):
            m, l = "", loc
            if k != "ok":
                m, l = describe(k, v), getattr(v, "loc", None) or loc
            elif v != [back[i] for i in range(len(back))]:
                m = "the list is %s; the views store %s" % (v[:12], [back[i] for i in range(min(12, len(back)))])
            ctx.ob("states", "%s_states: %s" % (p, txt(shape)), not m, m, l)
        loc = floc(D, "libcommute::n_fermion_%ssector_size" % ("" if p == "nf" else "multi")) or floc_[p]
        for k, v, log, dec, _ in paths(D, lambda: D.val(p + "_size", *setup(shape)), False):
            m, l = "", loc
            if k != "ok":
                m, l = describe(k, v), getattr(v, "loc", None) or loc
            elif v != len(sts):
                m = "the size is %r; there are %d states" % (v, len(sts))
            ctx.ob("states", "%s_size: %s" % (p, txt(shape)), not m, m, l)
        return back

    def each(form, shape, back):
        loc = floc(D, "libcommute::foreach", "n_fermion_sector_view.hpp")
        dim = len(back)
        D.zeros = dim <= 4
        try:
            ps = paths(D, lambda: ask(form, shape, None), False)
        finally:
            D.zeros = False
        for k, v, log, dec, _ in ps:
            zero = {a[1][1] for a, b in dec.items() if a[0] == "zero" and b}
            m, l = "", loc
            if k != "ok":
                m, l = describe(k, v), getattr(v, "loc", None) or loc
            else:
                got = [(x[1], x[2]) for x in log if x[0] == "got"]
                want = {(back[p], ("amp", p)) for p in range(dim) if p not in zero}
                if len(got) != len(set(got)):
                    m = "a state is visited twice"
                elif set(got) != want:
                    d = sorted(set(got) ^ want, key=repr)[0]
                    m = "state %r with element %r is %s" % (d[0], d[1][1], "visited" if d in got else "not visited")
                    if zero:
                        m += " when elements %s are zero" % sorted(zero)
            ctx.ob("foreach", "%s: %s%s" % (form, txt(shape), ", zeros %s" % sorted(zero) if zero else ""), not m, m, l)

    th = ctx.thorough
    for i, s in enumerate(small):
        p = "nf" if isinstance(s[3], int) else "nm"
        g = one("index", p + "_get", s, False)
        if i % 5 == 0 or th:
            for f in ("_upd", "o_get", "o_upd", "c_get"):
                one("element", p + f, s, False)
        if g is not None:
            back = lists(p, s, g)
            if i % 3 == 0 or th:
                for f in ("_each", "o_each", "c_each") if i % 9 == 0 or th else ("_each",):
                    each(p + f, s, back)
    for s in wide:
        p = "nf" if isinstance(s[3], int) else "nm"
        for f in ("_get",) if not th else ("_get", "_upd", "o_get", "o_upd", "c_get"):
            one("index", p + f, s, True)
    if skipped:
        ctx.count("wide_spaces_not_decided", len(skipped))
    ctx.used(I)
