"""Compressed views, decided by abstract interpretation over linear forms in the bits of the
state index. For every enumerated Hilbert space (mixed dimensions, up to 60 bits) a compressed
view over a recording vector is created and asked for the amplitude of a state whose bits are
all unknown. The index reached in the underlying vector must be a linear form in the numbers
held by the elementary spaces, sum_i w_i n_i, whose weights enumerate 0, ..., dim-1 one to
one, so distinct valid states have distinct elements and none is left over. Undetermined
conditions whose two branches can be joined bitwise do not split the analysis. In small
spaces foreach() is evaluated with every amplitude unknown (every pattern of zero amplitudes)
and must hand out each non-zero element with the state it belongs to under the same form."""
from viewmap import *

LEVEL = "other"
ASSUMPTIONS = ["Hilbert spaces enumerated: up to 3 fermions, 2 bosons and 2 spins of dimensions 2-7, and selected spaces of up to 60 bits"]
NEED = {"index": 100, "element": 20, "foreach": 40}
FORMS = ("cv_get", "cvc_get", "cvo_get", "cv_upd", "cvo_upd")
EACH = ("cv_each", "cvc_each", "cvo_each")


def shapes(tier):
    out = []
    bos = [()] + [(d,) for d in (2, 3, 4, 5, 7)] + list(itertools.product((2, 3, 4, 5, 6), repeat=2))
    spn = [()] + [(m,) for m in (2, 3, 4, 6)] + list(itertools.combinations_with_replacement((2, 3, 4), 2))
    for nf in range(4):
        for b in bos:
            for s in spn:
                if nf or b or s:
                    out.append((nf, b, s))
    for b in itertools.product((2, 3, 4, 5), repeat=3):
        out.append((1, b, (3,)))
    wide = [(60, (), ()), (40, (3,), ()), (33, (3, 5), (2,)), (20, (3, 4, 5, 6, 7, 8), ()), (0, (3,) * 12, ()), (1, (), (3,) * 10),
            (5, (17, 2, 33, 64), (2, 3, 5)), (31, (3,), (3, 4)), (0, (1000, 5, 1 << 20), ()), (2, (65537, 3), (6, 6)),
            (32, (5,), (2, 2, 2)), (0, ((1 << 33) + 1, 3), (3,)), (10, (3,) * 8, (3,) * 8), (0, (1 << 40, 3), ())]
    return out, wide


def txt(s):
    return "%d fermions, bosons %s, spins %s" % (s[0], list(s[1]), [str(half(m - 1)) for m in s[2]])


def run(ctx):
    D = VD()
    I = D.I
    small, wide = shapes(ctx.tier)
    loc = floc(D, "libcommute::compressed_state_view::map_index") or "include/libcommute/loperator/compressed_state_view.hpp"
    skipped = []

    def ask(form, shape, state, keep):
        h = D.space(range(shape[0]), list(enumerate(shape[1])), list(enumerate(shape[2])))
        keep["fields"] = D.fields(h)
        r = Cell(D.val("rec_new"))
        n = state(keep["fields"])
        if form.endswith("upd"):
            D.call(form, r, h, 0, n, Cell(D._amp(("x",))))
        elif form.endswith("get"):
            v = D.val(form, r, h, 0, n)
            return v.attr if isinstance(v, Obj) else v

    def sym(fields):
        return D.symbol(max((f + n for f, n, d in fields), default=0))

    def index(form, shape, iswide):
        """(message, location, function state bits -> element) of the translation"""
        keep = {}
        try:
            ps = paths(D, lambda: ask(form, shape, sym, keep))
            lin = len(ps) == 1
        except AnalysisError:
            ps, lin = None, False
        dim = 1
        for f, n, d in keep.get("fields", ()):
            dim *= d
        if ps and not lin and all(p[0] == "ok" and good(form, p[1], p[2]) for p in ps):
            e = rejoin(I, ps, lambda p: target(p[2])[0][1])
            if e is not None:
                ps, lin = [("ok", None, None, {}, {})], True
        if not lin and not (ps and any(p[0] != "ok" for p in ps)):
            if dim > 64:
                m = probe(form, shape, F=keep.get("fields"), dim=dim)
                if m:
                    return m, loc, None
                raise AnalysisLimit("the index is not a linear form")
            ps = paths(D, lambda: ask(form, shape, sym, keep), False)
        table = {}
        F = keep["fields"]
        for k, v, log, dec, _ in ps:
            if k != "ok":
                # a failure in a path of states that are not valid is none
                st = sample(F, dec)
                if st is None:
                    continue
                return describe(k, v), getattr(v, "loc", None) or loc, None
            if log is not None:
                t = target(log)
                if len(t) != 1:
                    return "%d elements of the vector are touched" % len(t), loc, None
                if not good(form, v, log):
                    return "the element is not increased by the given amount" if form.endswith("upd") else "the value returned is not the element read", loc, None
                e = t[0][1]
            if not lin:
                table[frozenset((k[1], x) for k, x in dec.items() if k[0] == "gf2")] = e
                continue
            L = Lin.of(I, e)
            digits = []
            left = dict(L.t)
            for f, n, d in F:
                ws = [left.pop(("b", frozenset(["n%d" % (f + j)])), 0) for j in range(n)]
                if d & (d - 1) == 0:
                    digits += [(w, 2) for w in ws]
                elif any(w != ws[0] << j for j, w in enumerate(ws)):
                    return "the index is %r; the bits of the space of dimension %d at bit %d do not enter as one number" % (L, d, f), loc, None
                else:
                    digits.append((ws[0], d))
            if left or L.c:
                return "the index is %r" % L, loc, None
            m = radix(digits, dim)
            if m:
                return "the index is %r: %s" % (L, m), loc, None
            return "", loc, (lambda st: value(L, {"n%d" % i: st >> i & 1 for i in range(64)}, None))
        # every state by its own path
        out = {}
        for st in states(F):
            hit = [e for key, e in table.items() if all((sum(st >> int(a[1:]) & 1 for a in s) & 1) == int(x) for s, x in key)]
            if len(hit) != 1:
                return "state %d reaches %d elements" % (st, len(hit)), loc, None
            e = hit[0]
            e = value(e, {"n%d" % i: st >> i & 1 for i in range(64)}, None)
            if not 0 <= e < dim or e in out.values():
                return "state %d is given element %d, which is %s" % (st, e, "outside the vector" if not 0 <= e < dim else "that of state %d" % next(a for a, b in out.items() if b == e)), loc, None
            out[st] = e
        return "", loc, out.get

    def probe(form, shape, F, dim):
        """the index is not found to be a linear form: are there states that show it is wrong?"""
        if F is None:
            return ""
        seen = {}
        one = [1 << (f + j) for f, n, d in F for j in range(n)]
        for st in [0] + one + [sum((d - 1) << f for f, n, d in F)]:
            for k, v, log, dec, _ in paths(D, lambda: ask(form, shape, lambda F: st, {})):
                if k != "ok":
                    return "state %d: %s" % (st, describe(k, v))
                if not good(form, v, log):
                    return "state %d: the element is not the one asked for" % st
                e = target(log)[0][1]
                if not isinstance(e, int):
                    continue
                if not 0 <= e < dim:
                    return "state %d is given element %d of %d" % (st, e, dim)
                if e in seen and seen[e] != st:
                    return "states %d and %d are given the same element %d" % (seen[e], st, e)
                seen[e] = st
        return ""

    def states(F):
        for ns in itertools.product(*[range(d) for f, n, d in reversed(F)]):
            yield sum(x << f for x, (f, n, d) in zip(ns, reversed(F)))

    def sample(F, dec):
        """a valid state in agreement with the decisions, if one is found"""
        forms = [(k[1], int(v)) for k, v in dec.items() if k[0] == "gf2"]
        dim = 1
        for f, n, d in F:
            dim *= d
        if dim > 4000 or not forms:
            return 0
        for st in states(F):
            if all((sum(st >> int(a[1:]) & 1 for a in s) & 1) == v for s, v in forms):
                return st
        return None

    def one(rule, form, shape, iswide):
        try:
            m, l, g = index(form, shape, iswide)
        except AnalysisLimit as e:
            skipped.append((form, shape, str(e)))
            return None
        ctx.ob(rule, "%s: %s" % (form, txt(shape)), not m, m, l)
        return g

    thorough = ctx.tier == "thorough"
    for i, s in enumerate(small):
        g = one("index", "cv_get", s, False)
        if i % 9 == 0 or thorough:
            for f in FORMS[1:]:
                one("element", f, s, False)
        if g is not None and (i % 4 == 0 or thorough):
            each(ctx, D, s, g, states, EACH if i % 12 == 0 or thorough else EACH[:1])
    for s in wide:
        for f in FORMS[:1] if not thorough else FORMS:
            one("index", f, s, True)
    if skipped:
        ctx.count("wide_spaces_not_decided", len(skipped))
    ctx.used(I)


def each(ctx, D, shape, g, states, forms):
    I = D.I
    loc = floc(D, "libcommute::foreach", "compressed_state_view.hpp")
    keep = {}
    dim = 1
    for d in (2,) * shape[0] + tuple(shape[1]) + tuple(shape[2]):
        dim *= d
    if dim > 150:
        return
    for form in forms:
        D.zeros = dim <= 6
        try:
            ps = paths(D, lambda: run_each(D, form, shape, keep), False)
        finally:
            D.zeros = False
        back = {g(st): st for st in states(keep["fields"])}
        for k, v, log, dec, _ in ps:
            zero = {a[1][1] for a, b in dec.items() if a[0] == "zero" and b}
            msg, l = "", loc
            if k != "ok":
                msg, l = describe(k, v), getattr(v, "loc", None) or loc
            else:
                got = [(x[1], x[2]) for x in log if x[0] == "got"]
                want = {(back[p], ("amp", p)) for p in range(dim) if p not in zero}
                if len(got) != len(set(got)):
                    msg = "a state is visited twice"
                elif set(got) != want:
                    d = sorted(set(got) ^ want, key=repr)[0]
                    msg = "state %r with element %r is %s" % (d[0], d[1][1], "visited" if d in got else "not visited")
                    if zero:
                        msg += " when elements %s are zero" % sorted(zero)
            ctx.ob("foreach", "%s: %s%s" % (form, txt(shape), ", zeros %s" % sorted(zero) if zero else ""), not msg, msg, l)


def run_each(D, form, shape, keep):
    h = D.space(range(shape[0]), list(enumerate(shape[1])), list(enumerate(shape[2])))
    keep["fields"] = D.fields(h)
    D.call(form, Cell(D.val("rec_new")), h, 0)
