"""What the exceptions raised by refused requests say, decided by abstract interpretation: on
every path of the refused request the interpreted throw expression is evaluated, and the
object it carries (elementary space, generator, number of bits) must be the one the request
was refused for, be owned by the exception rather than borrowed from the arguments, and be
named in the message where the exception class documents that."""
import itertools
import re
from c18 import *
from absint import Str

LEVEL = "other"
ASSUMPTIONS = ["requests enumerated over spaces of up to 5 modes (63 bits) and products of up to 4 generators"]
NEED = {"repeated space": 40, "absent space": 60, "too many bits": 20, "generator without action": 100, "generator without space": 40}


class XD(RD):
    def __init__(self):
        Driver.__init__(self, export("exc.cpp"), {}, budget=4000000)
        self.I.throw_values = True

    def space(self, s):
        return Cell(self.val("es_w", s[1], s[2])) if s[0] == "w" else RD.space(self, s)


def run(ctx):
    D = XD()
    I = D.I

    def ask(rule, inst, thunk, exc, judge, loc):
        def go():
            try:
                thunk()
            except ThrowEx as t:
                l = D.P.loc(t.loc) or loc
                if not t.q.endswith(exc):
                    return "ends in %s instead of %s" % (t.q, exc), l
                if t.val is None:
                    raise AnalysisError("the object thrown for %s is not known" % inst)
                return judge(Cell(t.val)), l
            return "the request is not refused", loc
        for k, v, dec in I.explore(go):
            msg, l = v if k == "ok" else (describe(k, v), getattr(v, "loc", None) or loc)
            ctx.ob(rule, inst, not msg, msg, l)

    def text(fn, e, *parts):
        s = D.val(fn, e)
        if not isinstance(s, Str) or s.s is None:
            raise AnalysisError("the message of %s could not be followed" % fn)
        for p in parts:
            if not re.search(r"(?<![0-9])" + re.escape(p) + r"(?![0-9])", s.s):
                return "the message '%s' does not name %s" % (s.s, p)
        return ""

    def same_space(fn, held):
        """the exception holds its own copy of the space"""
        def j(e):
            o = D.call(fn, e)
            if not I.load(D.val("es_eq", o, held[0])):
                return "the space reported is not the one the request was refused for"
            if I.load(o) is I.load(held[0]):
                return "the space reported is borrowed from the argument"
            return text("w" + fn[1:], e)
        return j

    def same_gen(fn, oks):
        def j(e):
            o = D.call(fn, e)
            if not any(I.load(D.val("ge_eq", o, D.gen_of(g))) for g in oks):
                s = D.val("g_text", o)
                return "the generator reported (%s) is not one the request was refused for (%s)" % (s.s, ", ".join(map(gtxt, oks)))
            s = D.val("g_text", o)
            if s.s is None:
                raise AnalysisError("the text of a generator could not be followed")
            t = D.val("w" + fn[1:], e)
            if t.s is None:
                raise AnalysisError("the message of %s could not be followed" % fn)
            return "" if s.s in t.s else "the message '%s' does not name the generator %s" % (t.s, s.s)
        return j
    fl = "hilbert_space.hpp"
    L = lambda n: floc(D, "libcommute::hilbert_space::" + n, fl)
    specs = [F(0), F(0, 1) + [("b", 4, 0)], [("b", 3, 1), ("s", 2, 0), ("s", 3, 1)], [("s", 2, 0)], F(1) + [("b", 2, 0), ("s", 2, 0), ("u", UID, 0)], [("w", 40, 1), ("w", 23, 0)]]
    probes = F(0, 1, 2) + [("b", 4, 0), ("b", 2, 1), ("b", 7, 2), ("s", 2, 0), ("s", 2, 1), ("s", 3, 0), ("s", 3, 1), ("s", 4, 0), ("u", UID, 0), ("u", UID, 1), ("u", UID + 1, 0), ("w", 3, 0), ("w", 1, 2)]

    def key(s):
        return ("b", s[2]) if s[0] == "b" else ("w", s[2]) if s[0] == "w" else s
    for spec in [[]] + specs:
        have = {key(s) for s in spec}
        for p in probes:
            held = [None]

            def sp():
                held[0] = D.space(p)
                return held[0]
            if key(p) in have:
                ask("repeated space", "add() of %r to %r" % (p, spec), lambda: D.call("hs_add", D.hs(spec), sp()), "elementary_space_exists", same_space("x_exists", held), L("add"))
            else:
                for fn, nm in (("l_index", "index"), ("l_dim", "dim"), ("l_bits", "bit_range"), ("l_state", "basis_state_index")):
                    ask("absent space", "%s() of %r in %r" % (nm, p, spec), lambda: D.call(fn, D.hs(spec), sp()), "elementary_space_not_found", same_space("x_nfound", held), L(nm))
    # constructors: position of the repeated space
    three = F(0, 1, 2) + [("b", 2, 0), ("s", 2, 0), ("s", 3, 0), ("u", UID, 0)]

    def vec(sps):
        return Cell(Vec(D.P.R[D.P.strip_ref(I.V[D.fn("hs_v")["params"][0]]["t"])["rec"]]["targs"][0]["t"], [Cell(Ptr(s)) for s in sps]))
    for n in (2, 3, 4):
        for sps in itertools.islice(itertools.permutations(three, n - 1), 0, None, 1 if n == 2 else 7 if n == 3 else 41):
            for i in range(n - 1):
                for pos in range(i + 1, n):
                    lst = list(sps)
                    lst.insert(pos, lst[i])
                    held = [None]

                    def go():
                        cs = [D.space(s) for s in lst]
                        held[0] = cs[pos]
                        D.call("hs_v", vec(cs))
                    ask("repeated space", "hilbert_space of pointers to %r" % (lst,), go, "elementary_space_exists", same_space("x_exists", held), L("hilbert_space"))
    for fn, lst, pos in (("hs_ff", F(0, 0), 1), ("hs_bfb", [("b", 2, 0), ("f", 0), ("b", 2, 0)], 2), ("hs_bfb", [("b", 2, 0), ("f", 0), ("b", 3, 0)], 2)):
        held = [None]

        def go():
            cs = [D.space(s) for s in lst]
            held[0] = cs[pos]
            D.call(fn, *cs)
        ask("repeated space", "hilbert_space of %r" % (lst,), go, "elementary_space_exists", same_space("x_exists", held), L("hilbert_space"))
    # width
    W = lambda *ns: [("w", n, i) for i, n in enumerate(ns)]

    def wide(total):
        def j(e):
            b = D.val("x_bits", e)
            return text("w_bits", e, str(total)) if b == total else "%r bits are reported, %d are needed" % (b, total)
        return j
    for ws in ((63, 1), (62, 2), (63, 63), (1, 63), (32, 32), (33, 32), (40, 20, 4), (60, 3, 1), (21, 21, 22), (63, 62, 61), (1, 2, 61), (2, 1, 62)):
        # added one by one the first excess is refused; constructors may refuse at once
        pre = list(itertools.accumulate(ws))
        k = next(i for i, t in enumerate(pre) if t > 63)
        ask("too many bits", "spaces of %r bits added one by one" % (ws,), lambda: D.hs(W(*ws)), "hilbert_space_too_big", wide(pre[k]), L("add"))
        ask("too many bits", "hilbert_space of pointers to spaces of %r bits" % (ws,), lambda: D.call("hs_v", vec([D.space(s) for s in W(*ws)])), "hilbert_space_too_big", wide(pre[-1]), L("hilbert_space"))
        if len(ws) == 3:
            def either(e):
                return "" if k < 2 and not wide(pre[k])(e) else wide(pre[-1])(e)
            ask("too many bits", "hilbert_space of spaces of %r bits" % (ws,), lambda: D.call("hs_www", *[D.space(s) for s in W(*ws)]), "hilbert_space_too_big", either, L("hilbert_space"))
    for b, n in ((2 ** 62, 3), (2 ** 62 + 1, 2), (2 ** 40, 3)):
        m = (b - 1).bit_length()
        lst = [("b", b, i) for i in range(n)]
        pre = [m * (i + 1) for i in range(n)]
        k = next(i for i, t in enumerate(pre) if t > 63)
        ask("too many bits", "bosons of dimension %d added one by one" % b, lambda: D.hs(lst), "hilbert_space_too_big", wide(pre[k]), L("add"))
        ask("too many bits", "hilbert_space of pointers to %d bosons of dimension %d" % (n, b), lambda: D.call("hs_v", vec([D.space(s) for s in lst])), "hilbert_space_too_big", wide(pre[-1]), L("hilbert_space"))
    unknown(ctx, D, ask, same_gen)
    unspaced(ctx, D, ask, same_gen)
    ctx.used(D.I)


def unknown(ctx, D, ask, same_gen):
    T = ctx.thorough
    spec = F(0, 1) + [("b", 4, 0), ("s", 2, 0), ("s", 3, 1), ("u", UID, 0)]
    have = spaces(spec)
    alpha = [("f", True, 0), ("f", False, 1), ("f", False, 3), ("f", True, 4), ("b", True, 0), ("b", True, 1), ("b", False, 1),
             ("s", 2, 0, 0), ("s", 3, 0, 1), ("s", 3, 1, 0), ("s", 4, 2, 0), ("s", 2, 1, 1), ("u", UID, 0), ("u", UID, 1)]
    words = [w for n in ((1, 2, 3) if T else (1, 2)) for w in itertools.combinations(alpha, n)]
    base = (("f", True, 0), ("f", False, 1), ("b", True, 0), ("b", False, 0), ("s", 2, 0, 0), ("s", 3, 1, 1))
    words += [base + (b,) for b in alpha if needs(b) not in have] + [(b, b, b) for b in alpha if needs(b) not in have and b[0] == "b"]
    loc = floc(D, "libcommute::monomial_action::monomial_action", "monomial_action.hpp")
    for w in words:
        w = tuple(sorted(w, key=sortkey))
        for nm, ids in LISTS.items():
            bad = [g for g in w if g[0] not in ids or needs(g) not in have]
            if not bad:
                continue
            for fm in ("ma", "lo", "po"):
                if fm == "ma" and nm == "make" or fm != "ma" and (vanishes(w) or len(w) > 2 and nm != "make"):
                    continue

                def go():
                    h = D.hs(spec)
                    a = D.mono(w)
                    if fm != "ma":
                        a = Cell(D.val("ex_m", a))
                    D.call("%s_%s" % (fm, nm), a, h)
                ask("generator without action", "%s_%s of %s" % (fm, nm, wtxt(w)), go, "unknown_generator", same_gen("x_unk", bad), loc)
    good = [(), (("f", True, 0), ("f", False, 1)), (("b", True, 0),), (("s", 2, 2, 0),)]
    bads = [(("f", True, 3),), (("b", True, 0), ("b", False, 1)), (("s", 4, 2, 0),), (("s", 2, 0, 0), ("u", UID, 0)), (("u", UID, 1),)]
    for fm, nm in (("lo", "fbs"), ("po", "fbs"), ("lo", "make"), ("po", "make")):
        for bs in [(b,) for b in bads] + list(itertools.combinations(bads, 2)):
            bad = [g for b in bs for g in b if g[0] not in LISTS[nm] or needs(g) not in have]
            ask("generator without action", "%s_%s of a sum with %s" % (fm, nm, ", ".join(map(wtxt, bs))), lambda: D.call("%s_%s" % (fm, nm), D.expr(good + list(bs)), D.hs(spec)),
                "unknown_generator", same_gen("x_unk", bad), loc)


def unspaced(ctx, D, ask, same_gen):
    alpha = [("f", True, 0), ("f", False, 1), ("b", True, 0), ("b", False, 1), ("s", 2, 2, 0), ("s", 3, 0, 1), ("u", UID, 0), ("u", 0, 0)]
    sup = {"def": "fs", "bos": "fbs", "fb": "fb", "bs": "bs", "ctor": "fs"}
    le = floc(D, "libcommute::es_constructor::operator()", "es_constructor.hpp") or floc(D, "libcommute::detail::es_constructor_impl::operator()", "es_constructor.hpp")
    for g in alpha:
        for e in ("def", "bos", "fb", "bs"):
            if g[0] not in sup[e]:
                ask("generator without space", "es_constructor %s of %s" % (e, gtxt(g)), lambda: D.call("ec_" + e, D.gen_of(g)), "es_construction_failure", same_gen("x_fail", [g]), le)
    words = [tuple(sorted(w, key=sortkey)) for n in (1, 2) for w in itertools.combinations(alpha, n)]
    sums = [[w] for w in words] + [[(), (("f", True, 0),), (("s", 2, 2, 0),), (g,)] for g in alpha] + [[(a,), (b,)] for a, b in itertools.combinations(alpha, 2)] + \
        [[(("f", True, 0), ("f", False, 1)), (("f", True, 2), ("b", True, 0), ("s", 2, 2, 0)), (("s", 2, 0, 0),)]]
    for ws in sums:
        for e in ("def", "bos", "fb", "ctor"):
            bad = [g for w in ws for g in w if g[0] not in sup[e]]
            if bad:
                ask("generator without space", "space (%s) of %s" % (e, " + ".join(map(wtxt, ws))), lambda: D.call("mh_" + e, D.expr(ws)), "es_construction_failure", same_gen("x_fail", bad), le)
