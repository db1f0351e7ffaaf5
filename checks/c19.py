"""Partitions built from operators, decided by abstract interpretation of space_partition
over user-defined and predefined Hilbert spaces. Products of the operator act through a
user-defined monomial_action whose matrix elements are distinct formal amplitudes, so that
every recorded number identifies the probe, its amplitude and the image it came from; sums
of amplitudes may or may not cancel (both are explored). The partition must join exactly
the states connected by couplings whose amplitudes are not zero; matrix elements recorded
by every function must be those of the operator, under (image, probe); connections those
between the subspaces; and every way of reading the partition must describe the same one."""
from parts import *

LEVEL = "other"
ASSUMPTIONS = ["couplings enumerated: all partial maps of up to 3 states, chosen sums of up to 3 products on up to 6 states"]
NEED = {"partition": 200, "matrix elements": 100, "connections": 100, "reading": 100, "merging: matrix elements": 60}


def run(ctx):
    D = PD()
    I = D.I
    T = ctx.thorough
    SP3 = ("u", 4, (0, 1, 2))
    SPG = ("u", 8, (1, 4, 6))
    cases = []   # (space, {term: map}, terms with formal coefficients)
    for s in (SP3, SPG):
        for i, m in enumerate(maps(s[2])):
            if T or i % (2 if s is SP3 else 4) == 1:
                cases.append((s, {0: m}, ()))
    two = list(maps((0, 1)))
    for a, b in itertools.product(two, two):
        cases.append((("u", 2, (0, 1)), {0: a, 1: b}, ()))
    ms = list(maps((0, 1, 2)))
    for i, j in itertools.product(range(0, 64, 1 if T else 11), range(0, 64, 5 if T else 9)):
        cases.append((SP3, {0: ms[i], 1: ms[j]}, ()))
    chain = {n: n + 1 for n in range(5)}
    back = {n + 1: n for n in range(5)}
    six = ("u", 8, (0, 1, 2, 3, 4, 5))
    mixed = ("u", 16, (9, 3, 0, 12, 5))
    cases += [(six, {0: chain}, ()), (six, {0: back}, ()), (six, {0: {5: 0, 4: 1, 3: 2}}, ()), (six, {0: {0: 3, 3: 5}, 1: {5: 1}, 2: {4: 2}}, ()),
              (six, {0: {1: 0, 3: 2, 5: 4}, 1: {2: 1, 4: 3}}, ()), (six, {0: {n: n for n in range(6)}}, ()), (six, {}, ()),
              (six, {0: {0: 5, 1: 4}, 1: {4: 5}}, (1,)), (six, {0: {0: 1}, 1: {0: 1, 2: 3}, 2: {3: 4}}, (0,)), (six, {0: {0: 2, 2: 4, 4: 0}, 1: {1: 3, 3: 5}}, (0,)),
              (mixed, {0: {9: 3, 12: 5}}, ()), (mixed, {0: {0: 12}, 1: {12: 9}, 2: {5: 3}}, ()), (mixed, {0: {3: 3, 9: 0, 5: 0}}, (0,)),
              (("u", 1, (0,)), {0: {0: 0}}, ()), (("u", 4, ()), {0: {}}, ())]
    hs1, hs2 = ("h", (("f", 0), ("f", 1))), ("h", (("f", 0), ("b", 3, 0)))
    hs3 = ("h", (("b", 3, 0), ("b", 3, 1)))
    for h in (hs1, hs2, hs3):
        st, _ = states_of(h)
        up = dict(zip(st, st[1:]))
        cases += [(h, {0: up}, ()), (h, {0: {st[0]: st[-1]}, 1: {st[1]: st[0]}}, ()), (h, {0: {s: s for s in st}}, ()), (h, {0: {st[-1]: st[1]}}, (0,))]
    if T:
        for i in range(0, 625):
            im = [[None, 0, 1, 2, 3][(i // 5 ** k) % 5] for k in range(4)]
            cases.append((("u", 4, (0, 1, 2, 3)), {0: dict(enumerate(im))}, ()))
    for n, (spec, table, fk) in enumerate(cases):
        st, size = states_of(spec)
        kind = spec[0]
        terms = sorted(table)
        inst0 = "%s, %s" % ("states %r" % (list(st),), "; ".join("%s%s" % ("K*" if t in fk else "", ", ".join("%d->%d" % x for x in sorted(table[t].items()) if x[1] is not None) or "nothing")
                                                           for t in terms) or "no terms")
        mks = ("mk", "mkm", "ct", "ctm") if T or n % 4 == 0 else ("mk", "mkm")
        for mk in mks:
            res = {}

            def go():
                D.table = {t: {a: b for a, b in m.items() if b is not None} for t, m in table.items()}
                h = D.space(spec)
                lo = D.op(terms, fk)
                me = Cell(D.val("m_new"))
                stored = mk.endswith("m")
                p = Cell(D.val("%s_%s" % (mk, kind), *([lo, h] + ([me] if stored else []))))
                want, err = D.elements(terms, st, fk)
                if err:
                    return "partition", err
                got = D.observe(kind, p, st)
                err = same_partition(st, got, components(st, want))
                if err:
                    return "partition", err
                if stored:
                    ms = D.melems(me)
                    err = melem_diff(ms, want)
                    if err:
                        return "matrix elements", err
                ns = len(set(got.values()))
                if D.val("n_" + kind, p) != ns or (ns and set(got.values()) != set(range(ns))):
                    return "reading", "%d subspaces are reported, the states are in the subspaces %r" % (D.val("n_" + kind, p), sorted(set(got.values())))
                if D.val("dim_" + kind, p) != len(st):
                    return "reading", "dim() is %r" % D.val("dim_" + kind, p)
                bs = Cell(D.val("bases_" + kind, p))
                if D.val("ill_n", bs) != ns:
                    return "reading", "subspace_bases() lists %d subspaces of %d" % (D.val("ill_n", bs), ns)
                for s in range(ns):
                    w = [x for x in st if got[x] == s]
                    for nm, l in (("subspace_basis", D.il(Cell(D.val("basis_" + kind, p, s)))), ("subspace_bases", D.il(Cell(D.val("ill_at", bs, s))))):
                        if sorted(l) != sorted(w):
                            return "reading", "%s(): subspace %d consists of %r, operator[] puts %r into it" % (nm, s, l, w)
                lg = Cell(D.val("log_new"))
                D.call("each_" + kind, p, lg)
                seen = [(D.val("log_n", lg, i), D.val("log_s", lg, i)) for i in range(D.val("log_size", lg))]
                if sorted(seen) != sorted(got.items()):
                    return "reading", "foreach() visits %r" % (seen,)
                if mk in ("mk", "ctm"):
                    cs = D.conns(Cell(D.val("conn_" + kind, p, lo)))
                    w = {(got[a], got[b]) for a, b in want}
                    if cs != w:
                        return "connections", "find_connections() of the operator itself reports %r instead of %r" % (sorted(cs), sorted(w))
            record(ctx, D, I, ("partition", "reading") + (("matrix elements",) if mk.endswith("m") else ()) + (("connections",) if mk in ("mk", "ctm") else ()),
                   "%s, %s" % (inst0, {"mk": "make_space_partition()", "mkm": "make_space_partition() with matrix elements", "ct": "constructor", "ctm": "constructor with matrix elements"}[mk]),
                   go, {"connections": D.L["find_connections"], "reading": D.L["operator[]"]}, D.L["space_partition"])
    # connections of other operators; matrix elements recorded by merge_subspaces()
    N4 = ("u", 4, (0, 1, 2, 3))
    hm = [{}, {0: {0: 1}}, {0: {0: 3, 1: 2}}, {0: {2: 3}}]
    om = [{1: {0: 2}}, {1: {0: 2, 1: 2}}, {1: {0: 1, 1: 2, 2: 3, 3: 0}}, {1: {3: 0}, 2: {3: 1}}, {1: {1: 0}, 2: {1: 0, 2: 2}}, {1: {2: 0, 3: 1}, 2: {2: 0}}, {}]
    spaces = [(N4, None), (mixed, dict(zip(range(4), (3, 9, 0, 12)))), (hs2, dict(zip(range(4), states_of(hs2)[0][1:5])))]
    for (spec, ren), h, o in itertools.product(spaces, hm, om):
        st, size = states_of(spec)
        kind = spec[0]
        tr = (lambda m: m) if ren is None else (lambda m: {ren[a]: ren[b] for a, b in m.items()})
        inst = "states %r, H: %r, operator: %r" % (list(st), h and tr(h[0]), {t: tr(m) for t, m in o.items()})

        def conn():
            D.table = {t: tr(m) for t, m in list(h.items()) + list(o.items())}
            sp = D.space(spec)
            p = Cell(D.val("mk_" + kind, D.op(sorted(h)), sp))
            got = D.observe(kind, p, st)
            c = Cell(D.val("conn_" + kind, p, D.op(sorted(o), (2,))))
            want, err = D.elements(sorted(o), st, (2,))
            if err:
                return "connections", err
            ns = len(set(got.values()))
            cs = D.conns(c)
            w = {(got[a], got[b]) for a, b in want}
            if cs != w:
                return "connections", "find_connections() reports %r instead of %r" % (sorted(cs), sorted(w))
        record(ctx, D, I, ("connections",), inst, conn, {}, D.L["find_connections"])
        for store in (None, True, False):
            def merge():
                D.table = {t: tr(m) for t, m in list(h.items()) + list(o.items())}
                D.table[5] = {b: a for a, b in D.table.get(1, {}).items()}
                sp = D.space(spec)
                p = Cell(D.val("mk_" + kind, D.op(sorted(h)), sp))
                a, b = D.op(sorted(o)), D.op([5], (5,))
                r = Cell(D.val("merge_" + kind, p, a, b) if store is None else D.val("mergeb_" + kind, p, a, b, store))
                for nm, ts, fk in (("first", sorted(o), ()), ("second", [5], (5,))):
                    want, err = D.elements(ts, st, fk)
                    if err:
                        return "merging: matrix elements", err
                    ms = D.melems(Cell(D.val("m_" + nm, r)))
                    err = melem_diff(ms, want if store is not False else {})
                    if err:
                        return "merging: matrix elements", "%s operator: %s" % (nm, err)
            record(ctx, D, I, ("merging: matrix elements",), "%s, %s" % (inst, {None: "default", True: "stored", False: "not stored"}[store]), merge, {}, D.L["merge_subspaces"])
    ctx.used(I)


def melem_diff(ms, want):
    w = {(b, a): p for (a, b), p in want.items()}
    for e in sorted(set(ms) | set(w)):
        if e not in ms:
            return "the matrix element <%d|O|%d> is not recorded" % e + (" (it is recorded under <%d|O|%d>)" % (e[1], e[0]) if (e[1], e[0]) in ms and (e[1], e[0]) not in w else "")
        if e not in w:
            return "<%d|O|%d> = %r is recorded, there is no such matrix element" % (e + (ms[e],))
        if not (ms[e] == w[e]):
            return "<%d|O|%d> is recorded as %r instead of %r" % (e + (ms[e], w[e]))
    return ""


def record(ctx, D, I, rules, inst, thunk, locs, loc):
    for k, v, dec in I.explore(thunk):
        rule, msg = (rules[0], describe(k, v)) if k != "ok" else v if v else (None, "")
        for r in rules:
            bad = rule == r
            ctx.ob(r, inst, not bad, msg if bad else "", (getattr(v, "loc", None) if k == "bad" else None) or locs.get(r) or loc)
        if rule is not None:
            break
