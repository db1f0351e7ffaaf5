"""Merging of subspaces, decided by abstract interpretation of merge_subspaces() for pairs of
operators with formal, non-zero matrix elements: from enumerated partitions and connection
patterns, after the call each operator connects any subspace to at most one subspace, and no
two states are joined unless that, or the Hamiltonian, requires it (the coarsest necessary
merging is computed independently). find_connections() must agree, and merging again must
change nothing."""
from parts import *
from c19 import record

LEVEL = "other"
ASSUMPTIONS = ["patterns enumerated: all pairs of partial maps of 2 states, every n-th pair on 3 states, chosen and systematic patterns on 4 to 8 states"]
NEED = {"merging": 250}


def run(ctx):
    D = PD()
    I = D.I
    T = ctx.thorough
    cases = []
    one = ("u", 2, (0, 1))
    for a, b in itertools.product(maps((0, 1)), maps((0, 1))):
        cases.append((one, {}, {1: a}, {2: b}))
    ms = [m for m in maps((0, 1, 2))]
    s3 = ("u", 4, (0, 1, 3))
    tr = {0: 0, 1: 1, 2: 3, None: None}
    for i in range(0, 64):
        for j in range(i % 5, 64, 5) if T else ((11 * i) % 64, (29 * i + 7) % 64):
            h = ({}, {0: {0: 1}}, {0: {3: 0}})[(i + j) % 3]
            cases.append((s3, h, {1: {tr[a]: tr[b] for a, b in ms[i].items()}}, {2: {tr[a]: tr[b] for a, b in ms[j].items()}}))
    # an operator and its conjugate: several images per state
    pat = [{3: (0, 2), 0: (4,), 2: (6,), 1: (5,)}, {0: (1, 2), 1: (3,), 2: (4,)}, {5: (0, 4), 0: (2,), 4: (7,), 1: (3,), 2: (6,)},
           {7: (0, 6), 0: (3,), 6: (5,), 1: (2,), 2: (4,)}, {0: (1, 3, 5), 1: (2,), 3: (4,), 5: (6,), 2: (7,)}, {n: (n + 1,) for n in range(7)},
           {0: (7,), 1: (7,), 2: (7,), 7: (3, 4)}, {0: (4, 5), 1: (5, 6), 2: (6, 7)}, {6: (1, 5), 1: (0,), 3: (2,), 5: (4,)}, {4: (0, 3), 0: (7,), 2: (5,), 3: (6,), 7: (1,)},
           {0: (1,), 2: (3,), 4: (5,), 6: (7,)}, {}]
    perms = [range(8), (7, 6, 5, 4, 3, 2, 1, 0), (3, 0, 6, 1, 5, 2, 7, 4), (1, 3, 5, 7, 0, 2, 4, 6)]
    eight = ("u", 8, tuple(range(8)))
    hams = [{}, {0: {0: 1}}, {0: {2: 5, 3: 6}}]
    for p, q, h in itertools.product(pat, perms if T else perms[:3], hams if T else hams[:2]):
        ts = {}
        for a, bs in p.items():
            for k, b in enumerate(bs):
                ts.setdefault(k, {})[q[a]] = q[b]
        cd = {1 + k: m for k, m in ts.items()}
        c = {}
        for a, bs in p.items():
            for b in bs:
                k = next(k for k in itertools.count(10) if q[b] not in c.get(k, {}))
                c.setdefault(k, {})[q[b]] = q[a]
        cases.append((eight, h, cd, c))
    # connections met in an unfavourable order
    for q in perms:
        cases.append((eight, {}, {1: {q[0]: q[4], q[1]: q[5], q[2]: q[6]}}, {2: {q[3]: q[0]}, 3: {q[3]: q[2]}}))
        cases.append((eight, {}, {2: {q[3]: q[0]}, 3: {q[3]: q[2]}}, {1: {q[0]: q[4], q[1]: q[5], q[2]: q[6]}}))
        cases.append((eight, {0: {q[4]: q[5]}}, {1: {q[0]: q[1], q[2]: q[3], q[4]: q[6], q[5]: q[7]}}, {2: {q[6]: q[0], q[7]: q[2]}}))
    hs = ("h", (("f", 0), ("b", 3, 0)))
    st = states_of(hs)[0]
    for q in ((0, 1, 2, 3, 4, 5), (5, 3, 1, 0, 2, 4)):
        s = [st[k] for k in q]
        cases.append((hs, {}, {1: {s[0]: s[1], s[2]: s[3]}, 2: {s[0]: s[2]}}, {3: {s[1]: s[0], s[3]: s[2], s[2]: s[0]}}))
        cases.append((hs, {0: {s[4]: s[5]}}, {1: {s[3]: s[0], s[0]: s[4], s[1]: s[2]}, 2: {s[3]: s[5]}}, {}))
    for spec, h, cd, c in cases:
        st, size = states_of(spec)
        kind = spec[0]
        cl = lambda d: {t: {a: b for a, b in m.items() if b is not None} for t, m in d.items()}
        h, cd, c = cl(h), cl(cd), cl(c)
        inst = "states %r, H: %r, operators: %r and %r" % (list(st), sorted(h.values(), key=repr), sorted(cd.values(), key=repr), sorted(c.values(), key=repr))

        def go():
            D.table = dict(h)
            D.table.update(cd)
            D.table.update(c)
            sp = D.space(spec)
            p = Cell(D.val("mk_" + kind, D.op(sorted(h)), sp))
            a, b = D.op(sorted(cd)), D.op(sorted(c))
            base = components(st, [e for m in h.values() for e in m.items()])
            ops = [[e for m in d.values() for e in m.items()] for d in (cd, c)]
            if any(len(x) != len(set(x)) for x in ops):
                raise AnalysisError("two products lead to one image: " + inst)
            D.call("merge_" + kind, p, a, b)
            got = D.observe(kind, p, st)
            for nm, x in zip(("first", "second"), ops):
                to = {}
                for e in x:
                    k = to.setdefault(got[e[0]], e)
                    if got[k[1]] != got[e[1]]:
                        return "merging", "the %s operator connects the subspace of %d%s to those of %d and of %d" % (
                            nm, k[0], "" if k[0] == e[0] else " and %d" % e[0], k[1], e[1])
            err = same_partition(st, got, closure(st, base, ops))
            if err:
                return "merging", err
            for l, x in ((a, ops[0]), (b, ops[1])):
                cs = D.conns(Cell(D.val("conn_" + kind, p, l)))
                if cs != {(got[e[0]], got[e[1]]) for e in x}:
                    return "merging", "find_connections() reports %r, the matrix elements connect %r" % (sorted(cs), sorted({(got[e[0]], got[e[1]]) for e in x}))
            D.call("merge_" + kind, p, b, a)
            if same_partition(st, D.observe(kind, p, st), got):
                return "merging", "merging again with the same operators changes the partition"
        record(ctx, D, I, ("merging",), inst, go, {}, D.L["merge_subspaces"])
    ctx.used(I)
