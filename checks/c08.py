"""Factory functions, decided by abstract interpretation of every factory overload:
indices are opaque movable objects (or strings and integers in dynamic sequences),
passed as lvalues, rvalues and literals, so that an index consumed twice, dropped,
reordered or replaced shows up in the decoded generators. The terms returned by
each operator function (static and dynamic, real and complex scalars, spin 1/2 and
explicit multiplicities 2..5) must be exactly the named operator on the given
indices, with a spin operator's multiplicity and component as requested; the
make_fermion/make_boson/make_spin helpers and make_complex likewise."""
from util import *
from absint import Cx, Str, Variant
from fractions import Fraction

LEVEL = "other"
ASSUMPTIONS = ["index values are opaque: factories that only store and move them behave alike for all values",
               "multiplicities 2..5 stand for all (a template parameter used in one arithmetic expression)"]
NEED = {"factory": 250, "make_*": 16}


class MovIdx(int):
    """opaque index value that can be moved from"""
    movable = True

    def moved(self):
        return MovIdx(-99)


SIG = {  # call form -> (accessor suffix, arguments, expected indices)
    "l1": ("d1", lambda D: (ix(D, 3),), (3,)),
    "r1": ("d1", lambda D: (Cell(ix(D, 3)),), (3,)),
    "l2": ("d2", lambda D: (Cell(ix(D, 3)), Cell(ix(D, 4, "Jdx"))), (3, 4)),
    "r2": ("d2", lambda D: (Cell(ix(D, 3)), Cell(ix(D, 4, "Jdx"))), (3, 4)),
    "ls": ("ds", lambda D: (7,), ("lit", 7)),
    "rs": ("ds", lambda D: (Cell(Str("x")), 7), ("x", 7)),
    "d0": ("dd", lambda D: (), ()),
    "d1": ("dd", lambda D: (7,), (7,)),
    "ds": ("dd", lambda D: (Cell(Str("x")),), ("x",)),
    "dl": ("dd", lambda D: (Cell(Str("x")), 7), ("x", 7)),
    "dr": ("dd", lambda D: (Cell(Str("x")), 7, Cell(Str("y"))), ("x", 7, "y")),
    "dc": ("dd", lambda D: (7,), (7, "lit")),
    "c1": ("c1", lambda D: (ix(D, 3),), (3,)),
    "cr": ("c2", lambda D: (Cell(ix(D, 3)), Cell(ix(D, 4, "Jdx"))), (3, 4)),
    "cd": ("cd", lambda D: (Cell(Str("x")), 7), ("x", 7)),
}


def ix(D, v, rec="Idx"):
    o = D.idx(MovIdx(v), rec)
    return o


def indices(D, c):
    """plain values of an index tuple"""
    out = []
    I = D.I
    t = I.load(c)
    for x in t.items:
        v = I.load(x)
        if isinstance(v, Str):
            out.append(v.s)
        elif isinstance(v, Obj) and v.attr is not None:
            out.append(int(v.attr))
        elif isinstance(v, Obj):  # dynamic sequence
            s = D.call("d_ind", x)
            for i in range(D.val("v_size", s)):
                w = D.val("v_which", s, i)
                out.append(D.val("v_int", s, i) if w == 0 else D.val("v_str", s, i).s)
        else:
            out.append(v)
    return tuple(out)


def gen(D, suf, g):
    al = D.val("g_alg_" + suf, g)
    ii = indices(D, D.call("g_ind_" + suf, g))
    if al == -3:
        return ("f", bool(D.val("g_fdag_" + suf, g)), ii)
    if al == -2:
        return ("b", bool(D.val("g_bdag_" + suf, g)), ii)
    if al == -1:
        return ("s", D.val("g_mult_" + suf, g), D.val("g_comp_" + suf, g), ii)
    return ("?", al, ii)


def terms(D, suf, e):
    out = []
    for i in range(D.val("e_size_" + suf, e)):
        m = D.call("e_mon_" + suf, e, i)
        c = D.val("e_coef_" + suf, e, i)
        w = tuple(gen(D, suf, D.call("m_at_" + suf, m, k)) for k in range(D.val("m_size_" + suf, m)))
        c = (c.attr.re, c.attr.im) if isinstance(c, Obj) else (c, 0)
        out.append((w, c))
    return out


def expected(nm, ii):
    one = (1, 0)
    h = Fraction(1, 2)
    base = {"c_dag": [((("f", True, ii),), one)], "c": [((("f", False, ii),), one)],
            "n": [((("f", True, ii), ("f", False, ii)), one)],
            "a_dag": [((("b", True, ii),), one)], "a": [((("b", False, ii),), one)]}
    if nm in base:
        return base[nm]
    m = int(nm[3:] or 2)
    p, q, z = [(("s", m, c, ii),) for c in (0, 1, 2)]
    return {"p": [(p, one)], "m": [(q, one)], "z": [(z, one)], "x": [(p, (h, 0)), (q, (h, 0))], "y": [(p, (0, -h)), (q, (0, h))]}[nm[2]]


def show(ts):
    def g(d):
        return "%s%s(%s)" % ({"f": "c", "b": "a"}[d[0]], "_dag" if d[1] else "", ",".join(map(str, d[2]))) if d[0] in "fb" else \
            "S_%s<%d>(%s)" % ("pmz"[d[2]], d[1], ",".join(map(str, d[3]))) if d[0] == "s" else str(d)
    return " + ".join("(%s%s)*%s" % (c[0], "%+gi" % float(c[1]) if c[1] else "", "*".join(map(g, w)) or "1") for w, c in ts) or "0"


def run(ctx):
    P = export("factories.cpp")
    D = Driver(P, idx_ext(("Idx", "Jdx")), budget=5000000)
    names = ["c_dag", "c", "n", "a_dag", "a", "S_p", "S_m", "S_z", "S_x", "S_y"]
    names += ["S_%s%d" % (c, m) for c in "pmzxy" for m in (2, 3, 4, 5)]
    for nm in names:
        for form, (suf, mk, ii) in SIG.items():
            if nm[:3] in ("S_x", "S_y"):
                suf = {"dd": "cd", "ds": "cs", "d1": "c1", "d2": "c2"}.get(suf, suf)

            def go():
                return terms(D, suf, Cell(D.val("%s_%s" % (nm, form), *mk(D))))
            k, v = D.one(go)
            ns = "dynamic_indices" if form[0] == "d" or form == "cd" else "static_indices"
            inst = "%s::%s%s(%s) [%s]" % (ns, nm[:3] if nm[:2] == "S_" else nm, "<%s>" % nm[3:] if nm[3:].isdigit() else "",
                                          ", ".join(map(repr, ii)), {"l": "lvalues", "r": "rvalues", "d": "dynamic", "c": "complex"}[form[0]])
            loc = floc(D, "libcommute::%s::%s" % (ns, nm[:3] if nm[:2] == "S_" else nm))
            if k != "ok":
                ctx.ob("factory", inst, False, describe(k, v), getattr(v, "loc", None) or loc)
                continue
            exp = expected(nm, ii)
            ctx.ob("factory", inst, sorted(v, key=repr) == sorted(exp, key=repr), "builds %s instead of %s" % (show(v), show(exp)), loc)
            if form == "r2":
                ctx.sample({"call": inst, "terms": show(v)})
    # helpers making single generators
    for suf, a, ii in (("sl", lambda: (Cell(ix(D, 3)), Cell(ix(D, 4, "Jdx"))), (3, 4)), ("sr", lambda: (Cell(ix(D, 3)), Cell(ix(D, 4, "Jdx"))), (3, 4)),
                       ("dl", lambda: (Cell(Str("x")), 7), ("x", 7)), ("dr", lambda: (Cell(Str("x")), 7), ("x", 7))):
        acc = "d2" if suf[0] == "s" else "dd"
        todo = [("mkf", (d,), ("f", d, ii)) for d in (True, False)] + [("mkb", (d,), ("b", d, ii)) for d in (True, False)]
        todo += [("mks", (c,), ("s", 2, c, ii)) for c in (0, 1, 2)]
        todo += [("mkss", (Fraction(m - 1, 2) if m % 2 == 0 else (m - 1) // 2, c), ("s", m, c, ii)) for m in (2, 3, 4, 5, 8) for c in (0, 1, 2)]
        for fn, pre, exp in todo:
            def go():
                g = D.val("%s_%s" % (fn, suf), *(pre + a()))
                return gen(D, acc, g.cell if isinstance(g, SP) else Cell(g))
            k, v = D.one(go)
            q = {"mkf": "make_fermion", "mkb": "make_boson"}.get(fn, "make_spin")
            loc = floc(D, "libcommute::%s::%s" % ("static_indices" if suf[0] == "s" else "dynamic_indices", q))
            ctx.ob("make_*", "%s(%s) %s" % (q, ", ".join(map(str, pre + ii)), suf), k == "ok" and v == exp,
                   describe(k, v) if k != "ok" else "makes %r instead of %r" % (v, exp), loc)
    for fn, src, acc, args in (("mc_s", "c_dag_l1", "c1", lambda: (ix(D, 3),)), ("mc_s", "n_l1", "c1", lambda: (ix(D, 3),)),
                               ("mc_d", "c_dr", "cd", lambda: (Cell(Str("x")), 7, Cell(Str("y")))), ("mc_d", "S_z3_d1", "cd", lambda: (7,))):
        def go():
            e = Cell(D.val(src, *args()))
            pre = "d1" if acc == "c1" else "dd"
            return terms(D, pre, e), terms(D, acc, Cell(D.val(fn, e)))
        k, v = D.one(go)
        ctx.ob("make_*", "make_complex of %s" % src, k == "ok" and v[0] == v[1], describe(k, v) if k != "ok" else "%s became %s" % tuple(map(show, v)),
               floc(D, "libcommute::%s::make_complex" % ("static_indices" if fn == "mc_s" else "dynamic_indices")))
    ctx.used(D.I)
