"""Opaque scalars (formal polynomials) and helpers for expressions."""
from util import *
from poly import Poly, Atom
from fractions import Fraction

SC = ("SA", "SB", "SC", "SD", "SN", "SU", "DA", "DB", "DN")
# (from, to) conversions that cannot turn a non-zero number into zero: promotions to the
# type of an arithmetic result
PROMO = {("SA", "SC"), ("SB", "SC"), ("SD", "SA"), ("SU", "SA"), ("DB", "DA")}


class SAlg:
    def __init__(self, P):
        self.P = P
        self.rid = {}
        for s in SC:
            r = P.recs_by_q.get("vp::" + s)
            if r:
                self.rid[s] = r[0]["id"]
        self.name = {v: k for k, v in self.rid.items()}
        self.coef_atoms = {}   # atom -> type of a coefficient known to be non-zero

    def mk(self, t, p):
        o = Obj(self.rid[t])
        for fl in self.P.R[o.rec].get("fields", ()):
            o.f[fl["d"]] = Cell(0)
        o.attr = Poly.of(p)
        return o

    def isS(self, v):
        return isinstance(v, Obj) and v.rec in self.name

    def ty(self, v):
        return self.name[v.rec]

    def tyof(self, tid):
        t = self.P.strip_ref(tid)
        return self.name.get(t.get("rec")) if t["c"] == "rec" else None

    def conv(self, I, v, to):
        """value v (Obj) converted to type to: polynomial"""
        fr = self.ty(v)
        if fr == to or (fr, to) in PROMO or v.attr.is_const():
            return v.attr
        return self.to(I, to, v.attr)

    def to(self, I, t, p):
        q = I.uf("to" + t, p, nc=True)
        (a,) = q.atoms()
        a.attr = ("to", t, p)
        return q

    def nf(self, I, p, env):
        """p after replacing the atoms of env by their values, also inside conversions"""
        out = Poly.const(0)
        for (c, n), v in p.m.items():
            w = Poly.const(v)
            for a in c + n:
                w = w * self.nf_atom(I, a, env)
            out = out + w
        return out

    def nf_atom(self, I, a, env):
        if a in env:
            return Poly.of(env[a])
        if isinstance(a.attr, tuple):
            q = self.nf(I, a.attr[-1], env)
            if q.is_const():
                return q
            if a.attr[0] == "conj":
                return self.conj(I, q)
            if a.attr[0] == "to":
                ats = q.atoms()
                if all(self.coef_atoms.get(x) == a.attr[1] for x in ats):
                    return q  # already a value of the target type
                return self.to(I, a.attr[1], q)
        return Poly.atom(a)

    # is a value of type t, with normal form p, zero?
    def zero(self, I, p, t=None):
        if p.is_const():
            return p.const_value() == 0
        p = self.canon(I, p)
        if len(p.m) == 1:
            (c, n), = p.m
            if not c and len(n) == 1 and n[0] in self.coef_atoms:
                return False
        return I.decide(("zero", p), "%r counts as zero" % (p,))

    def canon(self, I, p):
        # the zero test is invariant under sign and conjugation
        if len(p.m) == 1:
            ((c, n), v), = p.m.items()
            if len(n) == 1 and not c and isinstance(n[0].attr, tuple) and n[0].attr[0] == "conj":
                p = n[0].attr[1] * abs(v)
        k = min(p.m, key=repr)
        if p.m[k] < 0:
            p = -p
        return p

    def known(self, I, p):
        """None, True (decided zero) or False (decided or known non-zero) on this path"""
        if p.is_const():
            return p.const_value() == 0
        p = self.canon(I, p)
        if len(p.m) == 1:
            (c, n), = p.m
            if not c and len(n) == 1 and n[0] in self.coef_atoms:
                return False
        return I.dec.get(("zero", p))

    def fresh(self, I, t, name, nonzero=True):
        p = I.uf(name, nc=True)
        if nonzero:
            (a,) = p.atoms()
            self.coef_atoms[a] = t
        return self.mk(t, p)

    def conj(self, I, p):
        out = Poly.const(0)
        for (c, n), v in p.m.items():
            w = Poly.const(v)
            for a in c:
                w = w * Poly.atom(a)
            for a in reversed(n):
                w = w * self.conj_atom(I, a)
            out = out + w
        return out

    def conj_atom(self, I, a):
        if isinstance(a.attr, tuple) and a.attr[0] == "conj":
            return a.attr[1]
        q = I.uf("conj", Poly.atom(a), nc=True)
        (b,) = q.atoms()
        b.attr = ("conj", Poly.atom(a))
        return q

    def ext(self, vn=None):
        S = self
        ext = {}

        def binop(op):
            def h(I, f, this, args):
                if len(args) == 1:
                    v = I.load(args[0])
                    if not S.isS(v):
                        return NotImplemented
                    return S.mk(S.tyof(f["ret"]), -v.attr)
                a, b = I.load(args[0]), I.load(args[1])
                if not (S.isS(a) and S.isS(b)):
                    return NotImplemented
                x, y = a.attr, b.attr
                r = x + y if op == "+" else x - y if op == "-" else x * y
                return S.mk(S.tyof(f["ret"]), r)
            return h

        def cmpd(op):
            def h(I, f, this, args):
                a, b = I.load(args[0]), I.load(args[1])
                if not (S.isS(a) and S.isS(b)):
                    return NotImplemented
                x, y = a.attr, b.attr
                r = x + y if op == "+" else x - y if op == "-" else x * y
                t, u = S.ty(a), S.ty(b)
                if u != t and (u, t) not in PROMO and not r.is_const():
                    r = self.to(I, t, r)
                I.store(args[0], S.mk(t, r))
                return args[0]
            return h
        for op in "+-*":
            ext["vp::operator" + op] = binop(op)
            ext["vp::operator" + op + "="] = cmpd(op)

        def eq(neg):
            def h(I, f, this, args):
                a, b = I.load(args[0]), I.load(args[1])
                if not (S.isS(a) and S.isS(b)):
                    return NotImplemented
                d = a.attr - b.attr
                r = True if d == 0 else False if d.is_const() else I.decide(("eq", d), "%r == %r" % (a.attr, b.attr))
                return r != neg
            return h
        ext["vp::operator=="] = eq(False)
        ext["vp::operator!="] = eq(True)

        def iz(I, f, this, args):
            v = I.load(args[0])
            if not S.isS(v):
                return NotImplemented
            return S.zero(I, v.attr, S.ty(v))

        def mc(I, f, this, args):
            t = S.tyof(f["ret"])
            if t is None:
                return NotImplemented
            v = I.load(args[0])
            if isinstance(v, Obj):
                v = vn(v) if vn else None
                if v is None:
                    raise AnalysisError("make_const of a variant number outside this check")
            return S.mk(t, Poly.of(v))

        def cj(I, f, this, args):
            v = I.load(args[0])
            if not S.isS(v):
                return NotImplemented
            return S.mk(S.ty(v), S.conj(I, v.attr))
        ext["libcommute::scalar_traits::is_zero"] = iz
        ext["libcommute::scalar_traits::make_const"] = mc
        ext["libcommute::scalar_traits::conj"] = cj

        def ctor(t):
            def h(I, f, rid, args):
                if not args:
                    # the value of a default-constructed scalar is not specified
                    return S.mk(t, I.uf("unspecified"))
                v = I.load(args[0])
                if not S.isS(v):
                    return NotImplemented
                if f.get("move"):
                    c = S.mk(t, v.attr)
                    return c
                return S.mk(t, S.conv(I, v, t))
            return h
        for t in SC:
            ext["ctor:vp::" + t] = ctor(t)
        return ext


class EDriver(Driver):
    def __init__(self, prog, budget=2000000):
        self.S = SAlg(prog)
        ext = idx_ext(("Idx",))
        sx = self.S.ext(vn=self.vn)
        for k, h in sx.items():
            if k in ext:
                ext[k] = self._both(ext[k], h)
            else:
                ext[k] = h
        super().__init__(prog, ext, budget)

    @staticmethod
    def _both(a, b):
        def h(I, f, this, args):
            r = a(I, f, this, args)
            return b(I, f, this, args) if r is NotImplemented else r
        return h

    def vn(self, o):
        """numeric value of a var_number object through its own conversion"""
        P = self.P
        for f in P.byq.get("libcommute::var_number::operator double", ()):
            return self.I.call(f, Cell(o), [])
        raise AnalysisError("var_number has no conversion to double")

    def make(self, d):
        a = d[0]
        if a in "fb":
            return self.gen("mk_" + a, d[1], self.idx(d[2][0]))
        if a == "s":
            s = Fraction(d[1] - 1, 2)
            return self.gen("mk_ss", int(s) if s.denominator == 1 else s, d[2], self.idx(d[3][0]))
        return self.gen("mk_u", d[1], d[2], self.idx(d[3][0]))

    def mono(self, ds):
        gs = [SP(self.make(d)) for d in ds]
        t = self.P.strip_ref(self.I.V[self.fn("m_make")["params"][0]]["t"])
        return Cell(self.val("m_make", Cell(Vec(self.P.R[t["rec"]]["targs"][0]["t"], [Cell(x) for x in gs]))))

    def decode_gen(self, g):
        I = self.I
        o = I.load(g)
        q = self.P.R[o.rec]["q"]
        i = (I.load(self.call("g_idx", g)).attr,)
        if q == "libcommute::generator_fermion":
            return ("f", bool(I.load(self.call("f_dag", g))), i)
        if q == "libcommute::generator_boson":
            return ("b", bool(I.load(self.call("b_dag", g))), i)
        if q == "libcommute::generator_spin":
            return ("s", I.load(self.call("s_mult", g)), I.load(self.call("s_comp", g)), i)
        return ("u", I.load(self.call("g_alg", g)), I.load(self.call("u_comp", g)), i)

    def decode_mono(self, m):
        n = self.val("m_size", m)
        return tuple(self.decode_gen(self.call("m_at", m, i)) for i in range(n))

    def expr(self, t, terms):
        """terms: list of (descriptor tuple, Obj scalar)"""
        e = Cell(self.val("e_new_" + t))
        for ds, s in terms:
            self.call("e_put_" + t, e, self.mono(ds), Cell(s))
        return e

    def decode(self, e):
        """type and {monomial: Poly} of an expression object"""
        o = self.I.load(e)
        t = None
        for a in self.P.R[o.rec].get("targs", ()):
            if "t" in a:
                t = self.S.name.get(self.P.types[a["t"]].get("rec"))
                break
        out = []
        n = self.val("e_size_" + t, e)
        for i in range(n):
            m = self.decode_mono(self.call("e_mon_" + t, e, i))
            c = self.val("e_coef_" + t, e, i)
            out.append((m, c.attr))
        return t, out


def mname(ds):
    from c01 import gname
    return "*".join(gname(d) if d[0] != "u" else "U%d.%d%s" % (d[1], d[2], list(d[3])) for d in ds) or "1"
