"""Shared helpers of the checks: drivers, opaque indices, decoding."""
from absint import Interp, Obj, Cell, Ptr, SP, Vec, Bad, ThrowEx, UNDEF
from poly import Poly
from prog import export, AnalysisError, AnalysisLimit

OPS = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, ">": lambda a, b: a > b,
       "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b}


def idx_ext(names=("Idx",), ns="vp"):
    """Opaque index values: only their mutual order is known."""
    ext = {}

    def mk(op):
        fn = OPS[op]

        def h(I, f, this, args):
            a, b = I.load(args[0]), I.load(args[1])
            if not (isinstance(a, Obj) and isinstance(b, Obj)) or a.attr is None or b.attr is None:
                return NotImplemented
            if isinstance(a.attr, Poly) or isinstance(b.attr, Poly):
                return NotImplemented  # a scalar, not an index
            return fn(a.attr, b.attr)
        return h
    for op in OPS:
        ext["%s::operator%s" % (ns, op)] = mk(op)
    return ext


class Driver:
    """Calls of driver functions inside the abstract interpreter."""

    def __init__(self, prog, ext=None, budget=400000, ns="vp"):
        self.P = prog
        self.ns = ns
        self.I = Interp(prog, ext=dict(ext or {}), budget=budget)
        self._f = {}

    def fn(self, name):
        f = self._f.get(name)
        if f is None:
            f = self._f[name] = self.P.func("%s::%s" % (self.ns, name))
        return f

    def call(self, name, *args):
        f = self.fn(name)
        I = self.I
        a = []
        for p, x in zip(f["params"], args):
            if self.P.is_ref(I.V[p]["t"]):
                a.append(x if isinstance(x, Cell) else Cell(x))
            else:
                v = I.load(x)
                a.append(I.copyval(v) if isinstance(x, Cell) else v)
        return I.call(f, None, a)

    def val(self, name, *args):
        r = self.call(name, *args)
        return self.I.load(r)

    def idx(self, rank, rec="Idx"):
        rs = self.P.recs_by_q["%s::%s" % (self.ns, rec)]
        o = Obj(rs[0]["id"])
        o.attr = rank
        for fl in rs[0].get("fields", ()):
            o.f[fl["d"]] = Cell(0)
        return o

    def gen(self, maker, *args):
        """generator object owned by a shared_ptr"""
        v = self.val(maker, *args)
        c = Cell(v)
        c.shared = True
        return c

    def one(self, thunk):
        """single-path evaluation; returns (kind, value)"""
        out = [(k, v) for k, v, d in self.I.explore(thunk)]
        if len(out) != 1:
            raise AnalysisError("%d abstract paths where one is expected" % len(out))
        return out[0]


def describe(kind, v):
    if kind == "bad":
        return "%s (%s)" % (v.msg, v.kind)
    if kind == "throw":
        return "throws %s" % v.q
    return repr(v)


def strip_targs(q):
    """qualified name without template argument lists (operator<, operator<< ... kept)"""
    out, depth, i = [], 0, 0
    while i < len(q):
        c = q[i]
        if depth == 0 and q.startswith("operator", i) and (i == 0 or not (q[i - 1].isalnum() or q[i - 1] == "_")):
            j = i + 8
            while j < len(q) and q[j] in "<>=-+*/%&|^!~()[] ":
                j += 1
                if q[i + 8:j] in ("()", "[]", "<<", ">>", "<<=", ">>=", "<=", ">=", "->", "<", ">") and not (j < len(q) and q[j] in "<>="):
                    break
            out.append(q[i:j])
            i = j
            continue
        if c == "<":
            depth += 1
        elif c == ">":
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return "".join(out)


def floc(D, q, file=None):
    """location of a library function, for reports"""
    fs = D.P.byq.get(q, ())
    for f in fs:
        if f.get("l") and (file is None or D.P.fileof(f["l"]).endswith("/" + file)):
            return D.P.loc(f["l"])
    if file is not None:
        return "include/libcommute/loperator/" + file
    m = getattr(D.P, "_stripped", None)
    if m is None:
        m = D.P._stripped = {}
        for n, fl in D.P.byq.items():
            m.setdefault(strip_targs(n), []).extend(fl)
    for f in m.get(strip_targs(q), ()):
        if f.get("l"):
            return D.P.loc(f["l"])
    return None
