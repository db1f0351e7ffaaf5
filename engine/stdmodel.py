"""Transfer functions for the parts of the standard library the analysed code uses.

Containers, smart pointers, tuples and strings have abstract models; other
standard algorithms are analysed from their own (exported) bodies.
"""
import math, re
from fractions import Fraction
from poly import Poly
from prog import AnalysisError, AnalysisLimit
from absint import (UNDEF, Bad, ThrowEx, Infeasible, Cell, Ref, Ptr, FnPtr, Obj, Lam, Str, Opq, Exc, Stream, Vec, VIt, Node, Map, MIt,
                    SP, Tup, Fun, Variant, IList, MAPS, VECS, SPTRS, TREEIT, VECIT, STRS, STREAMRX, EXCS, num, Cx)


def install(I, FREE):
    for k, v in globals().items():
        if k.startswith("m_"):
            setattr(I, k[2:], v)
    FREE.update(FREE_FUNCS)
    I.SPECIAL = SPECIAL


# ------------------------------------------------------------ construction
def rref(I, f, i):
    ps = f.get("params", ())
    return i < len(ps) and I.T[I.V[ps[i]]["t"]]["c"] == "rref"


def m_find_ctor_below(I, f, rid):
    key = ("ctorbelow", f["id"], rid)
    c = I.P._findcache
    if key not in c:
        def pred(n):
            return n.get("k") == "Ctor" and n.get("rec") == rid
        c[key] = I.P.find_below(f["id"], pred, limit=1500)
    return c[key]


def m_make_value(I, f, tid, args, first=0):
    """Value of type tid from the arguments args[first:] of the standard function f."""
    a = args[first:]
    t = I.T[tid]
    if t["c"] in ("lref", "rref"):
        return Ref(a[0] if isinstance(a[0], Cell) else Cell(a[0]))
    if t["c"] != "rec":
        if not a:
            return I.defval(tid, True)
        v = I.load(a[0])
        if isinstance(v, Obj):
            raise I.err("conversion of %r to %s" % (v, t["s"]))
        return I.convert(v, tid, tid)
    rid = t["rec"]
    if not a:
        return I.default_obj(rid)
    v = I.load(a[0])
    q = I.R[rid]["q"]
    if len(a) == 1 and I.is_model(rid):
        same = (q in VECS and isinstance(v, Vec)) or (q in MAPS and isinstance(v, Map)) or \
            (q in STRS and isinstance(v, Str)) or (q in SPTRS and isinstance(v, SP)) or \
            (q == "std::tuple" and isinstance(v, Tup)) or (q == "std::function" and isinstance(v, Fun)) or \
            (q in TREEIT and isinstance(v, MIt)) or (q in VECIT and isinstance(v, VIt)) or \
            (q == "std::variant" and isinstance(v, Variant))
        if same:
            return I.copyval(v, rref(I, f, first))
    node = m_find_ctor_below(I, f, rid)
    if node is not None:
        g = I.F[node["f"]]
        if len(g["params"]) == len(a):
            return I.construct(rid, g, fit_fwd(I, f, g, args, first), node)
        if node["f"] is not None and len(g["params"]) > len(a):
            pass
    if len(a) == 1 and isinstance(v, Obj) and v.rec == rid:
        return I.copyval(v, rref(I, f, first))
    # aggregate / default arguments: evaluate the found constructor with its defaults
    if node is not None:
        g = I.F[node["f"]]
        if len(g["params"]) > len(a) and len(node["a"]) == len(g["params"]):
            extra = [I.ev(x) for x in node["a"][len(a):]]
            return I.construct(rid, g, fit_fwd(I, f, g, args, first) + extra, node)
    if q == "std::function":
        return Fun(Cell(I.copyval(v)))
    if I.is_model(rid):
        r = convert_model(I, rid, v, rref(I, f, first))
        if r is not None:
            return r
    cand = [g for g in I.F.values() if g.get("rec") == rid and g.get("kind") == "ctor" and len(g["params"]) == len(a) and not g.get("deleted")
            and not g.get("copy") and not g.get("move")]
    if len(cand) == 1:
        return I.construct(rid, cand[0], I.fit(cand[0], a))
    raise I.err("no constructor found for %s from %d arguments (in %s)" % (t["s"], len(a), f["q"]))


def fit_fwd(I, f, g, args, first):
    out = []
    for i, p in enumerate(g["params"]):
        if first + i >= len(args):
            break
        a = args[first + i]
        t = I.V[p]["t"]
        if I.P.is_ref(t):
            out.append(a if isinstance(a, Cell) else Cell(a))
        else:
            v = I.load(a)
            tt = I.T[t]
            if tt["c"] == "rec" and isinstance(v, Obj) and v.rec != tt["rec"] and tt["rec"] not in I.P.bases(v.rec):
                # implicit conversion to the parameter type
                conv = [h for h in I.F.values() if h.get("rec") == tt["rec"] and h.get("kind") == "ctor" and len(h["params"]) == 1
                        and I.P.strip_ref(I.V[h["params"][0]]["t"]).get("rec") == v.rec]
                if len(conv) == 1:
                    v = I.construct(tt["rec"], conv[0], [a])
                    out.append(v)
                    continue
            if tt["c"] == "rec" and num(v):
                conv = [h for h in I.F.values() if h.get("rec") == tt["rec"] and h.get("kind") == "ctor" and len(h["params"]) >= 1
                        and I.P.strip_ref(I.V[h["params"][0]]["t"])["c"] == ("float" if isinstance(v, Fraction) else "int")]
                if conv:
                    out.append(I.construct(tt["rec"], conv[0], [v]))
                    continue
            out.append(I.copyval(v, rref(I, f, first + i)) if isinstance(a, Cell) else v)
    return out


def convert_model(I, rid, v, mv=False):
    q = I.R[rid]["q"]
    if q in STRS and isinstance(v, Str):
        return I.copyval(v, mv)
    if q == "std::complex":
        c = cxv(I, v)
        if c is not None:
            o = Obj(rid)
            o.attr = c
            return o
    if q in SPTRS:
        if isinstance(v, SP):
            return SP(v.cell, q == "std::unique_ptr")
        if isinstance(v, Ptr):
            return SP(v.cell, q == "std::unique_ptr")
    if q == "std::function":
        return Fun(Cell(I.copyval(v)))
    if q == "std::variant":
        ts = [a["t"] for a in I.R[rid]["targs"]]
        for i, t in enumerate(ts):
            T = I.T[t]
            if isinstance(v, Str) and T["c"] == "rec" and I.R[T["rec"]]["q"] in STRS:
                return Variant(i, Cell(I.copyval(v, mv)), ts)
            if num(v) and T["c"] in ("int", "float", "bool"):
                return Variant(i, Cell(I.copyval(v, mv)), ts)
            if isinstance(v, Obj) and T.get("rec") == v.rec:
                return Variant(i, Cell(I.copyval(v, mv)), ts)
    if q in TREEIT and isinstance(v, MIt):
        return MIt(v.m, v.node)
    if q in VECIT and isinstance(v, VIt):
        return VIt(v.vec, v.idx)
    return None


def m_model_ctor(I, rid, f, args):
    r = I.R[rid]
    q = r["q"]
    a = list(args)
    if q == "std::complex":
        o = Obj(rid)
        if not a:
            o.attr = Cx(0, 0)
        elif len(a) == 2:
            o.attr = Cx(I.load(a[0]), I.load(a[1]))
        else:
            o.attr = cxv(I, a[0])
        if o.attr is None:
            raise I.err("complex number from %r" % (a,))
        return o
    # drop a trailing allocator argument
    while a and f["params"] and len(f["params"]) >= len(a) and "allocator" in I.T[I.V[f["params"][len(a) - 1]]["t"]]["s"] and \
            isinstance(I.load(a[-1]), Obj) and "allocator" in I.R[I.load(a[-1]).rec]["q"]:
        a.pop()
    if not a:
        return I.model_default(rid)
    v = I.load(a[0])
    if len(a) == 1:
        mv = rref(I, f, 0)
        if q in VECS and isinstance(v, Vec) or q in MAPS and isinstance(v, Map) or q == "std::tuple" and isinstance(v, Tup) and f.get("copy") or \
           q == "std::tuple" and isinstance(v, Tup) and f.get("move"):
            return I.copyval(v, mv)
        if q in SPTRS:
            if isinstance(v, SP):
                u = q == "std::unique_ptr"
                s = SP(v.cell, u)
                if mv:
                    v.cell = None
                return s
            if isinstance(v, Ptr):
                if v.cell is not None:
                    v.cell.shared = q != "std::unique_ptr"
                return SP(v.cell, q == "std::unique_ptr")
        if q in TREEIT and isinstance(v, MIt):
            return MIt(v.m, v.node)
        if q in VECIT:
            if isinstance(v, VIt):
                return VIt(v.vec, v.idx)
            if isinstance(v, Ptr):
                return v  # pointer-based iterator
        if q in STRS:
            return I.copyval(v, mv) if isinstance(v, Str) else Str(None)
        if q == "std::variant":
            if isinstance(v, Variant):
                return I.copyval(v, mv)
            x = convert_model(I, rid, v, mv)
            if x is not None:
                return x
        if q == "std::function":
            if isinstance(v, Fun):
                return I.copyval(v)
            return Fun(Cell(I.copyval(v)))
        if q == "std::initializer_list" and isinstance(v, IList):
            return v
    if q in VECS:
        elt = r["targs"][0]["t"]
        if isinstance(v, IList):
            return Vec(elt, [Cell(I.copyval(c.v)) for c in seq_of(I, v)], q)
        if isinstance(v, (VIt, MIt, Ptr)) and len(a) >= 2:
            items = [Cell(m_make_value(I, f, elt, [c])) if False else Cell(I.convert_elt(f, elt, c)) for c in iter_range(I, a[0], a[1])]
            return Vec(elt, items, q)
        if isinstance(v, Obj) and len(a) == 2:
            items = [Cell(I.convert_elt(f, elt, c)) for c in iter_range(I, a[0], a[1])]
            return Vec(elt, items, q)
        if num(v):
            n = count(I, v)
            if len(a) == 1:
                return Vec(elt, [Cell(I.defval(elt, True)) for _ in range(n)], q)
            x = I.load(a[1])
            return Vec(elt, [Cell(I.copyval(x)) for _ in range(n)], q)
    if q in MAPS:
        m = Map(q, rid)
        if isinstance(v, IList):
            for c in seq_of(I, v):
                I.map_insert(m, Cell(I.copyval(c.v)))
            return m
        if len(a) >= 2:
            for c in iter_range(I, a[0], a[1]):
                I.map_insert(m, Cell(I.copyval(I.load(c))))
            return m
    if q == "std::tuple":
        items = []
        fs = a
        if fs and isinstance(fs[0], Cell) and isinstance(fs[0].v, Obj) and "allocator_arg" in I.R[fs[0].v.rec]["q"]:
            fs = fs[2:]
        if len(fs) == 1 and isinstance(v, Tup):
            srcs = [c.v.cell if isinstance(c.v, Ref) else c for c in v.items]
            return Tup([Cell(I.conv_to(f, ta["t"], s)) for ta, s in zip(r["targs"], srcs)])
        if len(fs) == 1 and isinstance(v, Obj) and len(r["targs"]) == 2 and I.R[v.rec]["q"] == "std::pair":
            fl = I.P.all_fields(v.rec)
            srcs = [v.f[x["d"]] for x in fl]
            return Tup([Cell(I.conv_to(f, ta["t"], s)) for ta, s in zip(r["targs"], srcs)])
        if len(fs) == len(r["targs"]):
            for i, (ta, x) in enumerate(zip(r["targs"], fs)):
                items.append(Cell(I.conv_to(f, ta["t"], x, rref(I, f, i))))
            return Tup(items)
    if q in SPTRS and isinstance(v, Ptr):
        return SP(v.cell, q == "std::unique_ptr")
    if q in STRS or STREAMRX.match(q) or q in EXCS:
        if q in STRS:
            if len(a) == 2 and num(v) and "char" in I.T[f["params"] and I.V[f["params"][1]]["t"]]["s"] and isinstance(I.load(a[1]), int):
                return Str(chr(I.load(a[1])) * count(I, v))
            return Str(None)
        if STREAMRX.match(q):
            return Stream(q, v.s if isinstance(v, Str) else "")
        return Exc(q, v.text if isinstance(v, Exc) else v.s if isinstance(v, Str) else None)
    if q in VECIT:
        return v
    raise I.err("constructor of %s with %d arguments" % (r["s"], len(a)))


# ------------------------------------------------------------ std::complex
def cxv(I, x):
    v = I.load(x)
    if isinstance(v, Obj) and isinstance(v.attr, Cx):
        return v.attr
    if num(v):
        return Cx(v, 0)
    return None


def mkcx(I, tid, c):
    o = Obj(I.P.strip_ref(tid)["rec"])
    o.attr = c
    return o


def cx_arith(op, a, b):
    if op == "+":
        return Cx(a.re + b.re, a.im + b.im)
    if op == "-":
        return Cx(a.re - b.re, a.im - b.im)
    if op == "*":
        return Cx(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re)
    if any(isinstance(x, Poly) for x in (b.re, b.im)):
        raise NotImplementedError
    d = b.re * b.re + b.im * b.im
    f = Fraction(1, 1) / d
    return Cx((a.re * b.re + a.im * b.im) * f, (a.im * b.re - a.re * b.im) * f)


def cx_bin(op):
    def h(I, f, this, args):
        if not any(isinstance(v, Obj) and isinstance(v.attr, Cx) for v in map(I.load, args)):
            return NotImplemented
        if len(args) == 1:
            a = cxv(I, args[0])
            return mkcx(I, f["ret"], Cx(-a.re, -a.im) if op == "-" else a)
        a, b = cxv(I, args[0]), cxv(I, args[1])
        if a is None or b is None:
            return NotImplemented
        return mkcx(I, f["ret"], cx_arith(op, a, b))
    return h


def cx_cmpd(op):
    def h(I, f, this, args):
        v = this.v
        if not (isinstance(v, Obj) and isinstance(v.attr, Cx)):
            return NotImplemented
        b = cxv(I, args[0])
        if b is None:
            return NotImplemented
        o = Obj(v.rec)
        o.attr = cx_arith(op, I.load(this).attr, b) if op != "=" else b
        I.store(this, o)
        return this
    return h


def cx_eq(neg):
    def h(I, f, this, args):
        if not any(isinstance(v, Obj) and isinstance(v.attr, Cx) for v in map(I.load, args)):
            return NotImplemented
        a, b = cxv(I, args[0]), cxv(I, args[1])
        if a is None or b is None:
            return NotImplemented
        return (I.cmp_poly("==", a.re, b.re) and I.cmp_poly("==", a.im, b.im)) != neg
    return h


def cx_part(k):
    def h(I, f, this, args):
        v = I.load(this)
        if not (isinstance(v, Obj) and isinstance(v.attr, Cx)):
            return NotImplemented
        if args:
            o = Obj(v.rec)
            x = I.load(args[0])
            o.attr = Cx(x, v.attr.im) if k == "re" else Cx(v.attr.re, x)
            I.store(this, o)
            return None
        return getattr(v.attr, k)
    return h


def cx_free(k):
    def h(I, f, this, args):
        a = cxv(I, args[0])
        if a is None or not isinstance(I.load(args[0]), Obj):
            return NotImplemented
        if k == "conj":
            return mkcx(I, f["ret"], Cx(a.re, -a.im))
        if k == "norm":
            return a.re * a.re + a.im * a.im
        return getattr(a, k)
    return h


COMPLEX_FUNCS = {"std::conj": cx_free("conj"), "std::norm": cx_free("norm"), "std::real": cx_free("re"), "std::imag": cx_free("im"),
                 "std::complex::real": cx_part("re"), "std::complex::imag": cx_part("im"), "std::complex::operator=": cx_cmpd("="),
                 "std::operator==": cx_eq(False), "std::operator!=": cx_eq(True)}
for _o in "+-*/":
    COMPLEX_FUNCS["std::operator" + _o] = cx_bin(_o)
    COMPLEX_FUNCS["std::complex::operator" + _o + "="] = cx_cmpd(_o)


def m_convert_elt(I, f, elt, c):
    return I.conv_to(f, elt, c)


def m_conv_to(I, f, tid, x, mv=False):
    t = I.T[tid]
    if t["c"] in ("lref", "rref"):
        return Ref(x if isinstance(x, Cell) else Cell(x))
    v = I.load(x)
    if t["c"] == "rec":
        if isinstance(v, Obj) and v.rec == t["rec"]:
            return I.copyval(v, mv)
        if I.is_model(t["rec"]):
            r = convert_model(I, t["rec"], v, mv)
            if r is not None:
                return r
            return I.copyval(v, mv)
        node = m_find_ctor_below(I, f, t["rec"])
        if node is not None and len(node["a"]) == 1:
            g = I.F[node["f"]]
            return I.construct(t["rec"], g, I.fit(g, [x]), node)
        cand = [g for g in I.F.values() if g.get("rec") == t["rec"] and g.get("kind") == "ctor" and len(g["params"]) == 1 and
                isinstance(v, Obj) and I.P.strip_ref(I.V[g["params"][0]]["t"]).get("rec") == v.rec]
        if len(cand) == 1:
            return I.construct(t["rec"], cand[0], I.fit(cand[0], [x]))
        raise I.err("conversion to " + t["s"])
    return I.convert(v, tid, tid)


def count(I, v):
    """number of elements to be stored"""
    n = concrete(I, v)
    if n > 1 << 21:
        raise AnalysisLimit("storage for %d elements at %s" % (n, " <- ".join(I.where()[:4])))
    return n


def concrete(I, v):
    v = I.load(v)
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, Poly):
        # bounded shapes only
        for k in range(0, 9):
            if I.cmp_poly("==", v, k):
                return k
    raise I.err("container size is not bounded: %r" % (v,))


# ---------------------------------------------------------------- iterators
def seq_of(I, il):
    s = il.items
    return s if isinstance(s, list) else s


def m_it_deref(I, itc):
    it = I.load(itc)
    if isinstance(it, VIt):
        v = it.vec
        if not 0 <= it.idx < len(v.items):
            raise I.bad("out-of-range", "an iterator past the end of a sequence is dereferenced")
        return v.items[it.idx]
    if isinstance(it, MIt):
        if it.node is None:
            raise I.bad("out-of-range", "the end iterator of a map is dereferenced")
        if not it.node.alive:
            raise I.bad("dead", "an iterator to an erased map element is dereferenced")
        return it.node.cell
    if isinstance(it, Ptr):
        return it.target()
    if isinstance(it, Obj):
        for f in I.methods_named(it.rec, "operator*"):
            if not f["params"]:
                return I.call(f, I.cell(itc), [])
    raise I.err("dereference of %r" % (it,))


def m_it_step(I, it, n):
    if isinstance(it, VIt):
        j = it.idx + n
        # (positions outside the sequence are let pass until they are dereferenced)
        return VIt(it.vec, j)
    if isinstance(it, MIt):
        node = it.node
        m = it.m
        if node is None:
            if n >= 0:
                raise I.bad("out-of-range", "the end iterator of a map is incremented")
            if not m.nodes:
                raise I.bad("out-of-range", "an iterator into an empty map is decremented")
            return MIt(m, m.nodes[n])
        if not node.alive:
            raise I.bad("dead", "an iterator to an erased map element is advanced")
        owner = m
        k = owner.nodes.index(node) if node in owner.nodes else None
        if k is None:
            # nodes were moved to another map (swap)
            raise I.bad("dead", "an iterator to an element no longer in the map is advanced")
        k += n
        return MIt(m, m.nodes[k] if k < len(m.nodes) else None)
    if isinstance(it, Ptr):
        return I.ptr_arith("+", it, n)
    return None


def m_it_inc(I, c):
    it = I.load(c)
    r = m_it_step(I, it, 1)
    if r is not None:
        I.store(c, r)
        return
    for f in I.methods_named(it.rec, "operator++"):
        if not f["params"]:
            I.call(f, c, [])
            return
    raise I.err("increment")


def m_it_eq(I, a, b):
    x, y = I.load(a), I.load(b)
    if isinstance(x, VIt) and isinstance(y, VIt):
        return x.vec is y.vec and x.idx == y.idx
    if isinstance(x, MIt) and isinstance(y, MIt):
        return x.node is y.node
    if isinstance(x, Ptr):
        return x.eq(y)
    if isinstance(x, Obj):
        for nm, neg in (("operator==", False), ("operator!=", True)):
            for f in I.methods_named(x.rec, nm):
                if len(f["params"]) == 1:
                    return I.truth(I.call(f, I.cell(a), I.fit(f, [b]))) != neg
        f = I.op_lookup("operator==", x.rec)
        if f:
            return I.truth(I.call(f, None, [I.cell(a), I.cell(b)]))
    raise I.err("iterator comparison")


def iter_range(I, a, b):
    c = Cell(I.copyval(I.load(a)))
    out = []
    while not m_it_eq(I, c, b):
        d = m_it_deref(I, c)
        out.append(d)
        m_it_inc(I, c)
        if len(out) > 4096:
            raise I.err("unbounded range")
    return out


# ---------------------------------------------------------------- equality
def m_op_lookup(I, name, rid):
    key = ("op", name, rid)
    c = I._opcache
    if key not in c:
        bs = I.P.bases(rid)
        best = None
        for f in I.F.values():
            if f["name"] != name or f.get("deleted"):
                continue
            ps = f["params"]
            if f.get("kind") == "func" and len(ps) == 2:
                t0, t1 = (I.P.strip_ref(I.V[p]["t"]).get("rec") for p in ps)
                if t0 == rid and t1 == rid:
                    best = f
                    break
                if t0 in bs and t1 == t0 and t0 is not None:
                    best = best or f
        c[key] = best
    return c[key]


def m_values_equal(I, a, b):
    x, y = I.load(a), I.load(b)
    if num(x) and num(y):
        return I.cmp_poly("==", x, y) if not isinstance(x, bool) or not isinstance(y, bool) else x == y
    if hasattr(x, "vp_binop"):
        return I.truth(x.vp_binop(I, "==", y, False, None))
    if isinstance(x, Vec) and isinstance(y, Vec):
        return len(x.items) == len(y.items) and all(m_values_equal(I, p, q) for p, q in zip(x.items, y.items))
    if isinstance(x, list) and isinstance(y, list):
        return all(m_values_equal(I, p, q) for p, q in zip(x, y))
    if isinstance(x, Tup) and isinstance(y, Tup):
        return all(m_values_equal(I, un(p), un(q)) for p, q in zip(x.items, y.items))
    if isinstance(x, Map) and isinstance(y, Map):
        return len(x.nodes) == len(y.nodes) and all(m_values_equal(I, p.cell, q.cell) for p, q in zip(x.nodes, y.nodes))
    if isinstance(x, SP) and isinstance(y, SP):
        return x.cell is y.cell
    if isinstance(x, Ptr) and isinstance(y, Ptr):
        return x.eq(y)
    if isinstance(x, (MIt, VIt)):
        return m_it_eq(I, x, y)
    if isinstance(x, Variant) and isinstance(y, Variant):
        return x.idx == y.idx and m_values_equal(I, x.cell, y.cell)
    if isinstance(x, Str) and isinstance(y, Str):
        if x.s is None or y.s is None:
            return I.decide(("streq", id(x), id(y)))
        return x.s == y.s
    if isinstance(x, Obj) and isinstance(y, Obj):
        f = I.op_lookup("operator==", x.rec)
        if f is not None:
            return I.truth(I.call(f, None, [I.cell(a), I.cell(b)]))
        for f in I.methods_named(x.rec, "operator=="):
            if len(f["params"]) == 1:
                return I.truth(I.call(f, I.cell(a), [I.cell(b)]))
        if I.R[x.rec]["q"] == "std::pair":
            fl = I.P.all_fields(x.rec)
            return all(m_values_equal(I, x.f[p["d"]], y.f[p["d"]]) for p in fl)
        if I.R[x.rec]["q"] == "std::array":
            fl = I.P.all_fields(x.rec)
            return m_values_equal(I, x.f[fl[0]["d"]], y.f[fl[0]["d"]])
    raise I.err("equality of %r and %r" % (x, y))


def un(c):
    return c.v.cell if isinstance(c.v, Ref) else c


def m_values_less(I, a, b):
    x, y = I.load(a), I.load(b)
    if num(x) and num(y):
        return I.cmp_poly("<", x, y)
    if isinstance(x, Vec) and isinstance(y, Vec):
        return lexless(I, x.items, y.items)
    if isinstance(x, Tup) and isinstance(y, Tup):
        for p, q in zip(x.items, y.items):
            if m_values_less(I, un(p), un(q)):
                return True
            if m_values_less(I, un(q), un(p)):
                return False
        return False
    if isinstance(x, Variant) and isinstance(y, Variant):
        return x.idx < y.idx or x.idx == y.idx and m_values_less(I, x.cell, y.cell)
    if isinstance(x, Str) and isinstance(y, Str):
        if x.s is not None and y.s is not None:
            return x.s < y.s
        return I.decide(("strlt", id(x), id(y)))
    if isinstance(x, VIt) and isinstance(y, VIt):
        return x.idx < y.idx
    if isinstance(x, Obj) and isinstance(y, Obj):
        f = I.op_lookup("operator<", x.rec)
        if f is not None:
            return I.truth(I.call(f, None, [I.cell(a), I.cell(b)]))
        for f in I.methods_named(x.rec, "operator<"):
            if len(f["params"]) == 1:
                return I.truth(I.call(f, I.cell(a), [I.cell(b)]))
        if I.R[x.rec]["q"] in ("std::pair",):
            fl = I.P.all_fields(x.rec)
            return lexless(I, [x.f[p["d"]] for p in fl], [y.f[p["d"]] for p in fl])
        if I.R[x.rec]["q"] == "std::array":
            fl = I.P.all_fields(x.rec)
            return lexless(I, x.f[fl[0]["d"]].v, y.f[fl[0]["d"]].v)
    raise I.err("ordering of %r and %r" % (x, y))


def lexless(I, xs, ys):
    for p, q in zip(xs, ys):
        if m_values_less(I, p, q):
            return True
        if m_values_less(I, q, p):
            return False
    return len(xs) < len(ys)


# -------------------------------------------------------------------- maps
def m_map_less(I, m, ka, kb):
    key = ("cmp", m.rec)
    c = I._opcache
    if key not in c:
        r = I.R[m.rec]
        ci = 2 if "map" in m.kind else 1
        f = None
        if "unordered" not in m.kind and len(r.get("targs", ())) > ci:
            t = I.T[r["targs"][ci]["t"]]
            if t["c"] == "rec":
                for g in I.F.values():
                    if g.get("rec") == t["rec"] and g["name"] == "operator()" and g.get("body") is not None:
                        f = g
                        break
                if f is None and I.R[t["rec"]]["q"] != "std::less":
                    f = "unknown"
        c[key] = f
    f = c[key]
    if f == "unknown":
        raise I.err("comparator of " + I.R[m.rec]["s"])
    if f is None:
        return m_values_less(I, ka, kb)
    return I.truth(I.call(f, Cell(Obj(f["rec"])), [I.cell(ka), I.cell(kb)]))


def map_find(I, m, k):
    if "unordered" in m.kind:
        for n in m.nodes:
            if m_values_equal(I, n.key, k):
                return n
        return None
    i = lower_bound(I, m, k)
    if i < len(m.nodes) and not m_map_less(I, m, k, m.nodes[i].key):
        return m.nodes[i]
    return None


def lower_bound(I, m, k):
    i = 0
    while i < len(m.nodes) and m_map_less(I, m, m.nodes[i].key, k):
        i += 1
    return i


def upper_bound(I, m, k):
    i = 0
    while i < len(m.nodes) and not m_map_less(I, m, k, m.nodes[i].key):
        i += 1
    return i


def m_map_insert(I, m, cell):
    """insert a node whose value cell is given; returns (node, inserted)"""
    nd = I.mknode(m, cell)
    if "unordered" in m.kind:
        o = map_find(I, m, nd.key)
        if o is not None:
            return o, False
        m.nodes.append(nd)
        return nd, True
    if "multi" in m.kind:
        m.nodes.insert(upper_bound(I, m, nd.key), nd)
        return nd, True
    i = lower_bound(I, m, nd.key)
    if i < len(m.nodes) and not m_map_less(I, m, nd.key, m.nodes[i].key):
        return m.nodes[i], False
    m.nodes.insert(i, nd)
    return nd, True


def elt_rec(I, m):
    """record id of the value_type"""
    key = ("elt", m.rec)
    if key not in I._opcache:
        r = I.R[m.rec]
        al = r["targs"][-1]
        at = I.T[al["t"]]
        I._opcache[key] = I.R[at["rec"]]["targs"][0]["t"]
    return I._opcache[key]


def new_elt(I, m, f, args, first=0):
    tid = elt_rec(I, m)
    if "map" not in m.kind:
        return Cell(I.make_value(f, tid, args, first))
    t = I.T[tid]
    rid = t["rec"]
    a = args[first:]
    fl = I.P.all_fields(rid)
    if len(a) == 1:
        v = I.load(a[0])
        if isinstance(v, Obj) and v.rec == rid:
            return Cell(I.copyval(v, rref(I, f, first)))
        if isinstance(v, Obj) and I.R[v.rec]["q"] == "std::pair":
            sf = I.P.all_fields(v.rec)
            o = Obj(rid)
            mv = rref(I, f, first)
            for d, s in zip(fl, sf):
                node_f = f
                o.f[d["d"]] = Cell(I.conv_to(node_f, d["t"], v.f[s["d"]], mv))
            return Cell(o)
    if len(a) == 2:
        o = Obj(rid)
        for i, d in enumerate(fl):
            o.f[d["d"]] = Cell(I.conv_to(f, d["t"], a[i], rref(I, f, first + i)))
        return Cell(o)
    if len(a) == 3:  # piecewise
        o = Obj(rid)
        for i, d in enumerate(fl):
            tp = I.load(a[1 + i])
            aa = [un(c) for c in tp.items]
            if len(aa) == 1:
                o.f[d["d"]] = Cell(I.conv_to(f, d["t"], aa[0]))
            else:
                o.f[d["d"]] = Cell(I.make_value(f, d["t"], aa))
        return Cell(o)
    return Cell(I.make_value(f, tid, args, first))


def mkpair(I, tid, a, b):
    t = I.P.strip_ref(tid)
    rid = t["rec"]
    fl = I.P.all_fields(rid)
    o = Obj(rid)
    o.f[fl[0]["d"]] = Cell(a)
    o.f[fl[1]["d"]] = Cell(b)
    return o


def call_map(I, f, this, m, args):
    n = f["name"]
    if n in ("begin", "cbegin"):
        return MIt(m, m.nodes[0] if m.nodes else None)
    if n in ("end", "cend"):
        return MIt(m, None)
    if n in ("rbegin", "rend", "crbegin", "crend"):
        return NotImplemented
    if n == "size":
        return len(m.nodes)
    if n == "empty":
        return not m.nodes
    if n == "clear":
        for nd in m.nodes:
            I.kill_node(nd)
        m.nodes = []
        return None
    if n == "reserve":
        return None
    if n == "find":
        nd = map_find(I, m, args[0])
        return MIt(m, nd)
    if n in ("count", "contains"):
        if "multi" in m.kind:
            return sum(1 for x in m.nodes if not m_map_less(I, m, x.key, args[0]) and not m_map_less(I, m, args[0], x.key))
        r = map_find(I, m, args[0]) is not None
        return r if n == "contains" else int(r)
    if n == "lower_bound":
        i = lower_bound(I, m, args[0])
        return MIt(m, m.nodes[i] if i < len(m.nodes) else None)
    if n == "upper_bound":
        i = upper_bound(I, m, args[0])
        return MIt(m, m.nodes[i] if i < len(m.nodes) else None)
    if n == "equal_range":
        i, j = lower_bound(I, m, args[0]), upper_bound(I, m, args[0])
        g = lambda k: MIt(m, m.nodes[k] if k < len(m.nodes) else None)
        return mkpair(I, f["ret"], g(i), g(j))
    if n in ("emplace", "insert"):
        if n == "insert" and len(args) == 2:
            v0 = I.load(args[0])
            if isinstance(v0, MIt) and v0.m is m:
                nd, _ = I.map_insert(m, new_elt(I, m, f, args, 1))
                return MIt(m, nd)
            for c in iter_range(I, args[0], args[1]):
                I.map_insert(m, new_elt(I, m, f, [c]))
            return None
        if n == "insert" and isinstance(I.load(args[0]), IList):
            for c in seq_of(I, I.load(args[0])):
                I.map_insert(m, new_elt(I, m, f, [c]))
            return None
        nd, ins = I.map_insert(m, new_elt(I, m, f, args))
        if "multi" in m.kind:
            return MIt(m, nd)
        return mkpair(I, f["ret"], MIt(m, nd), ins)
    if n == "emplace_hint":
        nd, _ = I.map_insert(m, new_elt(I, m, f, args, 1))
        return MIt(m, nd)
    if n in ("try_emplace", "insert_or_assign"):
        nd = map_find(I, m, args[0])
        if nd is not None:
            if n == "insert_or_assign":
                fl = I.P.all_fields(nd.cell.v.rec)
                I.store(nd.cell.v.f[fl[1]["d"]], I.conv_to(f, fl[1]["t"], args[1]))
            return mkpair(I, f["ret"], MIt(m, nd), False)
        tid = elt_rec(I, m)
        rid = I.T[tid]["rec"]
        fl = I.P.all_fields(rid)
        o = Obj(rid)
        o.f[fl[0]["d"]] = Cell(I.conv_to(f, fl[0]["t"], args[0]))
        o.f[fl[1]["d"]] = Cell(I.conv_to(f, fl[1]["t"], args[1]) if len(args) == 2 else I.make_value(f, fl[1]["t"], args, 1))
        nd, _ = I.map_insert(m, Cell(o))
        return mkpair(I, f["ret"], MIt(m, nd), True)
    if n in ("operator[]", "at"):
        nd = map_find(I, m, args[0])
        if nd is None:
            if n == "at":
                raise ThrowEx(None, "std::out_of_range", I.lastloc)
            tid = elt_rec(I, m)
            rid = I.T[tid]["rec"]
            fl = I.P.all_fields(rid)
            o = Obj(rid)
            o.f[fl[0]["d"]] = Cell(I.conv_to(f, fl[0]["t"], args[0]))
            o.f[fl[1]["d"]] = Cell(I.defval(fl[1]["t"], True))
            nd, _ = I.map_insert(m, Cell(o))
        fl = I.P.all_fields(nd.cell.v.rec)
        return nd.cell.v.f[fl[1]["d"]]
    if n == "erase":
        v = I.load(args[0])
        if isinstance(v, MIt) and len(args) == 1:
            nd = v.node
            if nd is None:
                raise I.bad("out-of-range", "the end iterator of a map is erased")
            if not nd.alive:
                raise I.bad("dead", "a map element is erased twice")
            nxt = m_it_step(I, MIt(m, nd), 1)
            m.nodes.remove(nd)
            I.kill_node(nd)
            return nxt
        if isinstance(v, MIt):
            e = I.load(args[1])
            cur = v.node
            while cur is not e.node:
                k = m.nodes.index(cur)
                m.nodes.remove(cur)
                I.kill_node(cur)
                cur = m.nodes[k] if k < len(m.nodes) else None
            return MIt(m, cur)
        cnt = 0
        while True:
            nd = map_find(I, m, args[0])
            if nd is None:
                return cnt
            m.nodes.remove(nd)
            I.kill_node(nd)
            cnt += 1
    if n == "swap":
        o = I.load(args[0])
        m.nodes, o.nodes = o.nodes, m.nodes
        return None
    if n == "operator=":
        v = I.load(args[0])
        if isinstance(v, IList):
            I.store(this, m_model_ctor(I, m.rec, f, args))
        elif v is not m:
            I.store(this, I.copyval(v, rref(I, f, 0)))
        return this
    if n == "merge":
        o = I.load(args[0])
        for nd in list(o.nodes):
            x, ins = I.map_insert(m, nd.cell)
            if ins:
                o.nodes.remove(nd)
        return None
    return NotImplemented


# ----------------------------------------------------------------- vectors
def call_vec(I, f, this, v, args):
    n = f["name"]
    if n in ("begin", "cbegin"):
        return VIt(v, 0)
    if n in ("end", "cend"):
        return VIt(v, len(v.items))
    if n == "size":
        return len(v.items)
    if n == "capacity":
        return len(v.items)
    if n == "empty":
        return not v.items
    if n in ("reserve", "shrink_to_fit"):
        return None
    if n in ("operator[]", "at"):
        i = I.load(args[0])
        if isinstance(i, Poly):
            h = getattr(v, "symindex", None)
            i = concrete(I, i)
        if hasattr(i, "vp_index"):
            i = i.vp_index(I)
        if not 0 <= i < len(v.items):
            if n == "at":
                raise ThrowEx(None, "std::out_of_range", I.lastloc)
            raise I.bad("out-of-range", "element %s of a sequence of %d elements is accessed" % (i, len(v.items)))
        return v.items[i]
    if n == "front":
        if not v.items:
            raise I.bad("out-of-range", "front() of an empty sequence")
        return v.items[0]
    if n == "back":
        if not v.items:
            raise I.bad("out-of-range", "back() of an empty sequence")
        return v.items[-1]
    if n == "data":
        return Ptr(None, v.items, 0)
    if n == "push_back":
        x = I.load(args[0])
        v.items.append(Cell(I.copyval(x, rref(I, f, 0))))
        return None
    if n == "emplace_back":
        v.items.append(Cell(I.make_value(f, v.elt, args)))
        return v.items[-1]
    if n == "push_front":
        v.items.insert(0, Cell(I.copyval(I.load(args[0]))))
        return None
    if n == "pop_back":
        if not v.items:
            raise I.bad("out-of-range", "pop_back() on an empty sequence")
        I.kill(v.items.pop())
        return None
    if n == "clear":
        for c in v.items:
            I.kill(c)
        v.items = []
        return None
    if n == "resize":
        k = count(I, args[0])
        while len(v.items) > k:
            I.kill(v.items.pop())
        while len(v.items) < k:
            v.items.append(Cell(I.copyval(I.load(args[1])) if len(args) > 1 else I.defval(v.elt, True)))
        return None
    if n == "assign":
        x = I.load(args[0])
        if isinstance(x, IList):
            new = [Cell(I.copyval(c.v)) for c in seq_of(I, x)]
        elif num(x):
            k = count(I, x)
            y = I.load(args[1])
            new = [Cell(I.copyval(y)) for _ in range(k)]
        else:
            new = [Cell(I.copyval(I.load(c))) for c in iter_range(I, args[0], args[1])]
        for c in v.items:
            I.kill(c)
        v.items = new
        return None
    if n in ("insert", "emplace"):
        it = I.load(args[0])
        if len(args) == 2:
            x = I.load(args[1])
            if isinstance(x, IList):
                new = [Cell(I.copyval(c.v)) for c in seq_of(I, x)]
            elif n == "emplace":
                new = [Cell(I.make_value(f, v.elt, args, 1))]
            else:
                new = [Cell(I.copyval(x, rref(I, f, 1)))]
        elif n == "insert" and num(I.load(args[1])):
            y = I.load(args[2])
            new = [Cell(I.copyval(y)) for _ in range(count(I, args[1]))]
        elif n == "insert":
            new = [Cell(I.conv_to(f, v.elt, c)) for c in iter_range(I, args[1], args[2])]
        else:
            new = [Cell(I.make_value(f, v.elt, args, 1))]
        v.items[it.idx:it.idx] = new
        return VIt(v, it.idx)
    if n == "erase":
        it = I.load(args[0])
        j = I.load(args[1]).idx if len(args) > 1 else it.idx + 1
        if not (0 <= it.idx <= j <= len(v.items)) or (len(args) == 1 and it.idx >= len(v.items)):
            raise I.bad("out-of-range", "erase() outside the sequence")
        del v.items[it.idx:j]
        return VIt(v, it.idx)
    if n == "swap":
        o = I.load(args[0])
        v.items, o.items = o.items, v.items
        return None
    if n == "operator=":
        x = I.load(args[0])
        if isinstance(x, IList):
            I.store(this, Vec(v.elt, [Cell(I.copyval(c.v)) for c in seq_of(I, x)], v.kind))
        elif x is not v:
            I.store(this, I.copyval(x, rref(I, f, 0)))
        return this
    if n == "max_size":
        return 1 << 60
    return NotImplemented


def call_vit(I, f, this, it, args):
    n = f["name"]
    if n == "operator*":
        return I.it_deref(it)
    if n == "operator->":
        c = I.it_deref(it)
        return Ptr(c)
    if n in ("operator++", "operator--"):
        new = I.it_step(it, 1 if n == "operator++" else -1)
        if args:
            old = I.copyval(it) if not isinstance(it, (VIt, MIt)) else (VIt(it.vec, it.idx) if isinstance(it, VIt) else MIt(it.m, it.node))
            I.store(this, new)
            return old
        I.store(this, new)
        return this
    if n in ("operator+", "operator-") and args:
        o = I.load(args[0])
        if isinstance(o, VIt):
            return it.idx - o.idx
        return I.it_step(it, o if n == "operator+" else -o)
    if n in ("operator+=", "operator-="):
        o = I.load(args[0])
        I.store(this, I.it_step(it, o if n == "operator+=" else -o))
        return this
    if n == "operator[]":
        return I.it_deref(I.it_step(it, I.load(args[0])))
    if n == "operator=":
        I.store(this, I.load(args[0]))
        return this
    if n in ("operator==", "operator!="):
        return I.it_eq(it, args[0]) == (n == "operator==")
    if n in ("operator<", "operator>", "operator<=", "operator>="):
        o = I.load(args[0])
        return {"<": it.idx < o.idx, ">": it.idx > o.idx, "<=": it.idx <= o.idx, ">=": it.idx >= o.idx}[n[8:]]
    if n == "base":
        if isinstance(it, VIt):
            return Cell(Ptr(None, it.vec.items, it.idx))
    return NotImplemented


def call_sp(I, f, this, s, args):
    n = f["name"]
    if n in ("operator*",):
        return I.sp_deref(s)
    if n in ("operator->", "get", "_M_get"):
        return Ptr(s.cell)
    if n == "operator bool":
        return s.cell is not None
    if n == "reset":
        if args:
            p = I.load(args[0])
            s.cell = p.cell if p is not None else None
        else:
            if s.uniq and s.cell is not None:
                I.kill(s.cell)
            s.cell = None
        return None
    if n == "release":
        p = Ptr(s.cell)
        s.cell = None
        return p
    if n == "swap":
        o = I.load(args[0])
        s.cell, o.cell = o.cell, s.cell
        return None
    if n == "operator=":
        o = I.load(args[0])
        if isinstance(o, Ptr):
            I.store(this, SP(None, s.uniq))
            return this
        new = SP(o.cell, s.uniq)
        if rref(I, f, 0) and o is not s:
            o.cell = None
        I.store(this, new)
        return this
    if n == "use_count":
        return 1
    if n == "unique":
        return True
    return NotImplemented


def text_of(I, f, i, a):
    """Text that inserting argument i of f into a string or stream adds (None: not known)."""
    v = I.load(a)
    if isinstance(v, Str):
        return v.s
    ps = f["params"]
    t = I.P.strip_ref(I.V[ps[i]]["t"]) if i < len(ps) else None
    isch = t is not None and t["s"].replace("const ", "") in ("char", "signed char", "unsigned char")
    if isinstance(v, bool):
        return None if isch else str(int(v))
    if isinstance(v, int):
        return chr(v) if isch else str(v)
    if isinstance(v, Fraction) and v.denominator == 1:
        return str(int(v))
    if hasattr(v, "vp_text"):
        return v.vp_text(I)
    if isinstance(v, Poly) and I.num_text is not None:
        return I.num_text(v)
    return None


def add_text(s, t):
    return None if s is None or t is None else s + t


def call_str(I, f, this, s, args):
    n = f["name"]
    if n in ("operator+=", "append", "push_back"):
        if len(args) == 2 and n == "append":
            c = I.load(args[0])
            x = text_of(I, f, 1, args[1])
            I.store(this, Str(add_text(s.s, x * c if isinstance(c, int) and x is not None else None)))
            return this
        I.store(this, Str(add_text(s.s, text_of(I, f, 0, args[0])) if len(args) == 1 else None))
        return None if n == "push_back" else this
    if n in ("operator=", "assign"):
        I.store(this, Str(text_of(I, f, 0, args[0]) if len(args) == 1 else None))
        return this
    if n in ("reserve", "shrink_to_fit"):
        return None
    if n == "clear":
        I.store(this, Str(""))
        return None
    if n == "pop_back" and s.s:
        I.store(this, Str(s.s[:-1]))
        return None
    if n == "insert" and len(args) == 2 and I.load(args[0]) == 0 and num(I.load(args[0])):
        I.store(this, Str(add_text(text_of(I, f, 1, args[1]), s.s)))
        return this
    if n in ("substr", "erase") and s.s is not None and all(isinstance(I.load(x), int) for x in args):
        i, k = (I.load(args[0]) if args else 0), (I.load(args[1]) if len(args) > 1 else 1 << 62)
        k = min(k % (1 << 64), len(s.s))
        if n == "substr":
            return Str(s.s[i:i + k])
        I.store(this, Str(s.s[:i] + s.s[i + k:]))
        return this
    if n in ("c_str", "data"):
        return s
    if n == "empty" and s.s is not None:
        return not s.s
    if n in ("size", "length") and s.s is not None:
        return len(s.s)
    if n in ("size", "length"):
        return I.uf("strlen%d" % id(s), integer=True)
    if n == "compare" and s.s is not None and isinstance(I.load(args[0]), Str) and I.load(args[0]).s is not None:
        o = I.load(args[0]).s
        return (s.s > o) - (s.s < o)
    return NotImplemented


def m_model_call(I, f, this, tv, args):
    if isinstance(tv, Map):
        return call_map(I, f, this, tv, args)
    if isinstance(tv, Vec):
        return call_vec(I, f, this, tv, args)
    if isinstance(tv, (VIt, MIt)):
        return call_vit(I, f, this, tv, args)
    if isinstance(tv, Ptr) and f.get("rec") is not None and I.R[f["rec"]]["q"] in VECIT:
        n = f["name"]
        if n == "operator*":
            return tv.target()
        if n == "operator->":
            return Ptr(tv.target())
        if n in ("operator++", "operator--"):
            new = I.ptr_arith("+" if n == "operator++" else "-", tv, 1)
            I.store(this, new)
            return tv if args else this
        if n in ("operator+", "operator-"):
            return I.ptr_arith(n[-1], tv, I.load(args[0]))
        if n == "base":
            return Cell(tv)
        if n == "operator[]":
            return I.ptr_arith("+", tv, I.load(args[0])).target()
    if isinstance(tv, SP):
        return call_sp(I, f, this, tv, args)
    if isinstance(tv, Str):
        r = call_str(I, f, this, tv, args)
        return r if r is not NotImplemented else I.opaque_of(f["ret"], args, this)
    if isinstance(tv, Opq):
        if isinstance(tv, Exc) and f["name"] == "what":
            return Str(tv.text)
        if isinstance(tv, Stream):
            n = f["name"]
            if n == "str" and not args:
                return Str(tv.buf)
            if n == "str" and len(args) == 1:
                tv.buf = text_of(I, f, 0, args[0])
                return None
            if n in ("operator<<", "put") and len(args) == 1:
                tv.buf = add_text(tv.buf, text_of(I, f, 0, args[0]))
                return this
            if n == "write" and len(args) == 2:
                x, k = text_of(I, f, 0, args[0]), I.load(args[1])
                tv.buf = add_text(tv.buf, x[:k] if x is not None and isinstance(k, int) else None)
                return this
            if n not in ("flush", "good", "fail", "bad", "eof", "rdbuf", "rdstate", "tellp", "operator bool", "operator!"):
                tv.buf = None
        if f["name"] in ("operator<<", "operator=", "write", "put"):
            return this
        return I.opaque_of(f["ret"], args, this)
    if isinstance(tv, Tup):
        if f["name"] == "operator=":
            src = I.load(args[0])
            if isinstance(src, Obj):  # pair
                fl = I.P.all_fields(src.rec)
                src = Tup([src.f[x["d"]] for x in fl])
            vals = [I.copyval(I.load(un(c))) for c in src.items]
            for c, v in zip(tv.items, vals):
                I.store(un(c), v)
            return this
        if f["name"] == "swap":
            o = I.load(args[0])
            for c, d in zip(tv.items, o.items):
                c.v, d.v = d.v, c.v
            return None
    if isinstance(tv, Fun):
        n = f["name"]
        if n == "operator()":
            if tv.target is None:
                raise ThrowEx(None, "std::bad_function_call", I.lastloc)
            return I.callf(tv.target, args)
        if n == "operator bool":
            return tv.target is not None
        if n == "operator=":
            o = I.load(args[0])
            I.store(this, I.copyval(o) if isinstance(o, Fun) else Fun(Cell(I.copyval(o)) if not isinstance(o, Ptr) else None))
            return this
        if n == "swap":
            o = I.load(args[0])
            tv.target, o.target = o.target, tv.target
            return None
    if isinstance(tv, Variant):
        n = f["name"]
        if n == "index":
            return tv.idx
        if n == "operator=":
            o = I.load(args[0])
            if not isinstance(o, Variant):
                o = convert_model(I, f["rec"], o)
            I.store(this, I.copyval(o))
            return this
        if n == "valueless_by_exception":
            return False
    if isinstance(tv, IList):
        s = seq_of(I, tv)
        if f["name"] == "begin":
            return Ptr(None, s, 0)
        if f["name"] == "end":
            return Ptr(None, s, len(s))
        if f["name"] == "size":
            return len(s)
    if "rec" in f and I.R[f["rec"]]["q"] == "std::enable_shared_from_this":
        if f["name"] == "shared_from_this":
            if not this.shared:
                raise ThrowEx(None, "std::bad_weak_ptr", I.lastloc)
            return SP(this)
        if f["name"] == "operator=":
            return this
    return NotImplemented


# --------------------------------------------------------- free operators
def m_free_op(I, f, args):
    if len(args) == 0:
        return NotImplemented
    n = f["name"]
    a = I.load(args[0])
    b = I.load(args[1]) if len(args) > 1 else None
    if isinstance(a, Opq) and n in ("operator<<", "operator>>"):
        if isinstance(a, Stream):
            a.buf = add_text(a.buf, text_of(I, f, 1, args[1])) if n == "operator<<" and len(args) == 2 else None
        return args[0]
    if isinstance(a, (Str,)) or isinstance(b, Str):
        if n == "operator+":
            return Str(add_text(text_of(I, f, 0, args[0]), text_of(I, f, 1, args[1])))
    models = (Map, Vec, VIt, MIt, SP, Tup, Variant, Str, Ptr)
    if isinstance(a, models) or isinstance(b, models):
        if n in ("operator==", "operator!="):
            if isinstance(a, SP) and isinstance(b, Ptr) or isinstance(b, SP) and isinstance(a, Ptr):
                s = a if isinstance(a, SP) else b
                return (s.cell is None) == (n == "operator==")
            return m_values_equal(I, args[0], args[1]) == (n == "operator==")
        if n == "operator<":
            return m_values_less(I, args[0], args[1])
        if n == "operator>":
            return m_values_less(I, args[1], args[0])
        if n == "operator<=":
            return not m_values_less(I, args[1], args[0])
        if n == "operator>=":
            return not m_values_less(I, args[0], args[1])
        if n == "operator-" and isinstance(a, VIt):
            if isinstance(b, VIt):
                return a.idx - b.idx
        if n == "operator-" and isinstance(a, Ptr):
            return I.ptr_arith("-", a, b)
        if n == "operator+" and isinstance(b, VIt):
            return I.it_step(b, a)
    return NotImplemented


# ------------------------------------------------------- free std functions
def fwd(I, f, a):
    return a[0]


def f_swap(I, f, a):
    x, y = a[0], a[1]
    if not (isinstance(x, Cell) and isinstance(y, Cell)):
        return NotImplemented
    u, v = I.load(x), I.load(y)
    if isinstance(u, Obj) and I.P.in_lib(I.R[u.rec].get("l")):
        return NotImplemented
    if isinstance(u, Map):
        u.nodes, v.nodes = v.nodes, u.nodes
        return None
    if isinstance(u, Vec):
        u.items, v.items = v.items, u.items
        return None
    if isinstance(u, (list,)):
        for p, q in zip(u, v):
            p.v, q.v = q.v, p.v
        return None
    x.v, y.v = v, u
    return None


def f_get(I, f, a):
    t = I.load(a[0])
    targ = f["targs"][0]
    if isinstance(t, Tup):
        if "v" in targ:
            return un(t.items[int(targ["v"])])
        return NotImplemented
    if isinstance(t, Variant):
        i = int(targ["v"]) if "v" in targ else next((k for k, x in enumerate(t.types) if x == targ["t"]), None)
        if i != t.idx:
            raise ThrowEx(None, "std::bad_variant_access", I.lastloc)
        return t.cell
    return NotImplemented


def f_tie(I, f, a):
    return Tup([Cell(Ref(I.cell(x))) for x in a])


def f_make_tuple(I, f, a):
    t = I.T[f["ret"]]
    r = I.R[t["rec"]]
    return Tup([Cell(I.conv_to(f, ta["t"], x)) for ta, x in zip(r["targs"], a)])


def f_make_shared(I, f, a):
    tid = f["targs"][0]["t"]
    c = Cell()
    c.shared = True
    c.v = I.make_value(f, strip_const(I, tid), a)
    return SP(c)


def strip_const(I, tid):
    return tid


def f_make_unique(I, f, a):
    c = Cell()
    c.v = I.make_value(f, f["targs"][0]["t"], a)
    return SP(c, True)


def f_ptr_cast(I, f, a):
    s = I.load(a[0])
    if "dynamic" in f["q"] and s.cell is not None:
        to = f["targs"][0].get("t")
        rid = I.T[to].get("rec")
        if rid not in I.P.bases(s.cell.v.rec):
            return SP(None)
    return SP(s.cell)


def f_distance(I, f, a):
    x, y = I.load(a[0]), I.load(a[1])
    if isinstance(x, VIt):
        if x.vec is not y.vec:
            raise I.bad("out-of-range", "distance between iterators of different sequences")
        return y.idx - x.idx
    if isinstance(x, Ptr):
        return I.ptr_arith("-", y, x)
    if isinstance(x, MIt):
        return len(iter_range(I, x, y))
    return NotImplemented


def f_next(I, f, a):
    it = I.load(a[0])
    n = I.load(a[1]) if len(a) > 1 else 1
    if f["name"] == "prev":
        n = -n
    if isinstance(it, (VIt, Ptr)):
        return I.it_step(it, n)
    if isinstance(it, MIt):
        for _ in range(abs(n)):
            it = I.it_step(it, 1 if n > 0 else -1)
        return it
    return NotImplemented


def f_advance(I, f, a):
    it = I.load(a[0])
    if isinstance(it, (VIt, MIt, Ptr)):
        n = I.load(a[1])
        for _ in range(abs(n)):
            it = I.it_step(it, 1 if n > 0 else -1)
        I.store(a[0], it)
        return None
    return NotImplemented


def f_copy(I, f, a):
    first, last = a[0], a[1]
    if f["name"] == "copy_n":
        raise I.err("copy_n")
    out = Cell(I.copyval(I.load(a[2])))
    mv = f["q"] == "std::move"
    for c in iter_range(I, first, last):
        out_put(I, f, out, I.copyval(I.load(c), mv))
    return I.load(out)


def out_put(I, f, out, v):
    it = I.load(out)
    if isinstance(it, Obj) and I.R[it.rec]["q"] in ("std::back_insert_iterator", "std::insert_iterator", "std::front_insert_iterator"):
        cont = None
        for fl in I.P.all_fields(it.rec):
            if fl["n"] == "container":
                cont = I.load(it.f[fl["d"]]).target()
        cv = I.load(cont)
        if isinstance(cv, Vec):
            cv.items.append(Cell(I.conv_to(f, cv.elt, v)))
            return
        if isinstance(cv, Map):
            I.map_insert(cv, new_elt(I, cv, f, [Cell(v)]))
            return
    c = I.it_deref(out)
    I.store(c, v)
    I.it_inc(out)


def f_fill(I, f, a):
    x = I.load(a[2])
    for c in iter_range(I, a[0], a[1]):
        I.store(c, I.copyval(x))
    return None


def f_fill_n(I, f, a):
    out = Cell(I.copyval(I.load(a[0])))
    for _ in range(concrete(I, a[1])):
        out_put(I, f, out, I.copyval(I.load(a[2])))
    return I.load(out)


def f_transform(I, f, a):
    if len(a) == 4:
        out = Cell(I.copyval(I.load(a[2])))
        for c in iter_range(I, a[0], a[1]):
            r = I.callf(a[3], [c])
            out_put(I, f, out, I.copyval(I.load(r)) if isinstance(r, Cell) else r)
        return I.load(out)
    out = Cell(I.copyval(I.load(a[3])))
    second = Cell(I.copyval(I.load(a[2])))
    for c in iter_range(I, a[0], a[1]):
        r = I.callf(a[4], [c, I.it_deref(second)])
        I.it_inc(second)
        out_put(I, f, out, I.copyval(I.load(r)) if isinstance(r, Cell) else r)
    return I.load(out)


def f_for_each(I, f, a):
    for c in iter_range(I, a[0], a[1]):
        I.callf(a[2], [c])
    return I.load(a[2])


def f_quant(I, f, a):
    n = f["name"]
    for c in iter_range(I, a[0], a[1]):
        b = I.truth(I.callf(a[2], [c]))
        if n == "any_of" and b:
            return True
        if n == "none_of" and b:
            return False
        if n == "all_of" and not b:
            return False
    return n != "any_of"


def f_sort(I, f, a):
    it = I.load(a[0])
    e = I.load(a[1])
    if isinstance(it, Obj):
        return NotImplemented
    cells = iter_range(I, a[0], a[1])
    vals = [c.v for c in cells]

    def less(x, y):
        if len(a) > 2:
            return I.truth(I.callf(a[2], [Cell(x), Cell(y)]))
        return m_values_less(I, Cell(x), Cell(y))
    out = []
    for v in vals:
        i = len(out)
        while i > 0 and less(v, out[i - 1]):
            i -= 1
        out.insert(i, v)
    for c, v in zip(cells, out):
        c.v = v
    return None


def f_accumulate(I, f, a):
    it = I.load(a[0])
    if isinstance(it, Obj):
        return NotImplemented
    # the accumulator has the type of the initial value
    tid = I.V[f["params"][2]]["t"]
    acc = I.load(a[2])
    for c in iter_range(I, a[0], a[1]):
        if len(a) > 3:
            r = I.load(I.callf(a[3], [acc, c]))
        else:
            r = I.arith("+", acc, I.load(c), tid)
        acc = I.convert(r, tid, tid)
    return acc


def f_find(I, f, a):
    c = Cell(I.copyval(I.load(a[0])))
    if isinstance(c.v, Obj):
        return NotImplemented
    while not I.it_eq(c, a[1]):
        if m_values_equal(I, I.it_deref(c), a[2]):
            break
        I.it_inc(c)
    return I.load(c)


def f_bound(I, f, a):
    c = Cell(I.copyval(I.load(a[0])))
    if isinstance(c.v, Obj):
        return NotImplemented
    up = f["name"] == "upper_bound"

    def less(x, y):
        return I.truth(I.callf(a[3], [x, y])) if len(a) > 3 else m_values_less(I, x, y)
    while not I.it_eq(c, a[1]):
        d = I.it_deref(c)
        if up and less(a[2], d):
            break
        if not up and not less(d, a[2]):
            break
        I.it_inc(c)
    return I.load(c)


def f_iota(I, f, a):
    v = I.load(a[2])
    for c in iter_range(I, a[0], a[1]):
        I.store(c, v)
        v = I.arith("+", v, 1, I.V[f["params"][2]]["t"])
    return None


def f_equal(I, f, a):
    if not all(isinstance(I.load(x), (VIt, Ptr, MIt)) for x in a[:3]) or len(a) > 3:
        return NotImplemented
    xs = iter_range(I, a[0], a[1])
    c = Cell(I.load(a[2]))
    for x in xs:
        if not m_values_equal(I, x, I.it_deref(c)):
            return False
        I.it_inc(c)
    return True


def f_max(I, f, a):
    if len(a) == 1:
        il = I.load(a[0])
        xs = seq_of(I, il)
    else:
        xs = a[:2]
    best = xs[0]
    for x in xs[1:]:
        if len(a) > 2:
            lt = I.truth(I.callf(a[2], [best, x] if f["name"] == "max" else [x, best]))
        else:
            lt = m_values_less(I, best, x) if f["name"] == "max" else m_values_less(I, x, best)
        if lt:
            best = x
    return best if len(a) > 1 else I.copyval(I.load(best))


def f_maxelt(I, f, a):
    c = Cell(I.copyval(I.load(a[0])))
    if isinstance(c.v, Obj):
        return NotImplemented
    if I.it_eq(c, a[1]):
        return I.load(c)
    best = Cell(I.copyval(I.load(c)))
    I.it_inc(c)
    while not I.it_eq(c, a[1]):
        x, y = I.it_deref(best), I.it_deref(c)
        if f["name"] == "min_element":
            x, y = y, x
        lt = I.truth(I.callf(a[2], [x, y])) if len(a) > 2 else m_values_less(I, x, y)
        if lt:
            best = Cell(I.copyval(I.load(c)))
        I.it_inc(c)
    return I.load(best)


def f_is_sorted(I, f, a):
    if isinstance(I.load(a[0]), Obj):
        return NotImplemented
    xs = iter_range(I, a[0], a[1])
    return not any(m_values_less(I, y, x) for x, y in zip(xs, xs[1:]))


def f_reverse(I, f, a):
    if isinstance(I.load(a[0]), Obj):
        return NotImplemented
    cells = iter_range(I, a[0], a[1])
    vals = [c.v for c in cells][::-1]
    for c, v in zip(cells, vals):
        c.v = v
    return None


def f_unique(I, f, a):
    it = I.load(a[0])
    if not isinstance(it, VIt):
        return NotImplemented
    cells = iter_range(I, a[0], a[1])
    out = []
    for c in cells:
        if not out or not (I.truth(I.callf(a[2], [Cell(out[-1]), c])) if len(a) > 2 else m_values_equal(I, Cell(out[-1]), c)):
            out.append(c.v)
    for c, v in zip(cells, out):
        c.v = v
    return VIt(it.vec, it.idx + len(out))


def f_count(I, f, a):
    n = 0
    for c in iter_range(I, a[0], a[1]):
        n += m_values_equal(I, c, a[2])
    return n


def f_count_if(I, f, a):
    return sum(1 for c in iter_range(I, a[0], a[1]) if I.truth(I.callf(a[2], [c])))


def f_find_if(I, f, a):
    c = Cell(I.copyval(I.load(a[0])))
    if isinstance(c.v, Obj):
        return NotImplemented
    neg = f["name"] == "find_if_not"
    while not I.it_eq(c, a[1]):
        if I.truth(I.callf(a[2], [I.it_deref(c)])) != neg:
            break
        I.it_inc(c)
    return I.load(c)


def f_exchange(I, f, a):
    old = I.copyval(I.load(a[0]))
    I.store(a[0], I.copyval(I.load(a[1])))
    return old


def f_assert_fail(I, f, a):
    if I.assume_asserts:
        raise Infeasible()
    raise I.bad("assertion", "an assertion fails")


def f_begin(I, f, a):
    v = I.load(a[0])
    if isinstance(v, list):
        return Ptr(None, v, 0 if f["name"] in ("begin", "cbegin") else len(v))
    if isinstance(v, (Vec, Map)):
        return (VIt(v, 0 if "begin" in f["name"] else len(v.items)) if isinstance(v, Vec) else
                MIt(v, v.nodes[0] if v.nodes and "begin" in f["name"] else None))
    return NotImplemented


def f_expect(I, f, a):
    return I.load(a[0])


def f_abs(I, f, a):
    v = I.load(a[0])
    if hasattr(v, "vp_abs"):
        return v.vp_abs(I)
    if isinstance(v, Poly):
        return -v if I.cmp_poly("<", v, 0) else v
    if num(v):
        return abs(v)
    return NotImplemented


def f_sqrt(I, f, a):
    v = I.load(a[0])
    if num(v):
        p = Poly.of(v)
        if p.is_const():
            c = Fraction(p.const_value())
            if c >= 0:
                n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if n * n == c.numerator and d * d == c.denominator:
                    r = Fraction(n, d)
                    return int(r) if r.denominator == 1 else r
        return I.uf("sqrt", p)
    return NotImplemented


def f_log2(I, f, a):
    v = I.load(a[0])
    if isinstance(v, (int, Fraction)):
        if v <= 0:
            raise I.err("log2 of a non-positive value")
        if isinstance(v, int) and v & (v - 1) == 0:
            return v.bit_length() - 1
        r = Fraction(math.log2(v))
        return r
    return I.uf("log2", Poly.of(v)) if num(v) else NotImplemented


def f_round(I, f, a):
    v = I.load(a[0])
    if hasattr(v, "vp_round"):
        r = v.vp_round(I, {"round": "round", "lround": "round", "llround": "round", "lrint": "rint", "llrint": "rint"}.get(
            f["name"].replace("__builtin_", ""), f["name"].replace("__builtin_", "")))
        return r.vp_convert(I, f["ret"]) if hasattr(r, "vp_convert") else r
    if isinstance(v, (int, Fraction)):
        n = f["name"].replace("__builtin_", "")
        return {"ceil": math.ceil, "floor": math.floor, "nearbyint": round, "round": lambda x: math.floor(x + Fraction(1, 2)),
                "trunc": int, "rint": round, "lround": lambda x: math.floor(x + Fraction(1, 2))}[n](v)
    if isinstance(v, Poly):
        if I.isintpoly(v):
            return v
        return I.uf(f["name"], v, integer=True)
    return NotImplemented


def f_pow(I, f, a):
    x, y = I.load(a[0]), I.load(a[1])
    if isinstance(x, (int, Fraction)) and isinstance(y, int):
        r = Fraction(x) ** y
        return int(r) if r.denominator == 1 else r
    return I.uf("pow", Poly.of(x), Poly.of(y))


def f_popcount(I, f, a):
    v = I.load(a[0])
    if hasattr(v, "vp_popcount"):
        return v.vp_popcount(I, "parity" in f["name"])
    if isinstance(v, int):
        n = bin(v & ((1 << 64) - 1)).count("1")
        return n & 1 if "parity" in f["name"] else n
    if isinstance(v, Poly):
        return I.uf(f["name"], v, integer=True)
    return NotImplemented


def f_ctz(I, f, a):
    v = I.load(a[0])
    if isinstance(v, int):
        if v == 0:
            raise I.bad("ctz", "count of trailing zeros of zero")
        if "ctz" in f["name"]:
            return (v & -v).bit_length() - 1
        w = 64 if f["name"].endswith("l") else 32
        return w - v.bit_length()
    if isinstance(v, Poly):
        return I.uf(f["name"], v, integer=True)
    return NotImplemented


def f_tostring(I, f, a):
    v = I.load(a[0])
    return Str(str(v)) if isinstance(v, int) and not isinstance(v, bool) else Str(None)


def f_addressof(I, f, a):
    return Ptr(I.cell(a[0]))


def f_ref(I, f, a):
    return NotImplemented


def f_invoke(I, f, a):
    return I.callf(a[0], a[1:])


def f_apply(I, f, a):
    t = I.load(a[1])
    return I.callf(a[0], [un(c) for c in t.items])


def f_visit(I, f, a):
    v = I.load(a[1])
    vis = I.load(a[0])
    if isinstance(vis, Lam) or isinstance(vis, Obj):
        want = v.types[v.idx]
        cands = [g for g in I.F.values() if g.get("rec") == vis.rec and g["name"] == "operator()" and len(g["params"]) == 1]
        for g in cands:
            if I.P.strip_ref(I.V[g["params"][0]]["t"])["s"].replace("const ", "") == I.T[want]["s"]:
                if isinstance(vis, Lam):
                    old = vis.call
                    vis.call = g["id"]
                    try:
                        return I.call(g, Cell(vis), I.fit(g, [v.cell]))
                    finally:
                        vis.call = old
                return I.call(g, Cell(vis), I.fit(g, [v.cell]))
    return NotImplemented


def f_throw(exc):
    def h(I, f, a):
        raise ThrowEx(None, exc, I.lastloc)
    return h


def f_conj(I, f, a):
    return NotImplemented


def f_limits(I, f, a):
    """std::numeric_limits<T>::min() etc."""
    rid = f.get("rec")
    ta = I.R[rid].get("targs") if rid is not None else None
    if not ta:
        return NotImplemented
    t = I.T[ta[0]["t"]]
    n = f["name"]
    if t["c"] in ("int", "enum") and "w" in t:
        w, sg = t["w"], bool(t.get("sg"))
        return {"max": 2 ** (w - sg) - 1, "min": -(2 ** (w - 1)) if sg else 0, "lowest": -(2 ** (w - 1)) if sg else 0,
                "epsilon": 0}.get(n, NotImplemented)
    if t["c"] == "bool":
        return {"max": True, "min": False, "lowest": False}.get(n, NotImplemented)
    if t["c"] == "float":
        p, e = {32: (24, 128), 64: (53, 1024)}.get(t.get("w", 64), (64, 16384))
        mx = (2 ** p - 1) * 2 ** (e - p)
        return {"max": mx, "lowest": -mx, "min": Fraction(1, 2 ** (e - 2)), "epsilon": Fraction(1, 2 ** (p - 1))}.get(n, NotImplemented)
    return NotImplemented


def f_fmod(I, f, a):
    x, y = I.load(a[0]), I.load(a[1])
    if hasattr(x, "vp_round") and isinstance(y, int):
        q = x.vp_binop(I, "/", y, False, f["ret"]).vp_round(I, "trunc")
        return x.vp_binop(I, "-", q.vp_binop(I, "*", y, False, f["ret"]), False, f["ret"])
    if isinstance(x, (int, Fraction)) and isinstance(y, (int, Fraction)) and y:
        return x - int(Fraction(x) / y) * y
    return NotImplemented


def f_isfinite(I, f, a):
    return f["name"] == "isfinite"


def f_forward_as_tuple(I, f, a):
    return Tup([Cell(Ref(I.cell(x))) for x in a])


def f_tuple_cat(I, f, a):
    out = []
    for x in a:
        out += [Cell(I.copyval(I.load(un(c)))) for c in I.load(x).items]
    return Tup(out)


FREE_FUNCS = {
    "std::forward": fwd, "std::move": lambda I, f, a: a[0] if len(a) == 1 else f_copy(I, f, a),
    "std::move_if_noexcept": fwd, "std::as_const": fwd, "std::__niter_base": None, "std::addressof": f_addressof,
    "std::__addressof": f_addressof, "std::swap": f_swap, "std::get": f_get, "std::tie": f_tie, "std::iter_swap": None,
    "std::make_tuple": f_make_tuple, "std::make_shared": f_make_shared, "std::make_unique": f_make_unique,
    "std::forward_as_tuple": f_forward_as_tuple, "std::tuple_cat": f_tuple_cat,
    "std::static_pointer_cast": f_ptr_cast, "std::const_pointer_cast": f_ptr_cast, "std::dynamic_pointer_cast": f_ptr_cast,
    "std::distance": f_distance, "std::next": f_next, "std::prev": f_next, "std::advance": f_advance, "std::copy": f_copy,
    "std::fill": f_fill, "std::fill_n": f_fill_n, "std::transform": f_transform, "std::for_each": f_for_each,
    "std::any_of": f_quant, "std::all_of": f_quant, "std::none_of": f_quant, "std::sort": f_sort, "std::stable_sort": f_sort,
    "std::accumulate": f_accumulate, "std::find": f_find, "std::upper_bound": f_bound, "std::lower_bound": f_bound,
    "std::iota": f_iota, "std::equal": f_equal, "std::max": f_max, "std::min": f_max, "std::max_element": f_maxelt,
    "std::min_element": f_maxelt, "std::is_sorted": f_is_sorted, "std::reverse": f_reverse, "std::unique": f_unique,
    "std::count": f_count, "std::count_if": f_count_if, "std::find_if": f_find_if, "std::find_if_not": f_find_if,
    "std::exchange": f_exchange, "__assert_fail": f_assert_fail, "std::begin": f_begin, "std::end": f_begin,
    "std::cbegin": f_begin, "std::cend": f_begin, "__builtin_expect": f_expect, "std::__is_constant_evaluated": lambda I, f, a: False,
    "std::is_constant_evaluated": lambda I, f, a: False, "__builtin_is_constant_evaluated": lambda I, f, a: False, "__builtin_constant_p": lambda I, f, a: 0,
    "std::abs": f_abs, "std::fabs": f_abs, "fabs": f_abs, "abs": f_abs, "std::sqrt": f_sqrt, "sqrt": f_sqrt, "std::log2": f_log2, "log2": f_log2,
    "std::ceil": f_round, "ceil": f_round, "std::floor": f_round, "floor": f_round, "nearbyint": f_round, "std::nearbyint": f_round,
    "round": f_round, "std::round": f_round, "std::lround": f_round, "lround": f_round, "std::trunc": f_round, "std::rint": f_round,
    "std::numeric_limits::max": f_limits, "std::fmod": f_fmod, "fmod": f_fmod, "std::isfinite": f_isfinite, "std::isnan": f_isfinite, "std::isinf": f_isfinite,
    "trunc": f_round, "rint": f_round, "std::llround": f_round, "llround": f_round, "std::lrint": f_round, "lrint": f_round,
    "std::llrint": f_round, "llrint": f_round,
    "std::pow": f_pow, "pow": f_pow, "__builtin_popcountll": f_popcount, "__builtin_popcountl": f_popcount, "__builtin_popcount": f_popcount,
    "__builtin_parityll": f_popcount, "__builtin_parity": f_popcount, "__builtin_parityl": f_popcount,
    "__builtin_ctzll": f_ctz, "__builtin_ctzl": f_ctz, "__builtin_ctz": f_ctz, "__builtin_clzll": f_ctz, "__builtin_clzl": f_ctz,
    "__builtin_ceil": f_round, "__builtin_log2": f_log2, "__builtin_sqrt": f_sqrt, "__builtin_nearbyint": f_round, "__builtin_floor": f_round,
    "__builtin_fabs": f_abs, "__builtin_round": f_round,
    "std::to_string": f_tostring, "std::__cxx11::to_string": f_tostring, "std::invoke": f_invoke, "std::apply": f_apply, "std::visit": f_visit,
    "std::__throw_bad_weak_ptr": f_throw("std::bad_weak_ptr"), "std::__throw_out_of_range_fmt": f_throw("std::out_of_range"),
    "std::__throw_out_of_range": f_throw("std::out_of_range"), "std::__throw_bad_variant_access": f_throw("std::bad_variant_access"),
}
FREE_FUNCS = {k: v for k, v in FREE_FUNCS.items() if v is not None}

SPECIAL = {}
