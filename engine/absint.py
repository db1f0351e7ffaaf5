"""Abstract interpretation of the exported, type-resolved program.

The analysed program is the syntax tree of the library as instantiated by a
driver (never compiled to code, never run). Values live in abstract domains:
opaque index values known only through their order, opaque scalars (normal
forms of poly.py), bounded container shapes, and linear facts about symbolic
integers. Where a branch is not decided by the abstract state the state is
partitioned and both successors are analysed.
"""
import math, re
from fractions import Fraction
from poly import Poly, Atom, Facts
from prog import AnalysisError, AnalysisLimit

UNDEF = type("Undef", (), {"__repr__": lambda s: "<undef>"})()


class Bad(Exception):
    """Definite misuse found by the analysis (dead object read etc.)."""

    def __init__(self, kind, msg, loc=None, stack=()):
        super().__init__(msg)
        self.kind, self.msg, self.loc, self.stack = kind, msg, loc, tuple(stack)


class ThrowEx(Exception):
    def __init__(self, rec, q, loc=None, val=None, node=None):
        super().__init__(q)
        self.rec, self.q, self.loc, self.val = rec, q, loc, val


class Infeasible(Exception):
    pass


class _NoMerge(Exception):
    """the effects of a branch cannot be joined"""


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Brk(Exception):
    pass


class _Cont(Exception):
    pass


class Cell:
    __slots__ = ("v", "alive", "tag", "shared", "watch")

    def __init__(self, v=UNDEF, tag=None):
        self.v = v
        self.alive = True
        self.tag = tag
        self.shared = False
        self.watch = None

    def __repr__(self):
        return "&%r" % (self.v,)


class Ref:
    """Reference-typed member."""
    __slots__ = ("cell",)

    def __init__(self, cell):
        self.cell = cell


class Ptr:
    __slots__ = ("cell", "seq", "idx")

    def __init__(self, cell, seq=None, idx=0):
        self.cell, self.seq, self.idx = cell, seq, idx

    def target(self):
        if self.seq is not None:
            if not (0 <= self.idx < len(self.seq)):
                raise Bad("out-of-range", "pointer dereferenced outside its array (position %s of %d)" % (self.idx, len(self.seq)))
            return self.seq[self.idx]
        if self.cell is None:
            raise Bad("null", "null pointer dereferenced")
        return self.cell

    def isnull(self):
        return self.cell is None and self.seq is None

    def eq(self, o):
        if self.seq is not None or o.seq is not None:
            return self.seq is o.seq and self.idx == o.idx
        return self.cell is o.cell


class FnPtr:
    def __init__(self, f, this=None):
        self.f, self.this = f, this


class Obj:
    __slots__ = ("rec", "f", "attr", "act")

    def __init__(self, rec):
        self.rec = rec
        self.f = {}
        self.attr = None
        self.act = None

    def __repr__(self):
        return "Obj#%d%s" % (self.rec, self.attr if self.attr is not None else "")


class Lam(Obj):
    __slots__ = ("call", "capmap", "capthis")


class Str:
    __slots__ = ("s",)

    def __init__(self, s=None):
        self.s = s

    def __repr__(self):
        return "Str(%r)" % (self.s,)


class Opq:
    """Opaque value of a library-foreign type (exceptions, locales)."""
    __slots__ = ("what",)

    def __init__(self, what):
        self.what = what


class Exc(Opq):
    """A standard exception; text is what what() reports, None if not known."""
    __slots__ = ("text",)

    def __init__(self, what, text=None):
        self.what, self.text = what, text


class Stream(Opq):
    """A text stream; buf is the text written to it, None if not known."""
    __slots__ = ("buf",)

    def __init__(self, what, buf=""):
        self.what, self.buf = what, buf


class Vec:
    __slots__ = ("items", "elt", "kind")

    def __init__(self, elt, items=None, kind="std::vector"):
        self.elt, self.items, self.kind = elt, items if items is not None else [], kind

    def __repr__(self):
        return "Vec%r" % ([c.v for c in self.items],)


class VIt:
    __slots__ = ("vec", "idx")

    def __init__(self, vec, idx):
        self.vec, self.idx = vec, idx


class Node:
    __slots__ = ("cell", "alive", "key")

    def __init__(self, cell, key):
        self.cell, self.key, self.alive = cell, key, True


class Map:
    """std::map / multimap / set / multiset, kept sorted by the interpreted comparator
    (unordered containers: insertion order)."""
    __slots__ = ("kind", "rec", "nodes", "cmp")

    def __init__(self, kind, rec, cmp=None):
        self.kind, self.rec, self.nodes, self.cmp = kind, rec, [], cmp


class MIt:
    __slots__ = ("m", "node")

    def __init__(self, m, node):
        self.m, self.node = m, node


class SP:
    """shared_ptr / unique_ptr"""
    __slots__ = ("cell", "uniq")

    def __init__(self, cell=None, uniq=False):
        self.cell, self.uniq = cell, uniq


class Tup:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = items  # list of Cell (a Ref inside for reference elements)


class Fun:
    __slots__ = ("target",)

    def __init__(self, target=None):
        self.target = target


class Variant:
    __slots__ = ("idx", "cell", "types")

    def __init__(self, idx, cell, types):
        self.idx, self.cell, self.types = idx, cell, types


class Cx:
    """value of a std::complex"""
    __slots__ = ("re", "im")

    def __init__(self, re, im=0):
        self.re, self.im = re, im

    def __eq__(self, o):
        return isinstance(o, Cx) and self.re == o.re and self.im == o.im

    def __hash__(self):
        return hash((self.re, self.im))

    def __repr__(self):
        return "(%r,%r)" % (self.re, self.im)


class IList:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = items


MAPS = {"std::map", "std::multimap", "std::set", "std::multiset", "std::unordered_map", "std::unordered_set"}
VECS = {"std::vector", "std::deque", "std::list"}
SPTRS = {"std::shared_ptr", "std::__shared_ptr", "std::__shared_ptr_access", "std::unique_ptr"}
TREEIT = {"std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator", "std::__detail::_Node_iterator",
          "std::__detail::_Node_const_iterator", "std::__detail::_Node_iterator_base"}
VECIT = {"__gnu_cxx::__normal_iterator", "std::_Bit_iterator", "std::_Bit_const_iterator", "std::_Deque_iterator",
         "std::_Bit_iterator_base"}
STRS = {"std::basic_string", "std::__cxx11::basic_string", "std::basic_string_view"}
STREAMRX = re.compile(r"^std::(__cxx11::)?(basic_.*stream|basic_streambuf|basic_stringbuf|ios_base|basic_ios|locale)")
EXCS = ("std::runtime_error", "std::logic_error", "std::exception", "std::invalid_argument", "std::out_of_range",
        "std::bad_weak_ptr", "std::domain_error", "std::length_error", "std::overflow_error")


def isint(x):
    return isinstance(x, (int, Fraction)) and not isinstance(x, bool) or isinstance(x, bool)


def num(x):
    return isinstance(x, (bool, int, Fraction, Poly))


class Interp:
    def __init__(self, prog, ext=None, budget=400000):
        self.P = prog
        self.F = prog.F
        self.R = prog.R
        self.V = prog.V
        self.T = prog.types
        self.ext = ext or {}      # q -> handler(I, fn, this, args)
        self.stubs = {}           # fid or q -> handler(I, fn, this, args), overrides bodies
        self.budget0 = budget
        self.uf_table = {}
        self.analysed = set()     # function ids interpreted
        self.branches = 0
        self.paths = 0
        self.trail = []
        self.traillen = []
        self.EV = {k[3:]: getattr(self, k) for k in dir(self) if k.startswith("ev_")}
        self.ST = {k[3:]: getattr(self, k) for k in dir(self) if k.startswith("st_")}
        self._less = {}
        self._opcache = {}
        self.int_atoms = set()
        self.on_call = None
        self.throw_values = False  # evaluate thrown objects
        self.num_text = None  # text of a symbolic number
        self.merger = None  # join of two values under an undetermined condition (index domain)
        self._mergeable = {}
        self.assume_asserts = False  # a failing assertion excludes the path (else it is a defect)
        self.reset()

    # -------------------------------------------------------------- paths
    def reset(self):
        self.pos = 0
        self.steps = 0
        self.facts = Facts()
        for p, s in getattr(self, "base_facts", ()):
            self.facts.add(p, s)
        self.dec = {}
        self.declog = []
        self.globals = {}
        self.frames = []
        self.depth = 0
        self.lastloc = None
        self.journal = None

    def choose(self, n, why=""):
        if self.pos < len(self.trail):
            c = self.trail[self.pos]
        else:
            c = 0
            self.trail.append(0)
            self.traillen.append(n)
        self.traillen[self.pos] = n
        self.pos += 1
        self.branches += 1
        return c

    def decide(self, key, why=None):
        """Undetermined predicate: partition."""
        if key in self.dec:
            return self.dec[key]
        b = self.choose(2, why or key) == 0
        self.dec[key] = b
        self.declog.append((why if why is not None else key, b))
        return b

    def explore(self, thunk, maxpaths=20000):
        """All abstract paths of thunk(); yields (kind, value, decision log)."""
        self.trail, self.traillen = [], []
        n = 0
        while True:
            self.reset()
            try:
                r = ("ok", thunk())
            except Infeasible:
                r = None
            except ThrowEx as t:
                r = ("throw", t)
            except Bad as b:
                r = ("bad", b)
            del self.trail[self.pos:]
            del self.traillen[self.pos:]
            if r is not None:
                self.paths += 1
                yield r[0], r[1], list(self.declog)
            n += 1
            if n > maxpaths:
                raise AnalysisError("too many abstract paths")
            while self.trail and self.trail[-1] == self.traillen[-1] - 1:
                self.trail.pop()
                self.traillen.pop()
            if not self.trail:
                return
            self.trail[-1] += 1

    def uf(self, name, *args, nc=False, integer=False):
        key = (name,) + args
        a = self.uf_table.get(key)
        if a is None:
            s = "%s(%s)" % (name, ",".join(map(repr, args))) if args else name
            a = Atom(s, nc)
            self.uf_table[key] = a
            if integer:
                self.int_atoms.add(a)
        return Poly.atom(a)

    def sym(self, name, lo=None, hi=None, nc=False, integer=True):
        p = self.uf(name, nc=nc, integer=integer)
        if lo is not None:
            self.facts.add(p - lo, False)
        if hi is not None:
            self.facts.add(Poly.of(hi) - p, False)
        return p

    # -------------------------------------------------------- diagnostics
    def where(self):
        out = []
        for fr in reversed(self.frames[-12:]):
            out.append("%s (%s)" % (fr.fn["q"], self.P.loc(fr.fn.get("l"))))
        return out

    def libloc(self):
        """innermost location inside the library"""
        l = self.lastloc
        if l and self.P.in_lib(l):
            return self.P.loc(l)
        for fr in reversed(self.frames):
            if fr.call and self.P.in_lib(fr.call):
                return self.P.loc(fr.call)
        for fr in reversed(self.frames):
            if self.P.in_lib(fr.fn.get("l")):
                return self.P.loc(fr.fn["l"])
        return self.P.loc(l)

    def err(self, msg):
        return AnalysisError("%s at %s in %s" % (msg, self.P.loc(self.lastloc), " <- ".join(self.where()[:6])))

    def bad(self, kind, msg):
        return Bad(kind, msg, self.libloc(), self.where())

    # ------------------------------------------------------------- values
    def load(self, x):
        if isinstance(x, Cell):
            if not x.alive:
                raise self.bad("dead", "an element that was already destroyed or erased is used")
            v = x.v
            if x.watch is not None:
                x.watch(self, "read", x)
            return v
        return x

    def cell(self, x):
        return x if isinstance(x, Cell) else Cell(x)

    def rec_q(self, rid):
        return self.R[rid]["q"]

    def copyval(self, v, move=False):
        if isinstance(v, Lam):
            o = Lam(v.rec)
            o.call, o.capthis = v.call, v.capthis
            o.f = {}
            o.capmap = {}
            inv = {id(c): k for k, c in v.f.items()}
            for vid, c in v.capmap.items():
                if id(c) in inv:
                    nc = Cell(self.copyval(c.v, move))
                    o.f[inv[id(c)]] = nc
                    o.capmap[vid] = nc
                else:
                    o.capmap[vid] = c
            return o
        if isinstance(v, Obj):
            o = Obj(v.rec)
            o.attr = v.attr
            o.act = v.act
            for k, c in v.f.items():
                o.f[k] = Cell(self.copyval(c.v, move))
            if move and v.attr is not None and getattr(v.attr, "movable", False):
                v.attr = v.attr.moved()
            return o
        if isinstance(v, Vec):
            if move:
                r = Vec(v.elt, v.items, v.kind)
                v.items = []
                return r
            return Vec(v.elt, [Cell(self.copyval(c.v)) for c in v.items], v.kind)
        if isinstance(v, Map):
            r = Map(v.kind, v.rec, v.cmp)
            if move:
                r.nodes = v.nodes
                v.nodes = []
                return r
            for n in v.nodes:
                if not n.alive:
                    continue
                c = Cell(self.copyval(n.cell.v))
                r.nodes.append(self.mknode(r, c))
            return r
        if isinstance(v, SP):
            r = SP(v.cell, v.uniq)
            if move:
                v.cell = None
            elif v.uniq:
                raise self.err("copy of a unique_ptr")
            return r
        if isinstance(v, Tup):
            return Tup([Cell(c.v if isinstance(c.v, Ref) else self.copyval(c.v, move)) for c in v.items])
        if isinstance(v, Fun):
            return Fun(Cell(self.copyval(v.target.v)) if v.target is not None else None)
        if isinstance(v, Str):
            r = Str(v.s)
            if move and v.s is not None:
                v.s = "<moved-from string>"
            return r
        if isinstance(v, Variant):
            return Variant(v.idx, Cell(self.copyval(v.cell.v, move)), v.types)
        if isinstance(v, list):  # C array
            return [Cell(self.copyval(c.v, move)) for c in v]
        return v

    def mknode(self, m, cell):
        if "map" in m.kind:
            pr = cell.v
            fl = self.P.all_fields(pr.rec)
            return Node(cell, pr.f[fl[0]["d"]])
        return Node(cell, cell)

    def kill(self, cell):
        cell.alive = False
        v = cell.v
        if isinstance(v, Obj):
            for c in v.f.values():
                if not isinstance(c.v, Ref):
                    self.kill(c)
        elif isinstance(v, Vec):
            for c in v.items:
                self.kill(c)

    def defval(self, tid, zero=False):
        t = self.T[tid]
        c = t["c"]
        if c == "rec":
            return self.default_obj(t["rec"])
        if c == "arr":
            return [Cell(self.defval(t["to"], zero)) for _ in range(t["n"])]
        if c in ("int", "enum"):
            return 0 if zero else UNDEF
        if c == "bool":
            return False if zero else UNDEF
        if c == "float":
            return 0 if zero else UNDEF
        if c == "ptr":
            return Ptr(None) if zero else UNDEF
        return UNDEF

    def default_obj(self, rid):
        m = self.model_default(rid)
        if m is not None:
            return m
        r = self.R[rid]
        for mid in r.get("methods", ()):
            f = self.F[mid]
            if f.get("kind") == "ctor" and f.get("dflt"):
                return self.construct(rid, f, [])
        # implicit: any default ctor known anywhere
        for f in self.F.values():
            if f.get("rec") == rid and f.get("dflt") and not f.get("params"):
                return self.construct(rid, f, [])
        return self.raw_obj(rid, init=True)

    def raw_obj(self, rid, init=False):
        o = Obj(rid)
        for fl in self.P.all_fields(rid):
            o.f[fl["d"]] = Cell(self.defval(fl["t"]) if init and self.T[fl["t"]]["c"] in ("rec", "arr") else UNDEF)
        return o

    def model_default(self, rid):
        r = self.R[rid]
        q = r["q"]
        if q in VECS:
            return Vec(r["targs"][0]["t"], kind=q)
        if q in MAPS:
            return Map(q, rid)
        if q in SPTRS:
            return SP(uniq=(q == "std::unique_ptr"))
        if q in STRS:
            return Str("")
        if q == "std::tuple":
            return Tup([Cell(self.defval(a["t"], True)) for a in r["targs"]])
        if q == "std::function":
            return Fun()
        if q == "std::variant":
            ts = [a["t"] for a in r["targs"]]
            return Variant(0, Cell(self.defval(ts[0], True)), ts)
        if q == "std::initializer_list":
            return IList([])
        if q == "std::complex":
            o = Obj(rid)
            o.attr = Cx(0, 0)
            return o
        if q in TREEIT:
            return MIt(None, None)
        if q in VECIT:
            return VIt(None, 0)
        if STREAMRX.match(q):
            return Stream(q)
        if q in EXCS:
            return Opq(q)
        return None

    def is_model(self, rid):
        q = self.R[rid]["q"]
        return (q in VECS or q in MAPS or q in SPTRS or q in STRS or q in TREEIT or q in VECIT or
                q in ("std::tuple", "std::function", "std::variant", "std::initializer_list", "std::complex") or
                bool(STREAMRX.match(q)) or q in EXCS)

    # -------------------------------------------------------------- truth
    def truth(self, v, why=None):
        v = self.load(v)
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, Fraction)):
            return v != 0
        if isinstance(v, Poly):
            return not self.cmp_poly("==", v, 0)
        if isinstance(v, Ptr):
            return not v.isnull()
        if isinstance(v, FnPtr):
            return True
        if hasattr(v, "vp_truth"):
            return v.vp_truth(self)
        if v is UNDEF:
            raise self.bad("uninit", "an uninitialised value decides a branch")
        raise self.err("branch on %r" % (v,))

    def cmp_poly(self, op, a, b):
        d = (Poly.of(a) - Poly.of(b))
        if d.is_const():
            c = d.const_value()
            return {"==": c == 0, "!=": c != 0, "<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0}[op]
        if op == "!=":
            return not self.cmp_poly("==", a, b)
        if op == ">":
            return self.cmp_poly("<", b, a)
        if op == ">=":
            return not self.cmp_poly("<", a, b)
        if op == "<=":
            return not self.cmp_poly("<", b, a)
        s = self.facts.sign(d)
        if op == "==":
            if s is not None:
                return s == "0"
            if self.facts.infeasible_with([(d, False), (-d, False)]):
                return False
            r = self.choose(2, (op, a, b)) == 0
            if r:
                self.facts.add(d, False)
                self.facts.add(-d, False)
            else:
                # split into < and > so the fact base stays convex
                lt_ok = not self.facts.infeasible_with([(-d, True)])
                gt_ok = not self.facts.infeasible_with([(d, True)])
                if lt_ok and gt_ok:
                    lt = self.choose(2, ("<", a, b)) == 0
                else:
                    lt = lt_ok
                self.addstrict(-d if lt else d)
            self.declog.append(("%r == %r" % (a, b), r))
            return r
        # op == "<": d < 0
        if s is not None:
            return s == "-"
        if self.facts.infeasible_with([(-d, True)]):
            return False
        if self.facts.infeasible_with([(d, False)]):
            return True
        r = self.choose(2, (op, a, b)) == 0
        if r:
            self.addstrict(-d)
        else:
            self.facts.add(d, False)
        self.declog.append(("%r < %r" % (a, b), r))
        return r

    def isintpoly(self, p):
        p = Poly.of(p)
        return all(v.denominator == 1 for v in p.m.values()) and all(a in self.int_atoms for a in p.atoms())

    def addstrict(self, p):
        # p > 0 ; tighten to p >= 1 over the integers
        if self.isintpoly(p):
            self.facts.add(p - 1, False)
        else:
            self.facts.add(p, True)

    # --------------------------------------------------------- arithmetic
    def wrap(self, v, tid):
        t = self.T[tid]
        if isinstance(v, bool):
            v = int(v)
        if t["c"] == "bool":
            return v != 0 if not isinstance(v, Poly) else v
        if t["c"] in ("int", "enum") and isinstance(v, int) and "w" in t:
            w = t["w"]
            v &= (1 << w) - 1
            if t.get("sg") and v >> (w - 1):
                v -= 1 << w
            return v
        return v

    def arith(self, op, a, b, tid):
        """result in type tid"""
        for x, y, sw in ((a, b, False), (b, a, True)):
            if hasattr(x, "vp_binop"):
                return x.vp_binop(self, op, y, sw, tid)
        if a is UNDEF or b is UNDEF:
            raise self.bad("uninit", "an uninitialised value is used in an arithmetic operation")
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptr_arith(op, a, b)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            if isinstance(a, FnPtr) or isinstance(b, FnPtr):
                return op == "!="
            if not (num(a) and num(b)):
                raise self.err("comparison of %r and %r" % (a, b))
            return self.cmp_poly(op, a, b)
        if not (num(a) and num(b)):
            raise self.err("%s on %r and %r" % (op, a, b))
        t = self.T[tid]
        if isinstance(a, Poly) or isinstance(b, Poly):
            if op == "+":
                r = Poly.of(a) + b
            elif op == "-":
                r = Poly.of(a) - b
            elif op == "*":
                r = Poly.of(a) * b
            elif op == "/" and t["c"] == "float":
                pb = Poly.of(b)
                if pb.is_const() and pb.const_value() != 0:
                    r = Poly.of(a) * Poly.const(1 / pb.const_value())
                else:
                    r = Poly.of(a) * self.uf("inv", pb)
            elif op == "<<" and isint(b) and not isinstance(b, Poly):
                r = Poly.of(a) * (1 << int(b))
            elif op == "<<" and isinstance(b, Poly):
                r = Poly.of(a) * self.uf("pow2", Poly.of(b), integer=True)
            elif op in ("/", "%", ">>", "&", "|", "^"):
                if op in ("|", "^") and isint(b) and not isinstance(b, Poly) and b == 0:
                    r = Poly.of(a)
                elif op in ("|", "^") and isint(a) and not isinstance(a, Poly) and a == 0:
                    r = Poly.of(b)
                else:
                    r = self.uf("op" + op, Poly.of(a), Poly.of(b), integer=True)
            else:
                raise self.err("symbolic %s" % op)
            return r.simp()
        a = int(a) if isinstance(a, bool) else a
        b = int(b) if isinstance(b, bool) else b
        if op == "+":
            r = a + b
        elif op == "-":
            r = a - b
        elif op == "*":
            r = a * b
        elif op == "/":
            if b == 0:
                raise self.bad("div0", "division by zero")
            if t["c"] == "float":
                r = Fraction(a) / Fraction(b)
                r = int(r) if r.denominator == 1 else r
            else:
                r = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        elif op == "%":
            if b == 0:
                raise self.bad("div0", "remainder by zero")
            r = abs(a) % abs(b) * (1 if a >= 0 else -1)
        elif op == "<<":
            w = t.get("w", 64)
            if not 0 <= b < w:
                raise self.bad("shift", "shift by %s in a %d-bit type" % (b, w))
            r = a << b
        elif op == ">>":
            w = t.get("w", 64)
            if not 0 <= b < w:
                raise self.bad("shift", "shift by %s in a %d-bit type" % (b, w))
            r = a >> b
        elif op == "&":
            r = a & b
        elif op == "|":
            r = a | b
        elif op == "^":
            r = a ^ b
        else:
            raise self.err("operator " + op)
        return self.wrap(r, tid)

    def ptr_arith(self, op, a, b):
        if op in ("==", "!="):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                return a.eq(b) == (op == "==")
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.seq is not b.seq and a.seq is not None:
                raise self.bad("pointer", "pointers into different arrays are compared or subtracted")
            if op == "-":
                return a.idx - b.idx
            return {"<": a.idx < b.idx, ">": a.idx > b.idx, "<=": a.idx <= b.idx, ">=": a.idx >= b.idx}[op]
        if isinstance(a, Ptr) and op in "+-":
            return Ptr(a.cell, a.seq, a.idx + (b if op == "+" else -b)) if a.seq is not None else self._scalarptr(a, b)
        if isinstance(b, Ptr) and op == "+":
            return Ptr(b.cell, b.seq, b.idx + a)
        raise self.err("pointer operation " + op)

    def _scalarptr(self, a, b):
        if b == 0:
            return a
        return Ptr(None, [a.cell], b)

    # ---------------------------------------------------------- expressions
    def ev(self, n):
        self.steps += 1
        if self.steps > self.budget0:
            raise AnalysisLimit("analysis budget exceeded in " + " <- ".join(self.where()[:8]))
        l = n.get("l")
        if l:
            self.lastloc = l
        h = self.EV.get(n["k"])
        if h is None:
            raise self.err("unsupported expression " + n["k"] + str(n.get("cls", "")))
        return h(n)

    def rv(self, n):
        return self.load(self.ev(n))

    def lvc(self, n):
        x = self.ev(n)
        return x if isinstance(x, Cell) else Cell(x)

    def ev_Int(self, n):
        v = int(n["v"])
        t = self.T[n["t"]]
        return bool(v) if t["c"] == "bool" else v

    def ev_Flt(self, n):
        x = Fraction(n["v"])
        return int(x) if x.denominator == 1 else x

    def ev_Bool(self, n):
        return n["v"]

    def ev_Str(self, n):
        return Cell(Str(n.get("v")))

    def ev_Null(self, n):
        return Ptr(None)

    def ev_This(self, n):
        return Ptr(self.frames[-1].this)

    def ev_Var(self, n):
        return self.var(n["d"])

    def var(self, d):
        fr = self.frames[-1] if self.frames else None
        if fr is not None:
            c = fr.env.get(d)
            if c is not None:
                return c
        if d in self.globals:
            return self.globals[d]
        v = self.V[d]
        if v.get("global"):
            c = Cell()
            self.globals[d] = c
            if "cv" in v:
                t = self.T[v["t"]]
                c.v = bool(int(v["cv"])) if t["c"] == "bool" else int(v["cv"])
            elif v.get("init"):
                self.frames.append(Frame({"q": "<init of %s>" % v["n"], "l": v["l"]}, None, None))
                x = self.ev(v["init"])
                self.frames.pop()
                if self.P.is_ref(v["t"]):
                    self.globals[d] = self.cell(x)
                    return self.globals[d]
                c.v = self.load(x)
            else:
                c.v = self.defval(v["t"], True)
            return c
        raise self.err("variable %s has no value" % v["n"])

    def ev_Binding(self, n):
        fr = self.frames[-1]
        b = fr.env.get(("b", n["d"]))
        if b is not None:
            return b
        return self.ev(n["e"])

    def ev_Fn(self, n):
        return Cell(FnPtr(n["f"]))

    def ev_MemFn(self, n):
        b = self.ev(n["b"])
        return FnPtr(n["f"], self.load(b).target() if isinstance(self.load(b), Ptr) else self.cell(b))

    def objcell(self, n, arrow):
        x = self.ev(n)
        if arrow:
            p = self.load(x)
            if isinstance(p, Ptr):
                return p.target()
            if isinstance(p, SP):
                return self.sp_deref(p)
            raise self.err("-> on %r" % (p,))
        return self.cell(x)

    def sp_deref(self, p):
        if p.cell is None:
            raise self.bad("null", "an empty smart pointer is dereferenced")
        return p.cell

    def ev_Mem(self, n):
        c = self.objcell(n["b"], n.get("arrow"))
        return self.member(c, n["d"], n.get("n"))

    def member(self, c, d, name=None):
        o = self.load(c)
        if not isinstance(o, Obj):
            raise self.err("member %s of %r" % (name, o))
        r = self.R[o.rec]
        if r.get("union"):
            fc = o.f.get(d)
            if fc is None:
                raise self.err("union member")
            return UnionCell(o, d, fc)
        fc = o.f.get(d)
        if fc is None:
            raise self.err("no member %s in %s" % (name, r["s"]))
        if isinstance(fc.v, Ref):
            return fc.v.cell
        return fc

    def call_args(self, f, args):
        ps = f.get("params", ())
        out = []
        for i, a in enumerate(args):
            if i < len(ps) and self.P.is_ref(self.V[ps[i]]["t"]):
                x = self.ev(a)
                out.append(x if isinstance(x, Cell) else Cell(x))
            elif i < len(ps):
                out.append(self.load(self.ev(a)))
            else:
                out.append(self.ev(a))
        return out

    def ev_MCall(self, n):
        loc = n.get("l")
        if "f" not in n:
            raise self.err("call through a pointer to member")
        f = self.F[n["f"]]
        if f.get("static"):
            a = self.call_args(f, n["a"])
            return self.call(f, None, a, loc)
        if n.get("op") and f["name"] in ("operator=", "operator+=", "operator-=", "operator*="):
            a = self.call_args(f, n["a"])  # right operand first
            o = self.objcell(n["o"], n.get("arrow"))
        else:
            o = self.objcell(n["o"], n.get("arrow"))
            a = self.call_args(f, n["a"])
        self.lastloc = loc
        if n.get("virt") or f.get("virt") and n.get("virt"):
            v = self.load(o)
            if isinstance(v, Obj):
                g = self.P.final(v.rec, n["f"])
                if isinstance(v.attr, Exc) and f["name"] == "what" and (g is None or not self.F[g].get("body")):
                    return Str(v.attr.text)
                if g is None:
                    raise self.err("no final overrider of %s in %s" % (f["q"], self.R[v.rec]["s"]))
                f = self.F[g]
        return self.call(f, o, a, loc)

    def ev_Call(self, n):
        loc = n.get("l")
        if "f" in n:
            f = self.F[n["f"]]
            if f["q"] in ("std::declval",):
                raise self.err("declval")
            h = self.SPECIAL.get(f["q"])
            if h:
                return h(self, n, f)
            a = self.call_args(f, n["a"])
            self.lastloc = loc
            return self.call(f, None, a, loc)
        fe = self.load(self.ev(n["fe"]))
        a = [self.ev(x) for x in n["a"]]
        return self.callf(fe, a)

    def callf(self, fe, args):
        """Call a callable value with raw (Cell or value) arguments."""
        fe = self.load(fe)
        if isinstance(fe, Ptr):
            fe = self.load(fe.target())
        if isinstance(fe, FnPtr):
            f = self.F[fe.f]
            return self.call(f, fe.this, self.fit(f, args), self.lastloc)
        if isinstance(fe, Lam):
            f = self.F[fe.call]
            return self.call(f, Cell(fe), self.fit(f, args), self.lastloc)
        if isinstance(fe, Fun):
            if fe.target is None:
                raise ThrowEx(None, "std::bad_function_call", self.lastloc)
            return self.callf(fe.target, args)
        if callable(fe):
            return fe(self, args)
        if isinstance(fe, Obj):
            for f in self.methods_named(fe.rec, "operator()"):
                if len(f["params"]) == len(args):
                    return self.call(f, Cell(fe), self.fit(f, args), self.lastloc)
        raise self.err("call of %r" % (fe,))

    def methods_named(self, rid, name):
        key = (rid, name)
        if key not in self._opcache:
            self._opcache[key] = [f for f in self.F.values() if f.get("name") == name and f.get("rec") in self.P.bases(rid)]
        return self._opcache[key]

    def fit(self, f, args):
        out = []
        for p, a in zip(f["params"], args):
            t = self.V[p]["t"]
            T = self.P.strip_ref(t)
            if T["c"] == "rec":
                av = a.v if isinstance(a, Cell) else a
                if isinstance(av, Obj) and av.rec != T["rec"] and self.R[av.rec]["q"] == "std::pair" == self.R[T["rec"]]["q"]:
                    # a pair of other (convertible) types: a temporary is made
                    o = Obj(T["rec"])
                    for d, s in zip(self.P.all_fields(T["rec"]), self.P.all_fields(av.rec)):
                        o.f[d["d"]] = Cell(self.conv_to(f, d["t"], av.f[s["d"]]))
                    a = o
            if self.P.is_ref(t):
                out.append(a if isinstance(a, Cell) else Cell(a))
            else:
                v = self.load(a)
                out.append(self.copyval(v) if isinstance(a, Cell) else v)
        return out

    # ---- calls
    def call(self, f, this, args, loc=None):
        q = f["q"]
        h = self.stubs.get(f["id"]) or self.stubs.get(q)
        if h is not None:
            r = h(self, f, this, args)
            if r is not NotImplemented:
                return r
        h = self.ext.get(q)
        if h is not None:
            r = h(self, f, this, args)
            if r is not NotImplemented:
                return r
        h = COMPLEX.get(q)
        if h is not None:
            r = h(self, f, this, args)
            if r is not NotImplemented:
                return r
        if this is not None and "rec" in f and not f.get("kind") == "ctor":
            tv = this.v
            r = self.model_call(f, this, tv, args)
            if r is not NotImplemented:
                return r
        h = FREE.get(q)
        if h is not None:
            r = h(self, f, args)
            if r is not NotImplemented:
                return r
        if q.startswith(("std::operator", "__gnu_cxx::operator", "std::__cxx11::operator", "std::__detail::operator")) or f["name"] in ("operator==", "operator!=", "operator<", "operator<<") and not self.P.in_lib(f.get("l")):
            r = self.free_op(f, args)
            if r is not NotImplemented:
                return r
        return self.invoke(f, this, args, loc)

    def invoke(self, f, this, args, loc=None):
        if f.get("body") is None:
            if f.get("defaulted") or f.get("cassign") or f.get("massign"):
                if f.get("cassign") or f.get("massign") or f["name"] == "operator=":
                    return self.assign(this, args[0], move=bool(f.get("massign")))
            if f.get("kind") == "dtor":
                return None
            r = self.fallback(f, this, args)
            if r is not NotImplemented:
                return r
            raise self.err("call of %s which has no body" % f["q"])
        if (f.get("cassign") or f.get("massign")) and f.get("defaulted"):
            return self.assign(this, args[0], move=bool(f.get("massign")))
        if self.depth > 180:
            raise AnalysisError("recursion too deep: " + " <- ".join(self.where()[:6]))
        self.analysed.add(f["id"])
        fr = Frame(f, this, loc)
        if this is not None and isinstance(this.v, Lam) and f["id"] == this.v.call:
            fr.env.update(this.v.capmap)
            fr.this = this.v.capthis
        for p, a in zip(f["params"], args):
            if self.P.is_ref(self.V[p]["t"]):
                fr.env[p] = a if isinstance(a, Cell) else Cell(a)
            else:
                fr.env[p] = Cell(self.load(a))
        self.frames.append(fr)
        self.depth += 1
        try:
            self.st(f["body"])
            res = None
        except _Ret as r:
            res = r.v
        finally:
            self.depth -= 1
            self.frames.pop()
        if res is None:
            return None
        if self.P.is_ref(f["ret"]):
            return res if isinstance(res, Cell) else Cell(res)
        return self.load(res)

    def fallback(self, f, this, args):
        """Library-foreign functions whose effect the analysis does not need."""
        q = f["q"]
        if q.startswith("std::") or q.startswith("__gnu_cxx::"):
            vals = [x.v if isinstance(x, Cell) else x for x in args] + ([this.v] if this is not None else [])
            if any(isinstance(v, (Str, Opq)) for v in vals):
                return self.opaque_of(f["ret"], args, this)
        return NotImplemented

    def opaque_of(self, tid, args=(), this=None):
        t = self.P.strip_ref(tid)
        if self.P.is_ref(tid):
            for a in list(args) + [this]:
                if isinstance(a, Cell) and isinstance(a.v, Opq):
                    return a
        if t["c"] == "rec":
            q = self.R[t["rec"]]["q"]
            v = Str(None) if q in STRS else Opq(q)
            return Cell(v) if self.P.is_ref(tid) else v
        if t["c"] == "void":
            return None
        v = Opq("value of type " + t["s"])
        return Cell(v) if self.P.is_ref(tid) else v

    def assign(self, this, src, move=False):
        """Memberwise (defaulted) assignment of class objects."""
        sv = self.load(src)
        if isinstance(src, Cell) and src is this:
            return this
        dv = this.v
        if isinstance(dv, Obj) and isinstance(sv, Obj) and self.P.in_lib(self.R[dv.rec].get("l")):
            # memberwise with user-defined member assignments honoured
            for fl in self.P.all_fields(dv.rec):
                d = fl["d"]
                if d not in sv.f or isinstance(sv.f[d].v, Ref):
                    continue
                self.assign_member(dv.f[d], sv.f[d], fl["t"], move)
            dv.act, dv.attr = sv.act, sv.attr
            return this
        self.store(this, self.copyval(sv, move))
        return this

    def assign_member(self, dst, src, tid, move):
        t = self.T[tid]
        if t["c"] == "rec" and self.P.in_lib(self.R[t["rec"]].get("l")):
            want = "massign" if move else "cassign"
            for mid in self.R[t["rec"]].get("methods", ()):
                f = self.F[mid]
                if f.get(want) or (move and f.get("cassign")):
                    if f.get("body") is not None and not f.get("defaulted"):
                        self.call(f, dst, [src])
                        return
            self.assign(dst, src, move)
            return
        self.store(dst, self.copyval(src.v, move))

    def store(self, cell, v):
        if isinstance(cell, UnionCell):
            cell.o.act = cell.d
            cell = cell.real
        if not cell.alive:
            raise self.bad("dead", "an element that was already destroyed or erased is written to")
        old = cell.v
        if self.journal is not None:
            if isinstance(old, (Obj, Vec, Map, Tup)) or isinstance(v, (Obj, Vec, Map, Tup)):
                raise _NoMerge()
            self.journal.append((cell, old))
        if cell.watch is not None:
            cell.watch(self, "write", cell)
        if isinstance(old, Vec) and isinstance(v, Vec):
            for c in old.items:
                self.kill(c)
            old.items, old.elt = v.items, v.elt
            return
        if isinstance(old, Map) and isinstance(v, Map):
            for nd in old.nodes:
                self.kill_node(nd)
            old.nodes = v.nodes
            return
        if isinstance(old, Obj) and isinstance(v, Obj) and old.rec == v.rec and not isinstance(old, Lam):
            for k, c in v.f.items():
                if k in old.f and not isinstance(old.f[k].v, Ref):
                    self.store(old.f[k], c.v)
                else:
                    old.f[k] = c
            old.attr, old.act = v.attr, v.act
            return
        if isinstance(old, Tup) and isinstance(v, Tup):
            for c, d in zip(old.items, v.items):
                if isinstance(c.v, Ref):
                    self.store(c.v.cell, self.copyval(self.unref(d)))
                else:
                    self.store(c, self.unref(d))
            return
        cell.v = v

    def unref(self, c):
        return self.load(c.v.cell) if isinstance(c.v, Ref) else self.load(c)

    def kill_node(self, nd):
        nd.alive = False
        self.kill(nd.cell)

    # ---- construction
    def ev_Ctor(self, n):
        f = self.F[n["f"]]
        a = self.call_args(f, n["a"])
        self.lastloc = n.get("l")
        return self.construct(n["rec"], f, a, n)

    def ev_ICtor(self, n):
        fr = self.frames[-1]
        f = self.F[n["f"]]
        args = [fr.env[p] for p in fr.fn["params"]]
        return self.construct(n["rec"], f, args, n)

    def construct(self, rid, f, args, n=None):
        h = self.ext.get("ctor:" + self.R[rid]["q"])
        if h is not None:
            r = h(self, f, rid, args)
            if r is not NotImplemented:
                return r
        if self.is_model(rid):
            r = self.model_ctor(rid, f, args)
            if r is not NotImplemented:
                return r
        o = Obj(rid)
        c = Cell(o)
        self.construct_into(c, rid, f, args, n)
        return c.v

    def construct_into(self, c, rid, f, args, n=None):
        o = c.v
        if (f.get("copy") or f.get("move")) and (f.get("defaulted") or f.get("implicit") or f.get("body") is None):
            src = self.load(args[0])
            if isinstance(src, Obj):
                mv = bool(f.get("move"))
                if self.P.in_lib(self.R[rid].get("l")):
                    for fl in self.P.all_fields(rid):
                        s = src.f.get(fl["d"])
                        if s is None:
                            continue
                        o.f[fl["d"]] = self.copy_member(s, fl["t"], mv)
                    o.act = src.act
                    o.attr = src.attr
                    if mv and src.attr is not None and getattr(src.attr, "movable", False):
                        src.attr = src.attr.moved()
                    if isinstance(src, Lam):
                        c.v = self.copyval(src, mv)
                    return
                if isinstance(src, Lam):
                    c.v = self.copyval(src, mv)
                    return
                k = self.copyval(src, mv)
                # slice to rid
                for fl in self.P.all_fields(rid):
                    if fl["d"] in k.f:
                        o.f[fl["d"]] = k.f[fl["d"]]
                o.attr, o.act = k.attr, k.act
                return
            raise self.err("copy of %r" % (src,))
        for fl in self.P.R[rid].get("fields", ()):
            t = self.T[fl["t"]]
            o.f.setdefault(fl["d"], Cell(UNDEF))
        if f.get("inits") is None and f.get("body") is None:
            if f.get("defaulted") or f.get("implicit") or f.get("dflt"):
                for fl in self.P.all_fields(rid):
                    t = self.T[fl["t"]]
                    if fl.get("init"):
                        self.init_field(o, fl, fl["init"], c, f)
                    elif t["c"] in ("rec", "arr"):
                        o.f[fl["d"]] = Cell(self.defval(fl["t"]))
                    else:
                        o.f[fl["d"]] = Cell(0 if n and n.get("zero") and t["c"] in ("int", "enum", "float") else
                                            False if n and n.get("zero") and t["c"] == "bool" else UNDEF)
                return
            raise self.err("constructor %s has no body" % f["q"])
        self.analysed.add(f["id"])
        fr = Frame(f, c, self.lastloc)
        for p, a in zip(f["params"], args):
            if self.P.is_ref(self.V[p]["t"]):
                fr.env[p] = a if isinstance(a, Cell) else Cell(a)
            else:
                fr.env[p] = Cell(self.load(a))
        self.frames.append(fr)
        self.depth += 1
        if self.depth > 180:
            raise AnalysisError("recursion too deep")
        try:
            zero = n is not None and n.get("zero")
            if zero:
                for fl in self.P.R[rid].get("fields", ()):
                    if self.T[fl["t"]]["c"] not in ("rec",):
                        o.f[fl["d"]] = Cell(self.defval(fl["t"], True))
            for i in f.get("inits") or ():
                if i.get("del"):
                    return_ = self.ev(i["e"])
                    v = self.load(return_)
                    o.f.update(v.f)
                    o.attr = v.attr
                elif "b" in i:
                    self.init_base(c, i["e"])
                elif "ch" in i:
                    cur = o
                    for d in i["ch"][:-1]:
                        cc = cur.f.get(d)
                        if cc is None or not isinstance(cc.v, Obj):
                            sub = Obj(self.T[self.P.field[d][1]["t"]]["rec"])
                            cur.f[d] = Cell(sub)
                            for fl in self.R[sub.rec].get("fields", ()):
                                sub.f[fl["d"]] = Cell(UNDEF)
                        cur = cur.f[d].v
                    d = i["ch"][-1]
                    self.init_field(cur, self.P.field[d][1], i["e"], c, f)
                    if self.R[cur.rec].get("union"):
                        cur.act = d
                else:
                    fl = self.P.field[i["f"]][1]
                    self.init_field(o, fl, i["e"], c, f)
            # anonymous members never initialised
            for fl in self.P.R[rid].get("fields", ()):
                if fl.get("anon") and not isinstance(o.f[fl["d"]].v, Obj):
                    sub = Obj(self.T[fl["t"]]["rec"])
                    for sf in self.R[sub.rec].get("fields", ()):
                        sub.f[sf["d"]] = Cell(UNDEF)
                    o.f[fl["d"]].v = sub
            if f.get("body"):
                try:
                    self.st(f["body"])
                except _Ret:
                    pass
        finally:
            self.depth -= 1
            self.frames.pop()

    def copy_member(self, s, tid, mv):
        if isinstance(s.v, Ref):
            return Cell(s.v)
        t = self.T[tid]
        if t["c"] == "rec" and isinstance(s.v, Obj) and self.P.in_lib(self.R[t["rec"]].get("l")):
            for mid in self.R[t["rec"]].get("methods", ()):
                f = self.F[mid]
                if f.get("kind") == "ctor" and (f.get("move") if mv else f.get("copy")) and not f.get("deleted"):
                    return Cell(self.construct(t["rec"], f, [s]))
        return Cell(self.copyval(self.load(s), mv))

    def init_field(self, o, fl, e, this, f):
        t = self.T[fl["t"]]
        if e["k"] == "DefInit":
            e = e["e"]
        x = self.ev(e)
        if t["c"] in ("lref", "rref"):
            o.f[fl["d"]] = Cell(Ref(self.cell(x)))
        else:
            v = self.load(x)
            if t["c"] == "arr" and isinstance(x, Cell):
                v = self.copyval(v)
            cc = o.f.get(fl["d"])
            if cc is None:
                o.f[fl["d"]] = Cell(v)
            else:
                cc.v = v

    def init_base(self, c, e):
        # evaluate the base constructor in place, so that 'this' is the complete object
        if e["k"] == "Ctor":
            f = self.F[e["f"]]
            a = self.call_args(f, e["a"])
            if self.is_model(e["rec"]):
                c.v.attr = self.model_ctor(e["rec"], f, a)
                return
            self.construct_into(c, e["rec"], f, a, e)
        elif e["k"] == "ICtor":
            f = self.F[e["f"]]
            fr = self.frames[-1]
            self.construct_into(c, e["rec"], f, [fr.env[p] for p in fr.fn["params"]], e)
        else:
            v = self.load(self.ev(e))
            if isinstance(v, Obj):
                c.v.f.update(v.f)

    def ev_List(self, n):
        t = self.T[n["t"]]
        if t["c"] == "arr":
            items = [Cell(self.rv(x)) for x in n["a"]]
            while len(items) < t["n"]:
                items.append(Cell(self.rv(n["filler"]) if n.get("filler") else self.defval(t["to"], True)))
            return items
        if t["c"] == "rec":
            if self.is_model(t["rec"]):
                if not n["a"]:
                    return self.model_default(t["rec"])
            o = Obj(t["rec"])
            fs = self.P.all_fields(t["rec"])
            r = self.R[t["rec"]]
            if r.get("union"):
                for fl in fs:
                    o.f[fl["d"]] = Cell(UNDEF)
                if n["a"]:
                    o.act = n.get("uf", fs[0]["d"])
                    o.f[o.act].v = self.rv(n["a"][0])
                return o
            args = list(n["a"])
            # base initialisers come first
            nb = len(r.get("bases", ()))
            for b in range(nb):
                if args:
                    bo = self.rv(args.pop(0))
                    if isinstance(bo, Obj):
                        o.f.update(bo.f)
            for fl in r.get("fields", ()):
                if args:
                    x = self.ev(args.pop(0))
                    if self.P.is_ref(fl["t"]):
                        o.f[fl["d"]] = Cell(Ref(self.cell(x)))
                    else:
                        o.f[fl["d"]] = Cell(self.load(x))
                else:
                    o.f[fl["d"]] = Cell(self.defval(fl["t"], True))
            return o
        if len(n["a"]) == 1:
            return self.ev(n["a"][0])
        if not n["a"]:
            return self.defval(n["t"], True)
        raise self.err("initialiser list")

    def ev_StdList(self, n):
        v = self.load(self.ev(n["e"]))
        return IList(v)

    def ev_Mat(self, n):
        x = self.ev(n["e"])
        return x if isinstance(x, Cell) else Cell(x)

    def ev_DefArg(self, n):
        return self.ev(n["e"])

    def ev_DefInit(self, n):
        return self.ev(n["e"])

    def ev_Zero(self, n):
        return self.defval(n["t"], True)

    def ev_Opaque(self, n):
        return self.ev(n["e"])

    def ev_ArrCopy(self, n):
        return self.copyval(self.load(self.ev(n["e"])))

    def ev_Typeid(self, n):
        if "e" in n:
            o = self.rv(n["e"])
            return Cell(("typeid", o.rec if isinstance(o, Obj) else None))
        return Cell(("typeid", self.T[n["ty"]].get("rec")))

    def ev_Throw(self, n):
        e = n.get("e")
        if e is None:
            fr = self.frames[-1]
            cur = next((f.exc for f in reversed(self.frames) if f.exc is not None), None)
            if cur is not None:
                raise cur
            raise self.err("rethrow outside a handler")
        t = self.P.strip_ref(e["t"])
        rid = t.get("rec")
        val = self.rv(e) if self.throw_values else None
        raise ThrowEx(rid, self.R[rid]["q"] if rid is not None else t["s"], n.get("l"), val)

    def ev_Lambda(self, n):
        o = Lam(n["rec"])
        o.call = n["call"]
        o.capmap = {}
        o.capthis = None
        for c in n["caps"]:
            k = c.get("kind")
            if k in ("this", "starthis"):
                o.capthis = self.frames[-1].this
                if k == "starthis":
                    o.capthis = Cell(self.copyval(o.capthis.v))
            elif k == "ref":
                x = self.ev(c["init"]) if c.get("init") else self.var(c["v"])
                o.capmap[c["v"]] = self.cell(x)
            elif k == "copy":
                x = self.ev(c["init"]) if c.get("init") else self.var(c["v"])
                v = self.load(x)
                cc = Cell(self.copyval(v) if isinstance(x, Cell) else v)
                o.f[c.get("d")] = cc
                o.capmap[c["v"]] = cc
        return o

    def ev_New(self, n):
        if n.get("pl"):
            p = self.rv(n["pl"][0])
            c = p.target()
            c.v = self.rv(n["e"]) if n.get("e") else self.defval(n["ty"])
            return Ptr(c)
        if n.get("array"):
            raise self.err("array new")
        c = Cell(self.rv(n["e"]) if n.get("e") else self.defval(n["ty"]))
        return Ptr(c)

    def ev_Del(self, n):
        p = self.rv(n["e"])
        if isinstance(p, Ptr) and p.cell is not None:
            self.kill(p.cell)
        return None

    def ev_Cond(self, n):
        v = self.ev(n["c"])
        if self.merger is not None:
            a = self.load(v)
            if hasattr(a, "vp_open") and a.vp_open(self) and all(self.mergeable(x) for x in n["a"]):
                r = self.both(a, lambda: self.load(self.ev(n["a"][0])), lambda: self.load(self.ev(n["a"][1])))
                if r is not NotImplemented:
                    return r
        b = self.truth(v)
        return self.ev(n["a"][0 if b else 1])

    # ---- undetermined conditions whose branches can be joined
    def mergeable(self, n):
        """expression or statement without effects other than assignments to scalars"""
        k = self._mergeable.get(id(n)) if isinstance(n, dict) else None
        if k is not None:
            return k[0]
        r = self._merge_ok(n)
        self._mergeable[id(n)] = (r, n)
        return r

    def _merge_ok(self, n):
        if n is None:
            return True
        k = n.get("k") or n.get("s")
        if k in ("Expr",):
            return self.mergeable(n["e"])
        if k == "Block":
            return all(self.mergeable(x) for x in n["b"])
        if k == "If":
            return not n.get("init") and not n.get("cv") and "ce" not in n and self.mergeable(n["c"]) and self.mergeable(n["then"]) and self.mergeable(n.get("else"))
        if k == "Null":
            return True
        if k in ("Bin", "CAsg", "Cond"):
            return all(self.mergeable(x) for x in n["a"]) and (k != "Cond" or self.mergeable(n["c"]))
        if k in ("Un", "Cast"):
            return self.mergeable(n["e"])
        if k in ("Var", "Int", "Bool", "This"):
            return True
        if k == "Mem":
            return self.mergeable(n["b"])
        if k == "Decl":
            return all(not v.get("bind") and not self.V[v["d"]].get("staticlocal") and v.get("init") is not None and self.mergeable(v["init"])
                       and self.P.strip_ref(self.V[v["d"]]["t"])["c"] in ("int", "bool", "enum") for v in n["v"])
        if k == "MCall" and "f" in n and not n.get("virt"):
            f = self.F[n["f"]]
            return f["q"] in ("std::vector::operator[]", "std::array::operator[]", "std::vector::size", "std::vector::back",
                              "std::vector::front", "std::vector::at") and self.mergeable(n["o"]) and all(self.mergeable(x) for x in n["a"])
        return False

    def both(self, cond, then, other):
        """Evaluate both branches of an undetermined condition and join their effects;
        NotImplemented (nothing changed) when they cannot be joined."""
        if self.journal is not None:
            return NotImplemented
        outs = []
        try:
            for br in (then, other):
                self.journal = []
                try:
                    r = br()
                finally:
                    j, self.journal = self.journal, None
                    new = {}
                    for c, old in j:
                        new.setdefault(id(c), (c, c.v))
                    for c, old in reversed(j):
                        c.v = old
                outs.append((r, new))
        except (_NoMerge, Bad, AnalysisError, ThrowEx):
            return NotImplemented
        (rt, nt), (re_, ne) = outs
        res = []
        for k in dict(nt, **ne):
            c = (nt.get(k) or ne.get(k))[0]
            a = nt[k][1] if k in nt else c.v
            b = ne[k][1] if k in ne else c.v
            m = self.merger(self, cond, a, b)
            if m is NotImplemented:
                return NotImplemented
            res.append((c, m))
        if rt is not None or re_ is not None:
            rt = self.merger(self, cond, rt, re_)
            if rt is NotImplemented:
                return NotImplemented
        for c, m in res:
            self.store(c, m)
        return rt

    def ev_Sub(self, n):
        a = self.load(self.ev(n["a"][0]))
        i = self.load(self.ev(n["a"][1]))
        if isinstance(i, Ptr):
            a, i = i, a
        if isinstance(a, list):
            a = Ptr(None, a, 0)
        if isinstance(i, Poly):
            raise self.err("symbolic subscript")
        if isinstance(a, Ptr):
            return Ptr(a.cell, a.seq, a.idx + i).target() if a.seq is not None else self._scalarptr(a, i).target()
        raise self.err("subscript of %r" % (a,))

    def ev_Bin(self, n):
        op = n["op"]
        l, r = n["a"]
        if op == "=":
            v = self.rv(r)
            c = self.lvc(l)
            self.store(c, v)
            return c
        if op == ",":
            self.ev(l)
            return self.ev(r)
        if op == "&&":
            return self.truth(self.ev(l)) and self.truth(self.ev(r))
        if op == "||":
            return self.truth(self.ev(l)) or self.truth(self.ev(r))
        a, b = self.rv(l), self.rv(r)
        self.lastloc = n.get("l")
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return self.arith(op, a, b, l["t"])
        return self.arith(op, a, b, n["t"])

    def ev_CAsg(self, n):
        r = self.rv(n["a"][1])
        c = self.lvc(n["a"][0])
        op = n["op"][:-1]
        v = self.arith(op, self.load(c), r, n["ct"])
        v = self.convert(v, n["ct"], n["t"])
        self.store(c, v)
        return c

    def convert(self, v, tfrom, tto):
        t = self.T[tto]
        if hasattr(v, "vp_convert"):
            return v.vp_convert(self, tto)
        if t["c"] in ("int", "enum") and isinstance(v, Fraction):
            v = int(v)
        return self.wrap(v, tto) if isinstance(v, (int, bool)) else v

    def ev_Un(self, n):
        op = n["op"].strip()
        base = op.replace("pre", "").replace("post", "")
        if base in ("++", "--"):
            c = self.lvc(n["e"])
            old = self.load(c)
            if isinstance(old, Ptr):
                new = self.ptr_arith("+" if base == "++" else "-", old, 1)
            else:
                new = self.arith(base[0], old, 1, n["e"]["t"])
            self.store(c, new)
            return old if "post" in op else c
        if base == "*":
            p = self.rv(n["e"])
            if isinstance(p, Ptr):
                return p.target()
            if isinstance(p, FnPtr):
                return Cell(p)
            if isinstance(p, list):
                return p[0]
            raise self.err("* of %r" % (p,))
        if base == "&":
            if n["e"]["k"] in ("Fn",):
                return FnPtr(n["e"]["f"])
            c = self.ev(n["e"])
            if isinstance(c, FnPtr):
                return c
            return Ptr(self.cell(c))
        v = self.rv(n["e"])
        if base == "!":
            if self.merger is not None and hasattr(v, "vp_open") and v.vp_open(self):
                return v.vp_not(self)
            return not self.truth(v)
        if base == "-":
            if hasattr(v, "vp_unop"):
                return v.vp_unop(self, "-", n["t"])
            if isinstance(v, Poly):
                return -v
            if v is UNDEF:
                raise self.bad("uninit", "an uninitialised value is negated")
            return self.wrap(-v, n["t"])
        if base == "+":
            return v
        if base == "~":
            if hasattr(v, "vp_unop"):
                return v.vp_unop(self, "~", n["t"])
            if isinstance(v, Poly):
                return self.uf("op~", v, integer=True)
            return self.wrap(~int(v), n["t"])
        if base == "__extension__":
            return v
        raise self.err("unary " + base)

    def ev_Cast(self, n):
        ck = n["ck"]
        if ck in ("NoOp", "UserDefinedConversion", "ConstructorConversion", "DerivedToBase", "UncheckedDerivedToBase",
                  "BaseToDerived", "LValueBitCast"):
            return self.ev(n["e"])
        if ck == "LValueToRValue":
            x = self.ev(n["e"])
            v = self.load(x)
            if isinstance(v, Obj) or isinstance(v, (Vec, Map, Tup)):
                return self.copyval(v)
            return v
        if ck == "ToVoid":
            self.ev(n["e"])
            return None
        if ck == "Dynamic":
            return self.dyn_cast(n)
        if ck == "FunctionToPointerDecay" or ck == "BuiltinFnToFnPtr":
            return self.load(self.ev(n["e"]))
        if ck == "ArrayToPointerDecay":
            v = self.load(self.ev(n["e"]))
            if isinstance(v, Str):
                return v
            return Ptr(None, v, 0)
        v = self.rv(n["e"])
        if hasattr(v, "vp_convert") and ck in ("IntegralCast", "IntegralToFloating", "FloatingCast", "FloatingToIntegral"):
            return v.vp_convert(self, n["t"])
        if ck in ("IntegralCast", "BooleanToSignedIntegral"):
            if v is UNDEF:
                raise self.bad("uninit", "an uninitialised value is read")
            return self.wrap(v, n["t"])
        if ck in ("IntegralToFloating", "FloatingCast"):
            if isinstance(v, bool):
                return int(v)
            if ck == "IntegralToFloating" and isinstance(v, int) and self.T[n["t"]].get("w") == 64 and abs(v) > 2**53:
                f = Fraction(float(v))
                return int(f)
            return v
        if ck == "FloatingToIntegral":
            if isinstance(v, Poly):
                if self.isintpoly(v):
                    return v
                return self.uf("trunc", v, integer=True)
            if isinstance(v, (int, Fraction)):
                return self.wrap(int(v), n["t"])
            return v
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            if self.merger is not None and hasattr(v, "vp_bool"):
                return v.vp_bool(self)
            return self.truth(v)
        if ck == "NullToPointer":
            return Ptr(None)
        if ck in ("BitCast",):
            return v
        if ck == "NonAtomicToAtomic" or ck == "AtomicToNonAtomic":
            return v
        raise self.err("cast " + ck)

    def dyn_cast(self, n):
        x = self.ev(n["e"])
        tt = self.T[n["t"]]
        if tt["c"] == "ptr":
            p = self.load(x)
            if p.isnull():
                return p
            o = self.load(p.target())
            to = self.T[tt["to"]]["rec"]
            return p if to in self.P.bases(o.rec) else Ptr(None)
        o = self.load(x)
        to = tt["rec"] if tt["c"] == "rec" else self.P.strip_ref(n["t"])["rec"]
        if not isinstance(o, Obj):
            raise self.err("dynamic_cast of %r" % (o,))
        if to in self.P.bases(o.rec):
            return x
        raise ThrowEx(None, "std::bad_cast", n.get("l"))

    def ev_Unk(self, n):
        if n.get("cls") == "CXXPseudoDestructorExpr":
            return None
        if n.get("cls") == "SourceLocExpr":
            return Opq("srcloc")
        raise self.err("unsupported expression %s" % n.get("cls"))

    # ----------------------------------------------------------- statements
    def st(self, s):
        if s is None:
            return
        self.steps += 1
        if self.steps > self.budget0:
            raise AnalysisLimit("analysis budget exceeded in " + " <- ".join(self.where()[:8]))
        h = self.ST.get(s["s"])
        if h is None:
            raise self.err("unsupported statement " + s["s"] + str(s.get("cls", "")))
        h(s)

    def st_Expr(self, s):
        self.ev(s["e"])

    def st_Block(self, s):
        for x in s["b"]:
            self.st(x)

    def st_Decl(self, s):
        for v in s["v"]:
            self.decl(v)

    def decl(self, v):
        d = v["d"]
        V = self.V[d]
        fr = self.frames[-1]
        if V.get("staticlocal"):
            self.var(d)
            return
        if self.P.is_ref(V["t"]):
            fr.env[d] = self.cell(self.ev(v["init"]))
        elif v.get("init") is not None:
            x = self.ev(v["init"])
            val = self.load(x)
            if isinstance(x, Cell) and isinstance(val, (Obj, Vec, Map, list)):
                val = self.copyval(val)
            fr.env[d] = Cell(val)
        else:
            fr.env[d] = Cell(self.defval(V["t"]))
        if v.get("bind"):
            whole = fr.env[d]
            wv = self.load(whole)
            for i, b in enumerate(v["bind"]):
                if b.get("hi") is not None:
                    x = self.ev(b["hi"])
                    c = self.cell(x)
                    fr.env[("b", b["d"])] = c
                    fr.env[b["hv"]] = c
                else:
                    fr.env[("b", b["d"])] = self.cell(self.ev(b["e"]))
        fr.locals.append(d)

    def st_Ret(self, s):
        if "e" not in s:
            raise _Ret(None)
        fr = self.frames[-1]
        x = self.ev(s["e"])
        if not isinstance(x, Cell) or "ret" not in fr.fn:
            raise _Ret(x)
        if self.P.is_ref(fr.fn["ret"]):
            raise _Ret(x)
        raise _Ret(self.load(x))

    def st_If(self, s):
        if s.get("init"):
            self.st(s["init"])
        if s.get("cv"):
            self.decl(s["cv"])
        if "ce" in s:
            b = s["ce"]
        else:
            v = self.ev(s["c"])
            if self.merger is not None:
                a = self.load(v)
                if hasattr(a, "vp_open") and a.vp_open(self) and self.mergeable(s["then"]) and self.mergeable(s.get("else")):
                    r = self.both(a, lambda: self.st(s["then"]), lambda: self.st(s["else"]) if s.get("else") else None)
                    if r is not NotImplemented:
                        return
            b = self.truth(v)
        if b:
            self.st(s["then"])
        elif s.get("else"):
            self.st(s["else"])

    def loop(self, cond, inc, body):
        while True:
            if cond is not None and not self.truth(self.ev(cond)):
                return
            try:
                self.st(body)
            except _Brk:
                return
            except _Cont:
                pass
            if inc is not None:
                self.ev(inc)

    def st_For(self, s):
        if s.get("init"):
            self.st(s["init"])
        self.loop(s.get("c"), s.get("inc"), s["body"])

    def st_While(self, s):
        if s.get("cv"):
            while True:
                self.decl(s["cv"])
                if not self.truth(self.ev(s["c"])):
                    return
                try:
                    self.st(s["body"])
                except _Brk:
                    return
                except _Cont:
                    pass
        self.loop(s["c"], None, s["body"])

    def st_Do(self, s):
        while True:
            try:
                self.st(s["body"])
            except _Brk:
                return
            except _Cont:
                pass
            if not self.truth(self.ev(s["c"])):
                return

    def st_RFor(self, s):
        if s.get("init"):
            self.st(s["init"])
        self.st(s["range"])
        self.st(s["begin"])
        self.st(s["end"])
        while True:
            if not self.truth(self.ev(s["c"])):
                return
            self.st(s["var"])
            try:
                self.st(s["body"])
            except _Brk:
                return
            except _Cont:
                pass
            self.ev(s["inc"])

    def st_Switch(self, s):
        if s.get("init"):
            self.st(s["init"])
        if s.get("cv"):
            self.decl(s["cv"])
        v = self.rv(s["c"])
        if v is UNDEF:
            raise self.bad("uninit", "an uninitialised value decides a switch")
        # flatten labels
        flat = []
        labels = {}
        deflt = None

        def flatten(x):
            nonlocal deflt
            if x is None:
                return
            if x["s"] == "Case":
                labels[int(x["v"])] = len(flat)
                flatten(x["sub"])
            elif x["s"] == "Default":
                deflt = len(flat)
                flatten(x["sub"])
            else:
                flat.append(x)
        body = s["body"]
        for x in (body["b"] if body["s"] == "Block" else [body]):
            flatten(x)
        start = None
        if isinstance(v, Poly):
            for k in sorted(labels):
                if self.cmp_poly("==", v, k):
                    start = labels[k]
                    break
            else:
                start = deflt
        else:
            start = labels.get(int(v), deflt)
        if start is None:
            return
        try:
            for x in flat[start:]:
                self.st(x)
        except _Brk:
            pass

    def st_Break(self, s):
        raise _Brk()

    def st_Continue(self, s):
        raise _Cont()

    def st_Null(self, s):
        pass

    def st_Try(self, s):
        depth = len(self.frames)
        dd = self.depth
        try:
            self.st(s["body"])
        except ThrowEx as t:
            del self.frames[depth:]
            self.depth = dd
            for h in s["h"]:
                if "t" in h:
                    ht = self.P.strip_ref(h["t"])
                    if not self.catches(ht, t):
                        continue
                    self.frames[-1].env[h["d"]] = Cell(t.val if t.val is not None else Opq(t.q))
                old = self.frames[-1].exc
                self.frames[-1].exc = t
                try:
                    self.st(h["b"])
                finally:
                    if len(self.frames) >= depth:
                        self.frames[depth - 1].exc = old
                return
            raise

    def catches(self, ht, t):
        if ht["c"] != "rec":
            return False
        hq = self.R[ht["rec"]]["q"]
        if hq == t.q or hq == "std::exception":
            return True
        if t.rec is not None:
            return ht["rec"] in self.P.bases(t.rec)
        return STD_EXC_BASE.get(t.q) == hq

    SPECIAL = {}


STD_EXC_BASE = {"std::out_of_range": "std::logic_error", "std::bad_weak_ptr": "std::exception",
                "std::bad_cast": "std::exception"}


class UnionCell(Cell):
    __slots__ = ("o", "d", "real")

    def __init__(self, o, d, real):
        self.o, self.d, self.real = o, d, real
        self.tag = None
        self.shared = False
        self.watch = None

    @property
    def v(self):
        if self.o.act is not None and self.o.act != self.d:
            raise Bad("union", "a constant is read as a kind it was not created with")
        return self.real.v

    @v.setter
    def v(self, x):
        self.o.act = self.d
        self.real.v = x

    @property
    def alive(self):
        return self.real.alive


class Frame:
    __slots__ = ("fn", "this", "env", "locals", "call", "exc")

    def __init__(self, fn, this, call):
        self.fn, self.this, self.call = fn, this, call
        self.env = {}
        self.locals = []
        self.exc = None


FREE = {}
COMPLEX = {}
import stdmodel  # noqa: E402  (registers models of the standard library)
stdmodel.install(Interp, FREE)
COMPLEX.update(stdmodel.COMPLEX_FUNCS)
