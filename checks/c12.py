"""Width of state-index arithmetic, decided by a whole-program data-flow analysis of the
resolved syntax trees. A flow-insensitive fixpoint over variables, fields, container
contents, function parameters and results computes which values may be state indices,
masks, ranks or numbers of states (sources: everything declared in terms of sv_index_type,
results of shifts and multiplications in 64 bits that start from them, lengths of
containers sized by them). Obligations: (1) every conversion of a 64-bit value to a
narrower integer type converts a value no such quantity flows into, also inside the
instantiated standard algorithms; (2) no assignment, initialization or accumulation stores
such a quantity into a narrower object; (3) no shift by a variable amount is done in a
narrower type; (4) no narrower complement or product recurrence is widened afterwards;
(5) no such quantity goes through floating point and back; (6) no narrower counter is
compared with such a quantity in a loop; (7) the index type itself is unsigned with 64
bits; (8) sizes of sectors of up to 63 modes, evaluated in machine arithmetic, are the
binomial coefficients (no intermediate product wraps around)."""
import math
from util import *
from prog import export

LEVEL = "other"
ASSUMPTIONS = ["long, std::size_t and std::ptrdiff_t have 64 bits (the platform analysed)",
               "bit positions, numbers of modes, particles and elementary spaces (at most 64 each) are not state indices"]
NEED = {"narrowing conversion": 1, "shift": 4, "function": 100, "sector size": 150}
SIZES = ("size", "length", "max_size", "capacity", "bucket_count", "count", "distance")
SAMEW = 64


class Flow:
    def __init__(self, P):
        self.P = P
        self.t = {}      # location -> reason (value may be a state index quantity)
        self.changed = True
        self.scope = []

    # locations
    def add(self, loc, why):
        if loc is not None and loc not in self.t:
            self.t[loc] = why
            self.changed = True

    def ty(self, n):
        return self.P.types[n["t"]]

    def isint(self, T, w=None):
        return T["c"] in ("int", "enum", "bool") and (w is None or T.get("w", 8) == w)

    def root(self, n):
        """location an lvalue expression belongs to"""
        P = self.P
        while isinstance(n, dict):
            k = n.get("k")
            if k == "Var":
                return ("v", n["d"])
            if k == "Mem":
                if P.in_lib(P.R[P.field[n["d"]][0]["id"]].get("l")) if n["d"] in P.field else False:
                    return ("f", n["d"])
                n = n["b"]
                continue
            if k == "Sub":
                n = n["a"][0]
            elif k in ("Cast", "Mat", "Opaque", "DefArg", "DefInit"):
                n = n.get("e")
            elif k == "Un":
                n = n["e"]
            elif k in ("MCall",):
                f = P.F.get(n.get("f"))
                if f is not None and P.in_lib(f.get("l")):
                    return ("r", f["id"])
                n = n.get("o")
            elif k == "Call":
                f = P.F.get(n.get("f"))
                if f is not None and P.in_lib(f.get("l")):
                    return ("r", f["id"])
                n = n["a"][0] if n["a"] else None
            elif k == "Binding":
                n = n["e"]
            elif k in ("Bin", "CAsg"):
                n = n["a"][0]
            else:
                return None
        return None

    # expression taint: reason or None
    def ev(self, n):
        if not isinstance(n, dict):
            return None
        P = self.P
        k = n.get("k")
        T = self.ty(n) if "t" in n else {"c": "?"}
        r = self._ev(n, k)
        if r and T["c"] in ("bool", "int", "enum") and T.get("w", 8) < SAMEW:
            return None     # the conversion itself is the obligation
        return r

    def _ev(self, n, k):
        P = self.P
        if k == "Var":
            return self.t.get(("v", n["d"]))
        if k == "Mem":
            x = self.t.get(("f", n["d"]))
            if x:
                return x
            if not P.in_lib(P.field[n["d"]][0].get("l")) if n["d"] in P.field else True:
                return self.ev(n["b"])
            return None
        if k in ("Cast", "Mat", "Opaque", "DefArg", "DefInit", "Un", "Binding", "StdList", "ArrCopy"):
            if k == "Cast" and n.get("cf") is not None:
                return self.t.get(("r", n["cf"])) or self.ev(n.get("e"))
            return self.ev(n.get("e"))
        if k == "Bin":
            op = n["op"]
            a, b = n["a"]
            if op == "=":
                r = self.ev(b)
                if r:
                    self.add(self.root(a), r)
                return r
            if op in ("==", "!=", "<", ">", "<=", ">=", "&&", "||"):
                self.ev(a), self.ev(b)
                return None
            if op == ",":
                self.ev(a)
                return self.ev(b)
            x, y = self.ev(a), self.ev(b)
            T = self.ty(n)
            if op == "<<" and self.isint(T, 64) and const(b) is None:
                return x or "shift at %s" % P.loc(n.get("l"))
            if op in ("<<", ">>"):
                return x
            if op == "%":
                return y
            if op == "&":
                return x and y or ((x or y) if small_const(a, b) is None else None)
            if T["c"] == "ptr" or self.ty(a)["c"] == "ptr":
                if op == "-" and self.ty(b)["c"] == "ptr":
                    return self.t.get(("len",) + (self.root(a) or ("?",)))
                return x
            return x or y
        if k == "CAsg":
            a, b = n["a"]
            x, y = self.ev(a), self.ev(b)
            if n["op"] in ("<<=", ">>="):
                y = None
                if n["op"] == "<<=" and self.isint(self.ty(a), 64) and const(b) is None:
                    y = "shift at %s" % P.loc(n.get("l"))
            if n["op"] in ("&=", "%="):
                y = None
            if y:
                self.add(self.root(a), y)
            return x or y
        if k == "Cond":
            self.ev(n["c"])
            x, y = self.ev(n["a"][0]), self.ev(n["a"][1])
            return x or y
        if k == "Sub":
            self.ev(n["a"][1])
            return self.ev(n["a"][0])
        if k == "List":
            r = None
            for x in n["a"]:
                r = self.ev(x) or r
            return r
        if k == "New":
            return self.ev(n.get("e"))
        if k == "Lambda":
            for c in n.get("caps", ()):
                r = self.ev(c.get("init"))
                if r and c.get("ic"):
                    self.add(("v", c["v"]), r)
            return None
        if k in ("MCall", "Call"):
            return self.call(n, k)
        if k == "Ctor":
            return self.ctor(n)
        if k == "Throw" or k == "Del":
            self.ev(n.get("e"))
            return None
        return None

    def bind(self, f, args):
        for p, a in zip(f["params"], args):
            r = self.ev(a)
            if r and not (self.narrow(self.P.V[p]["t"])):
                self.add(("v", p), r)
            if self.lent(a):
                self.add(("len", "v", p), self.lent(a))
            if self.P.is_ref(self.P.V[p]["t"]):
                # results flow back through references
                q = self.t.get(("v", p))
                if q and not self.P.types[self.P.types[self.P.V[p]["t"]]["to"]].get("const"):
                    self.add(self.root(a), q)

    def narrow(self, t):
        T = self.P.strip_ref(t)
        return T["c"] in ("bool", "int", "enum") and T.get("w", 8) < SAMEW

    def lent(self, n):
        """may the length of this container be a number of states?"""
        while isinstance(n, dict) and n.get("k") in ("Cast", "Mat", "Opaque", "DefArg"):
            n = n.get("e")
        if not isinstance(n, dict):
            return None
        r = self.root(n) if n.get("k") in ("Var", "Mem") else ("r", n["f"]) if n.get("k") in ("Call", "MCall") and "f" in n else None
        if r:
            x = self.t.get(("len",) + r)
            if x:
                return x
        T = self.P.strip_ref(n["t"]) if "t" in n else None
        if T and T["c"] == "rec":
            R = self.P.R[T["rec"]]
            ta = R.get("targs") or []
            if R["q"] == "std::vector" and ta and "t" in ta[0] and self.P.types[ta[0]["t"]]["c"] == "float":
                return "length of a state vector"
            if R["q"] in ("std::map", "std::unordered_map", "std::set", "std::unordered_set") and r and self.t.get(r) and ta and \
                    "t" in ta[0] and self.isint(self.P.types[ta[0]["t"]], 64):
                return "number of entries keyed by states"
        if n.get("k") == "Ctor" and n["a"]:
            a0 = n["a"][0]
            if self.P.types[a0["t"]]["c"] in ("int",) and self.ev(a0):
                return self.ev(a0)
            return self.lent(a0) if len(n["a"]) == 1 else None
        return None

    def ctor(self, n):
        P = self.P
        f = P.F.get(n["f"])
        r = None
        args = [self.ev(a) for a in n["a"]]
        if f is not None and P.in_lib(f.get("l")):
            self.bind(f, n["a"])
            if f.get("copy") or f.get("move"):
                return args[0] if args else None
            return None
        q = P.R[n["rec"]]["q"]
        if q in ("std::vector", "std::valarray") and len(n["a"]) >= 1 and P.types[n["a"][0]["t"]]["c"] == "int" and not n.get("list"):
            args = args[1:]     # a length, not contents
        for x in args:
            r = r or x
        return r

    def call(self, n, k):
        P = self.P
        f = P.F.get(n.get("f"))
        args = n["a"]
        if f is None:
            for a in args:
                self.ev(a)
            self.ev(n.get("fe"))
            return None
        name = f["name"]
        lib = P.in_lib(f.get("l"))
        o = n.get("o") if k == "MCall" else None
        ro = self.ev(o) if o else None
        if lib or f["q"].startswith("vp::"):
            self.bind(f, args)
            if o is not None and f["name"] == "operator()" and f.get("body") is None:
                return ro
            return self.t.get(("r", f["id"]))
        ra = [self.ev(a) for a in args]
        if f.get("builtin") and not f["q"].startswith("std::"):
            return None
        # containers' lengths
        if name in SIZES and o is not None:
            return self.lent(o)
        if name in ("resize", "reserve", "assign") and o is not None and args:
            if ra and ra[0]:
                rt = self.root(o)
                if rt:
                    self.add(("len",) + rt, ra[0])
            for x in ra[1:]:
                if x:
                    self.add(self.root(o), x)
            return None
        if f["q"] == "std::distance":
            return None
        if f.get("body") is not None and k == "Call":
            self.bind(f, args)
            r = self.t.get(("r", f["id"]))
            if r:
                return r
        if o is not None:
            sto = name in ("operator=", "push_back", "emplace_back", "emplace", "insert", "push", "fill", "operator+=", "operator|=",
                           "try_emplace", "insert_or_assign", "emplace_hint", "push_front", "swap")
            if sto or name in ("operator[]",):
                for x in ra:
                    if x and (sto or "map" in P.R[f["rec"]]["q"]):
                        self.add(self.root(o), x)
            if name == "operator()" and f.get("rec") is not None and P.R[f["rec"]]["q"] == "std::function":
                return ro
            if name in ("operator==", "operator!=", "operator<", "find", "lower_bound", "upper_bound") and name != "operator=":
                return ro
            return ro or (ra[0] if sto and ra else None)
        # algorithms writing through iterators
        if f["q"] in ("std::fill", "std::fill_n", "std::copy", "std::transform", "std::iota", "std::partial_sum", "std::swap", "std::generate"):
            r = None
            for x in ra:
                r = r or x
            for a in args:
                lam = None
                y = a
                while isinstance(y, dict) and y.get("k") in ("Cast", "Mat", "Ctor"):
                    y = y.get("e") if y["k"] != "Ctor" else (y["a"][0] if y["a"] else None)
                if isinstance(y, dict) and y.get("k") == "Lambda":
                    lam = self.t.get(("r", y["call"]))
                    if r:
                        for p in P.F[y["call"]]["params"]:
                            if not self.narrow(P.V[p]["t"]):
                                self.add(("v", p), r)
                r = r or lam
            if r and len(args) >= 2:
                self.add(self.root(args[0] if f["q"] in ("std::fill", "std::fill_n", "std::iota", "std::swap", "std::generate") else args[2]), r)
            return r
        r = None
        for x in ra:
            r = r or x
        return r

    # statements
    def func(self, f):
        P = self.P
        for i in f.get("inits", ()):
            r = self.ev(i["e"])
            if i.get("f") is not None:
                if r and not self.narrow(P.field[i["f"]][1]["t"] if i["f"] in P.field else i["e"]["t"]):
                    self.add(("f", i["f"]), r)
                L = self.lent(i["e"])
                if L and i["e"].get("k") == "Ctor":
                    self.add(("len", "f", i["f"]), L)
        self.stmt(f.get("body"), f)

    def stmt(self, s, f):
        if isinstance(s, list):
            for x in s:
                self.stmt(x, f)
            return
        if not isinstance(s, dict):
            return
        if "k" in s:
            self.ev(s)
            return
        if s.get("s") == "Ret":
            if s.get("e"):
                r = self.ev(s["e"])
                if r and not self.narrow(f["ret"]):
                    self.add(("r", f["id"]), r)
                L = self.lent(s["e"])
                if L:
                    self.add(("len", "r", f["id"]), L)
            return
        if s.get("s") == "RFor":
            for kk in ("init", "range", "begin", "end", "c", "inc", "var", "body"):
                self.stmt(s.get(kk), f)
            return
        if s.get("s") == "Decl":
            for v in s["v"]:
                self.decl(v)
            return
        for kk, x in s.items():
            if kk == "cv" and isinstance(x, dict) and "d" in x:
                self.decl(x)
            elif isinstance(x, (dict, list)) and kk != "l":
                self.stmt(x, f)

    def decl(self, v):
        if "init" in v:
            r = self.ev(v["init"])
            V = self.P.V[v["d"]]
            if r and not self.narrow(V["t"]):
                self.add(("v", v["d"]), r)
            L = self.lent(v["init"])
            if L:
                self.add(("len", "v", v["d"]), L)
        for b in v.get("bind", ()):
            if "hi" in b:
                r = self.ev(b["hi"])
                if r:
                    self.add(("v", b["hv"]), r)


def const(n):
    while isinstance(n, dict) and n.get("k") in ("Cast", "Mat"):
        n = n.get("e")
    if isinstance(n, dict) and n.get("k") == "Int":
        return int(n["v"])
    return None


def small_const(a, b):
    for x in (a, b):
        c = const(x)
        if c is not None and 0 <= c < 2 ** 31:
            return c
    return None


def cname(f):
    return f["q"]


def run(ctx):
    P = export("readonly.cpp")
    FL = Flow(P)
    # sources: whatever is declared in terms of the index type
    nsrc = 0
    for v in P.V.values():
        if v.get("sv") and P.in_lib(v.get("l")):
            FL.add(("v", v["id"]), "%s (declared at %s)" % (v["n"], P.loc(v["l"])))
            nsrc += 1
    for d, (r, fl) in P.field.items():
        if fl.get("sv") and P.in_lib(r.get("l")):
            FL.add(("f", d), "%s::%s" % (r["q"].split("::")[-1], fl["n"]))
            nsrc += 1
    for f in P.F.values():
        if f.get("sv") and P.in_lib(f.get("l")):
            FL.add(("r", f["id"]), "result of %s" % f["q"])
            nsrc += 1
    ctx.count("declared_sources", nsrc)
    if nsrc < 60:
        ctx.error("only %d declarations in terms of the index type were found" % nsrc)
    loper = [f for f in P.F.values() if P.in_lib(f.get("l")) and "/loperator/" in P.fileof(f["l"]) and f.get("body") is not None]
    STD = ("std::accumulate", "std::inner_product", "std::partial_sum", "std::reduce", "std::iota", "std::count", "std::count_if", "std::transform", "std::fill",
           "std::fill_n", "std::copy", "std::max", "std::min", "std::plus::operator()", "std::multiplies::operator()", "std::exchange", "std::generate")
    std = [f for f in P.F.values() if not P.in_lib(f.get("l")) and f["q"] in STD and f.get("body") is not None]
    it = 0
    while FL.changed:
        FL.changed = False
        for f in loper + std:
            FL.func(f)
        it += 1
        if it > 60:
            ctx.error("the data-flow analysis did not stabilise")
            break
    ctx.count("fixpoint_iterations", it)
    ctx.count("locations_carrying_index_quantities", len(FL.t))
    seen = set()

    users = {}
    for f in loper:
        for n in P.body_nodes(f):
            if n.get("k") in ("Call", "MCall") and "f" in n and not P.in_lib(P.F[n["f"]].get("l")):
                users.setdefault(n["f"], P.loc(n.get("l")) + " (within %s)" % P.F[n["f"]]["q"])

    def ob(rule, f, n, ok, msg):
        loc = users.get(f["id"]) if not P.in_lib(f.get("l")) else None
        loc = loc or P.loc(n.get("l") or f["l"])
        key = "%s in %s, %s" % (rule, cname(f), loc)
        if ok and key in seen:
            return
        seen.add(key)
        ctx.ob(rule, key, ok, msg, loc)
    for f in loper + std:
        inlib = P.in_lib(f.get("l"))
        ctx.functions.add((f["q"], P.loc(f["l"]))) if inlib else None
        if inlib:
            ctx.ob("function", "%s#%d" % (f["q"], f["id"]), True)
        # loops: counters
        for n in P.body_nodes(f):
            k = n.get("k")
            if k is None:
                continue
            T = P.types[n["t"]] if "t" in n else {"c": "?"}
            if k == "Cast" and T["c"] in ("int", "enum") and T.get("w") < 64:
                S = P.types[n["e"]["t"]]
                if S["c"] == "int" and S.get("w") == 64:
                    r = FL.ev(n["e"]) if const(n["e"]) is None else None
                    ob("narrowing conversion", f, n, not r, "a value of 64 bits that may hold a state index quantity (%s) is converted to %s" % (r, T["s"]))
            if k == "Cast" and n.get("ck") == "FloatingToIntegral":
                r = FL.ev(n["e"])
                ob("through floating point", f, n, not r, "a state index quantity (%s) is computed in floating point" % r)
            if k == "CAsg":
                L = P.types[n["a"][0]["t"]]
                if L["c"] == "int" and L.get("w") < 64:
                    r = FL.ev(n["a"][1]) if n["op"] not in ("<<=", ">>=", "&=", "%=") else None
                    ob("accumulation", f, n, not r, "a state index quantity (%s) is accumulated in %s" % (r, L["s"]))
                if n["op"] == "<<=" and L["c"] == "int":
                    ob("shift", f, n, L.get("w") == 64 or const(n["a"][1]) is not None, "a shift by a variable amount is done in %s" % L["s"])
                if n["op"] == "*=" and L["c"] == "int" and L.get("w") < 64 and const(n["a"][1]) is None:
                    ob("narrow product", f, n, False, "products are accumulated in %s" % L["s"])
            if k == "Bin" and n["op"] == "<<" and T["c"] == "int":
                ob("shift", f, n, T.get("w") == 64 or const(n["a"][1]) is not None, "a shift by a variable amount is done in %s" % T["s"])
            if k == "Un" and n["op"].startswith("~"):
                S = P.types[n["t"]]
                ob("complement", f, n, S.get("w", 64) == 64, "a complement is taken in %s" % S["s"])
            if k == "Bin" and n["op"] == "=" and T["c"] == "int" and T.get("w") < 64:
                rhs = n["a"][1]
                l = FL.root(n["a"][0])
                mul = [m for m in P.walk(rhs) if m.get("k") == "Bin" and m["op"] in ("*", "<<")]
                self_mul = [m for m in mul if any(x.get("k") in ("Var", "Mem") and FL.root(x) == l for x in P.walk(m))]
                ob("narrow product", f, n, not self_mul, "a product is accumulated in %s" % T["s"])
            if k == "Bin" and n["op"] in ("<", "<=", "!="):
                a, b = n["a"]
                for x, y in ((a, b), (b, a)):
                    c = x
                    w = False
                    while isinstance(c, dict) and c.get("k") == "Cast":
                        if P.types[c["t"]].get("w") == 64 and P.types[c["e"]["t"]]["c"] == "int" and P.types[c["e"]["t"]].get("w", 64) < 64:
                            w = True
                        c = c["e"]
                    if w and isinstance(c, dict) and c.get("k") == "Var" and FL.ev(y) and const(y) is None:
                        inc = [m for m in P.body_nodes(f) if (m.get("k") == "Un" and m["op"].startswith("++") or m.get("k") == "CAsg" and m["op"] == "+=") and
                               FL.root(m["e"] if m["k"] == "Un" else m["a"][0]) == ("v", c["d"])]
                        ob("counter", f, n, not inc, "a counter of type %s runs up to a state index quantity (%s)" % (P.types[c["t"]]["s"], FL.ev(y)))
    # the index type
    for v in P.V.values():
        if v.get("sv") and P.in_lib(v.get("l")):
            T = P.strip_ref(v["t"])
            if T["c"] == "int":
                ctx.ob("index type", v["n"] + " " + P.loc(v["l"]), T["w"] == 64 and not T["sg"], "the state index type is %s" % T["s"], P.loc(v["l"]))

    # sector sizes near the limit of 64 bits
    D = Driver(P, {}, budget=30000000)
    fl = floc(D, "libcommute::n_fermion_sector_size")
    for m in (33, 62, 63) if not ctx.thorough else range(31, 64):
        hs = Cell(D.val("hs_modes", m))
        for N in range(m + 1):
            with ctx.guard("sector size"):
                k, v = D.one(lambda: D.val("size_of_sector", hs, N))
                want = math.comb(m, N)
                ctx.ob("sector size", "%d fermions in %d modes" % (N, m), k == "ok" and v == want,
                       "n_fermion_sector_size() is %s, C(%d, %d) = %d" % (describe(k, v) if k != "ok" else v, m, N, want), fl)
    ctx.used(D.I)
