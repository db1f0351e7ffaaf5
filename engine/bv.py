"""Abstract domain for state indices: vectors of bits, each an affine form over GF(2) of
named symbolic bits. Exclusive or, complement, shifts, parity and masking with constants
are exact; and/or/carry of two undetermined forms, comparisons and everything else decide
(partition on) the forms involved, consistently with the decisions already made."""
from absint import UNDEF
from poly import Poly
from prog import AnalysisError

W = 64
M64 = (1 << 64) - 1


class Aff:
    """affine form over GF(2); also the abstract value of a parity"""
    __slots__ = ("s", "c")

    def __init__(self, s=frozenset(), c=0):
        self.s, self.c = frozenset(s), c & 1

    def __xor__(self, o):
        return Aff(self.s ^ o.s, self.c ^ o.c)

    def __eq__(self, o):
        return isinstance(o, Aff) and self.s == o.s and self.c == o.c

    def __hash__(self):
        return hash((self.s, self.c))

    def __repr__(self):
        w = "^".join(map(str, sorted(self.s, key=str)))
        return (("~(%s)" % w if len(self.s) > 1 else "~" + w) if self.c else w) if self.s else str(self.c)

    # as a value of the program
    def vp_truth(self, I):
        return bool(decide(I, self))

    def vp_open(self, I):
        return bool(reduce(I, self).s)

    def vp_not(self, I):
        return self ^ ONE

    def vp_bool(self, I):
        return self

    def vp_binop(self, I, op, o, sw, tid):
        if op in ("&", "^", "|", "==", "!=") or (op == "%" and o == 2 and not sw):
            x = o if isinstance(o, Aff) else Aff(c=int(o)) if isinstance(o, (int, bool)) and 0 <= int(o) <= 1 else None
            if op == "%":
                return self
            if x is not None:
                if op in ("^", "!="):
                    r = self ^ x
                elif op == "==":
                    r = self ^ x ^ Aff(c=1)
                else:
                    r = band(I, self, x) if op == "&" else bor(I, self, x)
                return r if r.s else r.c
        if I.merger is not None and self.vp_open(I) and (isinstance(o, (Aff, BV, Lin)) or isinstance(o, (int, bool))):
            return BV.of(self).vp_binop(I, op, int(o) if isinstance(o, bool) else o, sw, tid)
        v = decide(I, self)
        ov = decide(I, o) if isinstance(o, Aff) else o
        return I.arith(op, ov, v, tid) if sw else I.arith(op, v, ov, tid)

    def vp_unop(self, I, op, tid):
        if I.merger is not None and self.vp_open(I):
            return BV.of(self).vp_unop(I, op, tid)
        v = decide(I, self)
        return I.wrap(-v if op == "-" else ~v, tid)

    def vp_convert(self, I, tid):
        t = I.T[tid]
        if t["c"] in ("int", "bool", "enum"):
            return self
        return decide(I, self)

    def vp_index(self, I):
        return decide(I, self)

    def vp_round(self, I, kind):
        return decide(I, self)


ZERO, ONE = Aff(), Aff(c=1)


def reduce(I, a):
    """a modulo the forms decided on this path"""
    if not a.s:
        return a
    rows = []
    for k, v in I.dec.items():
        if isinstance(k, tuple) and len(k) == 2 and k[0] == "gf2":
            rows.append((k[1], int(v)))
    basis = {}
    for s, v in rows:
        s, v = _red(basis, s, v)
        if s:
            basis[min(s, key=str)] = (s, v)
    s, c = _red(basis, a.s, a.c)
    return Aff(s, c)


def _red(basis, s, v):
    ch = True
    while ch and s:
        ch = False
        for x in sorted(s, key=str):
            if x in basis:
                s, v = s ^ basis[x][0], v ^ basis[x][1]
                ch = True
                break
    return s, v


def decide(I, a):
    a = reduce(I, a)
    if not a.s:
        return a.c
    return int(I.decide(("gf2", a.s), "bit %r" % Aff(a.s))) ^ a.c


def band(I, a, b):
    if a == b:
        return a
    if not a.s:
        return b if a.c else ZERO
    if not b.s:
        return a if b.c else ZERO
    if a.s == b.s:
        return ZERO
    return b if decide(I, a) else ZERO


def bor(I, a, b):
    n = band(I, a ^ ONE, b ^ ONE)
    return n ^ ONE


class Cnt:
    """number of set bits"""

    def __init__(self, forms):
        self.f = forms

    def par(self):
        r = ZERO
        for x in self.f:
            r = r ^ x
        return r

    def conc(self, I):
        if sum(1 for x in self.f if x.s) > 10:
            raise AnalysisError("the number of set bits of an undetermined index decides the result")
        return sum(decide(I, x) for x in self.f)

    def vp_binop(self, I, op, o, sw, tid):
        if not sw and ((op == "&" and o == 1) or (op == "%" and o == 2)):
            r = self.par()
            return r if r.s else r.c
        v = self.conc(I)
        ov = o.conc(I) if isinstance(o, Cnt) else o
        return I.arith(op, ov, v, tid) if sw else I.arith(op, v, ov, tid)

    def vp_unop(self, I, op, tid):
        return I.wrap(-self.conc(I) if op == "-" else ~self.conc(I), tid)

    def vp_truth(self, I):
        return self.conc(I) != 0

    def vp_convert(self, I, tid):
        return self

    def vp_index(self, I):
        return self.conc(I)


class BV:
    def __init__(self, bits):
        self.b = list(bits)

    @staticmethod
    def of(v):
        if isinstance(v, BV):
            return v
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            return BV([Aff(c=(v >> i) & 1) for i in range(W)])
        if isinstance(v, Aff):
            return BV([v] + [ZERO] * (W - 1))
        raise AnalysisError("bit operation on %r" % (v,))

    def __repr__(self):
        out, i = [], 0
        for i, x in enumerate(self.b):
            if x != ZERO:
                out.append("%d:%r" % (i, x))
        return "{%s}" % " ".join(out)

    def out(self, I, tid=None):
        """the value: an integer when every bit is known"""
        b = [reduce(I, x) for x in self.b]
        if tid is not None:
            t = I.T[tid]
            w = t.get("w", W)
            if t["c"] == "bool":
                return BV(b)
            if w < W:
                ext = b[w - 1] if t.get("sg") else ZERO
                b = b[:w] + [ext] * (W - w)
        if all(not x.s for x in b):
            v = sum(x.c << i for i, x in enumerate(b))
            return I.wrap(v, tid) if tid is not None else v
        return BV(b)

    def conc(self, I):
        if sum(1 for x in self.b if reduce(I, x).s) > 12:
            raise AnalysisError("a branch or an index depends on more than 12 undetermined bits")
        return sum(decide(I, x) << i for i, x in enumerate(self.b))

    def signed(self, v):
        return v - (1 << 64) if v >> 63 else v

    def vp_binop(self, I, op, o, sw, tid):
        if o is UNDEF:
            raise I.bad("uninit", "an uninitialised value is used in an arithmetic operation")
        if isinstance(o, Cnt):
            o = o.conc(I)
        if isinstance(o, Lin):
            return Lin.of(I, self).vp_binop(I, op, o, sw, tid)
        if op in ("<<", ">>"):
            if sw:
                return I.arith(op, o, self.conc(I), tid)
            n = o if isinstance(o, int) else o.conc(I) if hasattr(o, "conc") else decide(I, o)
            w = I.T[tid].get("w", W)
            if not 0 <= n < w:
                raise I.bad("shift", "shift by %s in a %d-bit type" % (n, w))
            if op == "<<":
                return BV([ZERO] * n + self.b[:W - n]).out(I, tid)
            fill = self.b[-1] if I.T[tid].get("sg") else ZERO
            return BV(self.b[n:] + [fill] * n).out(I, tid)
        if isinstance(o, Poly) or not isinstance(o, (int, bool, BV, Aff)):
            v = self.conc(I)
            return I.arith(op, o, v, tid) if sw else I.arith(op, v, o, tid)
        x = BV.of(o)
        if op == "&":
            return BV([band(I, a, b) for a, b in zip(self.b, x.b)]).out(I, tid)
        if op == "|":
            return BV([bor(I, a, b) for a, b in zip(self.b, x.b)]).out(I, tid)
        if op == "^":
            return BV([a ^ b for a, b in zip(self.b, x.b)]).out(I, tid)
        if op in ("+", "-"):
            a, b = (x.b, self.b) if sw else (self.b, x.b)
            c = ZERO
            if op == "-":
                b = [y ^ ONE for y in b]
                c = ONE
            r = []
            for p, q in zip(a, b):
                r.append(p ^ q ^ c)
                # majority
                if p == q:
                    c = p
                elif p == q ^ ONE:
                    pass
                elif p == c or q == c:
                    pass
                elif p == c ^ ONE:
                    c = q
                elif q == c ^ ONE:
                    c = p
                elif I.merger is not None:
                    return Lin.of(I, self).vp_binop(I, op, Lin.of(I, x), sw, tid)
                else:
                    c = q if decide(I, p ^ c) else c  # p != c: majority is q; p == c: p
                c = reduce(I, c)
            return BV(r).out(I, tid)
        if op in ("==", "!="):
            eq = True
            d = [reduce(I, a ^ b) for a, b in zip(self.b, x.b)]
            if any(y == ONE for y in d):
                eq = False
            elif I.merger is not None and len({y for y in d if y.s}) == 1:
                y = next(y for y in d if y.s)
                return y if op == "!=" else y ^ ONE
            else:
                d = sorted({y for y in d if y.s}, key=repr)
                for y in d:
                    if decide(I, y):
                        eq = False
                        break
            return eq == (op == "==")
        if op in ("<", ">", "<=", ">="):
            a, b = (x, self) if sw else (self, x)
            if op in (">", "<="):
                a, b = b, a
            sg = I.cmp_signed if hasattr(I, "cmp_signed") else False
            r = None
            for p, q in zip(reversed(a.b), reversed(b.b)):
                if p == q:
                    continue
                if decide(I, p ^ q):
                    r = bool(decide(I, q))
                    break
            lt = bool(r)
            return lt if op in ("<", ">") else not lt
        if op == "*" and isinstance(o, int) and not isinstance(o, bool) and o > 0 and o & (o - 1) == 0:
            return self.vp_binop(I, "<<", o.bit_length() - 1, False, tid)
        if op in ("/", "%") and not sw and isinstance(o, int) and o > 0 and o & (o - 1) == 0 and not I.T[tid].get("sg"):
            return self.vp_binop(I, ">>", o.bit_length() - 1, False, tid) if op == "/" else self.vp_binop(I, "&", o - 1, False, tid)
        if I.merger is not None and op == "*":
            return Lin.of(I, self).vp_binop(I, op, o, sw, tid)
        v, w = self.conc(I), x.conc(I)
        return I.arith(op, w, v, tid) if sw else I.arith(op, v, w, tid)

    def vp_open(self, I):
        return False

    def vp_not(self, I):
        return not self.vp_truth(I)

    def vp_bool(self, I):
        return self.vp_binop(I, "!=", 0, False, None)

    def vp_unop(self, I, op, tid):
        n = BV([x ^ ONE for x in self.b])
        if op == "~":
            return n.out(I, tid)
        return I.arith("+", n, 1, tid) if isinstance(n.out(I), BV) else n.vp_binop(I, "+", 1, False, tid)

    def vp_truth(self, I):
        r = self.vp_binop(I, "!=", 0, False, None)
        return r.vp_truth(I) if isinstance(r, Aff) else r

    def vp_convert(self, I, tid):
        t = I.T[tid]
        if t["c"] == "bool":
            return self.vp_bool(I)
        if t["c"] == "float":
            return I.wrap(self.conc(I), tid)
        return self.out(I, tid)

    def vp_index(self, I):
        return self.conc(I)

    def vp_popcount(self, I, parity=False):
        c = Cnt([x for x in self.b if reduce(I, x) != ZERO])
        if parity:
            r = c.par()
            return r if r.s else r.c
        return c


class Lin:
    """integer linear form over undetermined bits and ranks (atoms with a known range)"""

    def __init__(self, t=None, c=0):
        self.t = {k: v for k, v in (t or {}).items() if v}
        self.c = c

    # atoms: ("b", forms) a bit; ("r", name, n) a number of [0, n)
    @staticmethod
    def of(I, v):
        if isinstance(v, Lin):
            return v
        if isinstance(v, (int, bool)):
            return Lin(c=int(v))
        if isinstance(v, Aff):
            v = BV.of(v)
        if isinstance(v, BV):
            r = Lin()
            for i, x in enumerate(v.b):
                x = reduce(I, x)
                r.c += x.c << i
                if x.s:
                    r.add(("b", x.s), (1 - 2 * x.c) << i)
            return r
        raise AnalysisError("arithmetic on %r" % (v,))

    def add(self, k, w):
        w += self.t.get(k, 0)
        if w:
            self.t[k] = w
        else:
            self.t.pop(k, None)

    @staticmethod
    def top(k):
        return 1 if k[0] == "b" else k[2] - 1

    def range(self):
        lo = self.c + sum(min(0, w) * self.top(k) for k, w in self.t.items())
        hi = self.c + sum(max(0, w) * self.top(k) for k, w in self.t.items())
        return lo, hi

    def single(self):
        """greatest value with at most one non-zero atom"""
        return self.c + max([0] + [w * self.top(k) for k, w in self.t.items()])

    def out(self):
        return self if self.t else self.c

    def plus(self, o, f=1):
        r = Lin(dict(self.t), self.c + f * o.c)
        for k, w in o.t.items():
            r.add(k, f * w)
        return r

    def scale(self, n):
        return Lin({k: w * n for k, w in self.t.items()}, self.c * n)

    def bits(self):
        """bit vector of the same value, if the form is one"""
        b = [ZERO] * W
        if not 0 <= self.c <= M64:
            return None
        for k, w in self.t.items():
            if k[0] != "b" or w <= 0 or w & (w - 1) or w > M64 or self.c & w:
                return None
            i = w.bit_length() - 1
            if b[i] != ZERO:
                return None
            b[i] = Aff(k[1])
        for i in range(W):
            if self.c >> i & 1:
                b[i] = ONE
        return BV(b)

    def __eq__(self, o):
        return isinstance(o, Lin) and self.t == o.t and self.c == o.c

    def __hash__(self):
        return hash((frozenset(self.t.items()), self.c))

    def __repr__(self):
        f = lambda k: repr(Aff(k[1])) if k[0] == "b" else str(k[1])
        ts = ["%s%s" % ("" if w == 1 else "%d*" % w, f(k)) for k, w in sorted(self.t.items(), key=lambda x: (x[1], f(x[0])))]
        return " + ".join(ts + ([str(self.c)] if self.c or not ts else []))

    def fits(self, I):
        lo, hi = self.range()
        if lo < 0 or hi > M64:
            raise AnalysisError("the range of %r is not known to fit" % (self,))
        return lo, hi

    def vp_binop(self, I, op, o, sw, tid):
        if o is UNDEF:
            raise I.bad("uninit", "an uninitialised value is used in an arithmetic operation")
        if isinstance(o, Cnt):
            o = o.conc(I)
        x = Lin.of(I, o)
        a, b = (x, self) if sw else (self, x)
        if op in ("+", "-"):
            return a.plus(b, 1 if op == "+" else -1).out()
        if op == "*":
            if a.t and b.t:
                raise AnalysisError("product of undetermined indices")
            return (a.scale(b.c) if a.t else b.scale(a.c)).out()
        if op == "<<" and not b.t:
            w = I.T[tid].get("w", W)
            if not 0 <= b.c < w:
                raise I.bad("shift", "shift by %s in a %d-bit type" % (b.c, w))
            return a.scale(1 << b.c).out()
        if op in ("|", "^", "&", "/", "%", ">>") :
            p, q = a.bits(), b.bits()
            if p is not None and q is not None:
                return p.vp_binop(I, op, q.out(I), False, tid)
            a.fits(I), b.fits(I)
            if op in ("|", "^"):
                # disjoint bits
                for u, v in ((a, b), (b, a)):
                    h = v.range()[1].bit_length()
                    if all(w % (1 << h) == 0 for w in u.t.values()) and u.c % (1 << h) == 0:
                        return u.plus(v).out()
            d = None
            if not b.t and b.c > 0:
                d = b.c if op in ("/", "%") else 1 << b.c if op == ">>" else b.c + 1 if op == "&" and b.c & (b.c + 1) == 0 else None
            if d is not None:
                q = Lin({k: w // d for k, w in a.t.items() if w % d == 0}, a.c // d)
                r = Lin({k: w for k, w in a.t.items() if w % d}, a.c % d)
                lo, hi = r.range()
                if lo >= 0 and hi < d:
                    return (q if op in ("/", ">>") else r).out()
            raise AnalysisError("%s on undetermined indices" % op)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            lo, hi = a.plus(b, -1).range()
            a.fits(I), b.fits(I)
            v = None
            if op in ("<", ">="):
                v = True if hi < 0 else False if lo >= 0 else None
            elif op in ("<=", ">"):
                v = True if hi <= 0 else False if lo > 0 else None
            elif lo > 0 or hi < 0:
                v = False
            elif lo == hi == 0:
                v = True
            if v is None:
                p, q = a.bits(), b.bits()
                if p is not None and q is not None:
                    return p.vp_binop(I, op, q.out(I), False, tid)
                raise AnalysisError("an undetermined index is compared")
            return v == (op in ("<", "<=", "=="))
        raise AnalysisError("%s on undetermined indices" % op)

    def vp_unop(self, I, op, tid):
        return (self.scale(-1) if op == "-" else Lin(c=-1).plus(self, -1)).out()

    def vp_truth(self, I):
        r = self.vp_binop(I, "!=", 0, False, None)
        return I.truth(r)

    def vp_convert(self, I, tid):
        t = I.T[tid]
        if t["c"] == "bool":
            return self.vp_truth(I)
        if t["c"] == "float":
            raise AnalysisError("an undetermined index is converted to floating point")
        w = t.get("w", W) - (1 if t.get("sg") else 0)
        if w < 63:
            if self.single() >= 1 << w:
                raise I.bad("narrow", "an index that can be %d is converted to a %d-bit type" % (self.single(), t["w"]))
            lo, hi = self.range()
            if lo < 0 or hi >= 1 << w:
                raise AnalysisError("the range of %r is not known to fit" % (self,))
        return self

    def vp_index(self, I):
        raise AnalysisError("an undetermined index is used as a subscript")


def merge(I, cond, a, b):
    """the value that is a if cond (an undetermined bit) holds and b otherwise"""
    cond = reduce(I, cond)
    if a is b or (type(a) is type(b) and not isinstance(a, BV) and not hasattr(a, "items") and a == b):
        return a
    ok = lambda v: isinstance(v, (int, bool, BV, Aff, Lin))
    if not ok(a) or not ok(b):
        return NotImplemented
    if isinstance(a, (bool, Aff)) and isinstance(b, (bool, Aff)):
        A = a if isinstance(a, Aff) else Aff(c=int(a))
        B = b if isinstance(b, Aff) else Aff(c=int(b))
        r = _mix(I, cond, A, B)
        return NotImplemented if r is None else r if r.s else bool(r.c)
    neg = any(isinstance(v, int) and v < 0 for v in (a, b))
    if not neg and not isinstance(a, Lin) and not isinstance(b, Lin):
        r = []
        for x, y in zip(BV.of(a).b, BV.of(b).b):
            z = _mix(I, cond, reduce(I, x), reduce(I, y))
            if z is None:
                break
            r.append(z)
        else:
            return BV(r).out(I)
    d = Lin.of(I, a).plus(Lin.of(I, b), -1)
    if d.t:
        return NotImplemented
    return Lin.of(I, b).plus(Lin.of(I, cond).scale(d.c)).out()


def _mix(I, c, x, y):
    d = reduce(I, x ^ y)
    if d == ZERO:
        return x
    if d == ONE:
        return y ^ c
    if d == c:
        return x      # y ^ c*c
    if d == c ^ ONE:
        return y      # y ^ c*(c^1)
    return None
