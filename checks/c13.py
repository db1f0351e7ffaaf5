"""Operations on constant objects leave every state they can reach unchanged. Each public
operation on a constant object is evaluated on abstract instances with every storage cell
reachable from the object (owned or referred to, and the variables of static storage
duration) monitored: no write may reach one of them, not even one that is undone before
the operation returns or stores the value already there, and the structure of the object
(containers' contents, pointers) must be the same at every call of a user functor and at
the end. In addition all functions reachable from these operations are scanned for ways
around the type system's own guarantee: writes to or non-const use of `mutable` members,
const_cast, variables with static storage duration that are not constant. The const
iteration interface of the unranking generators (cursors by design) is excepted; a cursor
may not be stepped inside an object shared by concurrent operations."""
from util import *
from heap import shape, diff, children
from c11 import KINDS

LEVEL = "other"
ASSUMPTIONS = ["objects of one type take the same code path in their constant operations whatever their contents; the operations are evaluated on up to three structurally different instances of each type",
               "user-supplied functors, scalar types and state vectors keep the same discipline; standard library types do (guaranteed by the C++ standard)"]
NEED = {"no-write": 150, "effects": 300}
CURSORS = ("libcommute::unranking_generator", "libcommute::detail::multisector_unranking_generator")
# a basis state covered by the object, per instance
IDX = {"cr": (7, 0), "sr": (7, 0), "tr": (7, 0), "mvr": (4,), "mvo": (4,), "cvr": (1,), "cvo": (1,), "nvr": (7,), "nvo": (7,),
       "nvt": (7,), "nmr": (5,), "nmo": (5,), "mapped": (4,), "comp": (4,), "sector": (4,), "multi": (6,)}
SINKS = ("visit", "visit2", "visit3", "seen")


def reach_cells(c):
    acc = {}
    st = [c]
    while st:
        x = st.pop()
        if id(x) in acc:
            continue
        acc[id(x)] = x
        for lb, ch, own in children(x.v):
            st.append(ch)
    return acc


def run(ctx):
    P = export("readonly.cpp")
    state = {}
    ext = {}

    def sink(name):
        def h(I, f, this, args):
            cb = state.get("visit")
            if cb:
                cb(f)
            return None
        return h
    for s in SINKS:
        ext["vp::" + s] = sink(s)
    ext["vp::bm_ref"] = lambda I, f, this, args: state["bm"]
    D = Driver(P, ext, budget=6000000)
    I = D.I
    I.assume_asserts = True  # operations are also called outside their preconditions
    has = lambda n: bool(P.byq.get("vp::" + n))

    def makers(k):
        v8 = lambda: Cell(D.val("vec8"))
        if k in ("mvr", "mvo"):
            return [lambda: D.val("mk_" + k, Cell(D.val("vec3")), Cell(D.val("a_bm")))]
        if k == "sp":
            return [lambda: D.val("mk_sp", Cell(D.val("hs_f2")))]
        if k == "mu":
            return [lambda: D.val("mk_mu", Cell(D.val("pv1"))), lambda: D.val("mk_mu", Cell(D.val("pv2")))]
        if k == "v":
            return [lambda: D.val("vec8")]
        if k == "cvr" or k == "cvo":
            return [lambda: D.val("mk_" + k, Cell(D.val("vec36")))]
        if has("mk_" + k) and P.func("vp::mk_" + k)["params"] and k != "pl":
            return [lambda: D.val("mk_" + k, v8())]
        return [(lambda n=n: D.val(n)) for n in ("a_" + k, "b_" + k, "c_" + k, "z_" + k) if has(n)]

    def cellof(m):
        v = m()
        return v if isinstance(v, Cell) else Cell(v)

    ops = sorted(q[4:] for q in P.byq if q.startswith("vp::ro") and "(" not in q and P.byq[q][0].get("body"))
    for op in ops:
        head, k, name = op.split("_", 2)
        ms = [lambda: D.val("vec8")] if head == "roc" else makers(k)
        if not ms:
            ctx.error("no instance for %s" % op)
            continue
        desc = "vector seen through a constant %s view" % k if head == "roc" else KINDS.get(k, (k,))[0]
        done = [0]
        for i, j in [(i, j) for i in range(len(ms)) for j in (range(len(ms)) if head == "ro2" else (None,))]:
            m = ms[i]
            inst = "%s: operation '%s', instance %d%s" % (desc, name, i, " with %d" % j if j is not None else "")

            def case():
                state["bm"] = Cell(D.val("a_bm"))
                a = cellof(m)
                others = [cellof(ms[j])] if j is not None else []
                objs = [a] + others
                cells = {}
                for o in objs + [state["bm"]]:
                    cells.update(reach_cells(o))
                for d, c in I.globals.items():
                    cells.update(reach_cells(c))
                before = [shape(o) for o in objs]

                def w(I_, kind, cell):
                    if kind == "write":
                        raise I_.bad("write", "the constant object (or state it shares) is written to")
                for c in cells.values():
                    c.watch = w

                def vis(f):
                    for o, b in zip(objs, before):
                        d = diff(b, shape(o))
                        if d:
                            raise Bad("changed", "the constant object differs while the operation is in progress: %s" % d)
                state["visit"] = vis
                try:
                    try:
                        D.call(op, *(objs + ([IDX[k][i]] if len(P.func("vp::" + op)["params"]) > len(objs) else [])))
                        done[0] += 1
                    except ThrowEx as t:
                        state["thrown"] = t.q
                finally:
                    state["visit"] = None
                    for c in cells.values():
                        c.watch = None
                for o, b in zip(objs, before):
                    d = diff(b, shape(o))
                    if d:
                        return "the constant object differs after the operation: %s" % d
                return None
            with ctx.guard(inst):
                out = [(kk, v) for kk, v, dd in I.explore(case)]
                for kk, v in out:
                    ok = kk == "ok" and v is None
                    ctx.ob("no-write", inst, ok, (describe(kk, v) if kk != "ok" else v) or "", getattr(v, "loc", None))
        if not done[0] and not ctx.viol:
            ctx.error("%s: no instance completes (%s)" % (op, state.get("thrown")))
    effects(ctx, P, ops)
    ctx.used(I)


def effects(ctx, P, ops):
    """who may touch mutable members or static storage"""
    reach = set()
    st = [P.byq["vp::" + o][0]["id"] for o in ops]
    while st:
        x = st.pop()
        if x in reach:
            continue
        reach.add(x)
        f = P.F[x]
        for c in P.callees(f):
            st.append(c)
            # overriders
        if f.get("virt"):
            pass
    ctx.count("functions_scanned", len(reach))
    for fid in sorted(reach):
        f = P.F[fid]
        if not P.in_lib(f.get("l")):
            continue
        q = f["q"]
        if any(q.startswith(c + "::") for c in CURSORS):
            continue
        bad = scan(P, f)
        ctx.ob("effects", "%s" % q, not bad, "; ".join(sorted(set(bad))), P.loc(f["l"]))


def drops_const(P, n):
    def pointee(e):
        T = P.types[e["t"]]
        if T["c"] == "ptr":
            return P.types[T["to"]]
        return T if e.get("lv") else None
    a, b = pointee(n["e"]), pointee(n)
    return a is not None and b is not None and bool(a.get("const")) and not b.get("const") and n.get("ck") in ("NoOp", "BitCast", "LValueBitCast")


def scan(P, f):
    bad = []

    def strip(n):
        while isinstance(n, dict) and n.get("k") in ("Paren", "Cast") and n.get("ck") in (None, "NoOp"):
            n = n["e"]
        return n

    def visit(n, okread):
        pass
    const_ctx = set()
    # a use of a mutable member is harmless when immediately read or viewed as const
    for n in P.body_nodes(f):
        if n.get("k") == "Cast":
            if n.get("ck") == "LValueToRValue":
                const_ctx.add(id(n["e"]))
            elif n.get("ck") == "NoOp" and P.types[n["t"]].get("const"):
                const_ctx.add(id(n["e"]))
            if n.get("cc") == "const" or (n.get("x") and drops_const(P, n)):
                bad.append("const_cast at %s" % P.loc(n.get("l")))
    for n in P.body_nodes(f):
        if n.get("k") == "Mem":
            fl = P.field.get(n.get("d"))
            if fl and fl[1].get("mut") and id(n) not in const_ctx and f.get("kind") not in ("ctor", "dtor"):
                bad.append("non-const use of the mutable member %s at %s" % (fl[1].get("n"), P.loc(n.get("l"))))
        if n.get("k") == "Var":
            v = P.V.get(n.get("d"))
            if v and (v.get("global") or v.get("staticlocal")) and not v.get("const") and not P.types[v["t"]].get("const") and P.in_lib(v.get("l")):
                bad.append("static variable %s at %s" % (v.get("n"), P.loc(n.get("l"))))
    return bad
