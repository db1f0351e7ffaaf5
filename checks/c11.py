"""Copies and moves of every library type with value semantics, decided on abstract
objects: the owned storage and the outgoing references of an object are a graph of
abstract cells. After copying (constructing, assigning over an object with different
contents, assigning to itself) the graph of the copy must be isomorphic to that of the
source before, it must not share a mutable cell with the source, and no reference may
lead from the copy into the source; the source must be unchanged. After moving, the graph
of the new object must be that of the source before and must not refer into the old one.
Sharing is allowed for objects held through shared_ptr to const only."""
from util import *
from heap import shape, diff, owned, refs
from absint import SP, Map, Vec

LEVEL = "other"
ASSUMPTIONS = ["objects of one type take the same code path in their copy operations whatever their contents; the operations are evaluated on two or three structurally different instances of each type"]
NEED = {"copy": 60, "move": 30, "self-assignment": 15, "clone": 3}

KINDS = {  # suffix: (description, assignable)
    "hs": ("hilbert_space", 1), "sf": ("sparse_foreach_basis_state", 1), "ef": ("elementary_space_fermion", 0),
    "eb": ("elementary_space_boson", 0), "es": ("elementary_space_spin", 0), "gf": ("generator_fermion", 0),
    "gb": ("generator_boson", 0), "gs": ("generator_spin", 0), "lf": ("generator::linear_function_t", 1),
    "mo": ("monomial", 1), "ex": ("expression", 1), "vn": ("var_number", 1), "di": ("dyn_indices", 1),
    "lo": ("loperator", 1), "pl": ("parametric_loperator", 1), "mf": ("monomial_action<fermion>", 1),
    "mb": ("monomial_action<boson>", 1), "ms": ("monomial_action<spin>", 1), "sv": ("sparse_state_vector", 1),
    "ds": ("disjoint_sets", 1), "sp": ("space_partition", 0), "bm": ("basis_mapper", 1),
    "mvr": ("mapped_basis_view (reference)", 0), "mvo": ("mapped_basis_view (owning)", 0),
    "cvr": ("compressed_state_view (reference)", 0), "cvo": ("compressed_state_view (owning)", 1),
    "pr": ("n_fermion_sector_params_t", 1), "cr": ("combination_ranking", 1), "sr": ("staggered_ranking", 1),
    "tr": ("trie_ranking", 1), "ug": ("unranking_generator", 1), "mu": ("multisector_unranking_generator", 2),
    "nvr": ("n_fermion_sector_view (reference)", 0), "nvo": ("n_fermion_sector_view (owning)", 1),
    "nvt": ("n_fermion_sector_view (trie ranking)", 0),
    "nmr": ("n_fermion_multisector_view (reference)", 0), "nmo": ("n_fermion_multisector_view (owning)", 2),
    "mi": ("monomial::const_iterator", 1), "ei": ("expression::const_iterator", 1),
}


def run(ctx):
    P = export("values.cpp")
    D = Driver(P, {}, budget=4000000)
    I = D.I
    has = lambda n: bool(P.byq.get("vp::" + n))

    def makers(k):
        """structurally different instances; each call makes fresh ones"""
        v3, v2 = lambda: Cell(D.val("vec3")), lambda: Cell(D.val("vec2"))
        if k in ("mvr", "mvo"):
            return [lambda: D.val("mk_" + k, v3(), Cell(D.val("a_bm"))), lambda: D.val("mk_" + k, v2(), Cell(D.val("b_bm")))]
        if k == "sp":
            return [lambda: D.val("mk_sp", Cell(D.val("hs_f3"))), lambda: D.val("mk_sp", Cell(D.val("hs_f2")))]
        if k == "mu":
            return [lambda: D.val("mk_mu", Cell(D.val("pv1"))), lambda: D.val("mk_mu", Cell(D.val("pv2")))]
        if k == "mi":
            return [lambda: D.val("mi_at", Cell(D.val("a_mo"))), lambda: D.val("mi_at", Cell(D.val("b_mo")))]
        if k == "ei":
            return [lambda: D.val("ei_at", Cell(D.val("a_ex"))), lambda: D.val("ei_at", Cell(D.val("b_ex")))]
        if has("mk_" + k):
            r = [lambda: D.val("mk_" + k, v3())]
            r.append((lambda: D.val("mk_%s2" % k, v2())) if has("mk_%s2" % k) else (lambda: D.val("mk_" + k, v2())))
            return r
        return [(lambda n=n: D.val(n)) for n in ("a_" + k, "b_" + k, "c_" + k, "z_" + k) if has(n)]

    def cellof(m):
        v = m()
        return v if isinstance(v, Cell) else Cell(v)

    def loc(k):
        """the record's location"""
        fs = P.byq.get("vp::cc_" + k)
        r = P.strip_ref(I.V[fs[0]["params"][0]]["t"]).get("rec")
        if r is not None and P.R[r].get("l"):
            return P.loc(P.R[r]["l"])
        return None

    def content(k, c):
        return shape(c)

    def shared_mut(a, b):
        """mutable cells owned by both"""
        oa, ob = owned(a, skip_shared=True), owned(b, skip_shared=True)
        return [c for i, c in oa.items() if i in ob]

    def dangling(b, a_owned):
        return ["/".join(map(str, p)) for c, p in refs(b) if id(c) in a_owned and id(c) not in owned(b)]

    for k, (name, asg) in KINDS.items():
        L = loc(k)
        ms = makers(k)
        if asg == 2:
            asg = 1 if D.val("can_assign_" + k) else 0

        def copy_case(op, i, j):
            a = cellof(ms[i])
            sa = content(k, a)
            if op == "cc":
                ctx.sample("%s: %d owned cells, %d references to the outside" % (name, len(owned(a)), len(refs(a))))
            oa = owned(a)
            if op == "cc":
                b = Cell(D.val("cc_" + k, a))
            elif op == "ca":
                b = cellof(ms[j])
                D.call("ca_" + k, b, a)
            elif op == "self":
                D.call("ca_" + k, a, a)
                d = diff(sa, content(k, a))
                return None if d is None else "assigning an object to itself changes it: %s" % d
            elif op == "mc":
                b = Cell(D.val("mc_" + k, a))
            elif op == "ma":
                b = cellof(ms[j])
                D.call("ma_" + k, b, a)
            d = diff(sa, content(k, b))
            if d is not None:
                return "the %s differs from the source: %s" % ("copy" if op in ("cc", "ca") else "new object", d)
            if op in ("cc", "ca"):
                d = diff(sa, content(k, a))
                if d is not None:
                    return "copying changes the source: %s" % d
                sh = shared_mut(a, b)
                if sh:
                    return "copy and source share storage (%r)" % (sh[0].v,)
                dg = dangling(b, oa)
            else:
                # what a still owns
                dg = dangling(b, owned(a))
                sh = shared_mut(a, b)
                if sh:
                    return "old and new object share storage (%r)" % (sh[0].v,)
            if dg:
                return "the new object refers to a part of the old one (at %s)" % dg[0]
            return None

        cases = []
        for i in range(len(ms)):
            cases.append(("copy", "copy construction of %s, instance %d" % (name, i), "cc", i, None))
            cases.append(("move", "move construction of %s, instance %d" % (name, i), "mc", i, None))
            if asg:
                for j in range(len(ms)):
                    if i != j:
                        cases.append(("copy", "assignment of %s, instance %d over %d" % (name, i, j), "ca", i, j))
                        cases.append(("move", "move assignment of %s, instance %d over %d" % (name, i, j), "ma", i, j))
                cases.append(("self-assignment", "%s, instance %d" % (name, i), "self", i, None))
        for rule, inst, op, i, j in cases:
            with ctx.guard(inst):
                kk, v = D.one(lambda: copy_case(op, i, j))
                ok = kk == "ok" and v is None
                ctx.ob(rule, inst, ok, (describe(kk, v) if kk != "ok" else v) or "", getattr(v, "loc", None) or L)
    for k in ("ef", "eb", "es"):
        def cl():
            a = Cell(D.val("a_" + k))
            p = D.val("clone_of", a)
            if not (isinstance(p, SP) and p.cell is not None):
                return "clone() returns no object"
            d = diff(shape(a), shape(p.cell))
            if d:
                return "clone() differs from the original: %s" % d
            if shared_mut(a, p.cell):
                return "clone() shares storage with the original"
        kk, v = D.one(cl)
        ctx.ob("clone", KINDS[k][0], kk == "ok" and v is None, (describe(kk, v) if kk != "ok" else v) or "", loc(k))
    ctx.used(I)
