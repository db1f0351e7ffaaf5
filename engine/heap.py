"""Structure of abstract values: canonical shapes, owned storage, outgoing references."""
from absint import (Cell, Ref, Ptr, Obj, Lam, Str, Opq, Vec, VIt, Map, MIt, SP, Tup, Fun, Variant, Cx, IList, FnPtr, UnionCell, UNDEF)


def children(v):
    """(label, cell, owned?) of the storage a value consists of or refers to"""
    if isinstance(v, Ref):
        yield "ref", v.cell, False
    elif isinstance(v, Ptr):
        if v.seq is not None:
            for i, c in enumerate(v.seq):
                yield "p%d" % i, c, False
        elif v.cell is not None:
            yield "ptr", v.cell, False
    elif isinstance(v, Lam):
        for k, c in sorted(v.capmap.items(), key=lambda kv: str(kv[0])):
            yield "cap", c, any(c is x for x in v.f.values())
        if v.capthis is not None:
            yield "this", v.capthis, False
    elif isinstance(v, Obj):
        for k, c in sorted(v.f.items(), key=lambda kv: str(kv[0])):
            yield k, c, True
    elif isinstance(v, Vec):
        for i, c in enumerate(v.items):
            yield i, c, True
    elif isinstance(v, VIt):
        if v.vec is not None:
            for i, c in enumerate(v.vec.items):
                yield "it%d" % i, c, False
    elif isinstance(v, Map):
        for i, n in enumerate(v.nodes):
            if n.alive:
                yield i, n.cell, True
    elif isinstance(v, MIt):
        if v.node is not None:
            yield "node", v.node.cell, False
    elif isinstance(v, SP):
        if v.cell is not None:
            yield "sp", v.cell, True
    elif isinstance(v, Tup):
        for i, c in enumerate(v.items):
            if isinstance(c.v, Ref):
                yield i, c.v.cell, False
            else:
                yield i, c, True
    elif isinstance(v, Fun):
        if v.target is not None:
            yield "fn", v.target, True
    elif isinstance(v, Variant):
        yield v.idx, v.cell, True
    elif isinstance(v, list):
        for i, c in enumerate(v):
            yield i, c, True


def head(v):
    if isinstance(v, Lam):
        return ("lambda", v.call)
    if isinstance(v, Obj):
        return ("obj", v.rec, repr(v.attr) if v.attr is not None else None, v.act)
    if isinstance(v, VIt):
        return ("it", v.idx)
    if isinstance(v, Ptr):
        return ("ptr", v.idx if v.seq is not None else None, v.isnull())
    if isinstance(v, Str):
        return ("str", v.s)
    if isinstance(v, Opq):
        return ("opq", v.what)
    if isinstance(v, (Vec, Map)):
        return (v.kind,)
    if isinstance(v, SP):
        return ("sp", v.cell is None)
    if isinstance(v, (Tup, list)):
        return ("tup",)
    if isinstance(v, Fun):
        return ("fun", v.target is None)
    if isinstance(v, Variant):
        return ("var", v.idx)
    if isinstance(v, (Ref, MIt)):
        return (type(v).__name__,)
    if isinstance(v, FnPtr):
        return ("fn", v.f)
    if isinstance(v, bool):
        return ("n", int(v))
    return ("n", repr(v))


def owned(cell, acc=None, skip_shared=False):
    """ids (with the cells) of everything the object owns"""
    acc = {} if acc is None else acc
    st = [cell]
    while st:
        c = st.pop()
        if id(c) in acc:
            continue
        acc[id(c)] = c
        v = c.v
        for lb, ch, own in children(v):
            if own and not (skip_shared and isinstance(v, SP) and not v.uniq):
                st.append(ch)
    return acc


def refs(cell):
    """cells referred to (not owned) from the owned storage, with a path"""
    out = []
    seen = set()
    st = [(cell, ())]
    while st:
        c, path = st.pop()
        if id(c) in seen:
            continue
        seen.add(id(c))
        for lb, ch, own in children(c.v):
            if own:
                st.append((ch, path + (lb,)))
            else:
                out.append((ch, path + (lb,)))
    return out


def shape(cell, ignore=()):
    """canonical structure; references into the object's own storage are numbered,
    references to the outside are named by identity"""
    own = owned(cell)
    num = {}

    def go(c, inown):
        if id(c) in num:
            return ("#", num[id(c)])
        if not inown and id(c) not in own:
            return ("ext", id(c))
        num[id(c)] = len(num)
        v = c.v
        return (head(v),) + tuple((str(lb) if not isinstance(v, Obj) else lb, go(ch, o)) for lb, ch, o in children(v)
                                  if not (isinstance(v, Obj) and lb in ignore))
    return go(cell, True)


def diff(a, b, path=""):
    """first difference of two shapes"""
    if a == b:
        return None
    if not isinstance(a, tuple) or not isinstance(b, tuple) or len(a) != len(b):
        return "%s: %s against %s" % (path or "value", str(a)[:120], str(b)[:120])
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            r = diff(x, y, path + "/" + str(i)) if isinstance(x, tuple) and isinstance(y, tuple) else "%s: %s against %s" % (path, str(x)[:120], str(y)[:120])
            return r
