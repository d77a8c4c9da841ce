"""Contracts of gradslam/structures (S01..S06)."""
from engine.vapi import contract, product
from contracts.clouds import (PC, ATTRS, Ghost, agree, any_state, build, check_list, check_mask, check_padded, ghost_of,
                              invariant, pick, sizes, values)

OPT = ("normals", "colors", "features")


def reps_states():
    """representation states: every pair (points, one other attribute), the remaining ones present or absent"""
    out, seen = [], set()
    for p in "LPB":
        for a in OPT:
            for r in "-LPB":
                for rest in "B-":
                    d = {"points": p}
                    for x in OPT:
                        d[x] = r if x == a else rest
                    k = tuple(sorted(d.items()))
                    if k not in seen:
                        seen.add(k)
                        out.append("".join(d[x] for x in ATTRS))
    return out


STATES = reps_states()


def reps(s):
    return dict(zip(ATTRS, s))


# ------------------------------------------------------------------------------------------------ S01
def set_value(V, g, a, form, tag="new"):
    """a value to be assigned to attribute a in the given form, and the ghost afterwards"""
    w = g.w(a) if g.has(a) or a != "features" else 3
    C = g.C
    if a == "features":
        C = w = V.dim(tag + "C")
    h = g.copy()
    h.C = C
    data = [V.tensor("%s_%s%d" % (tag, a, b), [g.N[b], w]) for b in range(g.B)]
    h.val[a] = lambda b, i, k: V.at(data[b], i, k)
    if form == "list":
        return data, data, h
    t = V.array_like([g.B, g.Nmax, w], lambda b, i, k: pick(V, h, a, b, i, k))
    return t, [t], h


OPS = ["read_list", "read_padded", "mask"] + ["set_%s_%s" % (f, a) for f in ("list", "padded") for a in ATTRS] + ["append"]


def apply_op(V, pc, g, op, k=0, check=True):
    """perform one operation of the public interface; the ghost afterwards"""
    if op in ("read_list", "read_padded"):
        f = op[5:]
        for a in ATTRS:
            t = getattr(pc, "%s_%s" % (a, f))
            if check:
                if not g.has(a):
                    V.ensure("%s absent" % a, t is None)
                elif f == "list":
                    check_list(V, "read", a, t, g)
                else:
                    check_padded(V, "read", a, t, g)
        return g
    if op == "mask":
        m = pc.nonpad_mask
        if check:
            check_mask(V, "read", m, g)
        return g
    if op.startswith("set_"):
        _, f, a = op.split("_")
        value, parts, h = set_value(V, g, a, f, "new%d" % k)
        setattr(pc, "%s_%s" % (a, f), value)
        if check:
            own = getattr(pc, "%s_%s" % (a, f))
            own = own if isinstance(own, list) else [own]
            V.ensure("assignment keeps a private copy", not any(V.shares(x, y) for x in own for y in parts))
        return h
    if op == "append":
        attrs = [a for a in ATTRS if g.has(a)]
        other, og, _ = build(V, "list", g.B, attrs, "app%d_" % k, C=g.C if g.has("features") else None)
        r = pc.append_points(other)
        V.ensure("append returns the object", r is pc)
        return appended(V, g, og)
    if op == "offset":
        d = V.real("offset%d" % k)
        r = pc.offset_(d)
        V.ensure("offset_ returns the object", r is pc)
        return g.map("points", lambda b, i, c, old: old(b, i, c) + d)
    raise ValueError(op)


def appended(V, g, og):
    h = g.copy()
    h.N = [n + m for n, m in zip(g.N, og.N)]
    for a in ATTRS:
        if g.has(a):
            h.val[a] = (lambda a: lambda b, i, k: V.ite(V.lt(i, g.N[b]), lambda: g.val[a](b, i, k),
                                                        lambda: og.val[a](b, i - g.N[b], k)))(a)
    return h


@contract("S01", "a new cloud agrees in every view", product(base=["list", "tensor"], B=[1, 2, 3], attrs=[
    ATTRS, ("points",), ("points", "normals"), ("points", "colors"), ("points", "features")], order=["lpm", "pml"]))
def s01_new(V, base, B, attrs, order):
    pc, g, data = build(V, base, B, attrs)
    agree(V, "new", pc, g, {"lpm": ("list", "padded", "mask"), "pml": ("padded", "mask", "list")}[order])
    agree(V, "second reading", pc, g)


@contract("S01", "the class invariant holds after construction", product(base=["list", "tensor"], B=[1, 2, 3]))
def s01_inv_new(V, base, B):
    pc, g, data = build(V, base, B)
    any_state(V, 1, reps("LLLL"), True, tag="probe_")
    invariant(V, "new", pc, g)


@contract("S01", "every operation preserves the class invariant", product(state=STATES, op=OPS, cached=[True, False]))
def s01_inv(V, state, op, cached):
    pc, g, data = any_state(V, 2, reps(state), cached)
    h = apply_op(V, pc, g, op)
    invariant(V, op, pc, h)


@contract("S01", "views agree after any two operations", product(base=["list", "tensor"], ops=[
    (a, b) for a in OPS + ["offset"] for b in OPS + ["offset"]]))
def s01_seq(V, base, ops):
    pc, g, data = build(V, base, 2)
    for k, op in enumerate(ops):
        g = apply_op(V, pc, g, op, k, check=False)
    agree(V, "+".join(ops), pc, g)


# ------------------------------------------------------------------------------------------------ S02
SOME = ["LLLL", "PPPP", "BBBB", "LPBP", "PLPL", "BPLB", "P---", "L---", "PL-B"]
OPERANDS = ["int", "float", "()", "(1,)", "(3,)", "(1,1,3)", "(B,1,1)", "(B,1,3)", "(B,N,1)", "(B,N,3)", "(N,1)"]


def operand(V, kind, g, nonzero):
    """(operand, its value at (b, i, k))"""
    if kind in ("int", "float"):
        x = V.int("x", -4, 4) if kind == "int" else V.real("x")
        if nonzero:
            V.assume(V.ne(x, 0))
        return x, lambda b, i, k: x
    dims = {"1": 1, "3": 3, "B": g.B, "N": g.Nmax}
    names = [c for c in kind.strip("()").split(",") if c]
    shape = [dims[c] for c in names]
    t = V.tensor("x", shape, **({"pos": True} if nonzero else {}))

    def at(b, i, k):
        full = [b, i, k][3 - len(shape):]
        return V.at(t, *[0 if n == "1" else j for n, j in zip(names, full)])
    return t, at


ARITH = {"+": ("__add__", lambda V, p, x: p + x), "-": ("__sub__", lambda V, p, x: p - x),
         "*": ("__mul__", lambda V, p, x: p * x), "/": ("__truediv__", lambda V, p, x: V.div(p, x)),
         "offset_": ("offset_", lambda V, p, x: p + x), "scale_": ("scale_", lambda V, p, x: p * x)}


@contract("S02", "arithmetic moves the real points only", 
    product(state=["LLLL", "PPPP", "BBBB", "PL-B"], op=list(ARITH), kind=OPERANDS, cached=[True]) +
    product(state=SOME[3:8], op=["+", "offset_", "scale_", "/"], kind=["float", "(B,N,3)"], cached=[True, False]), samples=4)
def s02(V, state, op, kind, cached):
    pc, g, data = any_state(V, 2, reps(state), cached)
    x, at = operand(V, kind, g, op == "/")
    sx = V.snap(x) if V.is_tensor(x) else None
    name, f = ARITH[op]
    r = getattr(pc, name)(x)
    h = g.map("points", lambda b, i, k, old: f(V, old(b, i, k), at(b, i, k)))
    if op.endswith("_"):
        V.ensure("in-place form returns the operand", r is pc)
    else:
        V.ensure("operator returns a new object", r is not pc)
        agree(V, "operand afterwards", pc, g)
    agree(V, "result", r, h)
    if sx is not None:
        V.unchanged("the other operand is untouched", x, sx)


@contract("S02", "chained arithmetic on constructed clouds", 
    product(base=["list", "tensor"], B=[2], ops=[
        (a, b) for a in ("+", "*", "offset_", "scale_") for b in ("+", "-", "*", "/", "offset_", "scale_")]) +
    product(base=["list", "tensor"], B=[1, 3], ops=[("*", "+"), ("offset_", "/")]), samples=6)
def s02_chain(V, base, B, ops):
    pc, g, data = build(V, base, B)
    h, q = g, pc
    for j, op in enumerate(ops):
        x = V.real("x%d" % j)
        if op == "/":
            V.assume(V.ne(x, 0))
        name, f = ARITH[op]
        q = getattr(q, name)(x)
        h = h.map("points", (lambda f, x: lambda b, i, k, old: f(V, old(b, i, k), x))(f, x))
    agree(V, "result", q, h)
    if not any(o.endswith("_") for o in ops[:1]):
        agree(V, "operand", pc, g)


@contract("S02", "unsupported operands are rejected", product(base=["list", "tensor"]))
def s02_reject(V, base):
    pc, g, data = build(V, base, 2)
    for op, (name, f) in ARITH.items():
        for bad in ("a", None, [1.0]):
            V.raises("%s %r" % (op, bad), (TypeError, NotImplementedError), lambda: getattr(pc, name)(bad))
    agree(V, "after rejected operands", pc, g)


# ------------------------------------------------------------------------------------------------ S03
def matrix(V, kind, batched, B):
    n = 3 if kind == "rot" else 4
    if kind == "rot":
        return V.rot("R", [B] if batched else [])
    return V.rigid("T", [B] if batched else [])


def rot_post(V, g, M, batched, pre, trans):
    def m(b, i, j):
        return V.at(M, b, i, j) if batched else V.at(M, i, j)

    def rotd(b, i, k, old):
        if pre:
            return sum_([m(b, k, j) * old(b, i, j) for j in range(3)])
        return sum_([old(b, i, j) * m(b, j, k) for j in range(3)])
    h = g.map("points", lambda b, i, k, old: sel(V, k, lambda k: rotd(b, i, k, old) + (m(b, k, 3) if trans else 0)))
    if g.has("normals"):
        h = h.map("normals", lambda b, i, k, old: sel(V, k, lambda k: rotd(b, i, k, old)))
    return h


def sum_(xs):
    r = xs[0]
    for x in xs[1:]:
        r = r + x
    return r


def sel(V, k, f):
    """f at a coordinate index (0..2)"""
    if isinstance(k, int):
        return f(k)
    return V.ite(V.eq(k, 0), lambda: f(0), lambda: V.ite(V.eq(k, 1), lambda: f(1), lambda: f(2)))


RIG = {"rotate_": ("rot", True), "rotate": ("rot", True), "transform_": ("rigid", True), "transform": ("rigid", True),
       "@rot": ("rot", False), "@rigid": ("rigid", False), "rotate_post": ("rot", False), "transform_post": ("rigid", False)}


@contract("S03", "rotations and transforms act on points and normals", product(
    state=SOME, how=list(RIG), batched=[True, False], cached=[True]))
def s03(V, state, how, batched, cached):
    kind, pre = RIG[how]
    pc, g, data = any_state(V, 2, reps(state), cached)
    M = matrix(V, kind, batched, 2)
    s = V.snap(M)
    if how.startswith("@"):
        r = pc @ M
    elif how.endswith("_post"):
        r = getattr(pc, how[:-5])(M, pre_multiplication=False)
    else:
        r = getattr(pc, how)(M)
    h = rot_post(V, g, M, batched, pre, kind == "rigid")
    if how in ("rotate_", "transform_"):
        V.ensure("in-place form returns the object", r is pc)
    else:
        V.ensure("a new object is returned", r is not pc)
        agree(V, "operand afterwards", pc, g)
    agree(V, "result", r, h)
    V.unchanged("matrix untouched", M, s)


@contract("S03", "pinhole projection maps every real point to its pixel", product(
    state=SOME, batched=[True, False], inplace=[True, False]))
def s03_pinhole(V, state, batched, inplace):
    pc, g, data = any_state(V, 2, reps(state), True)
    K = V.pinhole("K", [2] if batched else [], skew=True)

    def kk(b, i, j):
        return V.at(K, b, i, j) if batched else V.at(K, i, j)
    s = V.snap(K)
    r = pc.pinhole_projection_(K) if inplace else pc.pinhole_projection(K)

    def px(b, i, k, old):
        if k == 2:
            return 1
        x, y, z = old(b, i, 0), old(b, i, 1), old(b, i, 2)
        num = kk(b, k, 0) * x + kk(b, k, 1) * y + kk(b, k, 2) * z + kk(b, k, 3)
        return V.ite(V.eq(z, 0), num, lambda: V.div(num, z))
    h = g.map("points", lambda b, i, k, old: sel(V, k, lambda k: px(b, i, k, old)))
    if inplace:
        V.ensure("in-place form returns the object", r is pc)
    else:
        V.ensure("a new object is returned", r is not pc)
        agree(V, "operand afterwards", pc, g)
    agree(V, "result", r, h)
    V.unchanged("intrinsics untouched", K, s)


@contract("S03", "ill-shaped matrices are rejected before anything changes", product(base=["list", "tensor"]))
def s03_reject(V, base):
    pc, g, data = build(V, base, 2)
    M4, M3 = V.tensor("m4", [3, 4, 4]), V.tensor("m3", [3, 3, 3])
    V.raises("rotate_ by another batch size", ValueError, lambda: pc.rotate_(M3))
    V.raises("transform_ by another batch size", ValueError, lambda: pc.transform_(M4))
    V.raises("rotate_ by 4x4", ValueError, lambda: pc.rotate_(M4))
    V.raises("transform_ by 3x3", ValueError, lambda: pc.transform_(M3))
    V.raises("pinhole 3x3", ValueError, lambda: pc.pinhole_projection_(M3))
    V.raises("@ of rank 1", ValueError, lambda: pc @ V.tensor("v", [3]))
    V.raises("@ number", (TypeError, NotImplementedError), lambda: pc @ 2.0)
    for f in ("rotate_", "transform_", "pinhole_projection_"):
        V.raises(f + " by a list", TypeError, lambda: getattr(pc, f)([1.0]))
    agree(V, "after rejected operands", pc, g)


# ------------------------------------------------------------------------------------------------ S04
def same_attrs(states):
    out = []
    for s in states:
        for o in states:
            if [x == "-" for x in s] == [x == "-" for x in o]:
                out.append((s, o))
    return out


def views(pc):
    """every tensor reachable through the public interface"""
    out = []
    for a in ATTRS:
        out += list(getattr(pc, a + "_list") or [])
        t = getattr(pc, a + "_padded")
        if t is not None:
            out.append(t)
    out.append(pc.nonpad_mask)
    out.append(pc.num_points_per_pointcloud)
    return [t for t in out if t is not None]


def disjoint(V, what, pc, q, skip_counts=False):
    """no memory shared between anything readable on the two objects"""
    A, B = views(pc), views(q)
    V.ensure(what, not any(V.shares(x, y) for x in A for y in B))


def shake(V, pc, tag):
    """mutate everything of an object in place through its public views"""
    for j, t in enumerate(views(pc)):
        if V.dtype_name(t).startswith("float"):
            t.mul_(V.real("%sm%d" % (tag, j))).add_(V.real("%sa%d" % (tag, j)))


ALL04 = [dict(state=s, other=o, cached=c) for s, o in same_attrs(SOME) for c in (True, False)]


@contract("S04", "appending concatenates each cloud", [c for c in ALL04 if c["cached"] or c["state"] in ("PPPP", "BBBB")],
          samples=6, thorough=ALL04)
def s04(V, state, other, cached):
    pc, g, _ = any_state(V, 2, reps(state), cached)
    q, og, _ = any_state(V, 2, reps(other), cached, tag="o_", C=g.C)
    r = pc.append_points(q)
    V.ensure("append returns the object", r is pc)
    agree(V, "result", pc, appended(V, g, og))
    agree(V, "appended object", q, og)
    disjoint(V, "appended object is not aliased", pc, q)


@contract("S04", "append preserves the class invariant", [
    dict(state=s, other=o, cached=c) for s, o in same_attrs(SOME[:6]) for c in (True, False)], samples=4)
def s04_inv(V, state, other, cached):
    pc, g, _ = any_state(V, 2, reps(state), cached)
    q, og, _ = any_state(V, 2, reps(other), not cached, tag="o_", C=g.C)
    pc.append_points(q)
    invariant(V, "result", pc, appended(V, g, og))
    invariant(V, "appended object", q, og)


@contract("S04", "other batch sizes", product(
    B=[1, 3], base=["tensor"], obase=["list", "tensor"], read=[True, False]) + product(
    B=[1], base=["list"], obase=["list", "tensor"], read=[True, False]), samples=6, budget=300, thorough=product(
    B=[3], base=["list"], obase=["list", "tensor"], read=[True, False]))
def s04_sizes(V, B, base, obase, read):
    pc, g, _ = build(V, base, B)
    q, og, _ = build(V, obase, B, tag="o_", C=g.C)
    if read:
        views(pc), views(q)
    pc.append_points(q)
    agree(V, "result", pc, appended(V, g, og), ("padded", "mask", "list"))
    agree(V, "appended object", q, og)


@contract("S04", "repeated appends, with and without reading in between", product(
    base=["tensor"], obase=["tensor"], read=["", "0", "01"], start=["empty", "some"]) + product(
    base=["tensor"], obase=["list"], read=["0"], start=["empty", "some"]) + product(
    base=["list"], obase=["tensor"], read=["", "01"], start=["empty"]), samples=6, thorough=product(
    base=["list", "tensor"], obase=["list", "tensor"], read=["", "0", "1", "01"], start=["empty", "some"]))
def s04_seq(V, base, obase, read, start):
    C = V.dim("C")
    if start == "empty":
        pc, g = V.make(PC), None
    else:
        pc, g, _ = build(V, base, 2, C=C)
    others = []
    for j in range(3 if start == "empty" else 2):
        q, og, _ = build(V, (obase, base, obase)[j], 2, tag="o%d_" % j, C=C)
        others.append((q, og))
        pc.append_points(q)
        g = og if g is None else appended(V, g, og)
        if str(j) in read:
            views(pc)
    agree(V, "result", pc, g)
    for j, (q, og) in enumerate(others):
        agree(V, "appended object", q, og)
        disjoint(V, "appended object is not aliased", pc, q)


@contract("S04", "appending to an empty object copies the other batch", product(
    state=SOME, cached=[True, False], B=[1, 2]), samples=6)
def s04_empty_self(V, state, cached, B):
    q, og, _ = any_state(V, B, reps(state), cached, tag="o_")
    pc = V.make(PC)
    r = pc.append_points(q)
    V.ensure("append returns the object", r is pc)
    invariant(V, "copy", pc, og)
    invariant(V, "appended object", q, og)
    agree(V, "copy", pc, og, ("mask", "padded", "list"))
    agree(V, "appended object", q, og)
    disjoint(V, "appended object is not aliased", pc, q)
    shake(V, pc, "s")
    agree(V, "appended object after changing the copy in place", q, og)


@contract("S04", "appending an empty object changes nothing", product(state=SOME, cached=[True, False]), samples=6)
def s04_empty_other(V, state, cached):
    pc, g, _ = any_state(V, 2, reps(state), cached)
    r = pc.append_points(V.make(PC))
    V.ensure("append returns the object", r is pc)
    invariant(V, "result", pc, g)
    agree(V, "result", pc, g)
    e = V.make(PC)
    r = e.append_points(V.make(PC))
    V.ensure("two empty objects", r is e and len(e) == 0 and e.points_list is None and e.points_padded is None)


@contract("S04", "an object can be appended to itself", product(state=SOME, cached=[True, False]), samples=6)
def s04_self(V, state, cached):
    pc, g, _ = any_state(V, 2, reps(state), cached)
    pc.append_points(pc)
    agree(V, "result", pc, appended(V, g, g))


BAD = {"batch size": ("LLLL", 1), "normals": ("L-LL", 2), "colors": ("LL-L", 2), "features": ("LLL-", 2),
       "feature width": ("LLLL", 2)}


@contract("S04", "incompatible operands are rejected before anything changes", product(
    state=["LLLL", "PPPP", "BPLB"], bad=list(BAD)[1:], cached=[True, False], swap=[True, False]) + product(
    state=["LLLL", "PPPP"], bad=["batch size"], cached=[True], swap=[True, False]), samples=6, thorough=product(
    state=["LLLL", "PPPP", "BBBB", "LPBP", "PLPL"], bad=list(BAD), cached=[True, False], swap=[True, False]))
def s04_reject(V, state, bad, cached, swap):
    pc, g, _ = any_state(V, 2, reps(state), cached)
    s, B = BAD[bad]
    C = g.C
    if bad == "feature width":
        C = V.dim("oC")
        V.assume(V.ne(C, g.C))
    q, og, _ = any_state(V, B, reps(s), cached, tag="o_", C=C)
    a, b = (q, pc) if swap else (pc, q)
    V.raises("different " + bad, ValueError, lambda: a.append_points(b))
    agree(V, "object", pc, g)
    agree(V, "rejected object", q, og)
    V.raises("not a cloud batch", TypeError, lambda: pc.append_points([1]))
    V.raises("None", TypeError, lambda: pc.append_points(None))
    invariant(V, "object", pc, g)


# ------------------------------------------------------------------------------------------------ S05
def chosen(V, g, ids):
    h = Ghost(V, len(ids), [g.N[i] for i in ids], {}, g.C)
    for a in ATTRS:
        h.val[a] = None if not g.has(a) else (lambda a: lambda b, i, k: g.val[a](ids[b], i, k))(a)
    return h


def slices(B):
    r = [None, -B - 1, -2, -1, 0, 1, B] if B > 2 else [None] + list(range(-B - 1, B + 2))
    return [(a, b, s) for a in r for b in r for s in (None, -1, 2)]


def check_sel(V, what, pc, g, index, ids, full=False):
    if not ids:
        try:
            q = pc[index]
        except (ValueError, IndexError):
            return
        V.ensure(what + ": an empty selection is empty", len(q) == 0)
        return
    q = pc[index]
    V.ensure(what + ": selecting gives a new batch", q is not pc and type(q) is type(pc))
    agree(V, what, q, chosen(V, g, ids), ("list", "padded", "mask") if full else ("list",))


@contract("S05", "integers", product(state=SOME, B=[1, 2, 3], cached=[True]), samples=4)
def s05_int(V, state, B, cached):
    pc, g, _ = any_state(V, B, reps(state), cached)
    for i in range(-B, B):
        check_sel(V, "integer", pc, g, i, [i % B], i == -1)
    for i in (B, -B - 1, B + 7, -B - 9):
        V.raises("integer out of range", IndexError, lambda: pc[i])
    agree(V, "indexed object", pc, g)


@contract("S05", "slices", product(
    state=["LLLL", "PPPP", "P---"], B=[1, 2], step=[None, -1, 2]) + product(state=["LLLL"], B=[3], step=[None, -1, 2]),
          samples=2, thorough=product(state=["LLLL", "PPPP", "BPLB", "P---"], B=[1, 2, 3], step=[None, -1, 2]), budget=400)
def s05_slice(V, state, B, step):
    pc, g, _ = any_state(V, B, reps(state), True)
    seen = set()
    for a, b, s in slices(B):
        if s == step:
            sl = slice(a, b, s)
            check_sel(V, "slice", pc, g, sl, list(range(B))[sl], (a, b) == (None, None))
    agree(V, "indexed object", pc, g)


def index_lists(B, n):
    import itertools
    return [list(t) for k in range(1, n + 1) for t in itertools.product(range(-B, B), repeat=k)]


@contract("S05", "lists and integer tensors", product(
    state=["LLLL", "PPPP", "P---", "PL-B"], B=[1, 2], kind=["list", "int64", "int32"]) + product(
    state=["LLLL", "P---"], B=[3], kind=["list", "int64"]), samples=2, thorough=product(
    state=["LLLL", "PPPP", "P---", "PL-B"], B=[3], kind=["list", "int64", "int32"]))
def s05_list(V, state, B, kind):
    pc, g, _ = any_state(V, B, reps(state), True)
    some = index_lists(B, 2) if B < 3 else [[i] for i in range(-B, B)] + [[0, 1], [2, 0], [-1, 1], [1, 1], [0, -3]]
    for ids in some + [[B - 1] * 3, list(range(B)), list(reversed(range(B))) + [0]]:
        ix = list(ids) if kind == "list" else V.torch.tensor(ids, dtype=getattr(V.torch, kind))
        check_sel(V, kind, pc, g, ix, [i % B for i in ids], len(ids) == B + 1)
    for bad in ([B], [0, -B - 1], [0, B + 2]):
        ix = list(bad) if kind == "list" else V.torch.tensor(bad, dtype=getattr(V.torch, kind))
        V.raises("%s out of range" % kind, IndexError, lambda: pc[ix])
    agree(V, "indexed object", pc, g)


@contract("S05", "boolean masks", product(state=["LLLL", "PPPP", "BPLB", "P---", "PL-B"], B=[1, 2, 3]), samples=2)
def s05_mask(V, state, B):
    import itertools
    pc, g, _ = any_state(V, B, reps(state), True)
    for bits in itertools.product([True, False], repeat=B):
        m = V.torch.tensor(list(bits))
        check_sel(V, "mask", pc, g, m, [i for i in range(B) if bits[i]], not bits[0])
    V.raises("mask selecting a cloud that is not there", IndexError, lambda: pc[V.torch.tensor([True] * (B + 1))])
    agree(V, "indexed object", pc, g)


@contract("S05", "unsupported indices and empty objects raise", product(state=["LLLL", "PPPP"]), samples=6)
def s05_bad(V, state):
    pc, g, _ = any_state(V, 2, reps(state), True)
    t = V.torch
    for what, ix in (("float tensor", t.tensor([0.0, 1.0])), ("2-D tensor", t.tensor([[0], [1]])), ("0-D tensor", t.tensor(0)),
                     ("string", "0"), ("None", None), ("tuple", (0, 1)), ("float", 0.0)):
        V.raises(what, IndexError, lambda: pc[ix])
    e = V.make(PC)
    for what, ix in (("int", 0), ("slice", slice(None)), ("list", [0]), ("tensor", t.tensor([0])), ("mask", t.tensor([True]))):
        V.raises("empty object by " + what, IndexError, lambda: e[ix])
    agree(V, "indexed object", pc, g)


# ------------------------------------------------------------------------------------------------ S06
COPY = {"clone": lambda pc: pc.clone(), "detach": lambda pc: pc.detach(), "to_copy": lambda pc: pc.to(pc.device, copy=True)}


@contract("S06", "copies of clouds hold the same content in their own memory", product(
    state=STATES, how=["clone"], cached=[True, False]) + product(state=SOME, how=["detach", "to_copy"], cached=[True, False]),
          samples=3, thorough=product(state=STATES, how=list(COPY), cached=[True, False]))
def s06_clouds(V, state, how, cached):
    pc, g, _ = any_state(V, 2, reps(state), cached)
    q = COPY[how](pc)
    V.ensure("a new object", q is not pc and type(q) is type(pc))
    invariant(V, "copy", q, g)
    agree(V, "copy", q, g)
    V.ensure("same device", q.device == pc.device)
    disjoint(V, "no shared memory", pc, q)
    shake(V, q, "s")
    agree(V, "original after changing the copy in place", pc, g)


@contract("S06", "copies taken after any operation", product(
    base=["list", "tensor"], op=OPS + ["offset"], read=[True], how=["clone", "detach"]), samples=3, thorough=product(
    base=["list", "tensor"], op=OPS + ["offset"], read=[True, False], how=list(COPY)))
def s06_after(V, base, op, read, how):
    pc, g, _ = build(V, base, 2)
    if read:
        views(pc)
    g = apply_op(V, pc, g, op, check=False)
    q = COPY[how](pc)
    disjoint(V, "no shared memory", pc, q)
    agree(V, "copy", q, g, ("mask", "padded", "list"))
    agree(V, "original", pc, g)
    h = apply_op(V, q, g, "offset", 1)
    apply_op(V, q, h, "append", 2)
    agree(V, "original after changing the copy", pc, g)


@contract("S06", "moving to the same device and empty objects", product(base=["list", "tensor"]), samples=6)
def s06_to(V, base):
    pc, g, _ = build(V, base, 2)
    V.ensure("moving nowhere gives the object", pc.to(pc.device) is pc)
    agree(V, "cpu", pc.cpu(), g)
    e = V.make(PC)
    for how, f in COPY.items():
        q = f(e)
        V.ensure("%s of an empty object is empty" % how, q is not e and len(q) == 0 and not q.has_points and
                 q.points_list is None and q.points_padded is None and q.nonpad_mask is None)


@contract("S06", "detached copies carry no gradient history", product(
    base=["list", "tensor"], B=[1, 2], read=[True, False]), samples=6, grad=True)
def s06_detach(V, base, B, read):
    pc, g, data = build(V, base, B, lo=1, requires_grad=True)
    if read:
        views(pc)
    pc.scale_(V.real("c"))
    q = pc.detach()
    V.ensure("no gradient history", not any(V.attached(t) for t in views(q)))
    V.ensure("the original keeps its history", V.attached(pc.points_padded) and V.attached(pc.points_list[0]))
    agree(V, "copy", q, g.map("points", lambda b, i, k, old: V.at(pc.points_padded, b, i, k)))
