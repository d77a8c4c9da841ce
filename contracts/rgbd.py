"""Contracts of RGB-D frames (R01..R06, and the RGBDImages half of S06)."""
from engine.vapi import contract, product
from contracts import frames as FR
from contracts import clouds as CL
from contracts.frames import RGBD, Frames, build, check_all, check_inputs, px, reader, any_state, invariant, shape_of, sum_

BOTH = [True, False]


@contract("R01", "vertex maps and the valid-depth mask", product(cf=BOTH, poses=BOTH, order=["mvV", "Vvm", "vV"], rigid=BOTH))
def r01(V, cf, poses, order, rigid):
    o, g, d = build(V, cf, poses, rigid=rigid)
    s = {k: V.snap(t) for k, t in d.items()}
    check_all(V, "frame", o, g, order)
    check_all(V, "second reading", o, g, "Vmv")
    for k, t in d.items():
        V.unchanged("input %s untouched" % k, t, s[k])


@contract("R01", "pixel positions given by the caller", product(cf=BOTH, poses=BOTH))
def r01_pixelpos(V, cf, poses):
    size = FR.dims(V)
    B, L, H, W = size
    d = FR.images(V, B, L, H, W, cf, "", poses)
    P = V.tensor("pix", [B, L, H, W, 3])
    # vertex maps use the supplied homogeneous pixel positions
    if cf:
        V.raises("positions of another shape", ValueError, lambda: V.make(RGBD, channels_first=cf, pixel_pos=V.tensor(
            "bad", [B, L, H, W + 1, 3]), **d))
    o = V.make(RGBD, channels_first=cf, pixel_pos=P, **d)
    g = FR.ghost(V, B, L, H, W, cf, d)

    def vert(b, l, r, c):
        dd = g.depth(b, l, r, c)
        return [V.ite(V.gt(dd, 0), (lambda j: lambda: sum_(V.at(g.Kinv, b, 0, j, m) * V.at(P, b, l, r, c, m) for m in range(3)) *
                                    dd)(j), 0) for j in range(3)]
    FR.check_image(V, "vertex map uses the given positions", o.vertex_map, g, vert)
    FR.check_image(V, "global vertex map", o.global_vertex_map, g, lambda b, l, r, c: g.gvertex(b, l, r, c, vert(b, l, r, c)))


@contract("R01", "inputs of another shape or type are rejected", product(cf=BOTH))
def r01_reject(V, cf):
    B, L, H, W = FR.dims(V)
    d = FR.images(V, B, L, H, W, cf)
    sh = lambda ch, h=H, l=L: [B, l, ch, h, W] if cf else [B, l, h, W, ch]
    bad = {"rgb channels": dict(rgb_image=V.tensor("b1", sh(4))), "depth channels": dict(depth_image=V.tensor("b2", sh(3))),
           "depth height": dict(depth_image=V.tensor("b3", sh(1, H + 1))), "depth length": dict(depth_image=V.tensor("b4", sh(1, H, L + 1))),
           "intrinsics per frame": dict(intrinsics=V.tensor("b5", [B, L + 1, 4, 4])), "intrinsics batch": dict(
               intrinsics=V.tensor("b6", [B + 1, 1, 4, 4])), "3x3 intrinsics": dict(intrinsics=V.tensor("b7", [B, 1, 3, 3])),
           "poses length": dict(poses=V.tensor("b8", [B, L + 1, 4, 4])), "poses rank": dict(poses=V.tensor("b9", [B, 4, 4])),
           "rgb rank": dict(rgb_image=V.tensor("b10", [B, H, W, 3]))}
    for what, kw in bad.items():
        V.raises(what, ValueError, lambda: V.make(RGBD, channels_first=cf, **{**d, **kw}))
    for k in ("rgb_image", "depth_image", "intrinsics", "poses"):
        V.raises(k + " not a tensor", TypeError, lambda: V.make(RGBD, channels_first=cf, **{**d, k: [1.0]}))


# ------------------------------------------------------------------------------------------------ R02
@contract("R02", "normal maps", product(cf=BOTH, poses=BOTH))
def r02(V, cf, poses):
    o, g, d = build(V, cf, poses, lo=2)
    vr = reader(V, V.opaque(o.vertex_map), cf)
    FR.check_normal(V, "frame", o.normal_map, g, vr)


@contract("R02", "global normal maps", product(cf=BOTH, poses=BOTH, rigid=BOTH))
def r02_global(V, cf, poses, rigid):
    o, g, d = build(V, cf, poses, lo=2, rigid=rigid)
    nr = reader(V, V.opaque(o.normal_map), cf)
    FR.check_gnormal(V, "frame", o.global_normal_map, g, nr)
    FR.check_vertex(V, "frame", o.vertex_map, g)


@contract("R02", "the maps do not depend on what was read before", product(cf=BOTH, poses=BOTH, order=["n", "N", "nvN", "mNn"]))
def r02_order(V, cf, poses, order):
    FR.modular(V)
    o, g, d = build(V, cf, poses, lo=2)
    f = V.make(RGBD, channels_first=cf, **d)
    for x in "vnN":
        getattr(f, FR.PUB[x])
    for x in order + "nN":
        V.same(FR.PUB[x], getattr(o, FR.PUB[x]), getattr(f, FR.PUB[x]))


@contract("R02", "normals are zero or of unit length", product(cf=BOTH))
def r02_unit(V, cf):
    o, g, d = build(V, cf, False, lo=2)
    vr = reader(V, V.opaque(o.vertex_map), cf)
    n = o.normal_map

    def f(b, l, r, c):
        s = sum_([px(V, n, cf, b, l, r, c, k) * px(V, n, cf, b, l, r, c, k) for k in range(3)])
        x = g.crossp(b, l, r, c, vr)
        nx = V.norm(x)
        return V.implies(V.clear(nx, 0, 1e-2), lambda: V.eq(s, V.ite(V.and_(g.valid(b, l, r, c), V.ne(nx, 0)), 1, 0), 1e-3))
    V.forall("unit length where the cross product does not vanish, zero elsewhere", [g.B, g.L, g.H, g.W], f)
    V.forall("zero where depth is invalid", [g.B, g.L, g.H, g.W], lambda b, l, r, c: V.implies(
        V.not_(g.valid(b, l, r, c)), lambda: V.and_(*[V.eq(px(V, n, cf, b, l, r, c, k), 0) for k in range(3)])))


# ------------------------------------------------------------------------------------------------ R03
CACHES = ["", "m", "p", "v", "mvp", "vnVN", "mvnVNp", "N"]
MORE = ["mp", "vm", "vn", "vV", "VN", "n", "mV", "pN"]
OPS3 = ["read_" + x for x in "vnVNm"] + ["set_rgb", "set_depth", "set_K", "set_P", "set_P_None", "to_first_", "to_last_"]


def apply(V, o, g, op, k=0):
    """perform one operation of the public interface; ghost afterwards"""
    B, L, H, W = g.B, g.L, g.H, g.W
    t = "s%d_" % k
    if op.startswith("read_"):
        getattr(o, FR.PUB[op[5:]])
        return g
    if op == "set_rgb":
        x = V.tensor(t + "rgb", shape_of(g, 3))
        cf = g.cf
        o.rgb_image = x
        return g.copy(rgb=lambda b, l, r, c, k: px(V, x, cf, b, l, r, c, k))
    if op == "set_depth":
        x = V.tensor(t + "depth", shape_of(g, 1), special=[0.0, -1.0], scale=3.0)
        cf = g.cf
        o.depth_image = x
        return g.copy(depth=lambda b, l, r, c: px(V, x, cf, b, l, r, c, 0))
    if op == "set_K":
        K = V.pinhole(t + "K", [B, 1])
        o.intrinsics = K
        return g.copy(K=K)
    if op == "set_P":
        P = V.rigid(t + "P", [B, L])
        o.poses = P
        return g.copy(P=P)
    if op == "set_P_None":
        o.poses = None
        return g.copy(P=None)
    if op in ("to_first_", "to_last_"):
        r = getattr(o, "to_channels_" + op[3:])()
        V.ensure(op + " returns the object", r is o)
        return g.copy(cf=op == "to_first_")
    raise ValueError(op)


@contract("R03", "every operation keeps the cached maps current", product(cf=BOTH, poses=BOTH, cached=CACHES, op=OPS3), samples=2,
          thorough=product(cf=BOTH, poses=BOTH, cached=MORE, op=OPS3))
def r03_inv(V, cf, poses, cached, op):
    o, g, d = any_state(V, cf, poses, cached)
    g = apply(V, o, g, op)
    invariant(V, op, o, g)


@contract("R03", "what is read after an operation is current", product(cf=BOTH, poses=BOTH, cached=["", "m", "mvnVNp"], op=OPS3),
          samples=2)
def r03_read(V, cf, poses, cached, op):
    o, g, d = any_state(V, cf, poses, cached)
    g = apply(V, o, g, op)
    FR.check_fresh(V, op, o, g, "VmNvn" if cached else "mvnVN")


SEQ = [("read_V", "to_first_", "set_depth"), ("read_N", "to_last_", "set_depth"), ("read_m", "to_first_", "set_P"),
       ("read_m", "to_last_", "set_P"), ("read_v", "set_depth", "to_first_"), ("read_N", "set_P", "to_first_"),
       ("set_depth", "read_m", "to_last_"), ("to_first_", "set_depth", "set_rgb"), ("to_last_", "set_rgb", "set_depth"),
       ("read_n", "set_K", "set_P"), ("read_N", "set_P_None", "set_P"), ("read_V", "set_K", "to_first_")]


@contract("R03", "sequences of operations", product(cf=BOTH, poses=BOTH, ops=SEQ), samples=2)
def r03_seq(V, cf, poses, ops):
    FR.modular(V)
    o, g, d = build(V, cf, poses, lo=2)
    for k, op in enumerate(ops):
        g = apply(V, o, g, op, k)
    FR.check_fresh(V, "+".join(ops), o, g, "VNmvn")


@contract("R03", "given pixel positions survive assignments and layout changes", product(cf=BOTH, cached=["", "mvnVN"], op=OPS3), samples=2)
def r03_pix(V, cf, cached, op):
    o, g, d = any_state(V, cf, True, cached, pix=True)
    g = apply(V, o, g, op)
    V.same("pixel positions", o.pixel_pos, d["pixel_pos"])
    FR.check_fresh(V, op, o, g, pix=True)


@contract("R03", "assignments of another shape are rejected", product(cf=BOTH, cached=["", "mvnVNp"], conv=BOTH), samples=2)
def r03_reject(V, cf, cached, conv):
    o, g, d = any_state(V, cf, True, cached)
    if conv:
        g = apply(V, o, g, "to_last_" if cf else "to_first_")
    h = g.copy(H=g.H + 1)
    bad = [("rgb_image", shape_of(g, 1)), ("rgb_image", shape_of(h, 3)), ("depth_image", shape_of(g, 3)), ("depth_image", shape_of(h, 1)),
           ("intrinsics", [g.B, 1, 3, 3]), ("intrinsics", [g.B + 1, 1, 4, 4]), ("poses", [g.B, g.L + 1, 4, 4]), ("poses", [g.B, 1, 3, 4])]
    for j, (what, sh) in enumerate(bad):
        def put(v=V.tensor("bad%d" % j, sh)):
            setattr(o, what, v)
        V.raises("%s of another shape" % what, ValueError, put)
    for what in ("rgb_image", "depth_image", "intrinsics", "poses"):
        V.raises("%s not a tensor" % what, TypeError, lambda: setattr(o, what, [1.0]))
    invariant(V, "rejected assignments", o, g)


# ------------------------------------------------------------------------------------------------ R05
@contract("R05", "layout conversion permutes and nothing else", product(cf=BOTH, poses=BOTH, cached=CACHES, inplace=BOTH, first=BOTH), samples=2,
          thorough=product(cf=BOTH, poses=BOTH, cached=MORE, inplace=BOTH, first=BOTH))
def r05(V, cf, poses, cached, inplace, first):
    o, g, d = any_state(V, cf, poses, cached)
    if inplace:
        q = o.to_channels_first_() if first else o.to_channels_last_()
        V.ensure("in-place form returns the object", q is o)
        invariant(V, "converted", o, g.copy(cf=first))
    else:
        q = o.to_channels_first() if first else o.to_channels_last()
        V.ensure("a new object exactly when the layout changes", (q is not o) == (first != cf))
        invariant(V, "copy", q, g.copy(cf=first))
        invariant(V, "original", o, g)


@contract("R05", "there and back is the identity", product(cf=BOTH, poses=BOTH, cached=["", "mvnVNp"], inplace=BOTH), samples=2)
def r05_round(V, cf, poses, cached, inplace):
    o, g, d = any_state(V, cf, poses, cached)
    was = {k: V.snap(getattr(o, n)) for k, n in FR.PUB.items() if k in cached}
    q = o
    for first in (not cf, cf):
        f = ("to_channels_first" if first else "to_channels_last") + ("_" if inplace else "")
        q = getattr(q, f)()
    check_inputs(V, "round trip", q, g)
    for k, t in was.items():
        V.unchanged("round trip of " + FR.PUB[k], getattr(q, FR.PUB[k]), t)


@contract("R05", "both layouts give the same maps", product(poses=BOTH), samples=10)
def r05_maps(V, poses):
    FR.modular(V)
    o, g, d = build(V, False, poses, lo=2)
    e = dict(d)
    for k, ch in (("rgb_image", 3), ("depth_image", 1)):
        e[k] = V.array_like(shape_of(g, ch, True), (lambda t: lambda b, l, k, r, c: V.at(t, b, l, r, c, k))(d[k]))
    q = V.make(RGBD, channels_first=True, **e)
    for x in "vVnNm":
        s, t = getattr(o, FR.PUB[x]), getattr(q, FR.PUB[x])
        ch = 1 if x == "m" else 3
        V.ensure_shape(FR.PUB[x] + ": shape", t, shape_of(g, ch, True))
        for k in range(ch):
            V.forall("%s agrees in both layouts" % FR.PUB[x], [g.B, g.L, g.H, g.W], lambda b, l, r, c: (V.iff if x == "m" else V.eq)(
                px(V, s, False, b, l, r, c, k), px(V, t, True, b, l, r, c, k)))


@contract("R05", "copies asked for are copies", product(cf=BOTH, cached=["", "mvnVNp"]), samples=2)
def r05_copy(V, cf, cached):
    o, g, d = any_state(V, cf, True, cached)
    for f in ("to_channels_first", "to_channels_last"):
        q = getattr(o, f)(copy=True)
        h = g.copy(cf=f.endswith("first"))
        V.ensure("copy=True gives a new object", q is not o)
        V.ensure("sharing nothing", not any(V.shares(x, y) for x in tensors(q) for y in tensors(o)))
        FR.check_fresh(V, "copy", q, h)
        r = getattr(o, f)()
        V.ensure("no copy without need", (r is o) == (f.endswith("first") == cf))
    invariant(V, "original", o, g)


def tensors(o):
    return [t for t in (o.rgb_image, o.depth_image, o.intrinsics, o.poses, o.pixel_pos, o.vertex_map, o.normal_map,
                        o.global_vertex_map, o.global_normal_map, o.valid_depth_mask) if t is not None]


# ------------------------------------------------------------------------------------------------ R04
def bounds(V, name, n, form):
    """an index of one of the python forms and (first, count, step) of the positions it selects among n"""
    if form == "all":
        return slice(None), 0, n, 1
    if form == "int":
        i = V.int(name + "i", 0, n - 1)
        return i, i, 1, 1
    if form == "step":
        a, s = V.int(name + "a", 0, n - 1), 2
        return slice(a, None, s), a, V.idiv(n - a + s - 1, s), s
    if form == "mid":
        a = V.int(name + "a", 0, n - 1)
        m = V.int(name + "m", 1, n - a)
        return slice(a, a + m), a, m, 1
    a = None if form == "head" else V.int(name + "a", -n - 2, n + 2)
    b = None if form == "tail" else V.int(name + "b", -n - 2, n + 2)

    def clamp(x):
        if V.split(V.lt(x, 0)):
            return 0 if V.split(V.lt(x + n, 0)) else x + n
        return n if V.split(V.gt(x, n)) else x
    lo = 0 if a is None else clamp(a)
    hi = n if b is None else clamp(b)
    V.assume(V.gt(hi, lo))
    return slice(a, b), lo, hi - lo, 1


def sliced(V, g, d, fb, fl, cf):
    """ghost of the selection: fb, fl = (first, count, step)"""
    (b0, nb, sb), (l0, nl, sl) = fb, fl
    K = V.array_like([nb, 1, 4, 4], lambda b, o, i, j: V.at(g.K, b0 + b * sb, 0, i, j))
    P = None if g.P is None else V.array_like([nb, nl, 4, 4], lambda b, l, i, j: V.at(g.P, b0 + b * sb, l0 + l * sl, i, j))
    return g.copy(B=nb, L=nl, K=K, P=P, rgb=lambda b, l, r, c, k: g.rgb(b0 + b * sb, l0 + l * sl, r, c, k),
                  depth=lambda b, l, r, c: g.depth(b0 + b * sb, l0 + l * sl, r, c))


FORMS = ["all", "int", "mid", "step"]


def check_slice(V, o, g, d, key, fb, fl, pix):
    snaps = {n: V.snap(getattr(o, n)) for n in FR.PRIV.values() if getattr(o, n) is not None}
    q = o[key]
    V.ensure("slicing gives an RGB-D batch", type(q) is type(o) and q is not o)
    h = sliced(V, g, d, fb, fl, g.cf)
    invariant(V, "selection", q, h, pix)
    if pix:
        V.same("selected pixel positions", q.pixel_pos, V.array_like(
            [h.B, h.L, g.H, g.W, 3], lambda b, l, r, c, k: V.at(d["pixel_pos"], fb[0] + b * fb[2], fl[0] + l * fl[2], r, c, k)))
    FR.check_fresh(V, "selection", q, h, "vN", pix)
    check_inputs(V, "indexed object", o, g)
    for n, s in snaps.items():
        V.unchanged("indexed object: " + n, getattr(o, n), s)


@contract("R04", "slices and integers on both axes", product(
    cf=BOTH, poses=[True], cached=["", "mvnVNp"], fb=FORMS, fl=FORMS) + product(
    cf=BOTH, poses=[False], cached=["mvnVNp"], fb=["int", "mid"], fl=["int", "mid"]) + product(
    cf=BOTH, poses=[True], cached=["N"], fb=["head", "tail"], fl=["all"]) + product(
    cf=BOTH, poses=[True], cached=["N"], fb=["int"], fl=["head", "tail"]), samples=2, thorough=product(
    cf=BOTH, poses=BOTH, cached=["mvnVNp", "V", "n"], fb=["both", "head", "tail"], fl=["mid", "all", "int", "both"]), budget=400)
def r04(V, cf, poses, cached, fb, fl):
    o, g, d = any_state(V, cf, poses, cached)
    ib, b0, nb, sb = bounds(V, "b", g.B, fb)
    il, l0, nl, sl = bounds(V, "l", g.L, fl)
    check_slice(V, o, g, d, (ib, il), (b0, nb, sb), (l0, nl, sl), False)


@contract("R04", "a single integer keeps both leading dimensions", product(cf=BOTH, poses=BOTH, cached=["", "vN", "mvnVNp"]), samples=2)
def r04_int(V, cf, poses, cached):
    o, g, d = any_state(V, cf, poses, cached)
    i = V.int("i", 0, g.B - 1)
    check_slice(V, o, g, d, i, (i, 1, 1), (0, g.L, 1), False)


@contract("R04", "given pixel positions are selected with their frames", product(cf=BOTH, fb=["int", "mid"], fl=["int", "mid"]), samples=2)
def r04_pix(V, cf, fb, fl):
    o, g, d = any_state(V, cf, True, "", pix=True)
    ib, b0, nb, sb = bounds(V, "b", g.B, fb)
    il, l0, nl, sl = bounds(V, "l", g.L, fl)
    check_slice(V, o, g, d, (ib, il), (b0, nb, sb), (l0, nl, sl), True)


@contract("R04", "slicing after assignments and layout conversion", product(
    cf=BOTH, op=["set_depth", "set_K", "set_P", "set_P_None", "to_first_", "to_last_"], cached=["", "mvnVNp"]), samples=2)
def r04_after(V, cf, op, cached):
    o, g, d = any_state(V, cf, True, cached)
    g = apply(V, o, g, op)
    i, a = V.int("i", 0, g.B - 1), V.int("a", 0, g.L - 1)
    check_slice(V, o, g, d, (i, slice(a, None)), (i, 1, 1), (a, g.L - a, 1), False)


@contract("R04", "selections can be sliced again", product(cf=BOTH, poses=BOTH, cached=["", "mvnVNp"]), samples=2)
def r04_twice(V, cf, poses, cached):
    o, g, d = any_state(V, cf, poses, cached)
    a = V.int("a", 0, g.L - 1)
    q = o[slice(None), slice(a, None)]
    h = sliced(V, g, d, (0, g.B, 1), (a, g.L - a, 1), cf)
    i, l = V.int("i", 0, g.B - 1), V.int("l", 0, g.L - a - 1)
    check_slice(V, q, h, d, (i, l), (i, 1, 1), (l, 1, 1), False)


@contract("R04", "indices out of range or of another kind raise", product(cf=BOTH, cached=["", "mvnVNp"]), samples=4)
def r04_raise(V, cf, cached):
    o, g, d = any_state(V, cf, True, cached)
    i, l = V.int("i", 0, g.B - 1), V.int("l", 0, g.L - 1)
    hb, hl = V.int("hb", 0, 5) + g.B, V.int("hl", 0, 5) + g.L
    for what, key in (("batch", hb), ("batch in a pair", (hb, l)), ("sequence", (i, hl)), ("both", (hb, hl)),
                      ("negative batch", -hb - 1), ("negative sequence", (i, -hl - 1)), ("empty slice", (i, slice(l, l))),
                      ("slice beyond the end", (slice(hb, None), l)), ("three indices", (i, l, 0)), ("string", "0"), ("None", None),
                      ("list", [0]), ("float", 0.5), ("bare slice", slice(None))):
        if what == "bare slice":
            try:
                q = o[key]
            except IndexError:
                continue
            FR.check_fresh(V, what, q, g, "V")
            continue
        V.raises(what, IndexError, lambda: o[key])
    invariant(V, "indexed object", o, g)


# ------------------------------------------------------------------------------------------------ S06, RGB-D half
HOW = {"clone": lambda o: o.clone(), "detach": lambda o: o.detach(), "to_copy": lambda o: o.to(o.device, copy=True)}


def shake(V, o):
    """change every tensor of the object in place"""
    for t in tensors(o):
        if V.dtype_name(t) == "bool":
            t.fill_(False)
        else:
            t.mul_(3.0)


def held(o):
    return [t for n in list(FR.PRIV.values()) + ["_rgb_image", "_depth_image", "_intrinsics", "_poses"] for t in [getattr(o, n)] if t is not None]


@contract("S06", "copies of RGB-D batches hold the same content in their own memory", product(
    cf=BOTH, poses=BOTH, cached=["", "v", "N", "mvnVNp"], how=list(HOW)), samples=2, thorough=product(
    cf=BOTH, poses=BOTH, cached=["m", "p", "mvp", "vnVN"] + MORE, how=list(HOW)))
def s06_rgbd(V, cf, poses, cached, how):
    o, g, d = any_state(V, cf, poses, cached)
    q = HOW[how](o)
    V.ensure("a new object", q is not o and type(q) is type(o))
    V.ensure("no shared memory", not any(V.shares(x, y) for x in held(q) for y in held(o)))
    invariant(V, "copy", q, g)
    V.ensure("same device", q.device == o.device)
    s = [(t, V.snap(t)) for t in tensors(o)]
    tensors(q)
    V.ensure("no shared memory after reading", not any(V.shares(x, y) for x in held(q) for y in held(o)))
    shake(V, q)
    for t, x in s:
        V.unchanged("original after changing the copy in place", t, x)


@contract("S06", "RGB-D copies taken after any operation", product(
    cf=BOTH, cached=["", "mvnVNp"], op=["set_depth", "set_P", "set_P_None", "to_first_", "to_last_"], how=["clone", "detach"]), samples=2,
          thorough=product(cf=BOTH, cached=["", "mvnVNp"], op=OPS3, how=list(HOW)))
def s06_rgbd_after(V, cf, cached, op, how):
    o, g, d = any_state(V, cf, True, cached)
    g = apply(V, o, g, op)
    q = HOW[how](o)
    V.ensure("no shared memory", not any(V.shares(x, y) for x in held(q) for y in held(o)))
    invariant(V, "copy", q, g)
    h = apply(V, q, g, "set_depth", 1)
    apply(V, q, h, "to_first_" if not g.cf else "to_last_", 2)
    invariant(V, "original after changing the copy", o, g)


@contract("S06", "given pixel positions are copied", product(cf=BOTH, how=list(HOW)), samples=2)
def s06_rgbd_pix(V, cf, how):
    o, g, d = any_state(V, cf, True, "v", pix=True)
    q = HOW[how](o)
    V.same("pixel positions", q.pixel_pos, d["pixel_pos"])
    V.ensure("not shared", not V.shares(q.pixel_pos, o.pixel_pos))
    invariant(V, "copy", q, g, True)


@contract("S06", "moving RGB-D batches nowhere", product(cf=BOTH), samples=3)
def s06_rgbd_to(V, cf):
    o, g, d = any_state(V, cf, True, "V")
    V.ensure("same device gives the object", o.to(o.device) is o)
    invariant(V, "cpu", o.cpu(), g)


@contract("S06", "detached RGB-D batches carry no gradient history", product(cf=BOTH, read=BOTH), samples=3, grad=True)
def s06_rgbd_detach(V, cf, read):
    B, L, H, W = FR.dims(V, 2)
    d = FR.images(V, B, L, H, W, cf, grad=True)
    o = V.make(RGBD, channels_first=cf, **d)
    if read:
        tensors(o)
    q = o.detach()
    V.ensure("no gradient history", not any(V.attached(t) for t in tensors(q) if V.dtype_name(t) != "bool"))
    V.ensure("the original keeps its history", all(V.attached(t) for t in (o.depth_image, o.poses, o.rgb_image, o.vertex_map)))


# ------------------------------------------------------------------------------------------------ R06
FROM = "gradslam.structures.utils:pointclouds_from_rgbdimages"


@contract("R06", "one point per valid pixel in row-major order", product(
    cf=BOTH, poses=BOTH, B=[1, 2], glob=BOTH, cached=["", "mvnVNp"]) + product(cf=BOTH, poses=[True], B=[3], glob=BOTH, cached=[""]), samples=6)
def r06(V, cf, poses, B, glob, cached):
    o, g, d = any_state(V, cf, poses, cached, size=(B, 1, V.dim("H", lo=2), V.dim("W", lo=2)))
    f = fresh_copy(V, o)
    pc = V.fn(FROM)(o, global_coordinates=glob)
    check_clouds(V, pc, g, f, glob, True)
    invariant(V, "frames", o, g)
    V.ensure("frames keep their own memory", not any(V.shares(x, y) for x in (pc.points_list + pc.normals_list + pc.colors_list)
                                                     for y in held(o)))


@contract("R06", "one point per pixel when nothing is filtered", product(
    cf=BOTH, poses=BOTH, B=[1, 2], glob=BOTH, cached=["", "mvnVNp"]), samples=6)
def r06_all(V, cf, poses, B, glob, cached):
    o, g, d = any_state(V, cf, poses, cached, size=(B, 1, V.dim("H", lo=2), V.dim("W", lo=2)))
    f = fresh_copy(V, o)
    pc = V.fn(FROM)(o, global_coordinates=glob, filter_missing_depths=False)
    check_clouds(V, pc, g, f, glob, False)
    invariant(V, "frames", o, g)


@contract("R06", "defaults, sequences and other types", product(cf=BOTH), samples=6)
def r06_misc(V, cf):
    o, g, d = any_state(V, cf, True, "", size=(2, 1, V.dim("H", lo=2), V.dim("W", lo=2)))
    check_clouds(V, V.fn(FROM)(o), g, fresh_copy(V, o), True, True)
    V.raises("not frames", TypeError, lambda: V.fn(FROM)([o]))
    q, h, e = any_state(V, cf, True, "", size=(1, V.dim("L", lo=2), V.dim("H2", lo=2), V.dim("W2", lo=2)), tag="s")
    V.raises("more than one frame", ValueError, lambda: V.fn(FROM)(q))


def fresh_copy(V, o):
    return V.make(RGBD, o.rgb_image.clone(), o.depth_image.clone(), o.intrinsics.clone(),
                  None if o.poses is None else o.poses.clone(), o.channels_first)


def check_clouds(V, pc, g, f, glob, filt):
    """pc holds the pixels of f (a fresh object over the same images), per batch element"""
    v, n = (f.global_vertex_map, f.global_normal_map) if glob else (f.vertex_map, f.normal_map)
    V.ensure("one cloud per frame", V.eq(type(pc).__len__(pc), g.B))
    for b in range(g.B):
        if filt:
            e = V.enum([1, g.H, g.W], lambda l, r, c: g.valid(b, 0, r, c))
            N, at = e.count, lambda k: e.at(k)[1:]
        else:
            N, at = g.H * g.W, lambda k: (V.idiv(k, g.W), V.mod(k, g.W))
        for what, t, src in (("points", pc.points_list, v), ("normals", pc.normals_list, n), ("colors", pc.colors_list, f.rgb_image)):
            V.ensure_shape(what + ": shape", t[b], [N, 3])
            for k in range(3):
                V.forall("%s are those of the pixel" % what, [N], lambda i: V.eq(
                    V.at(t[b], i, k), px(V, src, g.cf, b, 0, *at(i), k)))
    V.ensure("no other attributes", not pc.has_features)
