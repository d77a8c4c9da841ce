"""Ghost model of a batch of RGB-D sequences, shared by the contracts of rgbd and slam."""

RGBD = "gradslam.structures.rgbdimages:RGBDImages"
KINV = "gradslam.geometry.projutils:inverse_intrinsics"
MAPS = ("vertex_map", "normal_map", "global_vertex_map", "global_normal_map")
PRIV = {"v": "_vertex_map", "n": "_normal_map", "V": "_global_vertex_map", "N": "_global_normal_map", "m": "_valid_depth_mask",
        "p": "_pixel_pos"}


class Frames:
    """what an RGBDImages object stands for: rgb(b,l,r,c,k), depth(b,l,r,c), K tensor (B,1,4,4), P tensor (B,L,4,4) or None"""

    def __init__(self, V, B, L, H, W, rgb, depth, K, P, cf, Kinv=None):
        self.V, self.B, self.L, self.H, self.W = V, B, L, H, W
        self.rgb, self.depth, self.K, self.P, self.cf = rgb, depth, K, P, cf
        self.Kinv = Kinv if Kinv is not None else V.fn(KINV)(K)
        self.vread = None

    def copy(self, **kw):
        d = dict(V=self.V, B=self.B, L=self.L, H=self.H, W=self.W, rgb=self.rgb, depth=self.depth, K=self.K, P=self.P,
                 cf=self.cf, Kinv=None if "K" in kw else self.Kinv)
        d.update(kw)
        return Frames(**d)

    # ------------------------------------------------ oracle
    def valid(self, b, l, r, c):
        return self.V.gt(self.depth(b, l, r, c), 0)

    def pix(self, r, c):
        return (c, r, 1)

    def vertex(self, b, l, r, c):
        V = self.V
        px, d = self.pix(r, c), self.depth(b, l, r, c)
        return [V.ite(V.gt(d, 0), (lambda j: lambda: sum_(V.at(self.Kinv, b, 0, j, m) * px[m] for m in range(3)) * d)(j), 0)
                for j in range(3)]

    def gvertex(self, b, l, r, c, v=None):
        V = self.V
        v = v or self.vertex(b, l, r, c)
        if self.P is None:
            return v
        return [V.ite(self.valid(b, l, r, c), (lambda j: lambda: sum_(V.at(self.P, b, l, j, m) * v[m] for m in range(3)) +
                                               V.at(self.P, b, l, j, 3))(j), 0) for j in range(3)]

    def crossp(self, b, l, r, c, vert):
        """cross product of the forward differences; vert(b, l, r, c) -> 3 values"""
        V = self.V
        c0 = V.min(c, self.W - 2)
        r0 = V.min(r, self.H - 2)
        dh = [x - y for x, y in zip(vert(b, l, r, c0 + 1), vert(b, l, r, c0))]
        dv = [x - y for x, y in zip(vert(b, l, r0 + 1, c), vert(b, l, r0, c))]
        return [dh[1] * dv[2] - dh[2] * dv[1], dh[2] * dv[0] - dh[0] * dv[2], dh[0] * dv[1] - dh[1] * dv[0]]

    def normal(self, b, l, r, c, vert):
        V = self.V
        n = self.crossp(b, l, r, c, vert)
        s = V.norm(n)
        return [V.ite(V.and_(self.valid(b, l, r, c), V.ne(s, 0)), (lambda j: lambda: V.div(n[j], s))(j), 0) for j in range(3)]


def sum_(xs):
    r = None
    for x in xs:
        r = x if r is None else r + x
    return r


def shape_of(g, ch, cf=None):
    cf = g.cf if cf is None else cf
    return [g.B, g.L, ch, g.H, g.W] if cf else [g.B, g.L, g.H, g.W, ch]


def px(V, t, cf, b, l, r, c, k):
    return V.at(t, b, l, k, r, c) if cf else V.at(t, b, l, r, c, k)


def images(V, B, L, H, W, cf, tag="", poses=True, dlo=None, K=None, P=None, rigid=True, skew=False, grad=False):
    """input tensors"""
    if grad:
        rg = dict(requires_grad=True)
        K, P = V.tensor(tag + "K", [B, 1, 4, 4], lo=0.5, **rg), V.tensor(tag + "P", [B, L, 4, 4], **rg)
    else:
        rg = {}
    sh = (lambda ch: [B, L, ch, H, W] if cf else [B, L, H, W, ch])
    d = dict(rgb_image=V.tensor(tag + "rgb", sh(3), **rg),
             depth_image=V.tensor(tag + "depth", sh(1), special=[0.0, 0.0, -1.0], scale=3.0, **rg),
             intrinsics=K if K is not None else V.pinhole(tag + "K", [B, 1], skew=skew))
    if poses:
        d["poses"] = P if P is not None else (V.rigid(tag + "P", [B, L]) if rigid else V.tensor(tag + "P", [B, L, 4, 4]))
    return d


def ghost(V, B, L, H, W, cf, d):
    rgb, dep = d["rgb_image"], d["depth_image"]
    return Frames(V, B, L, H, W, lambda b, l, r, c, k: px(V, rgb, cf, b, l, r, c, k),
                  lambda b, l, r, c: px(V, dep, cf, b, l, r, c, 0), d["intrinsics"], d.get("poses"), cf)


def dims(V, lo=1, B=None, L=None):
    B = V.dim("B") if B is None else B
    L = V.dim("L") if L is None else L
    return B, L, V.dim("H", lo=lo), V.dim("W", lo=lo)


def build(V, cf, poses, lo=1, B=None, L=None, tag="", size=None, **kw):
    B, L, H, W = size or dims(V, lo, B, L)
    d = images(V, B, L, H, W, cf, tag, poses, **kw)
    return V.make(RGBD, channels_first=cf, **d), ghost(V, B, L, H, W, cf, d), d


# ------------------------------------------------------------------------------------------------ checking
def check_mask(V, what, m, g):
    V.ensure_shape(what + ": shape", m, shape_of(g, 1))
    V.forall(what + ": true exactly where depth is positive", [g.B, g.L, g.H, g.W],
             lambda b, l, r, c: V.iff(px(V, m, g.cf, b, l, r, c, 0), g.valid(b, l, r, c)))


def check_image(V, what, t, g, val, ch=3, tol=None):
    V.ensure_shape(what + ": shape", t, shape_of(g, ch))
    for k in range(ch):
        V.forall("%s" % what, [g.B, g.L, g.H, g.W],
                 lambda b, l, r, c: V.eq(px(V, t, g.cf, b, l, r, c, k), val(b, l, r, c)[k], tol))


def check_vertex(V, what, t, g):
    check_image(V, what + ": vertex map back-projects the pixel", t, g, g.vertex)


def check_gvertex(V, what, t, g):
    check_image(V, what + ": global vertex map applies the frame's pose", t, g, lambda *i: g.gvertex(*i))


def check_normal(V, what, t, g, vert=None):
    """vert: reader of the vertex map (defaults to the oracle)"""
    vert = vert or g.vertex
    V.ensure_shape(what + ": normal map: shape", t, shape_of(g, 3))
    for k in range(3):
        def f(b, l, r, c):
            if V.symbolic:
                return V.eq(px(V, t, g.cf, b, l, r, c, k), g.normal(b, l, r, c, vert)[k])
            n = g.crossp(b, l, r, c, vert)
            ok = V.or_(V.not_(g.valid(b, l, r, c)), V.clear(V.norm(n), 0, 1e-2))
            return V.implies(ok, lambda: V.eq(px(V, t, g.cf, b, l, r, c, k), g.normal(b, l, r, c, vert)[k], 2e-3))
        V.forall(what + ": normal map is the normalised cross product of forward differences", [g.B, g.L, g.H, g.W], f)


def check_gnormal(V, what, t, g, norm):
    """norm: reader of the local normal map"""
    V.ensure_shape(what + ": global normal map: shape", t, shape_of(g, 3))
    for k in range(3):
        def f(b, l, r, c):
            n = norm(b, l, r, c)
            w = n[k] if g.P is None else sum_(V.at(g.P, b, l, k, m) * n[m] for m in range(3))
            return V.eq(px(V, t, g.cf, b, l, r, c, k), w)
        V.forall(what + ": global normal map rotates the local normals", [g.B, g.L, g.H, g.W], f)


def reader(V, t, cf):
    return lambda b, l, r, c: [px(V, t, cf, b, l, r, c, k) for k in range(3)]


def check_inputs(V, what, o, g):
    V.ensure("%s: layout flag" % what, V.iff(o.channels_first, g.cf))
    V.ensure("%s: shape" % what, V.and_(*[V.eq(x, y) for x, y in zip(o.shape, (g.B, g.L, g.H, g.W))]) and len(o.shape) == 4)
    V.ensure("%s: length" % what, V.eq(type(o).__len__(o), g.B))
    check_image(V, what + ": rgb image", o.rgb_image, g, lambda b, l, r, c: [g.rgb(b, l, r, c, k) for k in range(3)])
    check_image(V, what + ": depth image", o.depth_image, g, lambda b, l, r, c: [g.depth(b, l, r, c)], 1)
    V.same(what + ": intrinsics", o.intrinsics, g.K)
    V.ensure("%s: has poses" % what, V.iff(o.has_poses, g.P is not None))
    if g.P is not None and o.poses is not None:
        V.same(what + ": poses", o.poses, g.P)
    else:
        V.ensure("%s: poses" % what, (g.P is None) == (o.poses is None))


def check_all(V, what, o, g, order="mvnVN", normals=True):
    """everything readable equals what a fresh object over the same images would give"""
    check_inputs(V, what, o, g)
    got = {}
    for x in order:
        if x == "m":
            check_mask(V, what + ": valid-depth mask", o.valid_depth_mask, g)
        elif x == "v":
            check_vertex(V, what, o.vertex_map, g)
        elif x == "V":
            check_gvertex(V, what, o.global_vertex_map, g)
        elif x == "n" and normals:
            check_normal(V, what, o.normal_map, g, None if V.symbolic else reader(V, o.vertex_map, g.cf))
        elif x == "N" and normals:
            N = o.global_normal_map
            check_gnormal(V, what, N, g, reader(V, o.normal_map, g.cf))
    return got


# ------------------------------------------------------------------------------------------------ arbitrary states
def fresh(V, o, pix=False):
    """a new object over the current images, intrinsics and poses of o"""
    return V.make(RGBD, o.rgb_image, o.depth_image, o.intrinsics, o.poses, o.channels_first, **(
        {"pixel_pos": o.pixel_pos} if pix else {}))


PUB = {"v": "vertex_map", "n": "normal_map", "V": "global_vertex_map", "N": "global_normal_map", "m": "valid_depth_mask"}


def modular(V):
    """calls of inverse_intrinsics by its contract only: some function of each matrix (which one is G03's subject)"""
    if not V.symbolic:
        return
    V.stub(KINV, lambda orig, K, *a, **k: V.matrix_function("Kinv", K))


def any_state(V, cf, poses, cached, lo=2, size=None, tag="", pix=False, **kw):
    """an arbitrary object satisfying the class invariant: every cached map is the one a new object over the same
    inputs computes; cached: subset of 'vnVNmp'"""
    modular(V)
    size = size or dims(V, lo)
    B, L, H, W = size
    d = images(V, B, L, H, W, cf, tag, poses, **kw)
    g = ghost(V, B, L, H, W, cf, d)
    if pix:
        d = dict(d, pixel_pos=V.tensor(tag + "pix", [B, L, H, W, 3]))
    o, f = V.make(RGBD, channels_first=cf, **d), V.make(RGBD, channels_first=cf, **d)
    if not all(x in vars(o) for x in PRIV.values()):
        V.unsupported("RGBDImages no longer has the fields its invariant is stated on")
    for x in cached:
        if x != "p":
            setattr(o, PRIV[x], getattr(f, PUB[x]).clone())
    if "p" in cached and not pix:
        f.vertex_map
        o._pixel_pos = f.pixel_pos.clone()
    return o, g, d


def invariant(V, what, o, g, pix=False):
    """class invariant: every cached map is the one a new object over the current inputs computes"""
    check_inputs(V, what, o, g)
    f = fresh(V, o, pix)
    for k, name in PRIV.items():
        t = getattr(o, name)
        if t is None or k == "p" and pix:
            continue
        if k == "p":
            f.vertex_map
            V.same(what + ": pixel positions", t, f.pixel_pos)
        else:
            V.same("%s: %s is that of a new object" % (what, PUB[k]), t, getattr(f, PUB[k]))


def check_fresh(V, what, o, g, order="mvnVN", pix=False):
    """everything readable equals what a new object over the same inputs gives"""
    check_inputs(V, what, o, g)
    f = fresh(V, o, pix)
    for k in order:
        V.same("%s: %s is that of a new object" % (what, PUB[k]), getattr(o, PUB[k]), getattr(f, PUB[k]))
    check_inputs(V, what, o, g)
