"""Contracts of slam (M01..M07)."""
from engine.vapi import contract, product
from contracts import frames as FR
from contracts import clouds as CL
from contracts.frames import RGBD, sum_, px

BOTH = [True, False]
U = "gradslam.slam.fusionutils:"
ACTIVE, SIMILAR, BEST, FIND = U + "find_active_map_points", U + "find_similar_map_points", U + "find_best_unique_correspondences", U + "find_correspondences"
FUSE, AGG, UPDATE = U + "fuse_with_map", U + "update_map_aggregate", U + "update_map_fusion"
BIG = 2 ** 40       # sizes: beyond single-precision integers


def reps(s, normals="", colors="", features=""):
    return {"points": s, "normals": normals or "-", "colors": colors or "-", "features": features or "-"}


def frame(V, B, cached="", poses=True, cf=False, tag="", size=None, **kw):
    H, W = size or (V.dim("H", lo=2), V.dim("W", lo=2))
    return FR.any_state(V, cf, poses, cached, size=(B, 1, H, W), tag=tag, **kw)


def mapped(V, B, cached="", **kw):
    """a frame and its maps. Proof: the maps are arbitrary tensors (what they contain is the subject of R01-R03, and the
    functions under contract here use a frame only through its readers); runs: a real frame."""
    if not V.symbolic:
        o, g, _ = frame(V, B, cached, **kw)
        f = FR.fresh(V, o)
        return o, g, {k: getattr(f, FR.PUB[k]) for k in "vVnNm"}
    o, g, _ = frame(V, B, "", **kw)
    if not all(x in vars(o) for x in FR.PRIV.values()):
        V.unsupported("RGBDImages no longer has the fields its invariant is stated on")
    maps = {k: V.tensor("map_" + FR.PUB[k], [g.B, 1, g.H, g.W, 3]) for k in "vVnN"}
    for k, t in maps.items():
        setattr(o, FR.PRIV[k], t)
    maps["m"] = FR.fresh(V, o).valid_depth_mask
    g.snaps = [(FR.PUB[k], FR.PRIV[k], t, V.snap(t)) for k, t in maps.items() if k != "m"]
    return o, g, maps


def frame_kept(V, what, o, g):
    """the frame was not modified"""
    FR.check_inputs(V, what, o, g)
    for pub, priv, t, s in getattr(g, "snaps", ()):
        V.ensure("%s: keeps its %s" % (what, pub), getattr(o, priv) is t)
        V.unchanged("%s: %s" % (what, pub), t, s)


def by_cloud(V, B, b, f):
    """f(cloud) for a cloud index that may be an unknown number"""
    if isinstance(b, int):
        return f(b)
    r = f(B - 1)
    for q in reversed(range(B - 1)):
        r = V.ite(V.eq(b, q), (lambda q: lambda: f(q))(q), r)
    return r


# ------------------------------------------------------------------------------------------------ M01
def camera(V, g, b, p):
    """coordinates of a world point in the camera of batch element b"""
    d = [p[k] - V.at(g.P, b, 0, k, 3) for k in range(3)]
    return [sum_([V.at(g.P, b, 0, j, k) * d[j] for j in range(3)]) for k in range(3)]


def projected(V, g, b, p):
    c = camera(V, g, b, p)
    u, v = [sum_([V.at(g.K, b, 0, r, k) * c[k] for k in range(3)] + [V.at(g.K, b, 0, r, 3)]) for r in (0, 1)]
    return c[2], V.div(u, c[2]), V.div(v, c[2])


def visible(V, g, b, p, half=None):
    z, u, v = projected(V, g, b, p)
    lo = V.frac(-1e-3)
    return V.and_(V.gt(z, 0), V.gt(u, lo), V.lt(u, g.W - V.frac(0.999)), V.gt(v, lo), V.lt(v, g.H - V.frac(0.999)))


def in_view(V, o, g):
    """concrete runs: map points around the frame's own surface, some hidden, some outside"""
    def fill(data, N):
        for b in range(g.B):
            for i in range(int(N[b])):
                if V.rng.random() < 0.25:
                    continue
                u, v, d = V.rng.uniform(-0.7, float(g.W) - 0.3), V.rng.uniform(-0.7, float(g.H) - 0.3), V.rng.uniform(0.3, 3)
                if V.rng.random() < 0.3:
                    u, v = float(round(u)), float(round(v))
                if V.rng.random() < 0.15:
                    d = -d
                x = V.torch.linalg.inv(g.K[b, 0].double()) @ V.torch.tensor([u, v, 1.0, 0.0]).double() * d
                x[3] = 1
                data["points"][b][i] = (g.P[b, 0].double() @ x)[:3].float()
    return fill


@contract("M01", "active points are the visible ones at their pixels", [dict(B=b, rep=r, cached=c, maps="mvnVN" if c else "") for b in (1, 2, 3)
                                                                          for r, c in (("L", True), ("L", False), ("P", True), ("B", False))],
          samples=40, exact_casts=True, budget=240)
def m01(V, B, rep, cached, maps):
    o, g, _ = frame(V, B, maps)
    pc, gc, _ = CL.any_state(V, B, reps(rep), cached, fill=None if V.symbolic else in_view(V, o, g))
    if V.split(V.eq(gc.Nmax, 0)):
        return empty_map(V, pc, o)
    pt = lambda b, n: [by_cloud(V, B, b, lambda q: gc.val["points"](q, n, k)) for k in range(3)]
    seen = lambda b, n: V.and_(CL.pick_n(V, gc, b, n), V.implies(CL.pick_n(V, gc, b, n), lambda: visible(V, g, b, pt(b, n))))
    if not V.symbolic:
        for b in range(B):
            for n in range(int(gc.N[b])):
                z, u, v = projected(V, g, b, pt(b, n))
                V.assume(V.clear(z, 0, 1e-3) and all(V.clear(x, e, 2e-3) for x, e in (
                    (u, -1e-3), (v, -1e-3), (u, g.W - 0.999), (v, g.H - 0.999))))
    e = V.enum([B, gc.Nmax], seen)
    out = V.fn(ACTIVE)(pc, o)
    V.ensure_shape("one row per visible point", out, [e.count, 4])
    V.ensure("rows are integers", V.dtype_name(out) == "int64")
    V.forall("batch index", [e.count], lambda q: V.eq(V.at(out, q, 0), e.at(q)[0]))
    V.forall("point index", [e.count], lambda q: V.eq(V.at(out, q, 1), e.at(q)[1]))
    for what, col, k, size in (("image row", 2, 2, g.H), ("image column", 3, 1, g.W)):
        def f(q):
            b, n = e.at(q)
            x = projected(V, g, b, pt(b, n))[k]
            if V.symbolic:
                return V.eq(V.at(out, q, col), V.min(V.max(V.round(x), 0), size - 1))
            return V.and_(V.le(V.abs(V.at(out, q, col) - x), 0.502), V.le(0, V.at(out, q, col)), V.lt(V.at(out, q, col), size))
        V.forall(what + " is that of the projection", [e.count], f)
    CL.check_list(V, "map not modified", "points", pc.points_list, gc)
    FR.check_inputs(V, "frame not modified", o, g)


def empty_map(V, pc, o):
    out = V.fn(ACTIVE)(pc, o)
    V.ensure_shape("an empty map has no active points", out, [0, 4])
    V.ensure("rows are integers", V.dtype_name(out) == "int64")


# ------------------------------------------------------------------------------------------------ candidate tables
class Table:
    """candidate correspondences: rows (batch, point, row, column); optionally at most one row per point / per pixel"""

    def __init__(self, V, g, N, m, per_point=False, per_pixel=False, tag="tab"):
        self.V, self.m, self.B, self.g, self.N = V, m, g.B, g, N
        if V.symbolic:
            self.inv, self.pinv = V.relation("row_of_point", 2), V.relation("row_of_pixel", 3)

            def ok(V, get, i):
                cs = [V.le(0, get(0)), V.lt(get(0), g.B), V.le(0, get(1)), V.le(0, get(2)), V.lt(get(2), g.H), V.le(0, get(3)), V.lt(get(3), g.W)]
                cs += [V.implies(V.eq(get(0), b), V.lt(get(1), N[b])) for b in range(g.B)]
                if per_point:
                    cs.append(V.eq(self.inv(get(0), get(1)), i))
                if per_pixel:
                    cs.append(V.eq(self.pinv(get(0), get(2), get(3)), i))
                return V.and_(*cs)
            self.t = V.tensor(tag, [m, 4], "int64", row=ok, nrow=1)
            V.forall_fact([m], lambda i: ok(V, lambda k: V.at(self.t, i, k), i))
            return
        rows, points, pixels = [], set(), set()
        for _ in range(int(m)):
            b = V.rng.randrange(g.B)
            if int(N[b]) == 0:
                continue
            r = (b, V.rng.randrange(int(N[b])), V.rng.randrange(int(g.H)), V.rng.randrange(int(g.W)))
            if V.rng.random() < 0.4 and rows:       # several candidates of one pixel
                r = r[:2] + [x for x in rows if x[0] == b][-1][2:] if any(x[0] == b for x in rows) else r
            if per_point and r[:2] in points or per_pixel and (b,) + r[2:] in pixels:
                continue
            points.add(r[:2])
            pixels.add((b,) + r[2:])
            rows.append(r)
        self.m = len(rows)
        self.rows = rows
        self.t = V.torch.tensor(rows, dtype=V.torch.int64).reshape(len(rows), 4)

    def row(self, i):
        return [self.V.at(self.t, i, k) for k in range(4)]

    def of_point(self, b, n):
        """(is there a row of this point, which)"""
        V = self.V
        if not V.symbolic:
            k = [i for i, r in enumerate(self.rows) if r[0] == b and r[1] == n]
            return bool(k), k[0] if k else 0
        k = self.inv(b, n)
        return V.and_(V.le(0, k), V.lt(k, self.m), V.eq(V.at(self.t, k, 0), b), V.eq(V.at(self.t, k, 1), n)), k

    def of_pixel(self, b, r, c):
        V = self.V
        if not V.symbolic:
            return any((x[0], x[2], x[3]) == (b, r, c) for x in self.rows)
        k = self.pinv(b, r, c)
        return V.and_(V.le(0, k), V.lt(k, self.m), V.eq(V.at(self.t, k, 0), b), V.eq(V.at(self.t, k, 2), r), V.eq(V.at(self.t, k, 3), c))


def point(V, gc, a, b, n):
    return [by_cloud(V, gc.B, b, lambda q: gc.val[a](q, n, k)) for k in range(gc.w(a))]


def near_frame(V, o, g, tab):
    """concrete runs: candidates that lie close to the frame's surface at their pixel, with about its normal"""
    f = FR.fresh(V, o)

    def fill(data, N):
        for b, n, r, c in tab.rows:
            for a, t in (("points", f.global_vertex_map), ("normals", f.global_normal_map)):
                if a in data and V.rng.random() < 0.8:
                    x = px(V, t, g.cf, b, 0, r, c, 0), px(V, t, g.cf, b, 0, r, c, 1), px(V, t, g.cf, b, 0, r, c, 2)
                    data[a][b][n] = V.torch.tensor(x) + V.torch.randn(3) * V.rng.choice([0.0, 0.1, 0.5])
    return fill


# ------------------------------------------------------------------------------------------------ M02
@contract("M02", "exactly the close and similarly oriented candidates are kept", product(B=[1, 2], rep=["P"], ints=BOTH) + [
    dict(B=1, rep="L", ints=True), dict(B=3, rep="P", ints=False)], samples=120, budget=240, thorough=product(B=[1, 2, 3], rep=["L", "P"], ints=BOTH))
def m02(V, B, rep, ints):
    o, g, maps = mapped(V, B, "mvnVN" if ints else "")
    m = V.dim("m", lo=0)
    N = CL.sizes(V, B)
    tab = Table(V, g, N, m, per_point=True)
    pc, gc, _ = CL.any_state(V, B, reps(rep, rep), True, N=N, fill=None if V.symbolic else near_frame(V, o, g, tab))
    dist, dot = (1, 0) if ints else (V.real("dist_th", lo=0.1, hi=2), V.real("dot_th", lo=-0.5, hi=0.95))
    vm, nm = maps["V"], maps["N"]
    snap = V.snap(tab.t)
    if V.split(V.or_(V.eq(gc.Nmax, 0), V.eq(tab.m, 0))):
        out, mask = V.fn(SIMILAR)(pc, o, tab.t, dist, dot)
        V.ensure_shape("nothing kept", out, [0, 4])
        V.ensure_shape("empty mask", mask, [0])
        return

    def measures(i):
        b, n, r, c = tab.row(i)
        p, q = point(V, gc, "points", b, n), point(V, gc, "normals", b, n)
        return (V.norm([px(V, vm, g.cf, b, 0, r, c, k) - p[k] for k in range(3)]),
                sum_([px(V, nm, g.cf, b, 0, r, c, k) * q[k] for k in range(3)]))

    def keep(i):
        d, s = measures(i)
        return V.and_(V.lt(d, dist), V.gt(s, dot))
    if not V.symbolic:
        V.assume(all(V.clear(measures(i)[0], dist, 1e-3) and V.clear(measures(i)[1], dot, 1e-3) for i in range(tab.m)))
    e = V.enum([tab.m], keep)
    out, mask = V.fn(SIMILAR)(pc, o, tab.t, dist, dot)
    V.ensure_shape("one entry per candidate in the mask", mask, [tab.m])
    V.forall("the mask marks exactly the kept candidates", [tab.m], lambda i: V.iff(V.at(mask, i), keep(i)))
    V.ensure_shape("one row per kept candidate", out, [e.count, 4])
    V.ensure("rows are integers", V.dtype_name(out) == "int64")
    for k in range(4):
        V.forall("the rows are the kept candidates in order", [e.count], lambda q: V.eq(V.at(out, q, k), V.at(tab.t, e.at(q)[0], k)))
    V.unchanged("candidates not modified", tab.t, snap)
    for a in ("points", "normals"):
        CL.check_list(V, "map not modified", a, getattr(pc, a + "_list"), gc)
    frame_kept(V, "frame not modified", o, g)


# ------------------------------------------------------------------------------------------------ M03
@contract("M03", "one candidate per pixel, the best", [dict(B=1, rep="L"), dict(B=1, rep="P"), dict(B=2, rep="P"), dict(B=3, rep="P")], samples=80, exact_casts=True, budget=240)
def m03(V, B, rep):
    o, g, maps = mapped(V, B, "mvnVN" if rep == "L" else "")
    m = V.dim("m", lo=0, hi=None if V.symbolic else 14)
    N = CL.sizes(V, B)
    tab = Table(V, g, N, m)
    pc, gc, _ = CL.any_state(V, B, reps(rep, features=rep), True, C=1, N=N, kw={"features": dict(lo=0, special=[0.0, 1.0, 2.0])},
                             fill=None if V.symbolic else duplicates(V))
    vm = maps["V"]
    snap = V.snap(tab.t)
    out = V.fn(BEST)(pc, o, tab.t)
    V.ensure("rows are integers", V.dtype_name(out) == "int64")
    count = V.shape(out)[0]
    V.ensure_shape("rows of four", out, [count, 4])

    def pixel(t, i):
        return [V.at(t, i, k) for k in (0, 2, 3)]

    def same(x, y):
        return V.and_(*[V.eq(a, b) for a, b in zip(x, y)])

    def conf(t, i):
        return point(V, gc, "features", V.at(t, i, 0), V.at(t, i, 1))[0]

    def dist(t, i):
        p = point(V, gc, "points", V.at(t, i, 0), V.at(t, i, 1))
        v = [px(V, vm, g.cf, V.at(t, i, 0), 0, V.at(t, i, 2), V.at(t, i, 3), k) for k in range(3)]
        return sum_([(a - b) * (a - b) for a, b in zip(p, v)])

    def not_better(i, q):
        """candidate i does not beat the chosen row q"""
        ci, cq, di, dq = conf(tab.t, i), conf(out, q), dist(tab.t, i), dist(out, q)
        tol = 0 if V.symbolic else 1e-5
        near = V.eq(di, dq) if V.symbolic else abs(di - dq) < 1e-9
        return V.and_(V.le(ci, cq + tol * abs(cq) if tol else cq), V.implies(V.eq(ci, cq) if V.symbolic else ci == cq, lambda: V.and_(
            V.le(dq, di + tol), V.implies(near, lambda: V.le(V.at(out, q, 1), V.at(tab.t, i, 1))))))
    V.forall("every row is a candidate", [count], lambda q: V.some([tab.m], lambda i: V.and_(
        *[V.eq(V.at(tab.t, i, k), V.at(out, q, k)) for k in range(4)]), V.hint_sources(q)))

    V.forall("every pixel with a candidate has a row that no candidate of the pixel beats", [tab.m], lambda i: V.some([count], lambda q: V.and_(
        same(pixel(out, q), pixel(tab.t, i)), not_better(i, q)), V.hint_candidates(i)))

    def once(q, r):
        V.hint_sources(q), V.hint_sources(r)
        return V.implies(V.lt(q, r), lambda: V.not_(same(pixel(out, q), pixel(out, r))))
    V.forall("one row per pixel", [count, count], once)
    V.unchanged("candidates not modified", tab.t, snap)
    CL.check_list(V, "map not modified", "points", pc.points_list, gc)
    CL.check_list(V, "map not modified", "features", pc.features_list, gc)
    frame_kept(V, "frame not modified", o, g)


def duplicates(V):
    """concrete runs: points at the same place, so that ties are decided by the index"""
    def fill(data, N):
        for t in data["points"]:
            for i in range(1, len(t)):
                if V.rng.random() < 0.4:
                    t[i] = t[V.rng.randrange(i)]
    return fill


# ------------------------------------------------------------------------------------------------ M04
ALPHA = U + "get_alpha"


def gaussian(V, x, sigma, eps=1e-7):
    e = V.exp(-V.div(sum_([t * t for t in x]), 2 * (sigma * sigma)))
    return V.min(V.max(e, V.frac(eps)), V.frac(1.01))


def weight(V, g, maps, sigma, b, r, c):
    """confidence of a pixel: Gaussian of the distance of its vertex from the camera, clamped"""
    if "alpha" in maps:
        return V.at(maps["alpha"], b, 0, r, c, 0)
    return gaussian(V, [px(V, maps["v"], g.cf, b, 0, r, c, k) for k in range(3)], sigma)


def modular_weights(V, g, maps, spread):
    """proof: get_alpha is replaced by its contract (a number in its range for every vertex); it is under contract itself"""
    if not V.symbolic:
        return

    def alpha(orig, points, sigma, dim=-1, keepdim=False, eps=1e-7):
        if "alpha" in maps or len(points.shape) != 5 or dim not in (4, -1) or not keepdim or eps != 1e-7:
            V.unsupported("weights are computed in a different way")
        V.ensure("the spread is the one asked for", V.eq(sigma, spread))
        V.ensure_shape("weights of the vertices", points, [g.B, 1, g.H, g.W, 3])
        V.forall("weights of the vertices", [g.B, g.H, g.W], lambda b, r, c: V.and_(*[
            V.eq(V.at(points, b, 0, r, c, k), V.at(maps["v"], b, 0, r, c, k)) for k in range(3)]))
        maps["alpha"] = V.tensor("alpha", [g.B, 1, g.H, g.W, 1], lo=1e-7, hi=1.01)
        return maps["alpha"]
    V.stub(ALPHA, alpha)


@contract("M04", "weight of a point is the clamped Gaussian", [dict(rank=r, dim=d, keep=k, tens=t) for r, d, k, t in (
    (1, -1, False, False), (2, -1, True, True), (3, 1, False, True), (5, 4, True, False), (4, 0, True, False))])
def m04a(V, rank, dim, keep, tens):
    lead = [V.dim("d%d" % i, lo=1) for i in range(rank - 1)]
    ax = dim % rank
    p = V.tensor("p", lead[:ax] + [3] + lead[ax:])
    given = V.tensor("sigma", [], lo=0.3, hi=1.5) if tens else V.real("sigma", lo=0.3, hi=1.5)
    s = V.at(given) if tens else given
    kw = dict(dim=dim, keepdim=keep)
    if keep:
        kw["eps"] = 1e-3
    snap = V.snap(p)
    out = V.fn(ALPHA)(p, given, **kw)
    V.ensure_shape("one weight per point", out, lead[:ax] + ([1] if keep else []) + lead[ax:])
    V.forall("clamped Gaussian of the distance from the camera", lead, lambda *ix: V.eq(
        V.at(out, *(ix[:ax] + ((0,) if keep else ()) + ix[ax:])),
        gaussian(V, [V.at(p, *(ix[:ax] + (k,) + ix[ax:])) for k in range(3)], s, kw.get("eps", 1e-7))))
    V.unchanged("points not modified", p, snap)


def pixel_values(V, o, g, maps, sigma, b, r, c):
    return {"points": [px(V, maps["V"], g.cf, b, 0, r, c, k) for k in range(3)],
            "normals": [px(V, maps["N"], g.cf, b, 0, r, c, k) for k in range(3)],
            "colors": [g.rgb(b, 0, r, c, k) for k in range(3)],
            "features": [weight(V, g, maps, sigma, b, r, c)]}


class Fused:
    """what the map must be after fusing a frame through a table"""

    def __init__(self, V, o, g, maps, gc, tab, sigma):
        self.V, self.o, self.g, self.maps, self.gc, self.tab, self.sigma = V, o, g, maps, gc, tab, sigma
        if V.split(V.eq(gc.Nmax, 0)):
            V.assume(V.eq(tab.m, 0))        # a row names a map point
            self.some = False
        else:
            self.some = not V.split(V.eq(tab.m, 0))
        self.new = [V.enum([1, g.H, g.W], (lambda b: lambda l, r, c: V.and_(
            V.at(maps["m"], b, 0, r, c, 0), V.not_(tab.of_pixel(b, r, c)) if self.some else True))(b)) for b in range(g.B)]

    def value(self, a, b, n, k):
        V, gc = self.V, self.gc
        if not self.some:
            return gc.val[a](b, n, k)
        hit, i = self.tab.of_point(b, n)
        old, w = gc.val[a](b, n, k), gc.val["features"](b, n, 0)

        def fused():
            _, _, r, c = self.tab.row(i)
            f = pixel_values(V, self.o, self.g, self.maps, self.sigma, b, r, c)
            if a == "features":
                return old + f[a][k]
            return V.div(w * old + f["features"][0] * f[a][k], w + f["features"][0])
        return V.ite(hit, fused, old)

    def count(self, b):
        return self.gc.N[b] + self.new[b].count

    def check(self, what, pc):
        V, gc = self.V, self.gc
        for a in CL.ATTRS:
            xs = getattr(pc, a + "_list")
            V.ensure("%s: one list of %s per cloud" % (what, a), len(xs) == gc.B)
            for b in range(gc.B):
                C = 1 if a == "features" else 3
                V.ensure_shape("%s: %s: the map points and the new ones" % (what, a), xs[b], [self.count(b), C])
                for k in range(C):
                    V.forall("%s: %s of the map points" % (what, a), [gc.N[b]], lambda n: V.eq(V.at(xs[b], n, k), self.value(a, b, n, k)))
                    V.forall("%s: %s of the new points" % (what, a), [self.new[b].count], lambda q: V.eq(
                        V.at(xs[b], gc.N[b] + q, k), pixel_values(V, self.o, self.g, self.maps, self.sigma, b, *self.new[b].at(q)[1:])[a][k]))


def map_and_table(V, B, rep, cached, inrep=True):
    o, g, maps = mapped(V, B, "mvnVN" if cached else "")
    m = V.dim("m", lo=0, hi=None if V.symbolic else 14)
    N = CL.sizes(V, B)
    tab = Table(V, g, N, m, per_point=True, per_pixel=True)
    pc, gc, _ = CL.any_state(V, B, reps(rep, rep, rep, rep), True, C=1, N=N, kw={"features": dict(lo=0, special=[0.0, 1.0])})
    return o, g, maps, tab, pc, gc


@contract("M04", "fusion averages the matched and appends the others", [dict(B=1, rep="P", inplace=True), dict(B=1, rep="L", inplace=False),
                                                                           dict(B=2, rep="P", inplace=False)], samples=60, budget=240)
def m04(V, B, rep, inplace):
    o, g, maps, tab, pc, gc = map_and_table(V, B, rep, inplace)
    sigma = V.real("sigma", lo=0.3, hi=1.5)
    snap = V.snap(tab.t)
    modular_weights(V, g, maps, sigma)
    f = Fused(V, o, g, maps, gc, tab, sigma)
    out = V.fn(FUSE)(pc, o, tab.t, sigma, inplace)
    f.check("fused", out)
    V.unchanged("table not modified", tab.t, snap)
    frame_kept(V, "frame not modified", o, g)


# ------------------------------------------------------------------------------------------------ M06
SLAM = {"icp": "gradslam.slam.icpslam:ICPSLAM", "fusion": "gradslam.slam.pointfusion:PointFusion"}
DSF, DSP = "gradslam.odometry.icputils:downsample_rgbdimages", "gradslam.odometry.icputils:downsample_pointclouds"
PROVIDE = {"icp": "gradslam.odometry.icp:ICPOdometryProvider.provide", "gradicp": "gradslam.odometry.gradicp:GradICPOdometryProvider.provide"}


def bound(orig, a, k):
    import inspect
    b = inspect.signature(orig).bind(*a, **k)
    b.apply_defaults()
    return dict(b.arguments)


def system(V, variant, odom, **kw):
    return V.make(SLAM[variant], odom=odom, **kw)


STEPS = [dict(variant=v, odom=o, B=b, prev=p, inplace=i, live=l) for v, o, b, p, i, l in (
    ("icp", "gt", 2, False, True, True), ("icp", "gt", 1, True, False, True), ("icp", "icp", 1, True, False, False), ("icp", "gradicp", 2, True, True, True),
    ("fusion", "icp", 2, True, False, True), ("fusion", "gradicp", 1, True, False, False), ("fusion", "gradicp", 3, True, True, False),
    ("fusion", "gt", 2, False, False, True), ("icp", "gradicp", 2, False, True, True), ("fusion", "icp", 1, False, False, True))]


@contract("M05", "a step hands the setting to the map update and writes nothing else", STEPS, samples=4)
@contract("M06", "a step localises the frame, then maps it there", STEPS, samples=10)
def m06_step(V, variant, odom, B, prev, inplace, live):
    H, W = V.dim("H", lo=2), V.dim("W", lo=2)
    o, g, d = FR.build(V, False, live, size=(B, 1, H, W), tag="live_")
    p, gp = (None, None)
    if prev:
        p, gp, dp = FR.build(V, False, True, size=(B, 1, H, W), tag="prev_")
    pc, gc, _ = CL.any_state(V, B, reps("P"), True)
    calls = []

    def log(name, result, frame=None):
        def stub(orig, *a, **k):
            b = bound(orig, a, k)
            at = b[frame].poses if frame else None
            calls.append((name, b, at.clone() if at is not None else None))
            r = result(b)
            b["->"] = r
            return r
        return stub
    T = V.tensor("T", [B, 1, 4, 4])
    snap = V.snap(T)
    table = V.make(CL.PC)
    V.stub(DSF, log("frame cloud", lambda b: V.make(CL.PC), "rgbdimages"))
    V.stub(ACTIVE, log("active", lambda b: table))
    V.stub(DSP, log("map cloud", lambda b: V.make(CL.PC)))
    for k in PROVIDE:
        V.stub(PROVIDE[k], log(k, lambda b: T))
    for q in (AGG, UPDATE):
        V.stub(q, log("map:" + q, lambda b: b["pointclouds"] if b["inplace"] else V.make(CL.PC), "rgbdimages"))
    ratio = V.dim("dsratio", hi=5)
    kw = dict(dist_th=0.07, angle_th=30, sigma=0.5) if variant == "fusion" else {}
    s = system(V, variant, odom, dsratio=ratio, **kw)
    out, poses = s.step(pc, o, p, inplace) if inplace else s.step(pc, o, p)
    names = [c[0] for c in calls]
    update = "map:" + (AGG if variant == "icp" else UPDATE)
    chained = prev and odom != "gt"
    want = ["active", "frame cloud", "map cloud", odom, update] if chained else [update]
    V.ensure("every stage runs once", sorted(names) == sorted(want))
    if sorted(names) != sorted(want):
        return
    by = {c[0]: c for c in calls}
    if chained:
        V.ensure("the map is localised last and updated after it", names[-1] == update)
        V.ensure("the live frame is the one localised", by["frame cloud"][1]["rgbdimages"] is o)
        V.same("the live frame is placed at the previous pose first", by["frame cloud"][2], gp.P)
        a = by["active"][1]
        V.ensure("against the map points active in the previous frame", a["pointclouds"] is pc and a["rgbdimages"] is p)
        a = by["map cloud"][1]
        V.ensure("the active points of this map", a["pointclouds"] is pc and a["pc2im_bnhw"] is by["active"][1]["->"])
        V.ensure("both sampled at the configured ratio", V.and_(V.eq(a["ds_ratio"], ratio), V.eq(by["frame cloud"][1]["ds_ratio"], ratio)))
        a = by[odom][1]
        V.ensure("frame cloud to map cloud", a["maps_pointclouds"] is by["map cloud"][1]["->"] and a["frames_pointclouds"] is by["frame cloud"][1]["->"])

        def composed(b, _, i, j):
            if i == 3:
                return 1 if j == 3 else 0
            t = sum_([V.at(T, b, 0, i, k) * V.at(gp.P, b, 0, k, j) for k in range(3)])
            return t + V.at(T, b, 0, i, 3) if j == 3 else t
        P = V.array_like([B, 1, 4, 4], composed) if not V.symbolic else None
        V.ensure_shape("recovered poses", poses, [B, 1, 4, 4])
        for b in range(B):
            for i in range(4):
                for j in range(4):
                    V.ensure("the odometry transform applied after the previous pose", V.eq(V.at(poses, b, 0, i, j), composed(b, 0, i, j)))
    else:
        V.same("the frame's own pose", poses, g.P)
    u = by[update]
    V.ensure("the live frame is mapped into this map", u[1]["pointclouds"] is pc and u[1]["rgbdimages"] is o)
    V.ensure("in place only if asked for", u[1]["inplace"] is inplace)
    V.same("mapped at the recovered pose", u[2], poses)
    V.same("the frame is left at the recovered pose", o.poses, poses)
    V.ensure("the updated map is returned", out is u[1]["->"])
    if variant == "fusion":
        import math
        V.ensure("with the configured distance", u[1]["dist_th"] == 0.07)
        V.ensure("with the cosine of the configured angle", abs(u[1]["dot_th"] - math.cos(math.radians(30))) < 1e-9)
        V.ensure("with the configured spread", u[1]["sigma"] == 0.5)
    V.unchanged("the transform", T, snap)
    gl = g.copy(P=poses)
    FR.check_inputs(V, "live frame but for its pose", o, gl)
    if prev:
        FR.check_inputs(V, "previous frame", p, gp)
    CL.check_list(V, "map", "points", pc.points_list, gc)


@contract("M06", "a step without usable poses is rejected", [dict(variant=v) for v in SLAM], samples=3)
def m06_reject(V, variant):
    size = (2, 1, V.dim("H", lo=2), V.dim("W", lo=2))
    bare, _, _ = FR.build(V, False, False, size=size, tag="bare_")
    posed, _, _ = FR.build(V, False, True, size=size, tag="posed_")
    pc, _, _ = CL.any_state(V, 2, reps("L"), False)
    for odom in ("gt", "icp", "gradicp"):
        s = system(V, variant, odom)
        V.raises(odom + ": a first frame without pose", ValueError, lambda: s.step(pc, bare))
        if odom == "gt":
            V.raises("ground truth without pose", ValueError, lambda: s.step(pc, bare, posed))
        else:
            V.raises(odom + ": a previous frame without pose", ValueError, lambda: s.step(pc, posed, bare))
        V.raises(odom + ": not a frame", TypeError, lambda: s.step(pc, None))
        V.raises(odom + ": not a map", TypeError, lambda: s.step(None, posed))
        V.raises(odom + ": previous not a frame", TypeError, lambda: s.step(pc, posed, pc))
        V.raises(odom + ": not a sequence", TypeError, lambda: s(None))
    V.raises("unknown odometry", ValueError, lambda: system(V, variant, "orb"))


class Run:
    """one run of the SLAM loop, every step replaced by its contract"""

    def __init__(self, V, o, g, odom, POSE):
        self.V, self.o, self.g, self.odom, self.POSE = V, o, g, odom, POSE
        self.k, self.map, self.frame = 0, None, None

    def pose(self, k):
        V = self.V
        return V.array_like([self.g.B, 1, 4, 4], lambda b, _, i, j: V.at(self.POSE, b, k, i, j))

    def at(self, k, P):
        """ghost of frame k, placed at P"""
        V, g = self.V, self.g
        K = V.array_like([g.B, 1, 4, 4], lambda b, o, i, j: V.at(g.K, b, 0, i, j))
        return g.copy(L=1, K=K, P=P, rgb=lambda b, l, r, c, q: g.rgb(b, k, r, c, q), depth=lambda b, l, r, c: g.depth(b, k, r, c))

    def given(self, k):
        V, g = self.V, self.g
        if g.P is not None:
            return V.array_like([g.B, 1, 4, 4], lambda b, _, i, j: V.at(g.P, b, k, i, j))
        first = V.array_like([g.B, 1, 4, 4], lambda b, _, i, j: V.ite(V.eq(i, j), 1.0, 0.0))
        return first

    def step(self, orig, slf, pointclouds, live_frame, prev_frame=None, inplace=False):
        V, k = self.V, self.k
        start = V.split(V.eq(k, 0))
        if self.map is None:
            self.map = pointclouds
            V.ensure("the map starts empty", not pointclouds.has_points)
        V.ensure("one map is updated throughout", pointclouds is self.map)
        V.ensure("in place", inplace is True)
        posed = self.g.P is not None or start
        FR.check_inputs(V, "frames are processed in order", live_frame, self.at(k, self.given(k) if posed else None))
        if start or self.odom == "gt":
            V.ensure("no previous frame is given at the start or in ground-truth mode", prev_frame is None)
        else:
            V.ensure("the previous frame is given", prev_frame is not None)
            if prev_frame is not None:
                FR.check_inputs(V, "the previous frame at its recovered pose", prev_frame, self.at(k - 1, self.pose(k - 1)))
        self.frame = live_frame
        P = self.pose(k)
        live_frame.poses = P
        if not V.symbolic:
            self.k = k + 1
        return pointclouds, live_frame.poses

    def recovered(self, upto, old):
        V, g = self.V, self.g
        return V.array_like([g.B, g.L, 4, 4], lambda b, l, i, j: V.ite(V.lt(l, upto), V.at(self.POSE, b, l, i, j), V.at(old, b, l, i, j)))

    def invariant(self, V, phase, st, k, mem):
        """before frame k: the poses of the frames before it are recorded, the previous frame is at its recovered pose"""
        if phase == "init":
            def names(f):
                return [x for x, v in st.items() if f(v)]
            maps, none = names(lambda v: hasattr(v, "points_list")), names(lambda v: v is None)
            rec = names(lambda v: hasattr(v, "shape") and len(v.shape) == 4 and not hasattr(v, "rgb_image"))
            if len(maps) != 1 or len(none) != 1 or len(rec) != 1:
                V.unsupported("the loop over the frames keeps its state in a different way")
            mem["names"] = maps[0], none[0], rec[0]
            self.map = st[maps[0]]
            V.ensure("the map starts empty", not self.map.has_points)
            V.ensure_shape("one pose per frame", st[rec[0]], [self.g.B, self.g.L, 4, 4])
            return
        m, p, r = mem["names"]
        if phase == "havoc":
            self.k = k
            prev = None
            if not V.split(V.eq(k, 0)) and self.odom != "gt":
                h = self.at(k - 1, self.pose(k - 1))
                im = lambda f, ch: V.array_like([h.B, 1, h.H, h.W, ch], f)
                prev = V.make(FR.RGBD, im(lambda b, l, y, x, q: h.rgb(b, l, y, x, q), 3), im(lambda b, l, y, x, q: h.depth(b, l, y, x), 1), h.K, h.P)
            old = V.some_tensor("rec", [self.g.B, self.g.L, 4, 4])
            V.overwrite(st[r], self.recovered(k, old))
            return {m: st[m], p: prev, r: st[r]}
        V.ensure("the map is kept", st[m] is self.map)
        V.forall("the recovered poses so far", [self.g.B, k, 4, 4], lambda b, l, i, j: V.eq(V.at(st[r], b, l, i, j), V.at(self.POSE, b, l, i, j)))
        if self.odom == "gt":
            V.ensure("no previous frame in ground-truth mode", st[p] is None)
        else:
            V.ensure("the frame becomes the previous one", st[p] is not None)
            if st[p] is not None:
                FR.check_inputs(V, "the frame becomes the previous one", st[p], self.at(k - 1, self.pose(k - 1)))


@contract("M06", "frames are chained in order", product(variant=["icp", "fusion"], odom=["gt", "icp", "gradicp"], B=[1, 2, 3], poses=BOTH), samples=8,
          invariants={"gradslam.slam.icpslam:": lambda V, *a: V.ghosts["run"].invariant(V, *a)})
def m06_forward(V, variant, odom, B, poses):
    if odom == "gt" and not poses:
        return m06_gt(V, variant, B)
    L = V.dim("L", lo=1, hi=None if V.symbolic else 4)
    o, g, _ = FR.build(V, False, poses, size=(B, L, V.dim("H", lo=2), V.dim("W", lo=2)))
    POSE = V.tensor("POSE", [B, L, 4, 4])
    run = Run(V, o, g, odom, POSE)
    V.ghosts = {"run": run}
    V.stub("gradslam.slam.icpslam:ICPSLAM.step", run.step)
    s = system(V, variant, odom)
    pc, rec = s(o)
    V.ensure("the map is returned", pc is run.map)
    V.ensure_shape("one recovered pose per frame", rec, [B, L, 4, 4])
    V.same("recovered pose of every frame at its position", rec, POSE)
    if not V.symbolic:
        V.ensure("every frame is processed", run.k == L)
    FR.check_inputs(V, "the sequence is not modified", o, g)


def m06_gt(V, variant, B):
    o, g, _ = FR.build(V, False, False, size=(B, 2, V.dim("H", lo=2), V.dim("W", lo=2)))
    s = system(V, variant, "gt")
    V.raises("ground truth without poses", ValueError, lambda: s(o))


# ------------------------------------------------------------------------------------------------ M03: the whole association
@contract("M03", "association chains visibility, similarity and selection", product(B=[1, 2], kept=BOTH), samples=6)
def m03_chain(V, B, kept):
    o, g, _ = FR.build(V, False, True, size=(B, 1, V.dim("H", lo=2), V.dim("W", lo=2)))
    pc, gc, _ = CL.any_state(V, B, reps("P", "P", "P", "P"), True, C=1)
    if not V.symbolic:
        dist, dot = V.real("dist", lo=0.2, hi=2), V.real("dot", lo=-0.5, hi=0.9)
        a = V.fn(ACTIVE)(pc, o)
        b, _ = V.fn(SIMILAR)(pc, o, a, dist, dot)
        want = V.fn(BEST)(pc, o, b)
        V.same("the chosen among the similar among the visible", V.fn(FIND)(pc, o, dist, dot), want)
        return
    dist, dot = V.real("dist"), V.real("dot")
    t1, t2, t3 = [V.tensor("t%d" % k, [V.dim("m%d" % k, lo=1 if kept else 0), 4], "int64") for k in range(3)]
    seen = []

    def stage(name, result):
        def stub(orig, *a, **k):
            seen.append((name, bound(orig, a, k)))
            return result
        return stub
    V.stub(ACTIVE, stage("visible", t1))
    V.stub(SIMILAR, stage("similar", (t2, V.some_tensor("mask", [V.shape(t1)[0]], "bool"))))
    V.stub(BEST, stage("best", t3))
    out = V.fn(FIND)(pc, o, dist, dot)
    by = dict(seen)
    V.ensure("every stage once", len(seen) == 3 and len(by) == 3)
    if len(by) != 3:
        return
    V.ensure("all stages on this map and frame", all(b["pointclouds"] is pc and b["rgbdimages"] is o for b in by.values()))
    V.same("similarity is decided on the visible", by["similar"]["pc2im_bnhw"], t1)
    V.ensure("with the thresholds given", V.and_(V.eq(by["similar"]["dist_th"], dist), V.eq(by["similar"]["dot_th"], dot)))
    V.same("the best are chosen among the similar", by["best"]["pc2im_bnhw"], t2)
    V.same("the chosen are returned", out, t3)


# ------------------------------------------------------------------------------------------------ M05
def all_held(pc):
    out = []
    for a in CL.ATTRS:
        out += list(getattr(pc, "_%s_list" % a) or [])
        if getattr(pc, "_%s_padded" % a) is not None:
            out.append(getattr(pc, "_%s_padded" % a))
    out += [t for t in (pc._nonpad_mask, pc._num_points_per_pointcloud) if t is not None and hasattr(t, "shape")]
    return out


def own_copy(V, what, out, pc, gc, snaps):
    """the result is another object, the input map is as it was, no memory is shared"""
    V.ensure("%s: another object" % what, out is not pc)
    for t, s in snaps:
        V.unchanged("%s: tensors of the input map" % what, t, s)
    CL.agree(V, "%s: input map" % what, pc, gc)
    V.ensure("%s: no shared memory" % what, not any(V.shares(x, y) for x in all_held(out) for y in all_held(pc)))


def attrs_of(pc):
    return {a: getattr(pc, "has_" + a) for a in CL.ATTRS}


@contract("M05", "fusion leaves the map alone unless asked otherwise", [dict(B=1, rep="P", cached=True, inplace=False), dict(B=2, rep="L", cached=False, inplace=False),
                                                                        dict(B=1, rep="B", cached=True, inplace=True), dict(B=2, rep="P", cached=False, inplace=True)],
          samples=30, budget=200)
def m05_fuse(V, B, rep, cached, inplace):
    o, g, maps = mapped(V, B, "mvnVN" if cached else "")
    m = V.dim("m", lo=0, hi=None if V.symbolic else 14)
    N = CL.sizes(V, B)
    tab = Table(V, g, N, m, per_point=True, per_pixel=True)
    pc, gc, _ = CL.any_state(V, B, reps(rep, rep, rep, rep), cached, C=1, N=N, kw={"features": dict(lo=0, special=[0.0, 1.0])})
    sigma = V.real("sigma", lo=0.3, hi=1.5)
    modular_weights(V, g, maps, sigma)
    snaps = [(t, V.snap(t)) for t in all_held(pc)]
    st = V.snap(tab.t)
    out = V.fn(FUSE)(pc, o, tab.t, sigma, inplace) if inplace else V.fn(FUSE)(pc, o, tab.t, sigma)
    if inplace:
        V.ensure("in place: the map itself", out is pc)
        V.ensure("in place: the map grows", all(V.shape(x)[0] is not None for x in pc.points_list))
    else:
        own_copy(V, "fused", out, pc, gc, snaps)
    V.ensure("the map keeps nothing of the frame", not any(V.shares(x, y) for x in all_held(out) for y in frame_tensors(o)))
    V.unchanged("table not modified", tab.t, st)
    frame_kept(V, "frame not modified", o, g)


def frame_tensors(o):
    return [t for t in [getattr(o, n) for n in list(FR.PRIV.values()) + ["_rgb_image", "_depth_image", "_intrinsics", "_poses"]] if t is not None]


FROM = "gradslam.structures.utils:pointclouds_from_rgbdimages"


@contract("M05", "aggregation appends the frame and leaves the map alone unless asked otherwise", product(
    B=[1, 2, 3], rep=["L", "P", "empty"], inplace=BOTH), samples=20)
def m05_aggregate(V, B, rep, inplace):
    o, g, _ = FR.any_state(V, False, True, "mvnVN" if rep == "P" else "", size=(B, 1, V.dim("H", lo=2), V.dim("W", lo=2)))
    if rep == "empty":
        pc, gc = V.make(CL.PC), None
    else:
        pc, gc, _ = CL.any_state(V, B, reps(rep, rep, rep), rep == "P")
    added = []

    def convert(orig, *a, **k):
        b = bound(orig, a, k)
        V.ensure("the frame is converted in world coordinates, without missing depths", b["rgbdimages"] is o and b["global_coordinates"] is True and b["filter_missing_depths"] is True)
        if V.symbolic:
            new, gn, _ = CL.any_state(V, B, reps("L", "L", "L"), False, tag="new_")
        else:
            new = orig(*a, **k)
            ts = {x: [t.clone() for t in getattr(new, x + "_list")] for x in ("points", "normals", "colors")}
            N = [len(t) for t in ts["points"]]
            gn = CL.ghost_of(V, "list", N, ts, None)
        added.append((new, gn))
        return new
    V.stub(FROM, convert)
    snaps = [(t, V.snap(t)) for t in all_held(pc)]
    out = V.fn(AGG)(pc, o, inplace) if inplace else V.fn(AGG)(pc, o)
    V.ensure("the frame is converted once", len(added) == 1)
    if len(added) != 1:
        return
    from contracts.structures import appended
    new, gn = added[0]
    h = appended(V, gc, gn) if gc is not None else gn
    CL.agree(V, "aggregated map", out, h)
    if inplace:
        V.ensure("in place: the map itself", out is pc)
    elif gc is not None:
        own_copy(V, "aggregated", out, pc, gc, snaps)
    else:
        V.ensure("another object", out is not pc)
        V.ensure("the empty map stays empty", not pc.has_points)
    V.ensure("the map keeps nothing of the frame", not any(V.shares(x, y) for x in all_held(out) for y in frame_tensors(o)))
    FR.check_inputs(V, "frame not modified", o, g)


@contract("M05", "fusion of a frame passes the setting on", product(B=[1, 2], inplace=["default", True, False]), samples=6)
def m05_update(V, B, inplace):
    o, g, _ = FR.build(V, False, True, size=(B, 1, V.dim("H", lo=2), V.dim("W", lo=2)))
    pc, gc, _ = CL.any_state(V, B, reps("P", "P", "P", "P"), True, C=1)
    dist, dot, sigma = V.real("dist"), V.real("dot"), V.real("sigma", lo=0.3, hi=1.5)
    table = V.some_tensor("t", [V.dim("m", lo=0), 4], "int64") if V.symbolic else V.torch.zeros(0, 4, dtype=V.torch.int64)
    res = V.make(CL.PC)
    seen = []

    def find(orig, *a, **k):
        b = bound(orig, a, k)
        seen.append("find")
        V.ensure("associated with this map and frame", b["pointclouds"] is pc and b["rgbdimages"] is o)
        V.ensure("with the thresholds given", V.and_(V.eq(b["dist_th"], dist), V.eq(b["dot_th"], dot)))
        return table

    def fuse(orig, *a, **k):
        b = bound(orig, a, k)
        seen.append("fuse")
        V.ensure("fused into this map from this frame", b["pointclouds"] is pc and b["rgbdimages"] is o and b["pc2im_bnhw"] is table)
        V.ensure("with the spread given", V.eq(b["sigma"], sigma))
        V.ensure("in place only if asked for", b["inplace"] is (inplace is True))
        return res
    V.stub(FIND, find)
    V.stub(FUSE, fuse)
    a = () if inplace == "default" else (inplace,)
    out = V.fn(UPDATE)(pc, o, dist, dot, sigma, *a)
    V.ensure("associated and fused once", seen == ["find", "fuse"])
    V.ensure("the fused map is returned", out is res)
    CL.agree(V, "map", pc, gc)
    FR.check_inputs(V, "frame not modified", o, g)


# ------------------------------------------------------------------------------------------------ the whole pipeline on samples
def scene(V, B, L, size=(9, 10)):
    """a tilted plane seen by a slightly moving camera: registration is well conditioned"""
    t = V.torch
    H, W = size
    y, x = t.meshgrid(t.arange(H, dtype=t.get_default_dtype()), t.arange(W, dtype=t.get_default_dtype()), indexing="ij")
    dep = t.stack([t.stack([1.5 + 0.02 * x + 0.03 * y + 0.1 * t.sin(x + b) + 0.1 * t.cos(y * 0.7 + b) + 0.01 * s for s in range(L)]) for b in range(B)])[..., None]
    rgb = t.rand(B, L, H, W, 3, generator=t.Generator().manual_seed(V.rng.randrange(10 ** 6)))
    K = t.eye(4).repeat(B, 1, 1, 1)
    K[:, 0, 0, 0] = K[:, 0, 1, 1] = 8.0
    K[:, 0, 0, 2], K[:, 0, 1, 2] = (W - 1) / 2, (H - 1) / 2
    P = t.eye(4).repeat(B, L, 1, 1)
    for s in range(L):
        P[:, s, :3, 3] = 0.01 * s * t.tensor([1.0, -1.0, 0.5])
    if V.rng.random() < 0.5:
        dep[:, :, 2, 3] = 0
    return V.make(FR.RGBD, rgb, dep, K, P)


PIPE = [dict(variant=v, odom=o, B=b) for v in ("icp", "fusion") for o, b in (("gt", 2), ("icp", 2), ("gradicp", 1))]


def frame_state(o):
    return [(n, getattr(o, n).clone()) for n in ("_rgb_image", "_depth_image", "_intrinsics", "_poses") if getattr(o, n) is not None]


@contract("M06", "running step by step gives the same result", PIPE, samples=4, only="conc")
def m06_pipeline(V, variant, odom, B):
    L = V.rng.randrange(1, 4)
    o = scene(V, B, L)
    s = system(V, variant, odom, dsratio=2, numiters=3, damp=1e-2)
    maps, poses = s(o)
    pc, prev = V.make(CL.PC), None
    for k in range(L):
        live = o[:, k]
        pc, p = s.step(pc, live, prev)
        prev = live if odom != "gt" else None
        V.same("the recovered pose of frame %d" % k, poses[:, k], p[:, 0], 1e-4)
    for a in ("points", "normals", "colors"):
        for b in range(B):
            V.same("the map's " + a, getattr(maps, a + "_list")[b], getattr(pc, a + "_list")[b], 1e-4)


@contract("M05", "a step leaves the map alone unless asked otherwise", [dict(c, inplace=i) for c in PIPE for i in BOTH], samples=3, only="conc")
def m05_pipeline(V, variant, odom, B, inplace):
    o = scene(V, B, 3)
    s = system(V, variant, odom, dsratio=2, numiters=2, damp=1e-2)
    first, live = o[:, 0], o[:, 1]
    pc, _ = s.step(V.make(CL.PC), first)
    if V.rng.random() < 0.5:
        pc.points_padded, pc.nonpad_mask
    snaps = [(t, t.clone()) for t in all_held(pc)]
    before, fp, fl = pc.clone(), frame_state(first), frame_state(live)
    out, P = s.step(pc, live, None if odom == "gt" else first, inplace)
    V.ensure("the map itself only in place", (out is pc) == inplace)
    if not inplace:
        for t, x in snaps:
            V.same("tensors of the input map", t, x)
        for a in CL.ATTRS:
            for x, y in zip(getattr(pc, a + "_list") or [], getattr(before, a + "_list") or []):
                V.same("the input map's " + a, x, y)
        V.ensure("no shared memory", not any(V.shares(x, y) for x in all_held(out) for y in all_held(pc)))
    for what, f, st in (("previous frame", first, fp), ("live frame", live, fl)):
        for n, x in st:
            if n != "_poses" or f is first:
                V.same("%s: %s" % (what, n), getattr(f, n), x)
    V.ensure("the map keeps nothing of the frames", not any(V.shares(x, y) for x in all_held(out) for y in frame_tensors(live) + frame_tensors(first)))


# ------------------------------------------------------------------------------------------------ M07
GN, SOLVE = "gradslam.odometry.icputils:gauss_newton_solve", "gradslam.odometry.icputils:solve_linear_system"
ICPF, GRADF = "gradslam.odometry.icputils:point_to_plane_ICP", "gradslam.odometry.icputils:point_to_plane_gradICP"
EXP = "gradslam.geometry.se3utils:se3_exp"
G = dict(requires_grad=True)
GKW = {a: G for a in CL.ATTRS}


def grad_frame(V, B, L=1, cf=False, poses=True, tag=""):
    H, W = V.dim("H", lo=2), V.dim("W", lo=2)
    d = FR.images(V, B, L, H, W, cf, tag, poses, grad=True)
    return V.make(RGBD, channels_first=cf, **d), d, (B, L, H, W)


@contract("M07", "vertex and normal maps keep the derivative in depth, intrinsics and poses", product(cf=BOTH, poses=BOTH), only="sym", grad=True)
def m07_maps(V, cf, poses):
    o, d, _ = grad_frame(V, V.dim("B"), V.dim("L"), cf, poses)
    cam = [d["depth_image"], d["intrinsics"]]
    world = cam + ([d["poses"]] if poses else [])
    V.derived("vertex map", o.vertex_map, cam)
    V.derived("normal map", o.normal_map, cam)
    V.derived("global vertex map", o.global_vertex_map, world)
    V.derived("global normal map", o.global_normal_map, world)
    V.derived("colors", o.rgb_image, [d["rgb_image"]])


@contract("M07", "a frame's cloud keeps the derivative in the frame", product(cf=BOTH, poses=BOTH, B=[1, 2], filt=BOTH), only="sym", grad=True)
def m07_convert(V, cf, poses, B, filt):
    o, d, _ = grad_frame(V, B, 1, cf, poses)
    pc = V.fn(FROM)(o, global_coordinates=poses, filter_missing_depths=filt)
    world = [d["depth_image"], d["intrinsics"]] + ([d["poses"]] if poses else [])
    derived_cloud(V, "cloud", pc, {"points": world, "normals": world, "colors": [d["rgb_image"]]})


def derived_cloud(V, what, pc, wrt):
    for a, ws in wrt.items():
        xs = getattr(pc, a + "_list")
        for x in xs:
            V.derived("%s: %s" % (what, a), x, ws)
        V.derived("%s: padded %s" % (what, a), getattr(pc, a + "_padded"), ws)


@contract("M07", "sampled clouds keep the derivative", [dict(B=1, r=1), dict(B=1, r=2), dict(B=2, r=1)], only="sym", grad=True)
def m07_sampled(V, B, r):
    o, d, _ = grad_frame(V, B)
    world = [d["depth_image"], d["intrinsics"], d["poses"]]
    derived_cloud(V, "frame cloud", V.fn(DSF)(o, r), {"points": world, "normals": world, "colors": [d["rgb_image"]]})
    pc, g, data = CL.any_state(V, B, reps("P", "P", "P"), False, kw=GKW)
    from contracts.odometry import assoc_ok
    tab = V.tensor("tab", [V.dim("m", lo=0), 4], "int64", row=lambda V, get, i: assoc_ok(V, g, get), nrow=1)
    out = V.fn(DSP)(pc, tab, r)
    for a in ("points", "normals", "colors"):
        for x, t in zip(getattr(out, a + "_list"), data[a]):
            V.derived("map cloud: " + a, x, [t])


@contract("M07", "the weight of a point keeps the derivative", [{}], only="sym", grad=True)
def m07_weight(V):
    p = V.tensor("p", [V.dim("n"), 3], **G)
    V.derived("weight", V.fn(ALPHA)(p, V.real("sigma", lo=0.3, hi=1.5)), [p])


@contract("M07", "fusion keeps the derivative in map and frame", product(B=[1, 2], inplace=BOTH), only="sym", grad=True, budget=240)
def m07_fuse(V, B, inplace):
    o, g, maps = mapped(V, B)
    maps = {k: V.tensor("gmap_" + k, [B, 1, g.H, g.W, 3], **G) for k in "vVnN"}
    for k, t in maps.items():
        setattr(o, FR.PRIV[k], t)
    o._rgb_image = rgb = V.tensor("grgb", [B, 1, g.H, g.W, 3], **G)
    m = V.dim("m", lo=1)
    N = [V.dim("N%d" % b, lo=1) for b in range(B)]
    tab = Table(V, g, N, m, per_point=True, per_pixel=True)
    pc, gc, old = CL.any_state(V, B, reps("P", "P", "P", "P"), False, C=1, N=N, kw=GKW)
    out = V.fn(FUSE)(pc, o, tab.t, V.real("sigma", lo=0.3, hi=1.5), inplace)
    for a, src in (("points", [maps["V"]]), ("normals", [maps["N"]]), ("colors", [rgb]), ("features", [])):
        for b in range(B):
            V.derived("fused " + a, getattr(out, a + "_list")[b], src + [maps["v"], old["features"][b], old[a][b]])
        V.derived("fused padded " + a, getattr(out, a + "_padded"), src + [maps["v"]] + old["features"] + old[a])


@contract("M07", "aggregation keeps the derivative in map and frame", product(B=[1, 2], rep=["P", "empty"], inplace=BOTH), only="sym", grad=True)
def m07_aggregate(V, B, rep, inplace):
    o, d, _ = grad_frame(V, B)
    pc, _, old = (V.make(CL.PC), None, None) if rep == "empty" else CL.any_state(V, B, reps("P", "P", "P"), False, kw=GKW)
    out = V.fn(AGG)(pc, o, inplace)
    world = [d["depth_image"], d["intrinsics"], d["poses"]]
    for a, ws in (("points", world), ("normals", world), ("colors", [d["rgb_image"]])):
        for b in range(B):
            V.derived("aggregated " + a, getattr(out, a + "_list")[b], ws + (old[a][b:b + 1] if old else []))
        V.derived("aggregated padded " + a, getattr(out, a + "_padded"), ws)


@contract("M07", "the linear system keeps the derivative in the clouds", product(th=[None, 0.5]), only="sym", grad=True)
def m07_system(V, th):
    ns, nt = V.dim("ns"), V.dim("nt")
    s, t, n = V.tensor("src", [1, ns, 3], **G), V.tensor("tgt", [1, nt, 3], **G), V.tensor("nrm", [1, nt, 3], **G)
    A, b, idx = V.fn(GN)(s, t, n, th)
    V.derived("rows", A, [s, n])
    V.derived("residuals", b, [s, t, n])


@contract("M07", "the solution keeps the derivative in the system", product(n=[1, 3, 6], damp=["float", "tensor"]), only="sym", grad=True, opaque_inverse=True)
def m07_solve(V, n, damp):
    m = V.dim("m")
    A, b = V.tensor("A", [m, n], **G), V.tensor("b", [m, 1], **G)
    d = V.tensor("damp", [], lo=0.1, **G) if damp == "tensor" else V.real("damp", lo=0.1)
    V.derived("solution", V.fn(SOLVE)(A, b, d), [A, b] + ([d] if damp == "tensor" else []))


@contract("M07", "the exponential map keeps the derivative", [{}], only="sym", grad=True)
def m07_exp(V):
    xi = V.tensor("xi", [6], **G)
    V.derived("motion", V.fn(EXP)(xi)[:3, :], [xi])


def icp_gradient(V, phase, st, k, mem):
    """loop invariant: neither the moving cloud nor the transform nor the damping loses a derivative; an iteration that
    changes the transform makes it depend on the solution found"""
    g = V.ghosts
    from contracts.odometry import State
    if phase == "init":
        mem["role"] = r = State(V, st)
        mem["entry"] = set(st)
        for q in ("T", "src", "damp"):
            V.derived("at the start: " + q, r.of(st, q), [g["s"]] if q == "src" else [])
        return
    r = mem["role"]
    if phase == "havoc":
        mem["pre"] = {"T": V.tensor("T_k", [4, 4], **G), "src": V.tensor("src_k", V.shape(g["s"]), **G), "damp": V.tensor("damp_k", [], **G)}
        return {r.names[q]: v.clone() for q, v in mem["pre"].items()}
    pre = mem["pre"]
    st = {q: v for q, v in st.items() if q in mem["entry"]}
    xi = g["last"]
    V.derived("after an iteration: transform", r.of(st, "T"), [pre["T"]] + ([xi] if g["always"] else []))
    V.derived("after an iteration: cloud", r.of(st, "src"), [pre["src"]] + ([xi] if g["always"] else []))
    V.derived("after an iteration: damping", r.of(st, "damp"), [])


@contract("M07", "iterated alignment keeps the derivative, any number of iterations", product(kind=["icp", "grad"], init=BOTH), only="sym", grad=True,
          invariants={"gradslam.odometry.icputils:": icp_gradient}, timeout=20000)
def m07_icp(V, kind, init):
    ns, nt = V.dim("ns"), V.dim("nt")
    s, t, n = V.tensor("src", [1, ns, 3], **G), V.tensor("tgt", [1, nt, 3], **G), V.tensor("nrm", [1, nt, 3], **G)
    T0 = V.tensor("T0", [4, 4], **G) if init else None
    g = V.ghosts = {"s": s, "last": None, "always": kind == "grad"}

    def gn(orig, *a, **k):
        b = bound(orig, a, k)
        for q, ws in (("src_pc", []), ("tgt_pc", [t]), ("tgt_normals", [n])):
            V.derived("clouds paired: " + q, b[q], ws)
        m = V.dim("rows", lo=0)
        g["sys"] = V.tensor("A", [m, 6], **G), V.tensor("b", [m, 1], **G)
        return g["sys"] + (V.some_tensor("idx", [m], "int64"),)

    def solve(orig, *a, **k):
        b = bound(orig, a, k)
        V.derived("system solved: rows", b["A"], [])
        V.derived("system solved: residuals", b["b"], [])
        x = V.tensor("x", [6, 1], **G)
        g["last"] = x
        return x

    def exp(orig, *a, **k):
        xi = bound(orig, a, k)["xi"]
        V.derived("twist", xi, [g["last"]])
        E = [[xi.reshape(6)[(i + j) % 6] for j in range(4)] for i in range(4)]      # some function of the twist
        return V.torch.stack([V.torch.stack(x) for x in E])
    V.stub(GN, gn)
    V.stub(SOLVE, solve)
    V.stub(EXP, exp)
    T, idx = V.fn(ICPF if kind == "icp" else GRADF)(s, t, n, T0, V.dim("iters", lo=1), V.real("damp", lo=0.1), V.choose("th", [None]))
    V.derived("transform", T, [])


@contract("M07", "odometry keeps the derivative in the clouds", product(kind=["icp", "gradicp"], B=[1, 2]), only="sym", grad=True)
def m07_provide(V, kind, B):
    from contracts.odometry import PROVIDERS
    cls, icp, _ = PROVIDERS["icp" if kind == "icp" else "grad"]
    m, gm, dm = CL.any_state(V, B, reps("P", "P"), False, tag="m", N=[V.dim("mN%d" % b, lo=1) for b in range(B)], kw=GKW)
    f, gf, df = CL.any_state(V, B, reps("P"), False, tag="f", N=[V.dim("fN%d" % b, lo=1) for b in range(B)], kw=GKW)
    made = []

    def stub(orig, *a, **k):
        b = bound(orig, a, k)
        for q, x in (("src_pc", df["points"]), ("tgt_pc", dm["points"]), ("tgt_normals", dm["normals"])):
            V.derived("aligned: " + q, b[q], [x[len(made)]])
        R = V.tensor("T_icp", [4, 4], **G)
        made.append(R)
        return R.clone(), V.some_tensor("idx", [V.dim("rows")], "int64")
    V.stub(icp, stub)
    V.derived("transforms", V.make(cls).provide(m, f), made)
    V.ensure("aligned each", len(made) == B)


@contract("M07", "recovered poses keep the derivative in odometry and previous pose", product(odom=["icp", "gradicp", "gt"], B=[1, 2]), only="sym", grad=True)
def m07_step(V, odom, B):
    H, W = V.dim("H", lo=2), V.dim("W", lo=2)
    d = FR.images(V, B, 1, H, W, False, "live_", True, grad=True)
    e = FR.images(V, B, 1, H, W, False, "prev_", True, grad=True)
    o, p = V.make(RGBD, **d), V.make(RGBD, **e)
    pc, _, data = CL.any_state(V, B, reps("P", "P", "P"), False, kw=GKW)
    mapc = V.make(CL.PC)
    T = V.tensor("T", [B, 1, 4, 4], **G)

    def frames(orig, *a, **k):
        x = bound(orig, a, k)["rgbdimages"]
        V.derived("frame localised: depth", x.depth_image, [d["depth_image"]])
        V.derived("frame localised: pose", x.poses, [e["poses"]])
        return V.make(CL.PC)

    def maps(orig, *a, **k):
        x = bound(orig, a, k)["pointclouds"]
        V.derived("map localised against", x.points_padded, data["points"])
        return mapc

    def put(orig, *a, **k):
        x = bound(orig, a, k)
        V.derived("map updated", x["pointclouds"].points_padded, data["points"])
        V.derived("frame mapped: depth", x["rgbdimages"].depth_image, [d["depth_image"]])
        V.derived("frame mapped: color", x["rgbdimages"].rgb_image, [d["rgb_image"]])
        V.derived("frame mapped: pose", x["rgbdimages"].poses, [d["poses"]] if odom == "gt" else [T, e["poses"]])
        return mapc
    V.stub(ACTIVE, lambda orig, *a, **k: V.some_tensor("t", [V.dim("rows"), 4], "int64"))
    V.stub(DSF, frames)
    V.stub(DSP, maps)
    for k in PROVIDE:
        V.stub(PROVIDE[k], lambda orig, *a, **k: T)
    for q in (AGG, UPDATE):
        V.stub(q, put)
    out, poses = system(V, "icp", odom).step(pc, o, None if odom == "gt" else p)
    V.derived("recovered poses", poses, [d["poses"]] if odom == "gt" else [T, e["poses"]])


def leaves(V, L, double=True):
    o = scene(V, 1, L)
    return [x.to(V.torch.float64).clone().requires_grad_(True) for x in (o.rgb_image, o.depth_image, o.intrinsics, o.poses)]


@contract("M07", "derivatives are those of the values", [dict(what=w, odom=o) for w, o in (("maps", "-"), ("cloud", "-"), ("icp", "gt"), ("fusion", "gt"),
          ("icp", "icp"), ("icp", "gradicp"), ("fusion", "gradicp"), ("fusion", "icp"))], only="conc", samples=8)
def m07_values(V, what, odom):
    """back-propagation against finite differences, along random directions of every input"""
    from collections import namedtuple
    V.torch.set_default_dtype(V.torch.float64)
    lib = V.fn(GN).__globals__
    if "knn_points" not in lib:
        V.unsupported("pairing by another library function")
    old = lib["knn_points"]

    def knn(s, t, *a, K=1, **k):        # the library's is single precision only
        d = (s[:, :, None] - t[:, None]).pow(2).sum(-1)
        r = d.topk(K, dim=-1, largest=False)
        return namedtuple("KNN", "dists idx knn")(r.values, r.indices, None)
    lib["knn_points"] = knn
    try:
        compare_derivatives(V, what, odom)
    except RuntimeError as e:
        if "Float" in str(e) or "Double" in str(e) or "dtype" in str(e):
            V.unsupported("no double precision: %s" % e)
        raise
    finally:
        lib["knn_points"] = old
        V.torch.set_default_dtype(V.torch.float32)


def compare_derivatives(V, what, odom):
    t = V.torch
    L = 1 if what in ("maps", "cloud") else 2
    xs = leaves(V, L)
    names = ["color", "depth", "intrinsics", "poses"]
    noise = t.Generator().manual_seed(V.rng.randrange(10 ** 6))

    def outputs(xs):
        o = V.make(RGBD, *xs)
        if what == "maps":
            return {"maps": [o.vertex_map, o.normal_map, o.global_vertex_map, o.global_normal_map]}
        if what == "cloud":
            pc = V.fn(FROM)(o)
            return {a: getattr(pc, a + "_list") for a in ("points", "normals", "colors")}
        kw = dict(sigma=0.6, dist_th=0.3, angle_th=40) if what == "fusion" else {}
        s = system(V, what, odom, dsratio=2, numiters=2, damp=1e-2, **kw)
        pc, P = s(o)
        r = {a: getattr(pc, a + "_list") for a in CL.ATTRS if getattr(pc, a + "_list") is not None}
        r["poses"] = [P]
        return r
    base = outputs(xs)
    for key, outs in base.items():
        ws = [t.randn(x.shape, generator=noise, dtype=t.float64) for x in outs]
        f = lambda r: sum((w * x.double()).sum() for w, x in zip(ws, r[key])) if [x.shape for x in r[key]] == [x.shape for x in outs] else None
        y = f(base)
        gs = t.autograd.grad(y, xs, allow_unused=True, retain_graph=True) if y.requires_grad else [None] * 4
        for name, x, g in zip(names, xs, gs):
            d = t.randn(x.shape, generator=noise, dtype=t.float64)
            if name == "depth":
                d = d * (x.detach() > 0)
            if name == "intrinsics":
                d = d * (x.detach().abs() > 0)
                d[..., 2:, :] = 0
            if name == "poses":
                d[..., 3, :] = 0
            at = lambda h: f(outputs([(u.detach() + h * d) if u is x else u.detach() for u in xs]))
            es = []
            for h in (1e-4, 2.5e-5):
                p, m = at(h), at(-h)
                es.append(None if p is None or m is None else float(p - m) / (2 * h))
            scale = 1 + abs(es[0]) if es[0] is not None else 1
            if None in es or abs(es[0] - es[1]) > 1e-3 * scale:
                continue        # a selection changes nearby
            got = float((g * d).sum()) if g is not None else 0.0
            V.ensure("%s: derivative in %s" % (key, name), abs(got - es[1]) <= 2e-2 * scale)
            V.cover("compared")
