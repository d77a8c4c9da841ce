"""Contracts of gradslam/geometry (G01..G07)."""
from engine.vapi import contract, product
from contracts.util import dims, dot as matvec, is_rotation, last_row

GU = "gradslam.geometry.geometryutils:"
PU = "gradslam.geometry.projutils:"
SE = "gradslam.geometry.se3utils:"


# ------------------------------------------------------------------------------------------------ G01
@contract("G01", "homogenize appends exactly one 1", product(mod=[GU, PU], rank=[2, 3, 4]))
def g01_homog(V, mod, rank):
    D = dims(V, rank)
    p = V.tensor("pts", D)
    s = V.snap(p)
    r = V.call(mod + "homogenize_points", p)
    V.ensure_shape("one more coordinate", r, D[:-1] + [D[-1] + 1])
    V.forall("coordinates kept", D, lambda *i: V.eq(V.at(r, *i), V.at(p, *i)))
    V.forall("last coordinate is 1", D[:-1], lambda *i: V.eq(V.at(r, *i, D[-1]), 1))
    V.unchanged("input untouched", p, s)


@contract("G01", "unhomogenize divides by the last coordinate", product(mod=[GU, PU], rank=[2, 3, 4]))
def g01_unhomog(V, mod, rank):
    D = dims(V, rank)
    p = V.tensor("pts", D[:-1] + [D[-1] + 1], special=[0, 1e-7, 1e-6, 2e-6, -1e-7, 1])
    s = V.snap(p)
    r = V.call(mod + "unhomogenize_points", p)
    V.ensure_shape("one coordinate less", r, D)

    def post(*i):
        w, x = V.at(p, *i[:-1], D[-1]), V.at(p, *i)
        big = V.gt(V.abs(w), V.frac("1/1000000"))
        return V.implies(V.clear(V.abs(w), 1e-6, 1e-9), V.and_(
            V.implies(big, V.eq(V.at(r, *i) * w, x)), V.implies(V.not_(big), V.eq(V.at(r, *i), x))))
    V.forall("division, or the point itself at infinity", D, post)
    V.unchanged("input untouched", p, s)


@contract("G01", "unhomogenize inverts homogenize", product(mod=[GU, PU], rank=[2, 3, 4]))
def g01_round(V, mod, rank):
    D = dims(V, rank)
    p = V.tensor("pts", D)
    r = V.call(mod + "unhomogenize_points", V.call(mod + "homogenize_points", p))
    V.same("round trip is the identity", r, p)


@contract("G01", "invalid input is rejected", product(mod=[GU, PU]))
def g01_reject(V, mod):
    n = V.dim("n")
    for f in ("homogenize_points", "unhomogenize_points"):
        V.raises("%s: not a tensor" % f, TypeError, lambda: V.call(mod + f, [1.0, 2.0]))
        V.raises("%s: rank 1" % f, ValueError, lambda: V.call(mod + f, V.tensor("v" + f, [n])))
    V.raises("unhomogenize: not a tensor (numpy)", TypeError, lambda: V.call(mod + "unhomogenize_points", 3))


# ------------------------------------------------------------------------------------------------ G02
def _proj_post(V, label, D, r, row, p, homo, guard_w=None):
    """perspective division of M p, per point; row(idx, i, k) = matrix entry of the point's batch element"""
    def post(*i):
        def h(k):
            return V.at(p, *i, k) if (homo or k < 3) else 1
        x, y, z = [matvec(V, lambda k, q=q: row(i, q, k), 4, h) for q in range(3)]
        u, v = V.at(r, *i, 0), V.at(r, *i, 1)
        ok = V.or_(V.clear(z, 0, 0.05), V.eq(z, 0, 0))
        return V.implies(ok, V.and_(V.implies(V.ne(z, 0), V.and_(V.eq(u * z, x), V.eq(v * z, y))),
                                    V.implies(V.eq(z, 0, 0), V.and_(V.eq(u, x), V.eq(v, y)))))
    V.forall(label, D, post)


@contract("G02", "project_points, one camera for all points", product(rank=[2, 3, 4, 5], homo=[False, True]))
def g02_one(V, rank, homo):
    D = dims(V, rank - 1)
    p = V.tensor("pts", D + [4 if homo else 3], special=[0, 1, -1, 2])
    M = V.tensor("M", [4, 4], special=[0, 1])
    sp, sm = V.snap(p), V.snap(M)
    r = V.call(PU + "project_points", p, M)
    V.ensure_shape("two coordinates per point", r, D + [2])
    _proj_post(V, "pinhole projection of every point", D, r, lambda i, q, k: V.at(M, q, k), p, homo)
    V.unchanged("points untouched", p, sp)
    V.unchanged("camera matrix untouched", M, sm)


@contract("G02", "project_points, one camera per batch element",
          [c for c in product(rank=[3, 4, 5], homo=[False, True], inner=["one", "full"]) if c["rank"] > 3 or c["inner"] == "one"])
def g02_batch(V, rank, homo, inner):
    D = dims(V, rank - 1)
    p = V.tensor("pts", D + [4 if homo else 3], special=[0, 1, -1, 2])
    I = [1 if inner == "one" else d for d in D[1:-1]]
    M = V.tensor("M", D[:1] + I + [4, 4], special=[0, 1])
    sp, sm = V.snap(p), V.snap(M)
    r = V.call(PU + "project_points", p, M)
    V.ensure_shape("two coordinates per point", r, D + [2])

    def row(i, q, k):
        return V.at(M, i[0], *([0] * len(I) if inner == "one" else i[1:-1]), q, k)
    _proj_post(V, "pinhole projection with the point's own camera", D, r, row, p, homo)
    V.unchanged("points untouched", p, sp)
    V.unchanged("camera matrix untouched", M, sm)


def affine(V, name, batch=()):
    """4x4 matrices with last row (0,0,0,1)"""
    A = V.tensor(name, list(batch) + [3, 4], special=[0, 1])
    n = len(batch)
    return V.array_like(list(batch) + [4, 4], lambda *i: V.ite(
        V.lt(i[n], 3), V.at(A, *i[:n], V.min(i[n], 2), i[n + 1]), V.ite(V.eq(i[n + 1], 3), 1, 0)))


@contract("G02", "cam2pixel")
def g02_cam2pixel(V):
    D = dims(V, 3)
    p = V.tensor("pts", D + [3], special=[0, 1, -1, 2])
    M = affine(V, "M")
    sp, sm = V.snap(p), V.snap(M)
    r = V.call(GU + "cam2pixel", p, M)
    V.ensure_shape("two coordinates per pixel", r, D + [2])
    _proj_post(V, "pinhole projection", D, r, lambda i, q, k: V.at(M, q, k), p, False)
    V.unchanged("points untouched", p, sp)
    V.unchanged("camera matrix untouched", M, sm)


@contract("G02", "cam2pixel_KF")
def g02_cam2pixel_kf(V):
    b, n = V.dim("b"), V.dim("n")
    p = V.tensor("pts", [b, n, 3], special=[0, 1, -1, 2])
    M = affine(V, "M", [b])
    sp, sm = V.snap(p), V.snap(M)
    r = V.call(GU + "cam2pixel_KF", p, M)
    V.ensure_shape("two coordinates per pixel", r, [b, n, 2])
    _proj_post(V, "pinhole projection", [b, n], r, lambda i, q, k: V.at(M, i[0], q, k), p, False)
    V.unchanged("points untouched", p, sp)
    V.unchanged("camera matrix untouched", M, sm)


@contract("G02", "transform_pts_nd_KF applies every batch element's own transform", product(d=[2, 3]))
def g02_nd_kf(V, d):
    b, n = V.dim("b"), V.dim("n")
    p = V.tensor("pts", [b, n, d])
    M = V.tensor("M", [b, d + 1, d + 1], special=[0, 1])
    sp, sm = V.snap(p), V.snap(M)
    r = V.call(GU + "transform_pts_nd_KF", p, M)
    V.ensure_shape("same shape", r, [b, n, d])

    def post(i, j, q):
        def h(k):
            return V.at(p, i, j, k) if k < d else 1
        w = matvec(V, lambda k: V.at(M, i, d, k), d + 1, h)
        x = matvec(V, lambda k: V.at(M, i, q, k), d + 1, h)
        big = V.gt(V.abs(w), V.frac("1/1000000"))
        ok = V.or_(V.clear(w, 0, 0.05), V.eq(w, 0, 0))
        return V.implies(ok, V.and_(V.implies(big, V.eq(V.at(r, i, j, q) * w, x)),
                                    V.implies(V.not_(big), V.eq(V.at(r, i, j, q), x))))
    V.forall("transform and dehomogenise", [b, n, d], post)
    V.unchanged("points untouched", p, sp)
    V.unchanged("transform untouched", M, sm)


@contract("G02", "project_points rejects wrong shapes")
def g02_reject(V):
    n, b = V.dim("n"), V.dim("b")
    M = V.tensor("M", [4, 4])
    f = PU + "project_points"
    V.raises("points not a tensor", TypeError, lambda: V.call(f, 1, M))
    V.raises("matrix not a tensor", TypeError, lambda: V.call(f, V.tensor("p0", [n, 3]), 1))
    V.raises("rank 1 points", ValueError, lambda: V.call(f, V.tensor("p1", [3]), M))
    V.raises("2-D points", ValueError, lambda: V.call(f, V.tensor("p2", [n, 2]), M))
    V.raises("3x4 matrix", ValueError, lambda: V.call(f, V.tensor("p3", [n, 3]), V.tensor("M3", [3, 4])))
    V.raises("rank mismatch", ValueError, lambda: V.call(f, V.tensor("p4", [n, 3]), V.tensor("M4", [n, 4, 4])))
    V.raises("batch mismatch", ValueError, lambda: V.call(f, V.tensor("p5", [b, n, 3]), V.tensor("M5", [b + 1, 4, 4])))


# ------------------------------------------------------------------------------------------------ G03
@contract("G03", "inverse_intrinsics is the inverse up to epsilon", product(rank=[2, 3, 4], size=[3, 4]))
def g03_inv(V, rank, size):
    D = dims(V, rank - 2)
    K4 = V.pinhole("K", D)
    K = K4 if size == 4 else K4[..., :3, :3]
    s = V.snap(K)
    r = V.call(PU + "inverse_intrinsics", K)
    V.ensure_shape("same shape", r, D + [size, size])
    eps = V.frac("1/1000000")

    def prod(*ix):
        b = ix
        cs = []
        for i in range(size):
            for j in range(size):
                m = matvec(V, lambda k: V.at(r, *b, i, k), size, lambda k: V.at(K, *b, k, j))
                if i == j and i < 2:
                    f = V.at(K, *b, i, i)
                    cs.append(V.eq(m * (f + eps), f))
                else:
                    cs.append(V.eq(m, 1 if i == j else 0))
        return V.and_(*cs)
    V.forall("Kinv K = I up to the epsilon added to the focal lengths", D, prod)

    def closed(*b):
        fx, fy, cx, cy = [V.at(K, *b, *q) for q in ((0, 0), (1, 1), (0, 2), (1, 2))]
        return V.and_(V.eq(V.at(r, *b, 0, 0) * (fx + eps), 1), V.eq(V.at(r, *b, 1, 1) * (fy + eps), 1),
                      V.eq(V.at(r, *b, 0, 2) * (fx + eps), 0 - cx), V.eq(V.at(r, *b, 1, 2) * (fy + eps), 0 - cy))
    V.forall("closed form", D, closed)
    V.unchanged("K untouched", K, s)


@contract("G03", "inverse_intrinsics rejects wrong shapes")
def g03_inv_reject(V):
    n = V.dim("n")
    f = PU + "inverse_intrinsics"
    V.raises("not a tensor", TypeError, lambda: V.call(f, 1))
    V.raises("rank 1", ValueError, lambda: V.call(f, V.tensor("a", [n])))
    V.raises("3x4", ValueError, lambda: V.call(f, V.tensor("b", [n, 3, 4])))
    V.raises("2x2", ValueError, lambda: V.call(f, V.tensor("c", [2, 2])))


@contract("G03", "unproject_points, one camera", product(rank=[2, 3, 4, 5], homo=[False, True]))
def g03_un_one(V, rank, homo):
    D = dims(V, rank - 1)
    p = V.tensor("pix", D + [3 if homo else 2], special=[0, 1])
    M = V.tensor("Kinv", [3, 3])
    d = V.tensor("depth", D, special=[0])
    snaps = [V.snap(x) for x in (p, M, d)]
    r = V.call(PU + "unproject_points", p, M, d)
    V.ensure_shape("3-D points", r, D + [3])

    def post(*i):
        i, q = i[:-1], i[-1]
        return V.eq(V.at(r, *i, q), V.at(d, *i) * matvec(
            V, lambda k: V.at(M, q, k), 3, lambda k: V.at(p, *i, k) if homo or k < 2 else 1))
    V.forall("depth times Kinv times the homogeneous pixel", D + [3], post)
    for x, s in zip((p, M, d), snaps):
        V.unchanged("inputs untouched", x, s)


@contract("G03", "unproject_points, one camera per batch element",
          [c for c in product(rank=[3, 4, 5], homo=[False, True], inner=["one", "full"]) if c["rank"] > 3 or c["inner"] == "one"])
def g03_un_batch(V, rank, homo, inner):
    D = dims(V, rank - 1)
    I = [1 if inner == "one" else x for x in D[1:-1]]
    p = V.tensor("pix", D + [3 if homo else 2], special=[0, 1])
    M = V.tensor("Kinv", D[:1] + I + [3, 3])
    d = V.tensor("depth", D, special=[0])
    snaps = [V.snap(x) for x in (p, M, d)]
    r = V.call(PU + "unproject_points", p, M, d)
    V.ensure_shape("3-D points", r, D + [3])

    def post(*i):
        i, q = i[:-1], i[-1]
        return V.eq(V.at(r, *i, q), V.at(d, *i) * matvec(
            V, lambda k: V.at(M, i[0], *([0] * len(I) if inner == "one" else i[1:-1]), q, k), 3,
            lambda k: V.at(p, *i, k) if homo or k < 2 else 1))
    V.forall("depth times own Kinv times the homogeneous pixel", D + [3], post)
    for x, s in zip((p, M, d), snaps):
        V.unchanged("inputs untouched", x, s)


@contract("G03", "unproject_points rejects wrong shapes")
def g03_un_reject(V):
    n, b = V.dim("n"), V.dim("b")
    M = V.tensor("M", [3, 3])
    f = PU + "unproject_points"
    d = V.tensor("d", [n])
    V.raises("pixels not a tensor", TypeError, lambda: V.call(f, 1, M, d))
    V.raises("intrinsics not a tensor", TypeError, lambda: V.call(f, V.tensor("p0", [n, 2]), 1, d))
    V.raises("depth not a tensor", TypeError, lambda: V.call(f, V.tensor("p01", [n, 2]), M, 1))
    V.raises("4-D pixels", ValueError, lambda: V.call(f, V.tensor("p2", [n, 4]), M, d))
    V.raises("4x4 matrix", ValueError, lambda: V.call(f, V.tensor("p3", [n, 2]), V.tensor("M3", [4, 4]), d))
    V.raises("rank mismatch", ValueError, lambda: V.call(f, V.tensor("p4", [n, 2]), V.tensor("M4", [n, 3, 3]), d))
    V.raises("batch mismatch", ValueError, lambda: V.call(
        f, V.tensor("p5", [b, n, 2]), V.tensor("M5", [b + 1, 3, 3]), V.tensor("d5", [b, n])))
    V.raises("depth of another length", ValueError, lambda: V.call(f, V.tensor("p6", [n, 2]), M, V.tensor("d6", [n + 1])))


@contract("G03", "projecting the unprojected pixel returns it",
          [c for c in product(rank=[2, 3, 4], batched=[False, True]) if c["rank"] > 2 or not c["batched"]])
def g03_round(V, rank, batched):
    D = dims(V, rank - 1)
    B = (D[:1] + [1] * (rank - 3)) if batched else []
    K = V.pinhole("K", B)
    nb = len(B)

    def inv(*i):
        b, i, j = i[:nb], i[nb], i[nb + 1]
        fx, fy, cx, cy = [V.at(K, *b, *q) for q in ((0, 0), (1, 1), (0, 2), (1, 2))]
        f = V.ite(V.eq(i, 0), fx, V.ite(V.eq(i, 1), fy, 1))
        c = V.ite(V.eq(i, 0), cx, V.ite(V.eq(i, 1), cy, 0))
        return V.ite(V.eq(i, j), V.div(1, f), V.ite(V.and_(V.eq(j, 2), V.lt(i, 2)), 0 - V.div(c, f), 0))
    Kinv = V.array_like(B + [3, 3], inv)
    pix = V.tensor("pix", D + [2])
    d = V.tensor("depth", D, special=[2])
    r = V.call(PU + "project_points", V.call(PU + "unproject_points", pix, Kinv, d), K)
    V.ensure_shape("pixels", r, D + [2])
    V.forall("project(unproject) = id for non-zero depth", D, lambda *i: V.implies(
        V.and_(V.ne(V.at(d, *i), 0), V.clear(V.at(d, *i), 0, 0.05)),
        V.and_(V.eq(V.at(r, *i, 0), V.at(pix, *i, 0)), V.eq(V.at(r, *i, 1), V.at(pix, *i, 1)))))


# ------------------------------------------------------------------------------------------------ G04
def cross(V, a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


@contract("G04", "so3_hat is the cross-product matrix")
def g04_hat(V):
    w = V.tensor("omega", [3])
    x = [V.real("x%d" % k) for k in range(3)]
    s = V.snap(w)
    r = V.call(SE + "so3_hat", w)
    V.ensure_shape("3x3", r, [3, 3])
    c = cross(V, [V.at(w, k) for k in range(3)], x)
    V.ensure("hat(w) x = w cross x", V.and_(*[V.eq(matvec(V, lambda k: V.at(r, i, k), 3, lambda k: x[k]), c[i]) for i in range(3)]))
    V.forall("skew-symmetric", [3, 3], lambda i, j: V.eq(V.at(r, i, j), 0 - V.at(r, j, i)))
    V.unchanged("input untouched", w, s)


@contract("G04", "se3_hat is the twist matrix")
def g04_se3hat(V):
    xi = V.tensor("xi", [6])
    s = V.snap(xi)
    r = V.call(SE + "se3_hat", xi)
    V.ensure_shape("4x4", r, [4, 4])
    w = [V.at(xi, 3 + k) for k in range(3)]
    H = [[0, 0 - w[2], w[1], V.at(xi, 0)], [w[2], 0, 0 - w[0], V.at(xi, 1)], [0 - w[1], w[0], 0, V.at(xi, 2)], [0, 0, 0, 0]]
    for i in range(4):
        for j in range(4):
            V.ensure("twist matrix", V.eq(V.at(r, i, j), H[i][j]))
    V.unchanged("input untouched", xi, s)


def _rodrigues(V, R, w, small):
    th = V.norm(w)
    H = [[0, 0 - w[2], w[1]], [w[2], 0, 0 - w[0]], [0 - w[1], w[0], 0]]
    I = lambda i, j: 1 if i == j else 0
    if small:
        for i in range(3):
            for j in range(3):
                V.ensure("first-order expansion of the rotation", V.eq(R(i, j), H[i][j] + I(i, j)))
        return
    s, c = V.sin(th), V.cos(th)
    for i in range(3):
        for j in range(3):
            # the rotation by theta about w/theta: R t^2 = cos t^2 I + sin t [w] + (1-cos) w w^T
            V.ensure("Rodrigues rotation", V.eq(R(i, j) * th * th, c * I(i, j) * th * th + s * th * H[i][j] + (1 - c) * w[i] * w[j]))
    V.ensure("orthonormal with determinant 1", is_rotation(V, R))
    for i in range(3):
        V.ensure("the axis is fixed", V.eq(matvec(V, lambda k: R(i, k), 3, lambda k: w[k]), w[i]))
    V.ensure("rotates by |w|", V.eq(R(0, 0) + R(1, 1) + R(2, 2), 1 + 2 * c))


def _twist(V, n):
    """sampled both below and far above the threshold"""
    return V.tensor("xi", [n], special=[0, 1e-7, -2e-7, 1, -1, 3.2])


@contract("G04", "so3_exp is the rotation by |omega| about omega", tol=5e-3)
def g04_so3exp(V):
    w_ = _twist(V, 3)
    sn = V.snap(w_)
    w = [V.at(w_, k) for k in range(3)]
    th = V.norm(w)
    V.assume(V.clear(th, 1e-6, 5e-8))
    V.assume(V.or_(V.lt(th, 1e-5), V.clear(th, 0, 1e-2)))
    r = V.call(SE + "so3_exp", w_)
    V.ensure_shape("3x3", r, [3, 3])
    _rodrigues(V, lambda i, j: V.at(r, i, j), w, V.split(V.lt(th, V.frac("1/1000000"))))
    V.unchanged("input untouched", w_, sn)


@contract("G04", "se3_exp is a rigid transform with the left Jacobian", tol=5e-3)
def g04_se3exp(V):
    xi = _twist(V, 6)
    sn = V.snap(xi)
    v, w = [V.at(xi, k) for k in range(3)], [V.at(xi, 3 + k) for k in range(3)]
    th = V.norm(w)
    V.assume(V.clear(th, 1e-6, 5e-8))
    V.assume(V.or_(V.lt(th, 1e-5), V.clear(th, 0, 0.2)))
    r = V.call(SE + "se3_exp", xi)
    V.ensure_shape("4x4", r, [4, 4])
    V.ensure("last row is (0,0,0,1)", last_row(V, lambda i, j: V.at(r, i, j)))
    small = V.split(V.lt(th, V.frac("1/1000000")))
    _rodrigues(V, lambda i, j: V.at(r, i, j), w, small)
    wv = cross(V, w, v)
    wwv = cross(V, w, wv)
    for i in range(3):
        t = V.at(r, i, 3)
        if small:
            V.ensure("translation, first order", V.eq(t, v[i] + wv[i]))
        else:
            s, c = V.sin(th), V.cos(th)
            V.ensure("translation = left Jacobian times v", V.eq(
                t * th * th * th, v[i] * th * th * th + (1 - c) * th * wv[i] + (th - s) * wwv[i]))
    V.unchanged("input untouched", xi, sn)


@contract("G04", "small rotations are orthonormal to 1e-11")
def g04_small(V):
    w_ = V.tensor("omega", [3], scale=1e-7)
    w = [V.at(w_, k) for k in range(3)]
    V.assume(V.lt(V.norm(w), V.frac("1/1000000")))
    r = V.call(SE + "so3_exp", w_)
    for i in range(3):
        for j in range(i, 3):
            V.ensure("nearly orthonormal", V.near(matvec(V, lambda k: V.at(r, k, i), 3, lambda k: V.at(r, k, j)),
                                                  1 if i == j else 0, "1/100000000000"))


# ------------------------------------------------------------------------------------------------ G05
BATCH = [0, 1]


def _batch(V, n):
    return [V.dim("b%d" % k) for k in range(n)]


def _is_product(V, label, r, B, A, C):
    """r = A C per batch element; A, C: f(b, i, j)"""
    V.ensure_shape(label + ": shape", r, B + [4, 4])
    V.forall(label, B + [4, 4], lambda *x: V.eq(V.at(r, *x), matvec(
        V, lambda k: A(x[:-2], x[-2], k), 4, lambda k: C(x[:-2], k, x[-1]))))


@contract("G05", "inverse_transfom_3d is the two-sided inverse", product(nb=BATCH))
def g05_inv(V, nb):
    B = _batch(V, nb)
    T = V.rigid("T", B)
    s = V.snap(T)
    r = V.call(GU + "inverse_transfom_3d", T)
    V.ensure_shape("shape", r, B + [4, 4])
    I = lambda i, j: V.ite(V.eq(i, j), 1, 0)
    V.forall("inv(T) T = I", B + [4, 4], lambda *x: V.eq(I(x[-2], x[-1]), matvec(
        V, lambda k: V.at(r, *x[:-1], k), 4, lambda k: V.at(T, *x[:-2], k, x[-1]))))
    V.forall("T inv(T) = I", B + [4, 4], lambda *x: V.eq(I(x[-2], x[-1]), matvec(
        V, lambda k: V.at(T, *x[:-1], k), 4, lambda k: V.at(r, *x[:-2], k, x[-1]))))
    V.unchanged("input untouched", T, s)


@contract("G05", "compose_transforms_3d is the matrix product", product(nb=BATCH))
def g05_compose(V, nb):
    B = _batch(V, nb)
    A, C = V.rigid("A", B), V.rigid("C", B)
    sa, sc = V.snap(A), V.snap(C)
    r = V.call(GU + "compose_transforms_3d", A, C)
    _is_product(V, "product", r, B, lambda b, i, j: V.at(A, *b, i, j), lambda b, i, j: V.at(C, *b, i, j))
    V.unchanged("inputs untouched", A, sa)
    V.unchanged("inputs untouched", C, sc)


def _rel_post(V, r, B, A, C):
    """A r = C (equivalently r = inv(A) C, the inverse being unique)"""
    V.ensure_shape("shape", r, B + [4, 4])
    V.forall("first composed with the relative transform is the second", B + [4, 4], lambda *x: V.eq(V.at(C, *x), matvec(
        V, lambda k: V.at(A, *x[:-1], k), 4, lambda k: V.at(r, *x[:-2], k, x[-1]))))


@contract("G05", "relative_transform_3d", product(nb=BATCH))
def g05_rel3d(V, nb):
    B = _batch(V, nb)
    A, C = V.rigid("A", B), V.rigid("C", B)
    sa, sc = V.snap(A), V.snap(C)
    _rel_post(V, V.call(GU + "relative_transform_3d", A, C), B, A, C)
    V.unchanged("inputs untouched", A, sa)
    V.unchanged("inputs untouched", C, sc)


@contract("G05", "relative_transformation", product(nb=BATCH, orth=[False, True]), timeout=20000)
def g05_rel(V, nb, orth):
    B = _batch(V, nb)
    A, C = V.rigid("A", B), V.rigid("C", B)
    sa, sc = V.snap(A), V.snap(C)
    _rel_post(V, V.call(GU + "relative_transformation", A, C, orthogonal_rotations=orth), B, A, C)
    V.unchanged("inputs untouched", A, sa)
    V.unchanged("inputs untouched", C, sc)


@contract("G05", "transform_pointcloud rotates and translates every point")
def g05_pc(V):
    n = V.dim("n")
    p, T = V.tensor("pts", [n, 3]), V.rigid("T")
    s, st = V.snap(p), V.snap(T)
    r = V.call(GU + "transform_pointcloud", p, T)
    V.ensure_shape("shape", r, [n, 3])
    V.forall("R p + t", [n, 3], lambda i, q: V.eq(V.at(r, i, q), V.at(T, q, 3) + matvec(
        V, lambda k: V.at(T, q, k), 3, lambda k: V.at(p, i, k))))
    V.unchanged("points untouched", p, s)
    V.unchanged("transform untouched", T, st)


@contract("G05", "transform_normals only rotates")
def g05_nrm(V):
    n = V.dim("n")
    p, T = V.tensor("nrm", [n, 3]), V.rigid("T")
    s, st = V.snap(p), V.snap(T)
    r = V.call(GU + "transform_normals", p, T)
    V.ensure_shape("shape", r, [n, 3])
    V.forall("R n", [n, 3], lambda i, q: V.eq(V.at(r, i, q), matvec(V, lambda k: V.at(T, q, k), 3, lambda k: V.at(p, i, k))))
    V.unchanged("normals untouched", p, s)
    V.unchanged("transform untouched", T, st)


@contract("G05", "transform_pts_3d", product(rank=[2, 3, 4], homo=[False, True]))
def g05_pts(V, rank, homo):
    D = dims(V, rank - 1)
    P = V.tensor("pts", D + [3])
    p = V.array_like(D + [4], lambda *i: V.ite(V.eq(i[-1], 3), 1, V.at(P, *i[:-1], V.min(i[-1], 2)))) if homo else P
    T = V.rigid("T")
    s, st = V.snap(p), V.snap(T)
    r = V.call(GU + "transform_pts_3d", p, T)
    V.ensure_shape("shape", r, D + [3])
    V.forall("R p + t", D + [3], lambda *i: V.eq(V.at(r, *i), V.at(T, i[-1], 3) + matvec(
        V, lambda k: V.at(T, i[-1], k), 3, lambda k: V.at(P, *i[:-1], k))))
    V.unchanged("points untouched", p, s)
    V.unchanged("transform untouched", T, st)


@contract("G05", "pixel2cam transforms and scales by depth")
def g05_pixel2cam(V):
    b, h, w = V.dim("b"), V.dim("h"), V.dim("w")
    P = V.tensor("pix", [b, h, w, 3])
    T = affine_m(V, "Kinv")
    d = V.tensor("depth", [b, 1, h, w])
    s = [V.snap(x) for x in (P, T, d)]
    r = V.call(GU + "pixel2cam", d, T, P)
    V.ensure_shape("shape", r, [b, h, w, 3])
    V.forall("depth (K^-1 p)", [b, h, w, 3], lambda x, y, z, q: V.eq(V.at(r, x, y, z, q), V.at(d, x, 0, y, z) * (
        V.at(T, q, 3) + matvec(V, lambda k: V.at(T, q, k), 3, lambda k: V.at(P, x, y, z, k)))))
    for x, y in zip((P, T, d), s):
        V.unchanged("inputs untouched", x, y)


def affine_m(V, name):
    return affine(V, name)


@contract("G05", "point helpers reject wrong shapes")
def g05_reject(V):
    n = V.dim("n")
    T, p = V.rigid("T"), V.tensor("p", [n, 3])
    for f in ("transform_pointcloud", "transform_normals"):
        V.raises(f + ": not a tensor", TypeError, lambda: V.call(GU + f, 1, T))
        V.raises(f + ": transform not a tensor", TypeError, lambda: V.call(GU + f, p, 1))
        V.raises(f + ": rank", ValueError, lambda: V.call(GU + f, V.tensor("q" + f, [n, 1, 3]), T))
        V.raises(f + ": columns", ValueError, lambda: V.call(GU + f, V.tensor("r" + f, [n, 4]), T))
        V.raises(f + ": 3x3 transform", ValueError, lambda: V.call(GU + f, p, V.rot("R" + f)))


# ------------------------------------------------------------------------------------------------ G06
DU = "gradslam.datasets.datautils:"
TU = "gradslam.datasets.tumutils:"


def _quat_post(V, label, R, q, x):
    """R(i,j) is the rotation of the quaternion q (any norm > 0): R |q|^2 = M(q)"""
    a, b, c, d = q
    n = a * a + b * b + c * c + d * d
    M = [[n - 2 * (b * b + c * c), 2 * (a * b - c * d), 2 * (a * c + b * d)],
         [2 * (a * b + c * d), n - 2 * (a * a + c * c), 2 * (b * c - a * d)],
         [2 * (a * c - b * d), 2 * (b * c + a * d), n - 2 * (a * a + b * b)]]
    return V.and_(*[V.eq(R(i, j) * n, M[i][j]) for i in range(3) for j in range(3)])


def _nonzero(V, q, lo="1/1000000"):
    n = q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]
    return V.gt(n, V.frac(lo))


def _quats(V, name, D, n, off, np=False, dtype="float32"):
    t = V.tensor(name, D + [n], np=np, dtype=dtype, special=[0, 0.5, -0.5, 2],
                 row=lambda V, g, *b: _nonzero(V, [g(off + k) for k in range(4)]))
    q = lambda b: [V.at(t, *b, off + k) for k in range(4)]
    return t, q


@contract("G06", "quaternion_to_rotation_matrix", product(nb=[0, 1, 2]), timeout=20000)
def g06_geom(V, nb):
    B = _batch(V, nb)
    t, q = _quats(V, "q", B, 4, 0)
    s = V.snap(t)
    r = V.call(GU + "quaternion_to_rotation_matrix", t)
    V.ensure_shape("one matrix per quaternion", r, B + [3, 3])
    V.forall("rotation of the normalised quaternion", B, lambda *b: _quat_post(V, "", lambda i, j: V.at(r, *b, i, j), q(b), b))
    V.forall("proper rotation", B, lambda *b: is_rotation(V, lambda i, j: V.at(r, *b, i, j)))
    V.unchanged("input untouched", t, s)


@contract("G06", "pointquaternion_to_homogeneous", product(nb=[0, 1, 2], np=[False, True], dtype=["float32", "float64"]), timeout=20000)
def g06_pq(V, nb, np, dtype):
    B = _batch(V, nb)
    t, q = _quats(V, "pq", B, 7, 3, np, dtype)
    s = V.snap(t)
    r = V.call(DU + "pointquaternion_to_homogeneous", t)
    V.ensure_shape("one transform per pose", r, B + [4, 4])
    V.forall("rotation of the normalised quaternion", B, lambda *b: _quat_post(V, "", lambda i, j: V.at(r, *b, i, j), q(b), b))
    V.forall("proper rotation", B, lambda *b: is_rotation(V, lambda i, j: V.at(r, *b, i, j)))
    V.forall("translation", B + [3], lambda *b: V.eq(V.at(r, *b, 3), V.at(t, *b)))
    V.forall("last row", B, lambda *b: last_row(V, lambda i, j: V.at(r, *b, i, j)))
    V.unchanged("input untouched", t, s)


@contract("G06", "transform44", timeout=20000)
def g06_tum(V):
    x = [V.real("l%d" % k) for k in range(7)]
    V.assume(_nonzero(V, x[3:]))
    line = ["1305031910.765238"] + list(x)
    r = V.call(TU + "transform44", line)
    V.ensure_shape("4x4", r, [4, 4])
    R = lambda i, j: V.at(r, i, j)
    V.ensure("rotation of the normalised quaternion", _quat_post(V, "", R, x[3:], ()))
    V.ensure("proper rotation", is_rotation(V, R))
    V.ensure("translation", V.and_(*[V.eq(R(k, 3), x[k]) for k in range(3)]))
    V.ensure("last row", last_row(V, R))
    V.ensure("input untouched", V.and_(len(line) == 8, *[V.eq(line[k + 1], x[k]) for k in range(7)]))


@contract("G06", "normalize_quaternion", product(nb=[0, 1, 2]))
def g06_norm(V, nb):
    B = _batch(V, nb)
    t, q = _quats(V, "q", B, 4, 0)
    s = V.snap(t)
    r = V.call(GU + "normalize_quaternion", t)
    V.ensure_shape("shape", r, B + [4])
    V.forall("unit norm", B, lambda *b: V.eq(V.sum([4], lambda k: V.at(r, *b, k) * V.at(r, *b, k)), 1))
    V.forall("same direction", B + [4], lambda *b: V.eq(V.at(r, *b) * V.norm(q(b[:-1])), V.at(t, *b)))
    V.unchanged("input untouched", t, s)


@contract("G06", "quaternion_to_axisangle", product(nb=[0, 1, 2]))
def g06_axis(V, nb):
    B = _batch(V, nb)
    t = V.tensor("q", B + [4], special=[0, 0, 1])
    s = V.snap(t)
    r = V.call(GU + "quaternion_to_axisangle", t)
    V.ensure_shape("a 3-vector per quaternion", r, B + [3])

    def par(*b):
        a, v = [V.at(r, *b, k) for k in range(3)], [V.at(t, *b, k) for k in range(3)]
        c = cross(V, a, v)
        small = V.and_(*[V.eq(v[k], 0) for k in range(3)])
        return V.and_(*([V.eq(x, 0) for x in c] + [V.implies(small, V.and_(*[V.eq(x, 0) for x in a]))]))
    V.forall("parallel to the vector part", B, par)
    V.forall("pointing along it for a non-negative real part", B, lambda *b: V.implies(
        V.ge(V.at(t, *b, 3), 0), V.and_(*[V.ge(V.at(r, *b, k) * V.at(t, *b, k), 0) for k in range(3)])))
    V.unchanged("input untouched", t, s)


# ------------------------------------------------------------------------------------------------ G07
@contract("G07", "create_meshgrid holds (row, column) at (row, column)", product(norm=[False, True]))
def g07_grid(V, norm):
    h, w = V.dim("h", lo=2 if norm else 1), V.dim("w", lo=2 if norm else 1)
    r = V.call(GU + "create_meshgrid", h, w, norm)
    V.ensure_shape("(1,h,w,2)", r, [1, h, w, 2])

    def post(i, j):
        a, b = V.at(r, 0, i, j, 0), V.at(r, 0, i, j, 1)
        if not norm:
            return V.and_(V.eq(a, i), V.eq(b, j))
        return V.and_(V.eq((a + 1) * (h - 1), 2 * i), V.eq((b + 1) * (w - 1), 2 * j))
    V.forall("positions", [h, w], post)


@contract("G07", "create_meshgrid is normalised by default")
def g07_grid_default(V):
    h, w = V.dim("h", lo=2), V.dim("w", lo=2)
    r = V.call(GU + "create_meshgrid", h, w)
    V.ensure_shape("(1,h,w,2)", r, [1, h, w, 2])
    V.forall("positions", [h, w], lambda i, j: V.and_(
        V.eq((V.at(r, 0, i, j, 0) + 1) * (h - 1), 2 * i), V.eq((V.at(r, 0, i, j, 1) + 1) * (w - 1), 2 * j)))


@contract("G07", "normalize_pixel_coords maps 0..size-1 onto -1..1", product(rank=[1, 2, 3, 4]))
def g07_norm(V, rank):
    D = dims(V, rank - 1)
    h, w = V.dim("h", lo=2), V.dim("w", lo=2)
    p = V.tensor("pix", D + [2], special=[0, 1])
    s = V.snap(p)
    r = V.call(GU + "normalize_pixel_coords", p, h, w)
    V.ensure_shape("shape", r, D + [2])
    V.forall("first component by the height", D, lambda *i: V.eq((V.at(r, *i, 0) + 1) * (h - 1), 2 * V.at(p, *i, 0)))
    V.forall("second component by the width", D, lambda *i: V.eq((V.at(r, *i, 1) + 1) * (w - 1), 2 * V.at(p, *i, 1)))
    V.unchanged("input untouched", p, s)


@contract("G07", "unnormalize_pixel_coords maps -1..1 onto 0..size-1", product(rank=[1, 2, 3, 4]))
def g07_unnorm(V, rank):
    D = dims(V, rank - 1)
    h, w = V.dim("h", lo=2), V.dim("w", lo=2)
    p = V.tensor("pix", D + [2], special=[-1, 0, 1])
    s = V.snap(p)
    r = V.call(GU + "unnormalize_pixel_coords", p, h, w)
    V.ensure_shape("shape", r, D + [2])
    V.forall("first component by the height", D, lambda *i: V.eq(2 * V.at(r, *i, 0), (V.at(p, *i, 0) + 1) * (h - 1)))
    V.forall("second component by the width", D, lambda *i: V.eq(2 * V.at(r, *i, 1), (V.at(p, *i, 1) + 1) * (w - 1)))
    V.unchanged("input untouched", p, s)


@contract("G07", "un-normalising inverts normalising", product(rank=[1, 2, 3, 4], order=[0, 1]))
def g07_round(V, rank, order):
    D = dims(V, rank - 1)
    h, w = V.dim("h", lo=2), V.dim("w", lo=2)
    p = V.tensor("pix", D + [2])
    fs = ["normalize_pixel_coords", "unnormalize_pixel_coords"]
    if order:
        fs.reverse()
    r = V.call(GU + fs[1], V.call(GU + fs[0], p, h, w), h, w)
    V.same("identity", r, p)
