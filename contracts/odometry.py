"""Contracts of odometry (O01..O06)."""
from engine.vapi import contract, product
from contracts import frames as FR
from contracts import clouds as CL
from contracts.util import is_rotation, last_row, dot, det3
from contracts.frames import RGBD, px, any_state, invariant, sum_

BOTH = [True, False]
U = "gradslam.odometry.icputils:"
SOLVE, GN, ICP, GRAD = U + "solve_linear_system", U + "gauss_newton_solve", U + "point_to_plane_ICP", U + "point_to_plane_gradICP"


# ------------------------------------------------------------------------------------------------ O01
@contract("O01", "the normal equations hold", product(n=[1, 2, 3, 6], damp=["float", "tensor", "default"], dtype=["float32", "float64"]),
          samples=20, opaque_inverse=True, maxdim=14)
def o01(V, n, damp, dtype):
    m = V.dim("m")
    A, b = V.tensor("A", [m, n], dtype), V.tensor("b", [m, 1], dtype)
    if damp == "default":
        V.assume(V.symbolic or m >= n)
        d, x = 1e-8, None
    else:
        d = V.real("damp", lo=0.25, hi=4)
    V.assume(V.symbolic or damp != "default" or well_conditioned(V, A))
    sA, sb = V.snap(A), V.snap(b)
    arg = {"float": d, "tensor": V.torch.tensor(d, dtype=getattr(V.torch, dtype)) if damp == "tensor" else None}
    x = V.fn(SOLVE)(A, b) if damp == "default" else V.fn(SOLVE)(A, b, arg[damp])
    V.ensure_shape("shape of the solution", x, [n, 1])
    V.ensure("dtype of the solution", V.dtype_name(x) == dtype)
    for i in range(n):
        lhs = sum_([V.sum([m], lambda r: V.at(A, r, i) * V.at(A, r, j)) * V.at(x, j, 0) for j in range(n)]) + d * V.at(x, i, 0)
        V.ensure("(A^T A + damp I) x = A^T b", V.eq(lhs, V.sum([m], lambda r: V.at(A, r, i) * V.at(b, r, 0)), 2e-3))
    V.unchanged("A untouched", A, sA)
    V.unchanged("b untouched", b, sb)


def well_conditioned(V, A):
    import numpy as np
    M = np.array(A.tolist(), dtype=float)
    return np.linalg.cond(M.T @ M) < 1e3


@contract("O01", "the solution depends on the damping given", product(n=[1, 2]), samples=20, opaque_inverse=True)
def o01_damp(V, n):
    """a tensor damping and the number it holds give the same solution; the damping itself is not modified"""
    m = V.dim("m")
    A, b = V.tensor("A", [m, n]), V.tensor("b", [m, 1])
    d = V.real("damp", lo=0.25, hi=4)
    t = V.torch.tensor(d, dtype=V.torch.float32)
    s = V.snap(t)
    x, y = V.fn(SOLVE)(A, b, d), V.fn(SOLVE)(A, b, t)
    V.same("same solution", x, y, 1e-3)
    V.unchanged("damping untouched", t, s)


@contract("O01", "ill-shaped or ill-typed inputs are rejected", [{}], samples=10)
def o01_reject(V):
    m, k = V.dim("m"), V.dim("k")
    A, b = V.tensor("A", [m, 3]), V.tensor("b", [m, 1])
    f = V.fn(SOLVE)
    for what, a in (("A a list", ([[1.0]], b)), ("b a list", (A, [[1.0]])), ("damping a string", (A, b, "1")), ("damping None", (A, b, None)),
                    ("damping an integer", (A, b, 1))):
        V.raises(what, TypeError, lambda: f(*a))
    for what, a in (("A 1-D", (V.tensor("A1", [m]), b)), ("A 3-D", (V.tensor("A3", [1, m, 3]), b)), ("b 1-D", (A, V.tensor("b1", [m]))),
                    ("b with two columns", (A, V.tensor("b2", [m, 2]))), ("different rows", (A, V.tensor("b3", [m + k, 1]))),
                    ("damping 1-D", (A, b, V.tensor("d", [1])))):
        V.raises(what, ValueError, lambda: f(*a))


# ------------------------------------------------------------------------------------------------ O02
def clouds_for(V, tag=""):
    ns, nt = V.dim(tag + "ns"), V.dim(tag + "nt")
    return V.tensor(tag + "src", [1, ns, 3]), V.tensor(tag + "tgt", [1, nt, 3]), V.tensor(tag + "nrm", [1, nt, 3]), ns, nt


def sq(V, s, i, t, j):
    return sum_([(V.at(s, 0, i, k) - V.at(t, 0, j, k)) * (V.at(s, 0, i, k) - V.at(t, 0, j, k)) for k in range(3)])


def system_row(V, s, n, i, j):
    """normal and source x normal: the derivative of the residual under a small motion (translation, rotation)"""
    p, m = [V.at(s, 0, i, k) for k in range(3)], [V.at(n, 0, j, k) for k in range(3)]
    return m + [p[1] * m[2] - p[2] * m[1], p[2] * m[0] - p[0] * m[2], p[0] * m[1] - p[1] * m[0]]


def residual(V, s, t, n, i, j):
    return sum_([V.at(n, 0, j, k) * (V.at(t, 0, j, k) - V.at(s, 0, i, k)) for k in range(3)])


@contract("O02", "rows, residuals and indices", product(thresh=[None, "float", "int", "huge"]), samples=80)
def o02(V, thresh):
    s, t, n, ns, nt = clouds_for(V)
    th = {None: None, "float": V.real("thresh", lo=0.25, hi=3.0), "int": 1, "huge": 1e6}[thresh]
    snaps = [(x, V.snap(x)) for x in (s, t, n)]
    d2, near = V.knn(s, t)
    if not V.symbolic and th is not None:
        V.assume(all(V.clear(V.sqrt(d2(i)), th, 1e-3) for i in range(ns)))
    A, b, idx = V.fn(GN)(s, t, n, th)
    # the point paired with i is a nearest one, and its distance decides
    e = V.enum([ns], lambda i: V.lt(V.sqrt(d2(i)), th) if th is not None else True)
    V.ensure_shape("rows", A, [e.count, 6])
    V.ensure_shape("residuals", b, [e.count, 1])
    V.ensure_shape("indices", idx, [e.count])
    V.ensure("indices are integers", V.dtype_name(idx) == "int64")

    def at(r):
        i = e.at(r)
        return i[0] if isinstance(i, (tuple, list)) else i
    V.forall("pairs are nearest pairs", [e.count, nt], lambda r, q: V.le(sq(V, s, at(r), t, V.at(idx, r)), sq(V, s, at(r), t, q) + (
        0 if V.symbolic else 1e-4)))
    V.forall("indices are target points", [e.count], lambda r: V.and_(V.le(0, V.at(idx, r)), V.lt(V.at(idx, r), nt)))
    V.forall("the distance reported is that of the pair", [e.count], lambda r: V.eq(sq(V, s, at(r), t, V.at(idx, r)), d2(at(r))))
    V.forall("residual is the normal distance to the target", [e.count], lambda r: V.eq(V.at(b, r, 0), residual(V, s, t, n, at(r), V.at(idx, r))))
    for k in range(6):
        V.forall("row is (n, source x n)", [e.count], lambda r: V.eq(V.at(A, r, k), system_row(V, s, n, at(r), V.at(idx, r))[k]))
    for x, sn in snaps:
        V.unchanged("input untouched", x, sn)


@contract("O02", "the row is the derivative of the residual under the SE(3) exponential", [{}], samples=40)
def o02_derivative(V):
    """first order: residual of the moved point = residual - row . xi + O(2)"""
    s, t, n, ns, nt = clouds_for(V)
    A, b, idx = V.fn(GN)(s, t, n)
    xi = [V.real("x%d" % k) for k in range(6)]
    h = V.fn("gradslam.geometry.se3utils:se3_hat")(V.array_like([6], lambda i: pick(V, xi, i)))

    def f(r):
        j = V.at(idx, r)
        p = [V.at(s, 0, r, k) for k in range(3)]
        moved = [sum_([V.at(h, k, m) * p[m] for m in range(3)]) + V.at(h, k, 3) for k in range(3)]
        drop = sum_([V.at(n, 0, j, k) * moved[k] for k in range(3)])
        return V.eq(sum_([V.at(A, r, k) * xi[k] for k in range(6)]), drop)
    V.forall("row . xi is the change along the normal", [ns], f)


def pick(V, xs, i):
    r = xs[-1]
    for k in reversed(range(len(xs) - 1)):
        r = V.ite(V.eq(i, k), xs[k], r)
    return r


@contract("O02", "ill-shaped or ill-typed clouds are rejected", [{}], samples=10)
def o02_reject(V):
    s, t, n, ns, nt = clouds_for(V)
    f = V.fn(GN)
    for what, a in (("source a list", ([1], t, n)), ("target a list", (s, [1], n)), ("normals None", (s, t, None)),
                    ("threshold a string", (s, t, n, "1")), ("threshold a tensor", (s, t, n, V.torch.tensor(1.0)))):
        V.raises(what, TypeError, lambda: f(*a))
    for what, a in (("source 2-D", (s[0], t, n)), ("target 2-D", (s, t[0], n)), ("normals 2-D", (s, t, n[0])),
                    ("two sources", (V.tensor("s2", [2, ns, 3]), t, n)), ("two targets", (s, V.tensor("t2", [2, nt, 3]), n)),
                    ("two normals", (s, t, V.tensor("n2", [2, nt, 3]))), ("fewer normals", (s, t, V.tensor("n3", [1, nt + 1, 3]))),
                    ("2-D source points", (V.tensor("s3", [1, ns, 2]), t, n)), ("4-D target points", (s, V.tensor("t3", [1, nt, 4]), n)),
                    ("4-D normals", (s, t, V.tensor("n4", [1, nt, 4])))):
        V.raises(what, ValueError, lambda: f(*a))


# ------------------------------------------------------------------------------------------------ O03, O04
def library(V):
    """the functions of the iteration, known by their contracts only: the same system for the same clouds (O02), the
    same solution for the same system and damping (O01), a rigid motion for every twist (G04)"""
    class Lib:
        pass
    L = Lib()
    if not V.symbolic:
        L.system = lambda s, t, n, d: V.fn(GN)(s, t, n, d)
        L.solve = lambda A, b, damp: V.fn(SOLVE)(A, b, damp)
        L.exp = lambda xi: V.fn(EXP)(xi)
        return L

    def system(s, t, n, d=None):
        def mk():
            m = V.dim("rows", lo=0)
            return V.some_tensor("A", [m, 6]), V.some_tensor("b", [m, 1]), V.some_tensor("idx", [m], "int64")
        return V.pure("system", [s, t, n, d], mk)

    def solve(A, b, damp=1e-8):
        return V.pure("solve", [A, b, damp], lambda: V.some_tensor("xi", [A.shape[1], 1]))

    def exp(xi):
        return V.pure("exp", [xi.reshape(6)], lambda: V.rigid("step"))
    L.system, L.solve, L.exp = system, solve, exp
    V.stub(GN, lambda orig, *a, **k: system(*a, **k))
    V.stub(SOLVE, lambda orig, *a, **k: solve(*a, **k))
    V.stub(EXP, lambda orig, *a, **k: exp(*a, **k))
    return L


EXP = "gradslam.geometry.se3utils:se3_exp"


def error(V, b):
    m = V.shape(b)[0]
    return V.sum([m], lambda r: V.at(b, r, 0) * V.at(b, r, 0))


def moved(V, D, s):
    """the cloud s (1, n, 3) under the motion D"""
    n = V.shape(s)[1]
    return V.array_like([1, n, 3], lambda _, i, k: pick(V, [sum_([V.at(D, r, c) * V.at(s, 0, i, c) for c in range(3)]) + V.at(D, r, 3)
                                                           for r in range(3)], k))


def times(V, D, T):
    return V.array_like([4, 4], lambda i, j: sum_([V.at(D, i, c) * V.at(T, c, j) for c in range(4)]))


class State:
    """the three things an iteration carries, found by their shapes"""

    def __init__(self, V, st):
        self.names = {}
        for x, v in st.items():
            if not V.is_tensor(v):
                V.unsupported("loop carries %s" % x)
            sh = tuple(V.shape(v))
            r = "src" if len(sh) == 3 else "T" if sh == (4, 4) else "damp" if sh == () else None
            if r is None or r in self.names:
                V.unsupported("loop carries %s" % x)
            self.names[r] = x
        if len(self.names) != 3:
            V.unsupported("loop does not carry cloud, transform and damping")

    def of(self, st, r):
        return st[self.names[r]]


def is_rigid(V, T):
    at = lambda i, j: V.at(T, i, j)
    return V.and_(is_rotation(V, at), last_row(V, at))


def rigid(V, what, T):
    at = lambda i, j: V.at(T, i, j)
    for i in range(3):
        for j in range(i, 3):
            V.ensure(what + ": columns are orthonormal", V.eq(dot(V, lambda k: at(k, i), 3, lambda k: at(k, j)), 1 if i == j else 0, 1e-3))
    V.ensure(what + ": determinant one", V.eq(det3(at), 1))
    V.ensure(what + ": last row", last_row(V, at))


def icp_invariant(update):
    """loop invariant of both ICP loops: cloud = transform . source, transform rigid; update(V, g, pre, post) gives the
    obligations on one iteration"""
    def inv(V, phase, st, k, mem):
        g = V.ghosts
        if phase == "init":
            mem["role"] = r = State(V, st)
            mem["entry"] = set(st)
            V.same("the transform starts as the initial guess", r.of(st, "T"), g["T0"])
            V.same("the cloud starts moved by the initial guess", r.of(st, "src"), moved(V, g["T0"], g["s"]))
            V.ensure("the damping starts as given", V.eq(V.at(r.of(st, "damp")), g["damp"]))
            return
        r = mem["role"]
        if phase == "havoc":
            T = V.rigid("T")
            pre = {"T": T, "src": moved(V, T, g["s"]), "damp": V.torch.tensor(V.real("damp_k"))}
            g["assume"](V, pre)
            mem["pre"] = {k: v.clone() for k, v in pre.items()}
            return {r.names[k]: v for k, v in pre.items()}
        st = {k: v for k, v in st.items() if k in mem["entry"]}
        post = {k: r.of(st, k) for k in ("T", "src", "damp")}
        update(V, g, mem["pre"], post)
        V.same("the cloud stays the source moved by the transform", post["src"], moved(V, post["T"], g["s"]))
        rigid(V, "the transform stays rigid", post["T"])
    return inv


def icp_step(V, g, pre, post):
    L = g["lib"]
    A, b, idx = L.system(pre["src"], g["t"], g["n"], g["th"])
    D = L.exp(L.solve(A, b, pre["damp"]))
    one = moved(V, D, pre["src"])
    A1, b1, _ = L.system(one, g["t"], g["n"], g["th"])
    better = V.lt(error(V, b1), error(V, b))
    if V.split(better):
        V.same("an error-lowering step is applied to the transform", post["T"], times(V, D, pre["T"]))
        V.same("an error-lowering step is applied to the cloud", post["src"], one)
        V.ensure("damping is halved after an accepted step", V.eq(V.at(post["damp"]) * 2, V.at(pre["damp"])))
    else:
        V.same("a step that does not lower the error leaves the transform", post["T"], pre["T"])
        V.same("a step that does not lower the error leaves the cloud", post["src"], pre["src"])
        V.ensure("damping is doubled after a rejected step", V.eq(V.at(post["damp"]), 2 * V.at(pre["damp"])))
    A2, b2, _ = L.system(post["src"], g["t"], g["n"], g["th"])
    V.ensure("the error never exceeds that of the initial guess", V.le(error(V, b2), g["E0"]))


@contract("O03", "every iteration, any number of them", product(init=["given", "none"], thresh=[None, 1]), only="sym", timeout=20000,
          invariants={"gradslam.odometry.icputils:": icp_invariant(icp_step)})
def o03(V, init, thresh):
    s, t, n, ns, nt = clouds_for(V)
    iters = V.dim("iters", lo=1)
    T0 = V.rigid("T0") if init == "given" else None
    damp = V.real("damp")
    g = V.ghosts = {"s": s, "t": t, "n": n, "th": thresh, "damp": damp, "T0": V.torch.eye(4) if T0 is None else T0, "lib": library(V)}
    L = g["lib"]
    A, b, _ = L.system(moved(V, g["T0"], s), t, n, thresh)
    g["E0"] = E0 = error(V, b)

    def assume(V, pre):
        A, b, _ = L.system(pre["src"], t, n, thresh)
        V.assume(V.le(error(V, b), E0))
    g["assume"] = assume
    snaps = [(x, V.snap(x)) for x in (s, t, n) + ((T0,) if T0 is not None else ())]
    T, idx = V.fn(ICP)(s, t, n, T0, iters, damp, thresh)
    rigid(V, "result", T)
    A, b, _ = L.system(moved(V, T, s), t, n, thresh)
    V.ensure("the result is at least as good as the initial guess", V.le(error(V, b), E0))
    for x, sn in snaps:
        V.unchanged("input untouched", x, sn)


def clouds_near(V):
    """a source and a target that overlap: n points on a bumpy surface with its normals (concrete runs only)"""
    import math
    if V.rng.random() < 0.5:        # nothing fits: many steps are rejected
        k, m = V.rng.randint(20, 60), V.rng.uniform(0.05, 0.4)
        point = lambda f: [f() for _ in range(3)]
        tgt = [point(lambda: V.rng.uniform(0, 1)) for _ in range(k)]
        nrm = V.torch.tensor([[point(lambda: V.rng.gauss(0, 1)) for _ in range(k)]])
        src = [[x + V.rng.gauss(0, m) for x in p] for p in tgt[:V.rng.randint(12, k)]]
        return V.torch.tensor([src]), V.torch.tensor([tgt]), nrm / nrm.norm(dim=-1, keepdim=True)
    k = V.rng.randint(4, 6)
    xy = [((i % k) * 0.5 - 1 + V.rng.uniform(-0.05, 0.05), (i // k) * 0.5 - 1 + V.rng.uniform(-0.05, 0.05)) for i in range(k * k)]
    a, b = V.rng.uniform(0.3, 0.8), V.rng.uniform(0.3, 0.8)
    z = lambda x, y: a * math.sin(2 * x) + b * math.cos(2 * y)
    tgt = V.torch.tensor([[[x, y, z(x, y)] for x, y in xy]])
    nrm = V.torch.tensor([[[-2 * a * math.cos(2 * x), 2 * b * math.sin(2 * y), 1.0] for x, y in xy]])
    nrm = nrm / nrm.norm(dim=-1, keepdim=True)
    xi = V.torch.tensor([V.rng.uniform(-0.15, 0.15) for _ in range(6)])
    D = V.fn(EXP)(xi)
    src = moved(V, D, tgt)[:, :V.rng.randint(k * k // 2, k * k)].contiguous()
    return src, tgt, nrm


def small_motion(V):
    return V.fn(EXP)(V.torch.tensor([V.rng.uniform(-0.1, 0.1) for _ in range(6)]))


@contract("O03", "the result follows the rule", product(init=["given", "none"], thresh=[None, 0.4, 1]), only="conc", samples=60)
def o03_conc(V, init, thresh):
    s, t, n = clouds_near(V)
    iters, damp = V.rng.choice([1, 1, 2, 3, 4, 6, 9, 20]), V.rng.choice([1e-8, 1e-3, 0.1, 1.0, 5.0])
    T0 = small_motion(V) if init == "given" else None
    snaps = [(x, V.snap(x)) for x in (s, t, n) + ((T0,) if T0 is not None else ())]
    T, idx = V.fn(ICP)(s, t, n, T0, iters, damp, thresh)
    for x, sn in snaps:
        V.unchanged("input untouched", x, sn)
    L, d = library(V), V.torch.tensor(damp)
    R = V.torch.eye(4) if T0 is None else T0
    c = moved(V, R, s)
    A, b, i = L.system(c, t, n, thresh)
    E0 = float((b ** 2).sum())
    ok = True
    for _ in range(iters):
        A, b, i = L.system(c, t, n, thresh)
        V.assume(A.shape[0] >= 6)
        D = L.exp(L.solve(A, b, d))
        one = moved(V, D, c)
        b1 = L.system(one, t, n, thresh)[1]
        e, e1 = float((b ** 2).sum()), float((b1 ** 2).sum())
        if e < 1e-6 or abs(e1 - e) < 1e-5 * max(e, 1e-3):
            ok = False      # too close to call in single precision
            break
        if e1 < e:
            c, d, R = one, d / 2, D @ R
        else:
            d = d * 2
    rigid(V, "result", T)
    e = float((L.system(moved(V, T, s), t, n, thresh)[1] ** 2).sum())
    V.ensure("the result is at least as good as the initial guess", e <= E0 * 1.001 + 1e-6)
    if ok:
        V.same("the result composes the accepted steps", T, R, 2e-3)
        V.same("the pairs are those of the last linearisation", idx, i)


def grad_step(V, g, pre, post):
    L = g["lib"]
    lam, B, B2, nu = g["rule"]
    A, b, idx = L.system(pre["src"], g["t"], g["n"], g["th"])
    xi = L.solve(A, b, pre["damp"])
    b1 = L.system(moved(V, L.exp(xi), pre["src"]), g["t"], g["n"], g["th"])[1]
    e = V.min(V.max(error(V, b1) - error(V, b), -70), 70)
    f, w = factor(V, e, lam, B), weight(V, e, B2, nu)
    V.ensure("the damping factor is at least the reciprocal of the maximum factor", V.le(1 / lam, f))
    V.ensure("the damping factor is at most the maximum factor", V.le(f, lam))
    V.ensure("the damping is multiplied by the logistic function of the error change", V.eq(V.at(post["damp"]), V.at(pre["damp"]) * f))
    V.ensure("the weight is positive", V.lt(0, w))
    V.ensure("the weight is at most one", V.le(w, 1))
    D = L.exp(V.array_like([6, 1], lambda i, _: w * V.at(xi, i, 0)))
    V.same("the transform gets the weighted step", post["T"], times(V, D, pre["T"]))
    V.same("the cloud gets the weighted step", post["src"], moved(V, D, pre["src"]))


def factor(V, e, lam, B):
    return 1 / lam + (lam - 1 / lam) / (1 + V.exp(-B * e))


def weight(V, e, B2, nu):
    return 1 / (1 + V.exp(-B2 * e)) ** (1 / nu)


@contract("O04", "every iteration, any number of them", product(init=["given", "none"], thresh=[None, 1]), only="sym", timeout=20000,
          invariants={"gradslam.odometry.icputils:": icp_invariant(grad_step)})
def o04(V, init, thresh):
    s, t, n, ns, nt = clouds_for(V)
    iters = V.dim("iters", lo=1)
    T0 = V.rigid("T0") if init == "given" else None
    damp = V.real("damp")
    rule = V.real("lambda_max", lo=1), V.real("B"), V.real("B2"), V.real("nu", lo=0, strict=True)
    V.ghosts = {"s": s, "t": t, "n": n, "th": thresh, "damp": damp, "T0": V.torch.eye(4) if T0 is None else T0, "lib": library(V),
                "rule": rule, "assume": lambda V, pre: None}
    snaps = [(x, V.snap(x)) for x in (s, t, n) + ((T0,) if T0 is not None else ())]
    T, idx = V.fn(GRAD)(s, t, n, T0, iters, damp, thresh, *rule)
    rigid(V, "result", T)
    for x, sn in snaps:
        V.unchanged("input untouched", x, sn)


@contract("O04", "the result follows the rule", product(init=["given", "none"], thresh=[None, 0.4, 1]), only="conc", samples=60)
def o04_conc(V, init, thresh):
    s, t, n = clouds_near(V)
    iters, damp = V.rng.choice([1, 1, 2, 3, 4, 6]), V.rng.choice([1e-8, 1e-3, 0.1, 1.0, 5.0])
    T0 = small_motion(V) if init == "given" else None
    lam, B, B2, nu = V.rng.choice([2.0, 1, 10]), V.rng.choice([1.0, 5, 100.0]), V.rng.choice([1.0, 3, 200.0]), V.rng.choice([200.0, 1, 2.5])
    snaps = [(x, V.snap(x)) for x in (s, t, n) + ((T0,) if T0 is not None else ())]
    T, idx = V.fn(GRAD)(s, t, n, T0, iters, damp, thresh, lam, B, B2, nu)
    for x, sn in snaps:
        V.unchanged("input untouched", x, sn)
    L, d = library(V), V.torch.tensor(damp)
    R = V.torch.eye(4) if T0 is None else T0
    c, ok = moved(V, R, s), True
    for _ in range(iters):
        A, b, i = L.system(c, t, n, thresh)
        V.assume(A.shape[0] >= 6)
        xi = L.solve(A, b, d)
        b1 = L.system(moved(V, L.exp(xi), c), t, n, thresh)[1]
        e = max(min(float((b1 ** 2).sum() - (b ** 2).sum()), 70.0), -70.0)
        V.assume(abs(B2 * e) < 80)    # the exponential of the code does not overflow in single precision
        d = d * factor(V, e, lam, B)
        D = L.exp(xi * weight(V, e, B2, nu))
        c, R = moved(V, D, c), D @ R
    rigid(V, "result", T)
    V.same("the result composes the weighted steps", T, R, 5e-3)


@contract("O03", "ill-shaped or ill-typed arguments are rejected", product(f=[ICP, GRAD]), samples=10)
def icp_reject(V, f):
    s, t, n, ns, nt = clouds_for(V)
    f = V.fn(f)
    e = V.torch.eye(4)
    for what, a in (("source a list", ([1], t, n)), ("target a list", (s, [1], n)), ("normals None", (s, t, None)),
                    ("initial guess a list", (s, t, n, [1])), ("iterations a float", (s, t, n, e, 2.0))):
        V.raises(what, TypeError, lambda: f(*a))
    for what, a in (("initial guess batched", (s, t, n, V.torch.eye(4).unsqueeze(0))), ("initial guess 3x3", (s, t, n, V.torch.eye(3)))):
        V.raises(what, ValueError, lambda: f(*a))


# ------------------------------------------------------------------------------------------------ O05
PROVIDERS = {"icp": ("gradslam.odometry.icp:ICPOdometryProvider", ICP, ("numiters", "damp", "dist_thresh")),
             "grad": ("gradslam.odometry.gradicp:GradICPOdometryProvider", GRAD,
                      ("numiters", "damp", "dist_thresh", "lambda_max", "B", "B2", "nu"))}
CLOUDREPS = [("L", "L"), ("P", "P"), ("B", "L"), ("L", "P")]


def reps_of(s, normals=True):
    return {"points": s, "normals": s if normals else "-", "colors": "-", "features": "-"}


def settings(V, names, default):
    if default:
        return {}
    v = {"numiters": 2, "damp": V.real("damp", lo=0.1, hi=2), "dist_thresh": V.real("thresh", lo=1, hi=9),
         "lambda_max": V.real("lam", lo=1, hi=3), "B": V.real("B", lo=0.5, hi=2), "B2": V.real("B2", lo=0.5, hi=1), "nu": V.real("nu", lo=1, hi=200)}
    return {k: v[k] for k in names}


DEFAULTS = {"numiters": 20, "damp": 1e-8, "dist_thresh": None, "lambda_max": 2.0, "B": 1.0, "B2": 1.0, "nu": 200.0}


def cloud_of(V, g, a, b):
    return V.array_like([1, g.N[b], 3], lambda _, i, k: g.val[a](b, i, k))


@contract("O05", "ICP providers align each frame cloud to its own map cloud", product(kind=["icp", "grad"], B=[1, 2, 3], reps=CLOUDREPS,
          default=BOTH, fn=BOTH), samples=6)
def o05_icp(V, kind, B, reps, default, fn):
    cls, icp, names = PROVIDERS[kind]
    N = None
    m, gm, _ = CL.any_state(V, B, reps_of(reps[0]), False, tag="m", N=[V.dim("mN%d" % b, lo=1) for b in range(B)])
    f, gf, _ = CL.any_state(V, B, reps_of(reps[1], fn), False, tag="f", N=[V.dim("fN%d" % b, lo=8 if not V.symbolic else 1) for b in range(B)])
    st = settings(V, names, default)
    if not V.symbolic and default:
        st = {"damp": 0.5}
    full = {k: st.get(k, DEFAULTS[k]) for k in names}
    calls = []
    if V.symbolic:
        import inspect

        def stub(orig, *a, **k):
            b = inspect.signature(orig).bind(*a, **k)
            b.apply_defaults()
            R = V.some_tensor("T_icp", [4, 4])
            calls.append((dict(b.arguments), R))
            return R.clone(), V.some_tensor("idx", [V.dim("rows")], "int64")
        V.stub(icp, stub)
    p = V.make(cls, **st)
    out = p.provide(m, f)
    V.ensure_shape("shape of the transforms", out, [B, 1, 4, 4])
    for b in range(B):
        if not V.symbolic:
            e, _ = V.fn(icp)(cloud_of(V, gf, "points", b), cloud_of(V, gm, "points", b), cloud_of(V, gm, "normals", b), None, **full)
            V.same("the motion aligns this element's clouds with the provider's settings", out[b, 0], e, 1e-3)
            continue
        key = V.content_key(out[b, 0])
        mine = [a for a, R in calls if V.content_key(R) == key]
        V.ensure("the motion is that of an alignment", len(mine) == 1)
        if len(mine) != 1:
            continue
        a = mine[0]
        V.same("the source is this element's frame cloud", a["src_pc"], cloud_of(V, gf, "points", b))
        V.same("the target is this element's map cloud", a["tgt_pc"], cloud_of(V, gm, "points", b))
        V.same("the normals are those of this element's map cloud", a["tgt_normals"], cloud_of(V, gm, "normals", b))
        if a["initial_transform"] is not None:
            V.same("the initial guess is the identity", a["initial_transform"], V.torch.eye(4))
        for k in names:
            x, y = a[k], full[k]
            V.ensure("own setting " + k, (x is None and y is None) or (x is not None and y is not None and V.eq(x, y)))
    for b in range(B):
        for what, c, g, ats in (("map", m, gm, ("points", "normals")), ("frame", f, gf, ("points", "normals") if fn else ("points",))):
            for a in ats:
                CL.check_list(V, what + " not modified", a, getattr(c, a + "_list"), g)


@contract("O05", "ICP providers reject unusable inputs", product(kind=["icp", "grad"]), samples=5)
def o05_reject(V, kind):
    cls, icp, names = PROVIDERS[kind]
    V.stub(icp, lambda orig, *a, **k: (V.torch.eye(4), None))
    p = V.make(cls)
    m, _, _ = CL.any_state(V, 2, reps_of("L"), False, tag="m", N=[1, 2])
    bare, _, _ = CL.any_state(V, 2, reps_of("L", False), False, tag="n", N=[1, 2])
    one, _, _ = CL.any_state(V, 1, reps_of("L"), False, tag="o", N=[1])
    for what, a in (("map a list", ([], m)), ("map a tensor", (V.torch.eye(3), m)), ("frame None", (m, None)), ("frame a tensor", (m, V.torch.eye(3)))):
        V.raises(what, TypeError, lambda: p.provide(*a))
    for what, a in (("map without normals", (bare, m)), ("map without points", (V.make(CL.PC), m)), ("one map, two frames", (one, m)),
                    ("two maps, one frame", (m, one)), ("frame without points", (m, V.make(CL.PC)))):
        V.raises(what, ValueError, lambda: p.provide(*a))


GT = "gradslam.odometry.groundtruth:GroundTruthOdometryProvider"


@contract("O05", "the ground-truth provider returns inverse(first) times second", product(cf1=BOTH, cf2=BOTH, sliced=BOTH), samples=25)
def o05_gt(V, cf1, cf2, sliced):
    B, H, W = V.dim("B"), V.dim("H", lo=2), V.dim("W", lo=2)
    L = V.dim("L", lo=1) if sliced else 1
    f1, g1, _ = FR.build(V, cf1, True, size=(B, L, H, W), tag="a", rigid=True)
    f2, g2, _ = FR.build(V, cf2, True, size=(B, L, H, W), tag="b", rigid=True)
    s = 0
    if sliced:
        s = V.int("s", 0, L - 1)
        f1, f2 = f1[:, s], f2[:, s]
    P, Q = g1.P, g2.P
    out = V.make(GT).provide(f1, f2)
    V.ensure_shape("shape of the transforms", out, [B, 1, 4, 4])

    for i in range(4):
        for j in range(4):
            V.forall("first pose times result is the second pose", [B],
                     lambda b: V.eq(sum_([V.at(P, b, s, i, c) * V.at(out, b, 0, c, j) for c in range(4)]), V.at(Q, b, s, i, j), 1e-3))


@contract("O05", "the ground-truth provider rejects unusable inputs", [{}], samples=5)
def o05_gt_reject(V):
    H, W = V.dim("H", lo=2), V.dim("W", lo=2)
    mk = lambda tag, B, L, poses: FR.build(V, False, poses, size=(B, L, H, W), tag=tag)[0]
    a, b, c, d = mk("a", 2, 1, True), mk("b", 2, 1, False), mk("c", 2, 2, True), mk("d", 1, 1, True)
    p = V.make(GT)
    for what, x in (("first a tensor", (V.torch.eye(4), a)), ("second None", (a, None))):
        V.raises(what, TypeError, lambda: p.provide(*x))
    for what, x in (("first without poses", (b, a)), ("second without poses", (a, b)), ("first with two frames", (c, a)),
                    ("second with two frames", (a, c)), ("batch 2 and 1", (a, d)), ("batch 1 and 2", (d, a))):
        V.raises(what, ValueError, lambda: p.provide(*x))


# ------------------------------------------------------------------------------------------------ O06
DSF, DSP = U + "downsample_rgbdimages", U + "downsample_pointclouds"


def ratio(V, r):
    return V.int("ratio", 1, None if V.symbolic else 5) if r == "any" else r


@contract("O06", "frames: exactly the valid pixels on the grid, in order", product(B=[1, 2, 3], poses=BOTH, r=["any", 1, 2, 4], cached=["", "mvnVN"]),
          samples=12)
def o06_frames(V, B, poses, r, cached):
    H, W = V.dim("H", lo=2), V.dim("W", lo=2)
    r = ratio(V, r)
    o, g, _ = any_state(V, False, poses, cached, size=(B, 1, H, W))
    pc = V.fn(DSF)(o, r)
    hh, ww = V.idiv(H + r - 1, r), V.idiv(W + r - 1, r)
    f = FR.fresh(V, o)
    V.ensure("one cloud per frame", V.eq(type(pc).__len__(pc), B))
    for b in range(B):
        e = V.enum([1, hh, ww], lambda l, i, j: g.valid(b, 0, i * r, j * r))
        for what, t, src in (("points", pc.points_list, f.global_vertex_map), ("normals", pc.normals_list, f.global_normal_map),
                             ("colors", pc.colors_list, f.rgb_image)):
            V.ensure_shape(what + ": shape", t[b], [e.count, 3])
            for k in range(3):
                V.forall(what + " are those of the pixel", [e.count], lambda q: V.eq(
                    V.at(t[b], q, k), px(V, src, False, b, 0, e.at(q)[1] * r, e.at(q)[2] * r, k)))
    V.ensure("no features", not pc.has_features)
    FR.check_inputs(V, "frames not modified", o, g)


@contract("O06", "maps: exactly the associated points on the grid, in order", product(B=[1, 2, 3], reps=["L", "P", "B"], attrs=["", "n", "c", "nc"],
          r=["any", 1, 3]), samples=12)
def o06_maps(V, B, reps, attrs, r):
    r = ratio(V, r)
    rp = {"points": reps, "normals": reps if "n" in attrs else "-", "colors": reps if "c" in attrs else "-", "features": "-"}
    pc, g, _ = CL.any_state(V, B, rp, False, N=[V.dim("N%d" % b, lo=1) for b in range(B)])
    m = V.dim("m", lo=0)
    # associations: batch, point of that batch element, row, column
    tab = V.tensor("tab", [m, 4], "int64", row=lambda V, get, i: assoc_ok(V, g, get), nrow=1) if V.symbolic else table(V, g, m)
    s = V.snap(tab)
    out = V.fn(DSP)(pc, tab, r)
    V.ensure("one cloud per map", V.eq(type(out).__len__(out), B))
    V.ensure("same attributes", out.has_normals == ("n" in attrs) and out.has_colors == ("c" in attrs) and not out.has_features)
    for b in range(B):
        e = V.enum([m], lambda i: V.and_(V.eq(V.at(tab, i, 0), b), V.eq(V.mod(V.at(tab, i, 2), r), 0), V.eq(V.mod(V.at(tab, i, 3), r), 0)))
        for a in ("points", "normals", "colors"):
            if not g.has(a):
                continue
            t = getattr(out, a + "_list")[b]
            V.ensure_shape(a + ": shape", t, [e.count, 3])
            for k in range(3):
                V.forall(a + " are those of the associated point", [e.count], lambda q: V.eq(
                    V.at(t, q, k), g.val[a](b, V.at(tab, e.at(q)[0], 1), k)))
    V.unchanged("associations untouched", tab, s)
    for a in ("points", "normals", "colors"):
        if g.has(a):
            CL.check_list(V, "map not modified", a, getattr(pc, a + "_list"), g)


def assoc_ok(V, g, get):
    cs = [V.le(0, get(0)), V.lt(get(0), g.B), V.le(0, get(1)), V.le(0, get(2)), V.le(0, get(3))]
    for b in range(g.B):
        cs.append(V.implies(V.eq(get(0), b), V.lt(get(1), g.N[b])))
    return V.and_(*cs)


def table(V, g, m):
    rows = []
    for _ in range(int(m)):
        b = V.rng.randrange(g.B)
        rows.append([b, V.rng.randrange(int(g.N[b])), V.rng.randrange(7), V.rng.randrange(7)])
    return V.torch.tensor(rows, dtype=V.torch.int64).reshape(int(m), 4)


@contract("O06", "unusable inputs are rejected", [{}], samples=5)
def o06_reject(V):
    H, W, B = V.dim("H", lo=2), V.dim("W", lo=2), V.dim("B")
    o, g, _ = FR.build(V, False, True, size=(B, 1, H, W))
    two, _, _ = FR.build(V, False, True, size=(B, 2, H, W), tag="t")
    pc, _, _ = CL.any_state(V, 1, reps_of("L"), False, N=[2])
    tab = V.array_like([1, 4], lambda i, j: 0, "int64")
    f, h = V.fn(DSF), V.fn(DSP)
    for what, t in (("frames a tensor", lambda: f(V.torch.eye(4), 2)), ("ratio a float", lambda: f(o, 2.0)), ("map a list", lambda: h([], tab, 2)),
                    ("associations a list", lambda: h(pc, [], 2)), ("map ratio a float", lambda: h(pc, tab, 2.0))):
        V.raises(what, TypeError, t)
    for what, t in (("two frames per sequence", lambda: f(two, 2)), ("associations 1-D", lambda: h(pc, tab[0], 2)),
                    ("associations with 3 columns", lambda: h(pc, tab[:, :3], 2))):
        V.raises(what, ValueError, t)
