"""Contracts of datasets (D01..D05). Files and directory trees are also run, on samples: those contracts are bounded.
Texts in proofs are known up to equality (engine/lists.py)."""
from engine.vapi import contract, product
from contracts.util import is_rotation, last_row
from contracts.frames import sum_

BOTH = [True, False]
U = "gradslam.datasets.datautils:"
SCALE, NORM, CF, TRANS, COLOR = U + "scale_intrinsics", U + "normalize_image", U + "channels_first", U + "poses_to_transforms", U + "create_label_image"
S = "gradslam.datasets.scannet:"
REMAP, PALETTE = S + "nyu40_to_scannet20", S + "get_color_encoding"


# ------------------------------------------------------------------------------------------------ D03
@contract("D03", "intrinsics scale with the image", product(n=[3, 4], rank=[0, 1, 2], np=BOTH, dtype=["float32", "float64", "int64"]), samples=10)
def d03_scale(V, n, rank, np, dtype):
    batch = [V.dim("b%d" % q) for q in range(rank)]
    K = V.tensor("K", batch + [n, n], dtype, np=np)
    h, w = V.real("h", lo=0.1, hi=4), V.real("w", lo=0.1, hi=4)
    s = V.snap(K)
    out = V.fn(SCALE)(K, h, w)
    V.ensure_shape("same shape", out, batch + [n, n])
    f = {(0, 0): w, (0, 2): w, (1, 1): h, (1, 2): h}
    for i in range(n):
        for j in range(n):
            V.forall("entry %d, %d" % (i, j), batch, lambda *b: V.eq(V.at(out, *b, i, j), V.at(K, *b, i, j) * f.get((i, j), 1)))
    V.unchanged("the input is not modified", K, s)
    V.ensure("a copy", out is not K and not V.shares(out, K))


@contract("D03", "other intrinsics are rejected", product(np=BOTH), samples=4)
def d03_reject(V, np):
    f = V.fn(SCALE)
    for sh in ([2, 2], [3, 4], [4, 3], [5, 5], [V.dim("b"), 2, 3]):
        K = V.tensor("K", sh, np=np)
        V.raises("neither 3x3 nor 4x4", ValueError, lambda: f(K, 1.0, 1.0))
    V.raises("a list", TypeError, lambda: f([[1.0]], 1.0, 1.0))


@contract("D03", "colors are divided by 255", product(rank=[1, 3, 4], np=BOTH, dtype=["uint8", "float32", "float64", "int64"]), samples=10)
def d03_norm(V, rank, np, dtype):
    sh = [V.dim("d%d" % q) for q in range(rank)]
    x = V.tensor("x", sh, dtype, lo=0, hi=255, np=np)
    s = V.snap(x)
    out = V.fn(NORM)(x)
    V.ensure_shape("same shape", out, sh)
    V.ensure("real numbers", V.dtype_name(out) in ("float32", "float64"))
    V.forall("divided by 255", sh, lambda *i: V.eq(V.at(out, *i) * 255, V.at(x, *i)))
    V.unchanged("the input is not modified", x, s)


@contract("D03", "channels move in front of the image axes", product(rank=[3, 4, 5], np=BOTH, dtype=["uint8", "float32", "float64"]), samples=10)
def d03_channels(V, rank, np, dtype):
    sh = [V.dim("d%d" % q) for q in range(rank)]
    x = V.tensor("x", sh, dtype, lo=0, hi=255, np=np)
    s = V.snap(x)
    out = V.fn(CF)(x)
    b, (H, W, C) = sh[:-3], sh[-3:]
    V.ensure_shape("channels first", out, b + [C, H, W])
    V.ensure("same type", V.dtype_name(out) == dtype)
    V.forall("values kept", b + [C, H, W], lambda *i: V.eq(V.at(out, *i), V.at(x, *i[:-3], i[-2], i[-1], i[-3])))
    V.unchanged("the input is not modified", x, s)


@contract("D03", "images of fewer axes are rejected", product(np=BOTH), samples=4)
def d03_channels_reject(V, np):
    V.raises("two axes", ValueError, lambda: V.fn(CF)(V.tensor("x", [V.dim("a"), V.dim("b")], np=np)))
    V.raises("a list", TypeError, lambda: V.fn(CF)([1, 2]))
    V.raises("a list", TypeError, lambda: V.fn(NORM)([1, 2]))


def dataset(V, cls, d, height, width, **kw):
    """a dataset of one sequence of one frame"""
    import os

    def put(name, *lines):
        p = os.path.join(d, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write("\n".join(lines) + "\n" if lines else "")
    kw = dict(height=height, width=width, **kw)
    if cls == "tum":
        t = "rgbd_dataset_freiburg1_desk/"
        put(t + "rgb.txt", "1.0 rgb/1.0.png")
        put(t + "depth.txt", "1.0 depth/1.0.png")
        put(t + "groundtruth.txt", "1.0 0 0 0 0 0 0 1")
        return V.make("gradslam.datasets.tum:TUM", d, seqlen=1, **kw)
    if cls == "icl":
        t = "living_room_traj1_frei_png/"
        put(t + "associations.txt", "0 depth/0.png 0 rgb/0.png", "1 depth/1.png 1 rgb/1.png")
        put(t + "livingRoom1n.gt.sim", *["1 0 0 0", "0 1 0 0", "0 0 1 0", ""] * 2)
        return V.make("gradslam.datasets.icl:ICL", d, seqlen=1, **kw)
    e = lambda k, sub, x: "%s scene0000_00/%s/0.%s" % (k, sub, x)
    put("meta/scene0000_00-seq_0.txt", " ".join([e("color", "color", "png"), e("depth", "depth", "png"), e("pose", "pose", "txt"), e("label-filt", "label", "png"),
                                                 e("label", "label", "png"), e("instance-filt", "label", "png"), e("instance", "label", "png"),
                                                 e("intrinsic_depth", "intrinsic", "txt")]))
    return V.make("gradslam.datasets.scannet:Scannet", d, os.path.join(d, "meta"), None, 0, 1, **kw)


CAMERA = dict(tum=(525.0, 525.0, 319.5, 239.5), icl=(481.2, -480.0, 319.5, 239.5))


@contract("D03", "the intrinsics of a dataset fit its images", product(cls=["tum", "icl", "scannet"]), samples=10)
def d03_dataset(V, cls):
    h, w = V.dim("h"), V.dim("w")

    def run(d):
        data = dataset(V, cls, d, h, w)
        if cls == "scannet":
            K = V.tensor("K", [4, 4], "float64", np=True)
            s = V.snap(K)
            out = data._preprocess_intrinsics(K)
            V.unchanged("the input is not modified", K, s)
            want = lambda i, j: V.at(K, i, j)
        else:
            fx, fy, cx, cy = CAMERA[cls]
            C = [[fx, 0, cx, 0], [0, fy, cy, 0], [0, 0, 1, 0], [0, 0, 0, 1]]
            out = data.intrinsics
            want = lambda i, j: C[i][j]
        V.ensure_shape("one matrix", out, [1, 4, 4])
        for i in range(4):
            for j in range(4):
                # 640 x 480 is the size of the original images
                n, m = {(0, 0): (w, 640), (0, 2): (w, 640), (1, 1): (h, 480), (1, 2): (h, 480)}.get((i, j), (1, 1))
                V.ensure("entry %d, %d" % (i, j), V.near(V.at(out, 0, i, j) * m, want(i, j) * n, 0.01))
    scratch(V, run)


@contract("D03", "images of a dataset", product(cls=["tum", "icl", "scannet"], first=BOTH, unit=BOTH), samples=10)
def d03_images(V, cls, first, unit):
    h, w = V.dim("h"), V.dim("w")

    def run(d):
        data = dataset(V, cls, d, h, w, channels_first=first, normalize_color=unit)
        x = V.tensor("color", [h, w, 3], "float64", lo=0, hi=255, np=True)
        y = V.tensor("depth", [h, w], "int64", lo=0, hi=60000, np=True)
        s, t = V.snap(x), V.snap(y)
        color, depth = data._preprocess_color(x), data._preprocess_depth(y)
        V.ensure_shape("size of the colors", color, [3, h, w] if first else [h, w, 3])
        V.ensure_shape("size of the depths", depth, [1, h, w] if first else [h, w, 1])
        at = lambda a, i, j, c: V.at(a, c, i, j) if first else V.at(a, i, j, c)
        V.forall("colors of the pixel", [h, w, 3], lambda i, j, c: V.eq(at(color, i, j, c) * (255 if unit else 1), V.at(x, i, j, c)))
        V.forall("depth of the pixel in meters", [h, w], lambda i, j: V.eq(at(depth, i, j, 0) * (1000 if cls == "scannet" else 5000), V.at(y, i, j)))
        V.unchanged("the color image is not modified", x, s)
        V.unchanged("the depth image is not modified", y, t)
        # images of another size are resized
        big, bigd = V.tensor("big", [V.dim("bh"), V.dim("bw"), 3], "float64", lo=0, hi=255, np=True), V.tensor("bigd", [V.dim("bh"), V.dim("bw")], "int64", lo=0, hi=60000, np=True)
        V.ensure_shape("size of resized colors", data._preprocess_color(big), [3, h, w] if first else [h, w, 3])
        V.ensure_shape("size of resized depths", data._preprocess_depth(bigd), [1, h, w] if first else [h, w, 1])
    scratch(V, run)


# ------------------------------------------------------------------------------------------------ D04
def step(V, P, i):
    """inverse(P[i-1]) P[i] of rigid poses"""
    def f(r, c):
        if r == 3:
            return 1 if c == 3 else 0
        t = lambda k: V.at(P, i, k, 3) - V.at(P, i - 1, k, 3) if c == 3 else V.at(P, i, k, c)
        return sum_([V.at(P, i - 1, k, r) * t(k) for k in range(3)])
    return f


def relative(V, P, i):
    def f(r, c):
        if r == 3:
            return 1 if c == 3 else 0
        t = lambda k: V.at(P, i, k, 3) - V.at(P, 0, k, 3) if c == 3 else V.at(P, i, k, c)
        return sum_([V.at(P, 0, k, r) * t(k) for k in range(3)])
    return f


PRE = [("gradslam.datasets.icl:ICL", "icl"), ("gradslam.datasets.tum:TUM", "tum"), ("gradslam.datasets.scannet:Scannet", "scannet")]


@contract("D04", "poses are relative to the first frame", product(cls=[c for c, _ in PRE]), samples=40)
def d04_poses(V, cls):
    L = V.dim("L")
    P = V.rigid("P", [L])
    s = V.snap(P)
    out = V.fn(cls + "._preprocess_poses")(None, P)
    V.ensure_shape("one pose per frame", out, [L, 4, 4])
    for r in range(4):
        for c in range(4):
            V.ensure("the first is the identity", V.eq(V.at(out, 0, r, c), 1 if r == c else 0))
            V.forall("pose i is inverse(pose 0) times pose i", [L], lambda i: V.eq(V.at(out, i, r, c), relative(V, P, i)(r, c)))
    V.unchanged("the poses are not modified", P, s)


def entry(V, P, i, r, c):
    """transform i of the poses P"""
    first = 1 if r == c else 0
    if isinstance(i, int):
        return first if i == 0 else step(V, P, i)(r, c)
    return V.ite(V.eq(i, 0), first, step(V, P, i)(r, c))


def after(V, phase, st, k, mem):
    """after k iterations the first k poses of the copy are transforms, the others are still poses"""
    g = V.ghosts
    P, L = g["P"], g["L"]
    mine = [v for v in st.values() if getattr(v, "ndim", 0) == 3 and v is not P]
    if len(mine) != 1 or any(v is not mine[0] for v in mem.setdefault("out", mine)):
        V.unsupported("the loop keeps its result in a different way")
    out = mine[0]

    def want(k):
        return lambda i, r, c: V.ite(V.lt(i, k), entry(V, P, i, r, c), V.at(P, i, r, c))

    def content(i, r, c):
        x = 0
        for p in range(4):
            for q in range(4):
                x = V.ite(V.and_(V.eq(r, p), V.eq(c, q)), want(k)(i, p, q), x)
        return x
    if phase == "havoc":
        V.overwrite(out, V.array_like([L, 4, 4], content))
        return {x: v for x, v in st.items() if v is out}
    for r in range(4):
        for c in range(4):
            if phase == "init":
                V.forall("the copy starts as the poses", [L], lambda i: V.eq(V.at(out, i, r, c), V.at(P, i, r, c)))
                continue
            first = V.split(V.eq(k, 1))
            V.ensure("the iteration's transform", V.eq(V.at(out, k - 1, r, c), entry(V, P, 0 if first else k - 1, r, c) if first else step(V, P, k - 1)(r, c)))
            V.forall("the other entries are kept", [L], lambda i: V.implies(V.ne(i, k - 1), V.eq(V.at(out, i, r, c), want(k)(i, r, c))))
    if phase == "step":
        V.overwrite(out, V.array_like([L, 4, 4], content))      # as just proved, entry by entry


@contract("D04", "transforms go from frame to frame", [dict(kind="array", n=None)] + product(kind=["array", "list"], n=[1, 2, 4]), samples=30,
          invariants={"gradslam.datasets.datautils:": after})
def d04_transforms(V, kind, n):
    free = n is None
    L = n = V.dim("L") if free else n
    P = V.rigid("P", [L], np=True)
    arg = P if kind == "array" else [P[i].copy() for i in range(n)]
    s = V.snap(P)
    if free:
        V.ghosts = {"P": P, "L": L}
    out = V.fn(TRANS)(arg)
    if free:
        V.ensure_shape("one transform per pose", out, [L, 4, 4])
        for r in range(4):
            for c in range(4):
                V.forall("transform i is inverse(pose i-1) times pose i, the first is the identity", [L], lambda i: V.eq(V.at(out, i, r, c), entry(V, P, i, r, c)))
        V.unchanged("the poses are not modified", P, s)
        V.ensure("a copy", not V.shares(out, P))
        return
    V.ensure("one transform per pose", len(out) == n)
    for i in range(n):
        for r in range(4):
            for c in range(4):
                V.ensure("transform i is inverse(pose i-1) times pose i, the first is the identity", V.eq(V.at(out[i], r, c), entry(V, P, i, r, c)))
    V.unchanged("the poses are not modified", P, s)
    V.ensure("the list is not modified", kind == "array" or len(arg) == n)
    for i in range(n):
        for r in range(4):
            for c in range(4):
                V.ensure("the poses given are not modified", V.eq(V.at(arg[i], r, c), V.at(P, i, r, c)))


# ------------------------------------------------------------------------------------------------ D05
def names(V):
    return {k: list(V.fn(PALETTE)(k).items()) for k in ("nyu40", "scannet20")}


@contract("D05", "palettes", [{}], samples=1)
def d05_palettes(V):
    p = names(V)
    for k, size in (("nyu40", 41), ("scannet20", 21)):
        V.ensure(k + ": number of classes", len(p[k]) == size)
        V.ensure(k + ": names are distinct", len({n for n, _ in p[k]}) == size)
        V.ensure(k + ": colors are distinct", len({c for _, c in p[k]}) == size)
        V.ensure(k + ": colors are bytes", all(len(c) == 3 and all(0 <= x <= 255 for x in c) for _, c in p[k]))
        V.ensure(k + ": 0 is unlabeled and black", p[k][0] == ("unlabeled", (0, 0, 0)))
        V.ensure(k + ": case does not matter", list(V.fn(PALETTE)(k.upper()).items()) == p[k])
    big = dict(p["nyu40"])
    V.ensure("a class of both has one color", all(big.get(n) == c for n, c in p["scannet20"]))


def target(V):
    """20-class index of every 40-class label, by name"""
    p = names(V)
    small = [n for n, _ in p["scannet20"]]
    return [small.index(n) if n in small else 0 for n, _ in p["nyu40"]]


@contract("D05", "labels are remapped by name", product(rank=[1, 2, 3], dtype=["int64", "int32", "uint8"]), samples=30)
def d05_remap(V, rank, dtype):
    sh = [V.dim("d%d" % q) for q in range(rank)]
    x = V.tensor("x", sh, dtype, lo=0, hi=40, np=True)
    old = V.snap(x)
    x0 = x.copy()
    to = target(V)
    out = V.fn(REMAP)(x)
    V.ensure_shape("same image", out, sh)

    def f(*i):
        v, r = V.at(x0, *i), 0
        for k, t in enumerate(to):
            r = V.ite(V.eq(v, k), t, r)
        return V.eq(V.at(out, *i), r)
    V.forall("the class of the same name, or unlabeled", sh, f)


@contract("D05", "a label image shows the palette", product(palette=["nyu40", "scannet20", "small"], form=["dict", "list"], dtype=["int64", "uint8"]), samples=30)
def d05_color(V, palette, form, dtype):
    H, W = V.dim("H"), V.dim("W")
    p = [("a", (1, 2, 3)), ("b", (0, 255, 9)), ("c", (7, 7, 7))] if palette == "small" else names(V)[palette]
    import collections
    arg = collections.OrderedDict(p) if form == "dict" else [c for _, c in p]
    x = V.tensor("x", [H, W], dtype, lo=0, hi=60, np=True)
    s = V.snap(x)
    out = V.fn(COLOR)(x, arg)
    V.ensure_shape("a color per pixel", out, [H, W, 3])
    V.ensure("bytes", V.dtype_name(out) == "uint8")

    def f(i, j, k):
        v, r = V.at(x, i, j), 0
        for q, (_, c) in enumerate(p):
            r = V.ite(V.eq(v, q), c[k], r)
        return V.eq(V.at(out, i, j, k), r)
    for k in range(3):
        V.forall("the color of the label, black if unknown", [H, W], lambda i, j: f(i, j, k))
    V.unchanged("the labels are not modified", x, s)


# ------------------------------------------------------------------------------------------------ D01
TUMUTILS = "gradslam.datasets.tumutils:"
ASSOC, READ_LIST, READ_TRAJ, TO_MATRIX = (TUMUTILS + n for n in ("associate", "read_file_list", "read_trajectory", "transform44"))
WHY = "reads files and directory trees: content of files is not modelled by the verifier"
TINY = 1e-9


def check_matching(V, first, second, offset, most):
    """associate() on {stamp: data} dictionaries against the meaning of the matching"""
    a, b = list(first.items()), list(second.items())
    out = V.fn(ASSOC)(first, second, offset, most)
    V.ensure("the inputs are not modified", list(first.items()) == a and list(second.items()) == b)
    V.ensure("pairs of given timestamps", all(len(m) == 2 and m[0] in first and m[1] in second for m in out))
    V.ensure("every timestamp at most once", len({m[0] for m in out}) == len(out) == len({m[1] for m in out}))
    diff = lambda x, y: abs(float(x) - (float(y) + offset))
    V.ensure("every difference is below the maximum", all(diff(*m) < most for m in out))
    V.ensure("sorted by the first timestamp", all(float(p[0]) <= float(q[0]) for p, q in zip(out, out[1:])))
    of_a, of_b = {m[0]: diff(*m) for m in out}, {m[1]: diff(*m) for m in out}
    got = set(map(tuple, out))
    for x in first:
        for y in second:
            d = diff(x, y)
            if d < most and (x, y) not in got:
                V.ensure("no rejected pair could be added", x in of_a or y in of_b)
                V.ensure("a rejected pair is not better than both competitors", min(of_a.get(x, 1e30), of_b.get(y, 1e30)) <= d + TINY)
    return out


class Greedy:
    """loop invariant of the greedy choice, after k of the candidates (sorted by difference): M of them are accepted, the x-th is
    candidate mu(x); a key is gone exactly if an accepted candidate uses it (the used1(s)-th / used2(s)-th); accepted candidates use different keys;
    every candidate so far shares a key with an accepted one that is not later (the best(k')-th)"""

    def __init__(self, V, first, second):
        self.V, self.first, self.second = V, first, second
        self.final = None

    def candidate(self, k):
        """the two keys of candidate k"""
        V = self.V
        c = V.item(self.over, k)
        a = [s for s in c if V.key_of(self.first, s)] if isinstance(c, tuple) else []
        b = [s for s in c if V.key_of(self.second, s)] if isinstance(c, tuple) else []
        if len(a) != 1 or len(b) != 1:
            V.unsupported("the candidates are kept in a different way")
        return a[0], b[0]

    def describe(self, k):
        V, M = self.V, self.V.int("accepted", lo=0)
        mu, used1, used2, best = (V.relation(n, 1) for n in ("mu", "used1", "used2", "best"))
        gone1, gone2 = V.predicate("gone1"), V.predicate("gone2")
        V.assume(V.le(M, k))
        A, B = (lambda x: self.candidate(x)[0]), (lambda x: self.candidate(x)[1])
        self.now = dict(M=M, mu=mu, used1=used1, used2=used2, best=best, gone1=gone1, gone2=gone2, k=k)
        for f, pattern in self.facts(**self.now):
            V.fact(f.__code__.co_argcount - f.__code__.co_kwonlyargcount, f, pattern)
        V.describe(self.c1, None, None, lambda s: V.and_(V.is_key(self.first, s), V.not_(gone1(s))))
        V.describe(self.c2, None, None, lambda s: V.and_(V.is_key(self.second, s), V.not_(gone2(s))))
        V.describe(self.out, M, lambda x: self.candidate(mu(x)))

    def facts(self, M, mu, used1, used2, best, gone1, gone2, k):
        V = self.V
        A, B = (lambda x: self.candidate(x)[0]), (lambda x: self.candidate(x)[1])
        within = lambda x, n: V.and_(V.le(0, x), V.lt(x, n))
        str_ = V.string
        return [
            (lambda x: V.implies(within(x, M), V.and_(within(mu(x), k), gone1(A(mu(x))), gone2(B(mu(x))))), lambda x: [mu(x)]),
            (lambda s: V.implies(gone1(str_(s)), V.and_(within(used1(s), M), A(mu(used1(s))) == str_(s))), lambda s: [gone1(str_(s))]),
            (lambda s: V.implies(gone2(str_(s)), V.and_(within(used2(s), M), B(mu(used2(s))) == str_(s))), lambda s: [gone2(str_(s))]),
            (lambda x: V.implies(within(x, k), V.and_(within(best(x), M), V.le(mu(best(x)), x), V.or_(A(mu(best(x))) == A(x), B(mu(best(x))) == B(x)))), lambda x: [best(x)]),
            (lambda x, y: V.implies(V.and_(V.le(0, x), V.lt(x, y), V.lt(y, M)), V.and_(A(mu(x)) != A(mu(y)), B(mu(x)) != B(mu(y)))), lambda x, y: [mu(x), mu(y)]),
        ]

    LABELS = ["accepted candidates are processed ones, their keys are gone", "a first key is gone because a candidate was accepted", "a second key is gone because a candidate was accepted",
              "every processed candidate shares a key with one accepted not later", "accepted candidates use different keys"]

    def __call__(self, V, phase, st, k, mem):
        if phase == "init":
            self.over = mem["over"]
            roles = [[x for x, v in st.items() if V.is_list(v) and v.source is d] for d in (self.first, self.second)]
            roles.append([x for x, v in st.items() if V.is_list(v) and v.items == []])
            if any(len(r) != 1 for r in roles) or len(st) != 3:
                V.unsupported("the loop over the candidates keeps its state in a different way")
            self.names = [r[0] for r in roles]
            self.c1, self.c2, self.out = (st[x] for x in self.names)
            for c, d in ((self.c1, self.first), (self.c2, self.second)):
                V.forall("every key is available at the start", [V.length(c)], lambda i: V.has(c, V.listed(c, i)))
            return
        if phase == "havoc":
            self.describe(k)
            return {x: st[x] for x in self.names}
        if any(st[x] is not v for x, v in zip(self.names, (self.c1, self.c2, self.out))):
            V.unsupported("the loop over the candidates keeps its state in a different way")
        pre, last = self.now, k - 1
        A, B = self.candidate(last)
        M, mu = V.length(self.out), pre["mu"]
        grown = not V.split(V.eq(M, pre["M"]))
        if grown:
            V.ensure("one match per candidate at most", V.eq(M, pre["M"] + 1))
        new = dict(pre, M=M, k=k)
        if grown:
            new["mu"] = lambda x: V.ite(V.eq(x, pre["M"]), last, mu(x))
            new["gone1"] = lambda s: V.or_(pre["gone1"](s), s == A)
            new["gone2"] = lambda s: V.or_(pre["gone2"](s), s == B)
            new["used1"] = lambda s: V.ite(V.string(s) == A, pre["M"], pre["used1"](s))
            new["used2"] = lambda s: V.ite(V.string(s) == B, pre["M"], pre["used2"](s))
            new["best"] = lambda x: V.ite(V.eq(x, last), pre["M"], pre["best"](x))
        else:
            by = pre["used1"](A.t) if V.split(pre["gone1"](A)) else pre["used2"](B.t)
            new["best"] = lambda x: V.ite(V.eq(x, last), by, pre["best"](x))

        def same(x):
            got, want = V.listed(self.out, x), self.candidate(new["mu"](x))
            if not (isinstance(got, tuple) and len(got) == 2):
                return False
            return V.and_(got[0] == want[0], got[1] == want[1])
        V.forall("a match is an accepted candidate", [M], same)
        anything = lambda label, n, f: V.generally(label, n, f)
        anything("a first key is available until it is matched", 1, lambda s: V.iff(V.has(self.c1, V.string(s)), V.and_(V.is_key(self.first, V.string(s)), V.not_(new["gone1"](V.string(s))))))
        anything("a second key is available until it is matched", 1, lambda s: V.iff(V.has(self.c2, V.string(s)), V.and_(V.is_key(self.second, V.string(s)), V.not_(new["gone2"](V.string(s))))))
        for label, (f, _) in zip(self.LABELS, self.facts(**new)):
            anything(label, f.__code__.co_argcount, f)
        self.describe(k)            # as just proved


@contract("D01", "the matching is one-to-one and greedy (any sets)", [{}], only="sym", lists=True, timeout=20000,
          invariants={"gradslam.datasets.tumutils:": lambda V, *a: V.ghosts["greedy"](V, *a)})
def d01_any(V):
    n1, n2 = V.dim("n1", lo=0), V.dim("n2", lo=0)
    first, second = V.keyed("first", n1), V.keyed("second", n2)
    offset, most = V.real("offset"), V.real("most")
    V.ghosts = {"greedy": Greedy(V, first, second)}
    g = V.ghosts["greedy"]
    out = V.fn(ASSOC)(first, second, offset, most)
    V.ensure("a list of matches", V.is_list(out))
    m = V.length(out)
    match = lambda x: V.listed(out, x)
    diff = lambda a, b: V.abs(V.number(a) - (V.number(b) + offset))

    def pair(x):
        p = match(x)
        if not (isinstance(p, tuple) and len(p) == 2):
            V.ensure("a match is a pair", False)
            return
        V.ensure("pairs of given timestamps", V.and_(V.is_key(first, p[0]), V.is_key(second, p[1])))
        V.ensure("every difference is below the maximum", V.lt(diff(*p), most))
    V.forall("pairs", [m], pair)
    pairwise = (lambda *a: None) if isinstance(m, int) and m == 0 else V.generally
    pairwise("every timestamp at most once", 2, lambda x, y: V.implies(V.and_(V.le(0, x), V.lt(x, y), V.lt(y, m)), V.and_(match(x)[0] != match(y)[0], match(x)[1] != match(y)[1])))
    pairwise("sorted by the first timestamp", 2, lambda x, y: V.implies(V.and_(V.le(0, x), V.lt(x, y), V.lt(y, m)), V.le(V.number(match(x)[0]), V.number(match(y)[0]))))

    def admissible(i, j):
        a, b = first.key(i.t), second.key(j.t)
        d = diff(a, b)
        # the accepted candidate that shares a key with this pair
        now = getattr(g, "now", None)
        if now is None:
            return V.le(most, d)
        hints = []
        for r in V.hint_filtered(i, j):
            hints += [h for q in V.hint_sorted(r) for h in V.hint_sorted(now["best"](q))]
        return V.implies(V.lt(d, most), V.some([m], lambda x: V.and_(V.or_(match(x)[0] == a, match(x)[1] == b), V.le(diff(*match(x)), d)), hints))
    V.forall("no rejected pair could be added, or is better than both competitors", [n1, n2], admissible)


@contract("D01", "the matching is one-to-one and greedy (all small sets)", product(offset=[0.0, 0.01, -0.02], most=[0.005, 0.015, 0.02, 0.031]), only="conc", samples=1, why=WHY)
def d01_small(V, offset, most):
    grid = ["9.98", "9.99", "10.0", "10.01", "10.02"]
    side = ["9.985", "9.995", "10.004", "10.01", "10.025"]
    pick = lambda g, m: {s: [s] for i, s in enumerate(g) if m >> i & 1}
    for m in range(32):
        for n in range(32):
            check_matching(V, pick(grid, m), pick(side, n), offset, most)


@contract("D01", "the matching is one-to-one and greedy", product(kind=["dense", "sparse", "ties", "magnitudes"]), only="conc", samples=400, why=WHY)
def d01_random(V, kind):
    r = V.rng
    k, n = r.randint(0, 14), r.randint(0, 14)
    base = r.choice([0.0, 9.9, 99.95, 1305031102.0])
    if kind == "dense":
        gen = lambda: base + r.randint(0, 400) / 1000.0
    elif kind == "sparse":
        gen = lambda: base + r.randint(0, 400) / 10.0
    elif kind == "ties":
        gen = lambda: base + r.randint(0, 12) / 64.0
    else:
        gen = lambda: r.choice([1.0, 10.0, 100.0]) * r.choice([1, 2, 9]) + r.randint(0, 30) / 100.0
    form = lambda x: r.choice(["%.6f", "%.3f", "%r"]) % x
    first, second = ({form(gen()): r.random() for _ in range(q)} for q in (k, n))
    offset = r.choice([0, 0.0, 0.02, -0.1, 3.0])
    if offset == 3.0:
        second = {form(float(s) - 3.0): v for s, v in second.items()}
    check_matching(V, first, second, offset, r.choice([0.02, 0.1, 0.5, 1e-6]))


def scratch(V, f):
    import shutil
    import tempfile
    d = tempfile.mkdtemp(prefix="vc_data_")
    try:
        return f(d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def listing(V, rows):
    """the rows of a TUM text file in one of its layouts, with comments and empty lines"""
    r = V.rng
    lines = ["# timestamp data"] if r.random() < 0.7 else []
    for row in rows:
        lines.append(r.choice([" ", "  ", "\t", ",", ", "]).join(row) + r.choice(["", "", " "]))
        if r.random() < 0.15:
            lines.append(r.choice(["", "# comment 1 2"]))
    return "\n".join(lines) + r.choice(["", "\n"])


@contract("D01", "lists are read line by line", product(part=BOTH), only="conc", samples=200, why=WHY)
def d01_list(V, part):
    import os
    r = V.rng
    n = r.randint(0, 9)
    rows = [("%.4f" % (1305031102.1 + 0.03 * i), "rgb/%d.png" % i) + (("extra",) if r.random() < 0.2 else ()) for i in range(n)]
    start = r.choice([None] + list(range(n + 1))) if part else None
    end = r.choice([None] + list(range(n + 3))) if part else None

    def run(d):
        p = os.path.join(d, "rgb.txt")
        with open(p, "w") as f:
            f.write(listing(V, rows))
        out = V.fn(READ_LIST)(p, start, end)
        want = rows[start:end]
        V.ensure("the selected entries, in order", list(out.items()) == [(w[0], list(w[1:])) for w in want])
    scratch(V, run)


@contract("D01", "trajectories are read line by line", product(matrix=BOTH), only="conc", samples=200, why=WHY)
def d01_traj(V, matrix):
    import math
    import os
    r = V.rng
    rows, want = [], []
    for i in range(r.randint(0, 8)):
        q = [r.gauss(0, 1) for _ in range(4)]
        s = math.sqrt(sum(x * x for x in q))
        q = [x / s for x in q]
        t = [r.uniform(-3, 3) for _ in range(3)]
        stamp = "%.4f" % (100 + i * 0.07)
        bad = r.random()
        if bad < 0.15:
            q = [0, 0, 0, 0]
        vals = ["%.17g" % x for x in t + q]
        if 0.15 <= bad < 0.3:
            vals[r.randrange(7)] = "nan"
        rows.append([stamp] + vals)
        if bad >= 0.3:
            want.append((stamp, t, q))

    def run(d):
        p = os.path.join(d, "groundtruth.txt")
        with open(p, "w") as f:
            f.write(listing(V, rows))
        import contextlib
        import io
        with contextlib.redirect_stderr(io.StringIO()):
            out = V.fn(READ_TRAJ)(p, matrix)
        V.ensure("entries with a pose, in order", [s for s, _, _ in want] == list(out))
        for s, t, q in want:
            if not matrix:
                V.ensure("position and quaternion as written", len(out[s]) == 7 and all(abs(x - y) < 1e-12 for x, y in zip(out[s], t + q)))
                continue
            x, y, z, w = q
            R = [[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                 [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                 [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]]
            M = [R[i] + [t[i]] for i in range(3)] + [[0, 0, 0, 1]]
            V.ensure("the pose as a matrix", out[s].shape == (4, 4) and all(abs(out[s][i, j] - M[i][j]) < 1e-9 for i in range(4) for j in range(4)))
    scratch(V, run)


# ------------------------------------------------------------------------------------------------ D02
H2, W2 = 3, 4


def image(V, d, name, value, dtype):
    """an image file that shows its frame number"""
    import os
    import cv2
    p = os.path.join(d, name)
    if not os.path.isdir(os.path.dirname(p)):
        os.makedirs(os.path.dirname(p))
    sh = (H2, W2) if dtype == "uint16" else (H2, W2, 3)
    cv2.imwrite(p, V.np.full(sh, value, dtype=dtype))


def turn(V, i):
    """pose of source frame i, [rotation about z, translation]"""
    import math
    a = 0.3 * i + 0.1
    return [[math.cos(a), -math.sin(a), 0, i + 0.5], [math.sin(a), math.cos(a), 0, 2.0 - i], [0, 0, 1, 0.25 * i], [0, 0, 0, 1]]


def quat(i):
    import math
    a = 0.3 * i + 0.1
    return [i + 0.5, 2.0 - i, 0.25 * i, 0, 0, math.sin(a / 2), math.cos(a / 2)]


def windows(n, seqlen, dilation, stride):
    """frame numbers of the windows that fit into n frames"""
    dil = 0 if dilation is None else dilation
    st = seqlen * (dil + 1) if stride is None else stride
    out, s = [], 0
    while s + (seqlen - 1) * (dil + 1) < n:
        out.append([s + q * (dil + 1) for q in range(seqlen)])
        s += st
    return out


def choose(V, n, grid):
    """seqlen, dilation, stride, start, end"""
    r = V.rng
    start = r.choice([None, 0] + list(range(min(n, 6))))
    end = r.choice([None] + [e for e in range((start or 0) + 1, n + 3)])
    return dict(seqlen=r.randint(1, 4), dilation=r.choice([None, 0, 1, 2]), stride=r.choice([None, 1, 2, 3, 5]), start=start, end=end)


def check_item(V, item, flags, frames, color, depth, names=None, stamps=None):
    """one extracted window: every entry at position i is that of frame frames[i]"""
    item = list(item)
    rgb = item.pop(0)
    V.ensure("colors in order", [float(x.max()) for x in rgb] == [float(color(f)) for f in frames] and all(bool(x.min() == x.max()) for x in rgb))
    if flags.get("return_depth", True):
        z = item.pop(0)
        V.ensure("depths of the same frames", len(z) == len(frames) and all(abs(float(x.max()) - depth(f)) < 1e-5 and x.min() == x.max() for x, f in zip(z, frames)))
    if flags.get("return_intrinsics", True):
        item.pop(0)
    P = V.np.array([turn(V, f) for f in frames])
    inv = V.np.linalg.inv
    if flags.get("return_pose", True):
        p = item.pop(0)
        V.ensure("poses of the same frames", len(p) == len(frames) and all(abs(p[i].numpy() - inv(P[0]) @ P[i]).max() < 1e-4 for i in range(len(frames))))
    if flags.get("return_transform", True):
        p = item.pop(0)
        V.ensure("transforms of the same frames", len(p) == len(frames) and all(
            abs(p[i].numpy() - (inv(P[i - 1]) @ P[i] if i else V.np.eye(4))).max() < 1e-4 for i in range(len(frames))))
    if flags.get("return_names", True):
        name = item.pop(0)
        if names is not None:
            V.ensure("names of the same frames", names(name, frames))
    if stamps is not None and flags.get("return_timestamps", True):
        V.ensure("timestamps of the same frames", stamps(item.pop(0), frames))
    return item


def some_flags(V, names):
    return {k: V.rng.random() < 0.5 for k in names} if V.rng.random() < 0.4 else {}


FLAGS = ["return_depth", "return_intrinsics", "return_pose", "return_transform", "return_names"]


@contract("D02", "ICL windows", product(trajectories=[["1"], ["0"], ["2", "0"], ["1", "3"]]), only="conc", samples=150, why=WHY)
def d02_icl(V, trajectories):
    import os
    r = V.rng

    def run(d):
        size, want = {}, []
        for k in trajectories:
            n = size[k] = r.randint(2, 10)
            name = "living_room_traj%s_frei_png" % k
            base = int(k) * 12
            for i in range(n):
                image(V, d, "%s/rgb/%d.png" % (name, i), base + i, "uint8")
                image(V, d, "%s/depth/%d.png" % (name, i), (base + i) * 500, "uint16")
            with open(os.path.join(d, name, "associations.txt"), "w") as f:
                f.write("".join("%d depth/%d.png %d rgb/%d.png\n" % (i, i, i, i) for i in range(n)))
            poses = n - 1 if k == "0" else n
            with open(os.path.join(d, name, "livingRoom%sn.gt.sim" % k), "w") as f:
                for i in range(poses):
                    f.write("".join(" ".join("%.9f" % x for x in row) + "\n" for row in turn(V, base + i)[:3]) + "\n")
        o = choose(V, min(size.values()), None)
        flags = some_flags(V, FLAGS)
        which = r.choice([None, "tuple", "file"])
        trajs = None if which is None else tuple("living_room_traj%s_frei_png" % k for k in trajectories)
        if which == "file":
            p = os.path.join(d, "list.txt")
            with open(p, "w") as f:
                f.write("\n".join(trajs))
            trajs = p
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            data = V.fn("gradslam.datasets.icl:ICL")(d, trajs, height=H2, width=W2, **o, **flags)
        for k in trajectories:
            avail = list(range(size[k] - (k == "0")))[o["start"] or 0:o["end"]]
            want.append([[int(k) * 12 + avail[i] for i in w] for w in windows(len(avail), o["seqlen"], o["dilation"], o["stride"])])
        V.ensure("as many windows as fit", len(data) == sum(map(len, want)))
        items = [data[i] for i in range(len(data))]
        left = list(want)
        while items:                # trajectories come in any order, their windows in order
            first = float(items[0][0][0].max())
            w = next((w for w in left if w and w[0][0] == first), None)
            V.ensure("the windows of the trajectories", w is not None and len(w) <= len(items))
            left.remove(w)
            names = lambda s, fr: s == ", ".join("living_room_traj%d_frei_png/%d" % (f // 12, f % 12) for f in fr)
            for fr in w:
                rest = check_item(V, items.pop(0), flags, fr, lambda f: f, lambda f: f * 500 / 5000.0, names)
                V.ensure("nothing else", not rest)
        V.ensure("all windows", not any(left))
    scratch(V, run)


@contract("D02", "TUM windows", product(sequences=[["desk"], ["xyz", "room_long"]], jitter=BOTH), only="conc", samples=150, why=WHY)
def d02_tum(V, sequences, jitter):
    import os
    r = V.rng

    def run(d):
        src, want = {}, []
        for q, k in enumerate(sequences):
            n = r.randint(2, 9)
            name = "rgbd_dataset_freiburg%d_%s" % (q + 1, k)
            base, t0 = q * 12, r.choice([9.9, 1305031102.0])
            shift = lambda: r.uniform(-0.008, 0.008) if jitter else 0.0
            stamps = {}
            rows = {"rgb": [], "depth": [], "pose": []}
            for i in range(n):
                t = t0 + 0.1 * i
                s = stamps[i] = {x: "%.6f" % (t + shift()) for x in rows}
                miss = {x: jitter and r.random() < 0.12 for x in rows}
                for x in ("rgb", "depth"):
                    if not miss[x]:
                        rows[x].append((s[x], "%s/%d.png" % (x, i)))
                        image(V, d, "%s/%s/%d.png" % (name, x, i), (base + i) * (500 if x == "depth" else 1), "uint16" if x == "depth" else "uint8")
                if not miss["pose"]:
                    rows["pose"].append((s["pose"],) + tuple("%.9f" % x for x in quat(base + i)))
                if jitter and r.random() < 0.3:      # a pose nobody is near to
                    rows["pose"].append(("%.6f" % (t + 0.05), "9", "9", "9", "0", "0", "0", "1"))
                stamps[i]["miss"] = miss
            if not rows["rgb"]:
                rows["rgb"].append(("%.6f" % (t0 - 5), "rgb/none.png"))
            for x, f in (("rgb", "rgb.txt"), ("depth", "depth.txt"), ("pose", "groundtruth.txt")):
                os.makedirs(os.path.join(d, name), exist_ok=True)
                with open(os.path.join(d, name, f), "w") as h:
                    h.write(listing(V, rows[x]))
            src[k] = name, base, stamps, [int(x[1][4:-4]) for x in rows["rgb"] if x[1] != "rgb/none.png"]
        o = choose(V, min(len(x[3]) for x in src.values()) + 1, None)
        flags = some_flags(V, FLAGS + ["return_timestamps"])
        posed = flags.get("return_pose", True) or flags.get("return_transform", True)
        which = r.choice([None, "tuple", "file"])
        seqs = None if which is None else tuple(src[k][0] for k in sequences)
        if which == "file":
            p = os.path.join(d, "list.txt")
            with open(p, "w") as f:
                f.write("\n".join(seqs))
            seqs = p
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            data = V.fn("gradslam.datasets.tum:TUM")(d, seqs, height=H2, width=W2, **o, **flags)
        for k in sequences:
            name, base, stamps, rgb = src[k]
            avail = [i for i in rgb[o["start"] or 0:o["end"]] if not stamps[i]["miss"]["depth"] and not (posed and stamps[i]["miss"]["pose"])]
            want.append([[base + avail[i] for i in w] for w in windows(len(avail), o["seqlen"], o["dilation"], o["stride"])])
        V.ensure("as many windows as fit", len(data) == sum(map(len, want)))
        items = [data[i] for i in range(len(data))]
        left = list(want)
        while items:
            first = float(items[0][0][0].max())
            w = next((w for w in left if w and w[0][0] == first), None)
            V.ensure("the windows of the sequences", w is not None and len(w) <= len(items))
            left.remove(w)
            name, base, stamps, _ = next(x for x in src.values() if x[1] == w[0][0] // 12 * 12)

            def names(s, fr):
                s = s.split(", ")
                return len(s) == len(fr) and all(x.startswith(name) and x.split("/")[-1] == str(f - base) for x, f in zip(s, fr))

            def times(s, fr):
                s = s.split("\n")
                return len(s) == len(fr) and all(x == "rgb %s depth %s pose %s" % (
                    stamps[f - base]["rgb"], stamps[f - base]["depth"], stamps[f - base]["pose"] if posed else None) for x, f in zip(s, fr))
            for fr in w:
                rest = check_item(V, items.pop(0), flags, fr, lambda f: f, lambda f: f * 500 / 5000.0, names, times)
                V.ensure("nothing else", not rest)
        V.ensure("all windows", not any(left))
    scratch(V, run)


def symbolic_windows(V, seqlen, dilation, stride):
    """the arguments, the distance of the frames of a window, of its first and last frame, and of consecutive windows"""
    L = V.dim("seqlen", lo=1)
    dil = None if dilation is None else V.int("dilation", lo=0) if dilation == "any" else dilation
    st = None if stride is None else V.int("stride", lo=1)
    step = (0 if dil is None else dil) + 1
    return dict(seqlen=L, dilation=dil, stride=st), L, step, (L - 1) * step, L * step if st is None else st


@contract("D02", "TUM windows (any sizes)", product(sequences=[1, 2], poses=BOTH, dilation=[None, 1, "any"], stride=[None, "any"]), only="sym", lists=True, timeout=10000)
def d02_tum_any(V, sequences, poses, dilation, stride):
    import os
    args, L, step, span, apart = symbolic_windows(V, None, dilation, stride)
    names = ["rgbd_dataset_freiburg%d_%s" % (q + 1, x) for q, x in enumerate(["desk", "long_room"][:sequences])]

    def run(d):
        for n in names:
            os.makedirs(os.path.join(d, n))
            for f in ("rgb.txt", "depth.txt", "groundtruth.txt"):
                open(os.path.join(d, n, f), "w").close()
        order, size = [], {}

        def matches(orig, self, rgb, depth, pose=None, *a, **k):
            name = os.path.basename(os.path.dirname(rgb))
            want = [os.path.join(d, name, f) for f in ("rgb.txt", "depth.txt", "groundtruth.txt")]
            V.ensure("the lists of one sequence are matched", name in names and name not in order and [rgb, depth] == want[:2] and pose == (want[2] if poses else None) and not a and not k)
            order.append(name)
            n = size[name] = V.dim("frames_" + name, lo=0)
            q = "abc"[names.index(name)]
            T = lambda x, i: V.text(q + x + "%s", i)
            return (V.made_list(n, lambda i: (V.text("rgb/" + q + "%s.png", i), V.text("depth/" + q + "%s.png", i)) + ((T("pose", i),) if poses else ())),
                    V.made_list(n, lambda i: (T("t", i), T("u", i), T("v", i) if poses else None)))
        V.stub("gradslam.datasets.tum:TUM._findAssociations", matches)
        data = V.make("gradslam.datasets.tum:TUM", d, return_pose=poses, return_transform=poses, **args)
        V.ensure("every sequence is read", sorted(order) == sorted(names))
        m = V.length(data.colorfiles)
        V.ensure("the number of windows", V.and_(V.eq(data.num_sequences, m), V.eq(type(data).__len__(data), m)))
        counts = V.hint_counts()
        off = 0
        for what, l in (("depths", data.depthfiles), ("names", data.framenames), ("stamps", data.timestamps)) + ((("poses", data.poses),) if poses else ()):
            V.ensure("one entry per window: " + what, V.eq(V.length(l), m))
        for name in order:
            # windows off .. off + c - 1 are those of this sequence
            n, q = size[name], "abc"[names.index(name)]
            c = counts.pop(0)
            every_window(V, c, n, span, apart)

            def one(j, i):
                f = j * apart + i * step
                at = lambda l: V.listed(V.listed(l, off + j), i)
                V.ensure("colors of the window", V.same_text(at(data.colorfiles), V.text(os.path.join(d, name, "rgb", q + "%s.png"), f)))
                V.ensure("depths of the same frames", V.same_text(at(data.depthfiles), V.text(os.path.join(d, name, "depth", q + "%s.png"), f)))
                sep, l = V.parts_of(V.listed(data.framenames, off + j)) or (None, None)
                V.ensure("names of the same frames", sep == ", " and V.and_(V.eq(V.length(l), L), V.same_text(V.listed(l, i), V.text(name + "//" + q + "%s", f))))
                t = at(data.timestamps)
                V.ensure("stamps of the same frames", isinstance(t, tuple) and len(t) == 3 and V.and_(*[(x is None) if y is None else V.same_text(x, V.text(q + y + "%s", f)) for x, y in zip(t, "tu" + "v" if poses else ("t", "u", None))]))
                if poses:
                    V.ensure("poses of the same frames", V.same_text(at(data.poses), V.text(q + "pose%s", f)))

            def whole(j):
                for l in (data.colorfiles, data.depthfiles, data.timestamps) + ((data.poses,) if poses else ()):
                    V.ensure("every window has the asked length", V.eq(V.length(V.listed(l, off + j)), L))
            V.forall("windows", [c], whole)
            V.forall("windows", [c, L], one)
            off = off + c
        V.ensure("no other windows", V.eq(m, off))
    scratch(V, run)


@contract("D02", "ICL windows (any sizes)", product(trajectories=[["1"], ["2", "0"]], poses=BOTH, dilation=[None, "any"], stride=[None, "any"], part=[None, "start", "both"]),
          only="sym", lists=True, timeout=10000)
def d02_icl_any(V, trajectories, poses, dilation, stride, part):
    import os
    import warnings
    args, L, step, span, apart = symbolic_windows(V, None, dilation, stride)
    if part:
        args["start"] = V.int("start", lo=0)
    if part == "both":
        args["end"] = V.int("end", lo=0)
        V.assume(V.lt(args["start"], args["end"]))
    names = ["living_room_traj%s_frei_png" % x for x in trajectories]

    def run(d):
        size = {}
        for n, x in zip(names, trajectories):
            os.makedirs(os.path.join(d, n))
            files = [os.path.join(d, n, f) for f in ("associations.txt", "livingRoom%sn.gt.sim" % x)]
            for f in files:
                open(f, "w").close()
            m = size[n] = V.dim("frames_" + x, lo=0)
            V.lines(files[0], m, lambda i, x=x: icl_line(V, x, i))
            # three rows and an empty line per pose; trajectory 0 has no pose for its last frame
            p = V.dim("lines_" + x, lo=0)
            V.assume(V.le(4 * (m - 1 if x == "0" else m), p))
            V.lines(files[1], p, lambda i: "")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            data = V.make("gradslam.datasets.icl:ICL", d, return_pose=poses, return_transform=poses, **args)
        m = V.length(data.colorfiles)
        V.ensure("the number of windows", V.and_(V.eq(data.num_sequences, m), V.eq(type(data).__len__(data), m)))
        for what, l in (("depths", data.depthfiles), ("names", data.framenames)) + ((("poses", data.posemetas),) if poses else ()):
            V.ensure("one entry per window: " + what, V.eq(V.length(l), m))
        counts, off = V.hint_counts(), 0
        for name in os.listdir(d):
            x = name[16]
            n = size[name]
            if x == "0":
                n = V.ite(V.lt(0, n), n - 1, 0)
            lo = args.get("start", 0)
            if "end" in args:
                n = V.min(n, args["end"])
            n = V.ite(V.lt(lo, n), n - lo, 0)
            c = counts.pop(0)
            every_window(V, c, n, span, apart)

            def one(j, i):
                f = lo + j * apart + i * step
                at = lambda l: V.listed(V.listed(l, off + j), i)
                V.ensure("colors of the window", V.same_text(at(data.colorfiles), V.text(os.path.join(d, name, "rgb", "c" + x + "%s.png"), f)))
                V.ensure("depths of the same frames", V.same_text(at(data.depthfiles), V.text(os.path.join(d, name, "depth", "d" + x + "%s.png"), f)))
                sep, l = V.parts_of(V.listed(data.framenames, off + j)) or (None, None)
                V.ensure("names of the same frames", sep == ", " and V.and_(V.eq(V.length(l), L), V.same_text(V.listed(l, i), V.text(name + "/d" + x + "%s", f))))
                if poses:
                    p = V.listed(data.posemetas, off + j)
                    V.ensure("poses of the trajectory", p["file"] == os.path.join(d, name, "livingRoom%sn.gt.sim" % x))
                    V.ensure("poses of the same frames", V.eq(V.listed(p["line_nums"], i), 4 * f))

            def whole(j):
                for l in [data.colorfiles, data.depthfiles]:
                    V.ensure("every window has the asked length", V.eq(V.length(V.listed(l, off + j)), L))
                if poses:
                    V.ensure("every window has the asked length", V.eq(V.length(V.listed(data.posemetas, off + j)["line_nums"]), L))
            V.forall("windows", [c], whole)
            V.forall("windows", [c, L], one)
            off = off + c
        V.ensure("no other windows", V.eq(m, off))
    scratch(V, run)


def icl_line(V, x, i):
    """line i of associations.txt of trajectory x"""
    t = V.text("%s", i)
    return "%s%s depth/d%s%s.png %s%s rgb/c%s%s.png\n" % (x, t, x, t, x, t, x, t)


@contract("D02", "items show the frames of their window (any sizes)", product(cls=["tum", "icl", "scannet"], first=BOTH, unit=BOTH, skip=[None, "return_depth", "return_intrinsics", "return_pose", "return_transform", "both", "return_names"]),
          only="sym", lists=True)
def d02_items(V, cls, first, unit, skip):
    h, w, L = V.dim("h"), V.dim("w"), V.dim("seqlen")
    off = ["return_pose", "return_transform"] if skip == "both" else [skip] if skip else []
    flags = {x: False for x in off}
    color = V.tensor("color", [L, h, w, 3], "int64", lo=0, hi=255, np=True)
    depth = V.tensor("depth", [L, h, w], "int64", lo=0, hi=60000, np=True)
    labels = V.tensor("label", [L, h, w], "uint8", lo=0, hi=40, np=True)
    P = V.rigid("P", [L], np=True)
    K = V.tensor("K", [4, 4], "float64", np=True)
    moves = V.tensor("moves", [L, 4, 4], "float64", np=True)
    posed = "both" != skip

    def content(before, k, after):
        r = {("/c/", ".png"): color, ("/d/", ".png"): depth, ("/p/", ".txt"): P, ("/l/", ".png"): labels}.get((before, after))
        return K if (before, after) == ("/k/", ".txt") else V.unsupported("a file of another kind") if r is None else r[k]
    V.arrays(content)
    files = lambda form: [None, V.made_list(L, lambda i: V.text(form, i))]

    def run(d):
        V.stub("gradslam.datasets.tum:TUM._findAssociations", lambda *a, **k: ([("rgb/1.0.png", "depth/1.0.png", None)], [("1.0", "1.0", None)]))
        data = dataset(V, cls, d, h, w, channels_first=first, normalize_color=unit, **flags)
        data.colorfiles, data.depthfiles = files("/c/%s.png"), files("/d/%s.png")
        if cls == "scannet":
            data.posefiles, data.labelfiles, data.intrinsicsfiles, data.seqnames = files("/p/%s.txt"), files("/l/%s.png"), [None, V.text("/k/%s.txt", V.dim("camera"))], [None, "the name"]
        else:
            data.seqlen, data.framenames = L, [None, "the names"]
            if cls == "tum":
                data.timestamps, data.poses = [None, V.made_list(L, lambda i: (V.text("r%s", i), V.text("d%s", i), V.text("p%s", i)))], [None, V.made_list(L, lambda i: V.text("q%s", i))]
            else:
                data.posemetas = [None, {"file": "the poses", "line_nums": V.made_list(L, lambda i: 4 * i)}]
        mats = lambda: V.made_list(L, lambda i: P[i])

        def load(orig, self, path, nums):
            V.ensure("the poses are read from the file", path == "the poses" and V.is_list(nums))
            V.ensure("as many as frames", V.eq(V.length(nums), L))
            V.forall("at the lines of the frames", [L], lambda i: V.eq(V.listed(nums, i), 4 * i))
            return mats()

        def convert(orig, self, ps):
            V.ensure("as many as frames", V.eq(V.length(ps), L))
            V.forall("the poses of the frames", [L], lambda i: V.same_text(V.listed(ps, i), V.text("q%s", i)))
            return mats()

        def transforms(orig, ps):
            V.ensure("as many poses as frames", V.eq(V.length(ps), L))
            for r in range(4):
                for c in range(4):
                    V.forall("the poses of the frames", [L], lambda i: V.eq(V.at(V.listed(ps, i), r, c), V.at(P, i, r, c)))
            return V.made_list(L, lambda i: moves[i])
        if cls == "icl":
            V.stub("gradslam.datasets.icl:ICL._loadPoses", load)
        if cls == "tum":
            V.stub("gradslam.datasets.tum:TUM._homogenPoses", convert)
        V.stub(TRANS, transforms)
        V.stub(REMAP, lambda orig, x: x)
        out = list(data[1])
        at = lambda a, l, i, j, c: V.at(a, l, c, i, j) if first else V.at(a, l, i, j, c)
        x = out.pop(0)
        V.ensure_shape("colors", x, [L, 3, h, w] if first else [L, h, w, 3])
        V.forall("colors of the frames", [L, h, w, 3], lambda l, i, j, c: V.eq(at(x, l, i, j, c) * (255 if unit else 1), V.at(color, l, i, j, c)))
        if "return_depth" not in off:
            y = out.pop(0)
            V.ensure_shape("depths", y, [L, 1, h, w] if first else [L, h, w, 1])
            V.forall("depths of the frames", [L, h, w], lambda l, i, j: V.eq(at(y, l, i, j, 0) * (1000 if cls == "scannet" else 5000), V.at(depth, l, i, j)))
        if "return_intrinsics" not in off:
            k = out.pop(0)
            V.ensure_shape("intrinsics", k, [1, 4, 4])
            if cls != "scannet":
                V.ensure("intrinsics of the dataset", k is data.intrinsics)
            else:
                f = {(0, 0): (w, 640), (0, 2): (w, 640), (1, 1): (h, 480), (1, 2): (h, 480)}
                for i in range(4):
                    for j in range(4):
                        V.ensure("intrinsics of the scene", V.eq(V.at(k, 0, i, j) * f.get((i, j), (1, 1))[1], V.at(K, i, j) * f.get((i, j), (1, 1))[0]))
        if posed and "return_pose" not in off:
            q = out.pop(0)
            V.ensure_shape("poses", q, [L, 4, 4])
            for r in range(4):
                for c in range(4):
                    V.forall("poses relative to the first frame", [L], lambda i: V.eq(V.at(q, i, r, c), relative(V, P, i)(r, c)))
        if posed and "return_transform" not in off:
            t = out.pop(0)
            V.ensure_shape("transforms", t, [L, 4, 4])
            V.forall("transforms of the frames", [L, 4, 4], lambda i, r, c: V.eq(V.at(t, i, r, c), V.at(moves, i, r, c)))
        if "return_names" not in off:
            V.ensure("name", out.pop(0) == ("the name" if cls == "scannet" else "the names"))
        if cls == "tum":
            sep, l = V.parts_of(out.pop(0)) or (None, None)
            V.ensure("stamps", sep == "\n" and V.eq(V.length(l), L))
            V.forall("stamps of the frames", [L], lambda i: V.same_text(V.listed(l, i), "rgb %s depth %s pose %s" % (V.text("r%s", i), V.text("d%s", i), V.text("p%s", i))))
        if cls == "scannet":
            z = out.pop(0)
            V.ensure_shape("labels", z, [L, h, w, 1])
            V.forall("labels of the frames", [L, h, w], lambda l, i, j: V.eq(V.at(z, l, i, j, 0), V.at(labels, l, i, j)))
        V.ensure("nothing else", not out)
    scratch(V, run)


def every_window(V, c, n, span, apart):
    """c is the number of windows that fit into n frames: window j fits exactly if j < c"""
    if V.split(V.eq(c, 0)):
        V.ensure("the windows are those that fit", V.le(n, span))
        return
    mono = lambda a, b: V.implies(V.le(a, b), V.le(a * apart, b * apart))
    V.generally("lemma: later windows start later", 2, mono)

    def fits(j):
        # two instances of the lemma: j + 1 <= c, c <= j
        hyp = V.and_(mono(j, c - 1), mono(c, j), V.le(0, j))
        return V.implies(hyp, V.iff(V.lt(j, c), V.lt(j * apart + span, n)))
    V.generally("the windows are those that fit", 1, fits)


@contract("D02", "ScanNet sequences (any sizes)", product(scenes=[1, 2], ends=BOTH, chosen=[None, "first"]), only="sym", lists=True)
def d02_scannet_any(V, scenes, ends, chosen):
    import os
    start = V.int("start", lo=0)
    end = V.int("end", lo=0) if ends else -1
    if ends:
        V.assume(V.lt(start, end))
    names = ["scene%04d_00" % (9 * q + 1) for q in range(scenes)]

    def run(d):
        meta, size = os.path.join(d, "meta"), {}
        os.makedirs(meta)
        for q, scene in enumerate(names):
            f = os.path.join(meta, "%s-seq_%d.txt" % (scene, q))
            open(f, "w").close()
            n = size[scene] = V.dim("frames_%d" % q)
            V.assume(V.le(end, n) if ends else V.lt(start, n))

            def line(i, q=q, scene=scene):
                e = lambda k, sub, x: "%s %s/%s/%s.%s" % (k, scene, sub, V.text("%d_%%s" % q, i), x)
                return " ".join([e("color", "color", "png"), e("depth", "depth", "png"), e("pose", "pose", "txt"), e("label-filt", "labels", "png"),
                                 e("label", "other", "png"), e("instance-filt", "other", "png"), e("instance", "other", "png"),
                                 e("intrinsic_depth", "intrinsic", "txt")]) + "\n"
            V.lines(f, n, line)
        data = V.make(S + "Scannet", d, meta, None if chosen is None else (names[0],), start, end)
        kept = names if chosen is None else names[:1]
        V.ensure("one sequence per scene", data.num_sequences == type(data).__len__(data) == len(kept))
        V.ensure("names of the scenes", [x.split("-")[0] for x in data.seqnames] == kept)
        for q, scene in enumerate(kept):
            c = (end if ends else size[scene]) - start
            lists = (data.colorfiles, "color", "png"), (data.depthfiles, "depth", "png"), (data.posefiles, "pose", "txt"), (data.labelfiles, "labels", "png")
            for l, sub, x in lists:
                V.ensure("one sequence per scene", V.eq(V.length(l), len(kept)))
                V.ensure("as many frames as asked: " + sub, V.eq(V.length(V.listed(l, q)), c))
                V.forall("the frames of the scene: " + sub, [c], lambda i: V.same_text(
                    V.listed(V.listed(l, q), i), os.path.join(d, scene, sub, V.text("%d_%%s.%s" % (q, x), start + i))))
            V.ensure("the camera of the scene", V.same_text(V.listed(data.intrinsicsfiles, q), os.path.join(d, scene, "intrinsic", V.text("%d_%%s.txt" % q, start))))
    scratch(V, run)


@contract("D02", "ScanNet sequences", product(scenes=[1, 2]), only="conc", samples=150, why=WHY)
def d02_scannet(V, scenes):
    import os
    r = V.rng

    def run(d):
        meta, size = os.path.join(d, "meta"), []
        os.makedirs(meta)
        for q in range(scenes):
            n, scene = r.randint(1, 9), "scene%04d_00" % (q * 9 + 1)
            size.append((scene, n, q * 12))
            lines = []
            for i in range(n):
                f = q * 12 + i
                image(V, d, "%s/color/%d.png" % (scene, i), f, "uint8")
                image(V, d, "%s/depth/%d.png" % (scene, i), f * 500, "uint16")
                label(V, d, "%s/label/%d.png" % (scene, i), f % 41)
                for sub, M in (("pose", turn(V, f)), ("intrinsic", [[100.0 + q, 0, 3, 0], [0, 200.0, 5, 0], [0, 0, 1, 0], [0, 0, 0, 1]])):
                    p = os.path.join(d, scene, sub)
                    os.makedirs(p, exist_ok=True)
                    with open(os.path.join(p, "%d.txt" % i), "w") as h:
                        h.write("\n".join(" ".join("%.9f" % x for x in row) for row in M) + "\n")
                e = lambda k, sub, x: "%s %s/%s/%d.%s" % (k, scene, sub, i, x)
                lines.append(" ".join([e("color", "color", "png"), e("depth", "depth", "png"), e("pose", "pose", "txt"), e("label-filt", "label", "png"),
                                       e("label", "label", "png"), e("instance-filt", "label", "png"), e("instance", "label", "png"),
                                       e("intrinsic_depth", "intrinsic", "txt")]))
            with open(os.path.join(meta, "%s-seq_%d.txt" % (scene, q)), "w") as h:
                h.write("\n".join(lines) + "\n")
        least = min(n for _, n, _ in size)
        start = r.randint(0, least - 1)
        end = r.choice([-1] + list(range(start + 1, least + 1)))
        chosen = None if r.random() < 0.5 else tuple(r.sample([s for s, _, _ in size], r.randint(1, scenes)))
        flags = some_flags(V, FLAGS + ["return_labels"])
        classes = r.choice(["scannet20", "nyu40"])
        data = V.fn("gradslam.datasets.scannet:Scannet")(d, meta, chosen, start, end, height=H2, width=W2, seg_classes=classes, **flags)
        keep = [x for x in size if chosen is None or x[0] in chosen]
        V.ensure("one sequence per scene", len(data) == len(keep))
        to = target(V)
        for k, (scene, n, base) in enumerate(keep):
            frames = [base + i for i in range(n)][start:None if end == -1 else end]
            rest = check_item(V, data[k], flags, frames, lambda f: f, lambda f: f * 500 / 1000.0, lambda s, fr: s.startswith(scene))
            if flags.get("return_labels", True):
                x = rest.pop(0)
                lab = [f % 41 if classes == "nyu40" else to[f % 41] for f in frames]
                V.ensure("labels of the same frames", [float(y.max()) for y in x] == [float(v) for v in lab])
            V.ensure("nothing else", not rest)
    scratch(V, run)


def label(V, d, name, value):
    import os
    import cv2
    p = os.path.join(d, name)
    if not os.path.isdir(os.path.dirname(p)):
        os.makedirs(os.path.dirname(p))
    cv2.imwrite(p, V.np.full((H2, W2), value, dtype="uint8"))
