"""Ghost model of a batch of point clouds, shared by the contracts of structures, odometry and slam."""

PC = "gradslam.structures.pointclouds:Pointclouds"
ATTRS = ("points", "normals", "colors", "features")


class Ghost:
    """the content a batch of clouds stands for: B clouds, cloud b has N[b] points, val[a](b, i, k)"""

    def __init__(self, V, B, N, val, C=3):
        self.V, self.B, self.N, self.val, self.C = V, B, list(N), dict(val), C

    def copy(self):
        return Ghost(self.V, self.B, self.N, self.val, self.C)

    def w(self, a):
        return self.C if a == "features" else 3

    @property
    def Nmax(self):
        m = self.N[0]
        for n in self.N[1:]:
            m = self.V.max(m, n)
        return m

    def has(self, a):
        return self.val.get(a) is not None

    def padded(self, a, b, i, k):
        """value of the padded view"""
        V = self.V
        return V.ite(V.lt(i, self.N[b]), lambda: self.val[a](b, i, k), 0)

    def map(self, a, f):
        """a new ghost in which attribute a is f(b, i, k, old)"""
        g = self.copy()
        old = self.val[a]
        g.val[a] = lambda b, i, k: f(b, i, k, old)
        return g


def sizes(V, B, tag="", equal=False, lo=0):
    if equal:
        n = V.dim(tag + "N", lo=lo)
        return [n] * B
    return [V.dim("%sN%d" % (tag, b), lo=lo) for b in range(B)]


def values(V, base, N, attrs, tag="", C=None, kw={}, **all_):
    """input tensors of a cloud: per attribute a list of (N_b, w) tensors or one (B, N, w) tensor"""
    out = {}
    B = len(N)
    for a in attrs:
        w = C if a == "features" else 3
        k = dict(all_, **kw.get(a, {}))
        if base == "list":
            out[a] = [V.tensor("%s%s%d" % (tag, a, b), [N[b], w], **k) for b in range(B)]
        else:
            out[a] = V.tensor(tag + a, [B, N[0], w], **k)
    return out


def ghost_of(V, base, N, data, C=3):
    val = {}
    for a in ATTRS:
        if a not in data:
            val[a] = None
        elif base == "list":
            val[a] = (lambda t: lambda b, i, k: V.at(t[b], i, k))(list(data[a]))
        else:
            val[a] = (lambda t: lambda b, i, k: V.at(t, b, i, k))(data[a])
    return Ghost(V, len(N), N, val, C)


def build(V, base, B, attrs=ATTRS, tag="", C=None, equal=False, lo=0, sizes_=None, **kw):
    """(clouds, ghost, inputs) constructed through the public constructor"""
    if "features" in attrs and C is None:
        C = V.dim(tag + "C")
    N = sizes_ or sizes(V, B, tag, equal or base == "tensor", lo)
    data = values(V, base, N, attrs, tag, C, **kw)
    pc = V.make(PC, **data)
    return pc, ghost_of(V, base, N, data, C), data


def frozen(V, g):
    """the ghost's current values, independent of later writes to the input tensors"""
    return g


def check_list(V, what, a, lst, g):
    if lst is None or not isinstance(lst, (list, tuple)) or len(lst) != g.B:
        V.ensure("%s: %s list has one tensor per cloud" % (what, a), False)
        return
    for b in range(g.B):
        V.ensure_shape("%s: shape of the %s list" % (what, a), lst[b], [g.N[b], g.w(a)])
        V.forall("%s: %s list holds the cloud's own values" % (what, a), [g.N[b], g.w(a)],
                 lambda i, k: V.eq(V.at(lst[b], i, k), g.val[a](b, i, k)))


def check_padded(V, what, a, t, g):
    if t is None:
        V.ensure("%s: %s padded view exists" % (what, a), False)
        return
    V.ensure_shape("%s: shape of the padded %s" % (what, a), t, [g.B, g.Nmax, g.w(a)])
    for b in range(g.B):
        V.forall("%s: padded %s is the list view plus zeros" % (what, a), [V.shape(t)[1], g.w(a)],
                 lambda i, k: V.eq(V.at(t, b, i, k), g.padded(a, b, i, k)))


def check_mask(V, what, m, g):
    if m is None:
        V.ensure("%s: validity mask exists" % what, False)
        return
    V.ensure_shape("%s: shape of the mask" % what, m, [g.B, g.Nmax])
    for b in range(g.B):
        V.forall("%s: mask is true exactly on real points" % what, [V.shape(m)[1]],
                 lambda i: V.iff(V.at(m, b, i), V.lt(i, g.N[b])))


def check_counts(V, what, n, g):
    V.ensure_shape("%s: shape of the counts" % what, n, [g.B])
    for b in range(g.B):
        V.ensure("%s: points per cloud" % what, V.eq(V.at(n, b), g.N[b]))


def agree(V, what, pc, g, order=("list", "padded", "mask")):
    """everything a user can read agrees with the ghost"""
    V.ensure("%s: number of clouds" % what, V.eq(len(pc), g.B))
    for a in ATTRS:
        h = getattr(pc, "has_" + a)
        V.ensure("%s: has_%s" % (what, a), h == g.has(a))
    check_counts(V, what, pc.num_points_per_pointcloud, g)
    for o in order:
        if o == "mask":
            check_mask(V, what, pc.nonpad_mask, g)
            continue
        for a in ATTRS:
            t = getattr(pc, "%s_%s" % (a, o))
            if not g.has(a):
                V.ensure("%s: %s absent" % (what, a), t is None)
            elif o == "list":
                check_list(V, what, a, t, g)
            else:
                check_padded(V, what, a, t, g)
    if g.has("features"):
        V.ensure("%s: num_features" % what, V.eq(pc.num_features, g.C))


# ---------------------------------------------------------------- the class invariant, on the object's own fields
FIELDS = tuple("_%s_%s" % (a, f) for a in ATTRS for f in ("list", "padded")) + tuple("_has_" + a for a in ATTRS) + (
    "_nonpad_mask", "_num_points_per_pointcloud", "_B", "_N", "equisized", "device")


def any_state(V, B, reps, cached, tag="", C=None, N=None, fill=None, kw={}):
    """an arbitrary object satisfying the class invariant, with the given representation per attribute:
    '-' absent, 'L' list only, 'P' padded only, 'B' both; cached: are mask and has-flags cached"""
    attrs = [a for a in ATTRS if reps[a] != "-"]
    if "features" in attrs and C is None:
        C = V.dim(tag + "C")
    N = N or sizes(V, B, tag)
    data = values(V, "list", N, attrs, tag, C, kw=kw)
    if fill and not V.symbolic:
        fill(data, N)       # concrete runs: data on which the property is not trivially true
    g = ghost_of(V, "list", N, data, C)
    pc = V.make(PC, points=data["points"])
    if not all(f in vars(pc) for f in FIELDS):
        V.unsupported("Pointclouds no longer has the fields its invariant is stated on")
    for a in ATTRS:
        r = reps[a]
        setattr(pc, "_%s_list" % a, list(data[a]) if r in "LB" else None)
        setattr(pc, "_%s_padded" % a, V.array_like([B, g.Nmax, g.w(a)], (lambda a: lambda b, i, k: pick(V, g, a, b, i, k))(a))
                if r in "PB" else None)
        setattr(pc, "_has_" + a, (r != "-") if cached else None)
    pc._nonpad_mask = V.array_like([B, g.Nmax], lambda b, i: pick_n(V, g, b, i), dtype="bool") if cached else None
    return pc, g, data


def pick(V, g, a, b, i, k):
    if isinstance(b, int):
        return g.padded(a, b, i, k)
    r = g.padded(a, g.B - 1, i, k)
    for q in reversed(range(g.B - 1)):
        r = V.ite(V.eq(b, q), g.padded(a, q, i, k), r)
    return r


def pick_n(V, g, b, i):
    if isinstance(b, int):
        return V.lt(i, g.N[b])
    r = V.lt(i, g.N[-1])
    for q in reversed(range(g.B - 1)):
        r = V.or_(V.and_(V.eq(b, q), V.lt(i, g.N[q])), V.and_(V.ne(b, q), r))
    return r


def invariant(V, what, pc, g):
    """the class invariant relative to the ghost, on fields"""
    V.ensure("%s: number of clouds" % what, V.eq(pc._B, g.B))
    V.ensure("%s: padded length" % what, V.eq(pc._N, g.Nmax))
    check_counts(V, what, pc._num_points_per_pointcloud, g)
    V.ensure("%s: equisized flag" % what, V.iff(pc.equisized, V.and_(*[V.eq(n, g.N[0]) for n in g.N])))
    for a in ATTRS:
        l, p, h = getattr(pc, "_%s_list" % a), getattr(pc, "_%s_padded" % a), getattr(pc, "_has_" + a)
        V.ensure("%s: has_%s flag" % (what, a), h is None or h == g.has(a))
        V.ensure("%s: %s present" % (what, a), (l is not None or p is not None) == g.has(a))
        if l is not None and g.has(a):
            check_list(V, what, a, l, g)
        if p is not None and g.has(a):
            check_padded(V, what, a, p, g)
    if pc._nonpad_mask is not None:
        check_mask(V, what, pc._nonpad_mask, g)
