"""Less common library contracts."""
import z3

from .terms import Unsupported


def cv2_resize(img, size, interpolation=1, **k):
    """the result has the requested size and the image's channels; its values are opaque if the size changes"""
    from . import faketorch as F
    from . import tensor as A
    w, h = size
    shape = (h, w) + tuple(img._shape[2:])
    if len(img._shape) == 3 and isinstance(img._shape[2], int) and img._shape[2] == 1:
        shape = (h, w)
    if all(A.dim_eq(a, b) for a, b in zip(img._shape, (h, w))):
        return img.copy()       # an image that has the size already is copied
    return F.fresh_tensor(shape, img._dtype, "resized", cls=F.NdArray)


def unique_rows(a, dim, return_inverse, return_counts):
    from . import tensor as A
    from . import sym as S
    from . import terms as T
    from . import ctx as C
    from . import faketorch as F
    if dim is None and a.ndim == 1 and isinstance(a._shape[0], int) and not return_inverse and not return_counts:
        # sorted distinct values of a vector of known length n: exact count, content by its contract
        c = C.cur()
        n = a._shape[0]
        xs = [S.strip_detach(a.elem(i)) for i in range(n)]
        if n == 0:
            return F.tensor([], dtype=a._dtype)
        count = 1
        for i, x in enumerate(xs[1:]):
            count = T.add(count, T.ite(T.or_(*[T.eq(x, y) for y in xs[:i + 1]]), 0, 1))
        count = T.simp(count)
        if n == 1 or T.is_const(count) and count == 1:
            return F.tensor([S.wrap(xs[0])], dtype=a._dtype)
        sort = T.z(xs[0]).sort()
        out = z3.Function(c.fresh_name("unique"), z3.IntSort(), sort)
        pos = [c.fresh("unique_at", z3.IntSort()) for _ in xs]
        for x, p in zip(xs, pos):
            c.axiom(T.and_(T.le(0, p), T.lt(p, count), T.eq(out(p), x)))
        for k in range(n - 1):
            c.axiom(T.implies(T.lt(k + 1, count), T.lt(out(k), out(k + 1))))
        for k in range(n):
            c.axiom(T.implies(T.lt(k, count), T.or_(*[T.eq(out(k), x) for x in xs])))
        return A.mk((count if T.is_const(count) else S.wrap(count),), lambda v: out(T.z(A.it(v[0]))), a._dtype, F.Tensor)
    if dim is not None and a.ndim == 2 and A.norm_axis(dim, 2) == 0 and isinstance(a._shape[1], int) and not return_inverse and not return_counts:
        u = UniqueRows.of(a)
        return A.mk((S.wrap(u.count), a._shape[1]), lambda v: u.value(A.it(v[0]), A.it(v[1])), a._dtype, F.Tensor)
    raise Unsupported("torch.unique")


class UniqueRows:
    """contract of torch.unique(dim=0) on an (m, w) tensor: the distinct rows in strictly increasing lexicographic order.
    pos(i): where row i is found in the result; src(j): a row found there"""

    @staticmethod
    def of(a):
        from . import tensor as A
        from . import sym as S
        from . import terms as T
        from . import ctx as C
        c = C.cur()
        w = a._shape[1]
        k = A.generic_position((a._shape[0],), "uq")[0]
        if not isinstance(k, z3.ExprRef):
            raise Unsupported("torch.unique of a single row")
        c.collectors.append([])
        try:
            cells = [T.simp(T.z(S.strip_detach(a.elem(k, q)))) for q in range(w)]
        finally:
            ax = c.collectors.pop()
        if c.collectors:
            c.collectors[-1].extend(ax)
        key, free = A.abstract([T.z(x) for x in cells] + [T.z(A.dterm(a._shape[0]))], [k])
        tab = c.memo.setdefault("uniques", {})
        if key not in tab:
            tab[key] = UniqueRows(c, a, free, "unique_rows%d" % len(tab), k, cells, ax)
        u = tab[key]
        if [x.get_id() for x in free] != [x.get_id() for x in u.free]:
            raise Unsupported("torch.unique of rows of a generic element")
        return u

    def __init__(self, c, a, free, name, k, cells, ax):
        from . import tensor as A
        from . import terms as T
        self.free, self.name, self.w = free, name, a._shape[1]
        self.m = A.dterm(a._shape[0])
        self.k, self.cells, self.ax = k, cells, ax
        self.uf = [z3.Function("%s_cell%d" % (name, q), z3.IntSort(), x.sort()) if nonlinear(x) else None for q, x in enumerate(cells)]
        self.pos_, self.src_ = z3.Function(name + "_pos", z3.IntSort(), z3.IntSort()), z3.Function(name + "_src", z3.IntSort(), z3.IntSort())
        self.first_ = z3.Function(name + "_first", z3.IntSort(), z3.IntSort(), z3.IntSort())
        self.count = z3.Int(name + "_count")
        self.used, self.rows, self.pairs = {}, {}, set()
        self.den = [x.arg(1) if f is not None and x.decl().kind() == z3.Z3_OP_DIV and z3.is_rational_value(x.arg(0)) and x.arg(0).numerator_as_long() > 0 else None
                    for x, f in zip(self.cells, self.uf)]
        c.axiom(T.and_(self.count >= 0, T.le(self.count, self.m), T.implies(T.lt(0, self.m), self.count >= 1)))

    def row(self, i):
        """the cells of input row i; involved ones are named"""
        from . import terms as T
        from . import ctx as C
        c = C.cur()
        i = T.z(i)
        if i.get_id() not in self.rows:
            c.reemit(self.ax, [(self.k, i)])
            out = []
            for x, f in zip(self.cells, self.uf):
                x = T.subst(x, [(self.k, i)])
                if f is not None:
                    c.axiom(T.eq(f(i), x))
                    x = f(i)
                out.append(x)
            self.rows[i.get_id()] = (i, out)
        return self.rows[i.get_id()][1]

    def reciprocals(self, i, j):
        """reciprocals of positive numbers are ordered the other way round"""
        from . import terms as T
        from . import ctx as C
        i, j = T.z(i), T.z(j)
        if (i.get_id(), j.get_id()) in self.pairs:
            return
        self.pairs.add((i.get_id(), j.get_id()))
        for q, d in enumerate(self.den):
            if d is not None:
                x, y = self.row(i)[q], self.row(j)[q]
                a, b = [T.subst(d, [(self.k, t)]) for t in (i, j)]
                C.cur().axiom(T.implies(T.and_(T.lt(0, a), T.lt(0, b)), T.and_(T.eq(T.lt(x, y), T.lt(b, a)), T.eq(T.eq(x, y), T.eq(a, b)))))

    def src(self, j):
        """a row found at position j"""
        from . import terms as T
        from . import ctx as C
        c = C.cur()
        j = T.z(j)
        s = self.src_(j)
        if j.get_id() in self.used:
            return s
        inr = T.and_(T.le(0, j), T.lt(j, self.count))
        c.axiom(T.implies(inr, T.and_(T.le(0, s), T.lt(s, self.m), T.eq(self.pos_(s), j))))
        r = self.row(s)
        for j2, s2, r2 in list(self.used.values()):
            in2 = T.and_(T.le(0, j2), T.lt(j2, self.count))
            c.axiom(T.implies(T.and_(inr, in2, T.lt(j, j2)), lex(r, r2)))
            c.axiom(T.implies(T.and_(inr, in2, T.lt(j2, j)), lex(r2, r)))
            n = next((q for q, f in enumerate(self.uf) if f is not None), self.w)
            if 0 < n < self.w:      # consequence for the leading columns
                le = lambda x, y: T.or_(lex(x[:n], y[:n]), T.and_(*[T.eq(p, q) for p, q in zip(x[:n], y[:n])]))
                c.axiom(T.implies(T.and_(inr, in2, T.le(j, j2)), le(r, r2)))
                c.axiom(T.implies(T.and_(inr, in2, T.le(j2, j)), le(r2, r)))
            self.reciprocals(s, s2)
        self.used[j.get_id()] = (j, s, r)
        return s

    def value(self, j, q):
        from . import terms as T
        s = self.src(j)
        if not T.is_const(q):
            raise Unsupported("column of the unique rows")
        return T.subst(self.cells[int(q)], [(self.k, s)])

    def pos(self, i):
        """the position of row i"""
        from . import terms as T
        from . import ctx as C
        i = T.z(i)
        p = self.pos_(i)
        s = self.src(p)
        self.reciprocals(s, i)
        C.cur().axiom(T.implies(T.and_(T.le(0, i), T.lt(i, self.m)), T.and_(
            T.le(0, p), T.lt(p, self.count), *[T.eq(x, y) for x, y in zip(self.row(s), self.row(i))])))
        return p

    def first(self, p, k):
        """the first position whose first k columns are those of position p"""
        from . import terms as T
        from . import ctx as C
        p = T.z(p)
        f = self.first_(p, z3.IntVal(k))
        r, rf, rb = self.row(self.src(p))[:k], self.row(self.src(f))[:k], self.row(self.src(f - 1))[:k]
        same = lambda a, b: T.and_(*[T.eq(x, y) for x, y in zip(a, b)])
        C.cur().axiom(T.implies(T.and_(T.le(0, p), T.lt(p, self.count)), T.and_(
            T.le(0, f), T.le(f, p), same(r, rf), T.or_(T.eq(f, 0), T.not_(same(r, rb))))))
        return f


def nonlinear(t):
    from .boolalg import linear
    return t.sort() == z3.RealSort() and not (linear(t) and len(t.sexpr()) < 200)


def lex(a, b):
    from . import terms as T
    r = False
    for x, y in reversed(list(zip(a, b))):
        r = T.or_(T.lt(x, y), T.and_(T.eq(x, y), r))
    return r


def uniques_and_masks():
    """(rows, enumeration of a mask over their positions) pairs of this path"""
    from . import tensor as A
    from . import terms as T
    from . import ctx as C
    c = C.cur()
    out = []
    for u in c.memo.get("uniques", {}).values():
        for _, e in c.memo.get("enums", []):
            if len(e.shape) == 1 and T.z(A.dterm(e.shape[0])).eq(u.count):
                out.append((u, e))
    return out
