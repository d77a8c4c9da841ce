"""Symbolic back end of the contract language."""
import itertools
from fractions import Fraction
import z3

from . import ctx as C
from . import terms as T
from . import sym as S
from . import tensor as A
from . import faketorch as F
from . import loader
from .sym import wrap, unwrap, SymInt, SymReal, SymBool, Sym
from .tensor import Arr, DT, it, dterm, norm_dim, mk
from .terms import Unsupported, is_const, z


def bterm(x):
    if isinstance(x, Arr):
        return T.to_bool(S.strip_detach(x.__vc_scalar__()))
    t = unwrap(x) if not isinstance(x, (bool,)) else x
    return T.to_bool(t)


def nterm(x):
    if isinstance(x, Arr):
        return x.__vc_scalar__()
    return unwrap(x)


class Snap:
    def __init__(self, t):
        self.fn, self.up, self.shape, self.dtype = t.storage.fn, t.to_s, t._shape, t._dtype


class SymV:
    symbolic = True

    def __init__(self, c):
        self.c = c
        c.V = self
        c.stubs, c.in_stub, c.called = {}, {}, set()
        self.world = loader.world()
        self.torch = self.world.ext["mods"]["torch"]
        self.np = self.world.ext["mods"]["numpy"]
        self.inputs = c.inputs

    # ---------------------------------------------------------- inputs
    def dim(self, name, lo=1, hi=None):
        v = self.c.fresh(name, T.INT)
        self.inputs[name] = ("dim", v)
        self.c.assume(v >= lo)
        return SymInt(v)

    def int(self, name, lo=None, hi=None):
        v = self.c.fresh(name, T.INT)
        self.inputs[name] = ("int", v)
        if lo is not None:
            self.c.assume(T.le(unwrap(lo), v))
        if hi is not None:
            self.c.assume(T.le(v, unwrap(hi)))
        return SymInt(v)

    def real(self, name, lo=None, hi=None, strict=False, special=None):
        v = self.c.fresh(name, T.REAL)
        self.inputs[name] = ("real", v)
        if lo is not None:
            self.c.assume(T.lt(unwrap(lo), v) if strict else T.le(unwrap(lo), v))
        if hi is not None:
            self.c.assume(T.le(v, unwrap(hi)))
        return SymReal(v)

    def bool(self, name):
        v = self.c.fresh(name, T.BOOL)
        self.inputs[name] = ("bool", v)
        return SymBool(v)

    def choose(self, name, options):
        """path-split over finitely many options"""
        for k, o in enumerate(options[:-1]):
            b = self.c.fresh("%s_is%d" % (name, k), T.BOOL)
            self.inputs["%s_is%d" % (name, k)] = ("bool", b)
            if self.c.decide(b):
                return o
        return options[-1]

    def tensor(self, name, shape, dtype="float32", lo=None, hi=None, np=False, pos=False, special=None, scale=None,
               requires_grad=False, row=None, nrow=1):
        """row: invariant of every row (trailing nrow dims), row(V, get, *batch index)"""
        dt = DT[dtype]
        shape = tuple(norm_dim(d) for d in shape)
        sort = {"f": T.REAL, "i": T.INT, "b": T.BOOL}[dt.kind]
        nm = self.c.fresh_name(name)
        f = z3.Function(nm, *([T.INT] * len(shape) + [sort])) if shape else z3.Const(nm, sort)
        self.inputs[name] = ("tensor", f, [dterm(d) for d in shape], dt.name)
        if requires_grad:
            self.c.grad_inputs.add(nm)
        lo_, hi_ = (None if lo is None else unwrap(lo)), (None if hi is None else unwrap(hi))
        c = self.c

        def fn(v):
            e = f(*[z(it(i)) for i in v]) if shape else f
            if row is not None:
                b = tuple(v[:len(v) - nrow])
                g = lambda *k: wrap(f(*[z(it(i)) for i in b], *[z(it(unwrap(i))) for i in k]))
                rng = A.in_range(b, shape[:len(b)]) if b else True
                c.axiom(T.implies(rng, bterm(row(self, g, *[wrap(it(i)) for i in b]))))
            if lo_ is not None or hi_ is not None or pos:
                rng = A.in_range(v, shape) if shape else True
                cs = []
                if lo_ is not None:
                    cs.append(T.le(lo_, e))
                if hi_ is not None:
                    cs.append(T.le(e, hi_))
                if pos:
                    cs.append(e > 0)
                c.axiom(T.implies(rng, T.and_(*cs)))
            return e
        r = mk(shape, fn, dt, F.NdArray if np else F.Tensor)
        if requires_grad:
            r._vcname, r._req = nm, True
        return r

    def quat_unit(self, name, batch=(), np=False, dtype="float32"):
        """unit quaternion components as functions of the batch index"""
        n = len(batch)
        nm = self.c.fresh_name(name)
        fs = [z3.Function("%s_%s" % (nm, k), *([T.INT] * n + [T.REAL])) if n else z3.Const("%s_%s" % (nm, k), T.REAL)
              for k in "abcd"]
        c = self.c

        def at(v):
            a, b, cc, d = [f(*[z(it(i)) for i in v]) if n else f for f in fs]
            c.rule(d * d, 1 - a * a - b * b - cc * cc)
            c.axiom(a * a + b * b + cc * cc + d * d == 1)
            return a, b, cc, d
        return at, fs

    def rot(self, name, batch=(), np=False, dtype="float32"):
        """rotation matrices, every one of them (parametrised by a unit quaternion)"""
        batch = tuple(norm_dim(b) for b in batch)
        at, fs = self.quat_unit(name, batch)
        self.inputs[name] = ("rot", fs, [dterm(b) for b in batch], dtype)
        return mk(batch + (3, 3), lambda v: self._rel(at(v[:-2]), v[-2], v[-1]), DT[dtype], F.NdArray if np else F.Tensor)

    def _rel(self, q, i, j):
        R = rotmat(*q)
        i, j = it(i), it(j)
        if is_const(i) and is_const(j):
            return R[i][j]
        r = None
        for p in reversed(range(3)):
            for s in reversed(range(3)):
                r = R[p][s] if r is None else T.ite(T.and_(T.eq(i, p), T.eq(j, s)), R[p][s], r)
        return r

    def rigid(self, name, batch=(), np=False, dtype="float32"):
        batch = tuple(norm_dim(b) for b in batch)
        at, fs = self.quat_unit(name + "_q", batch)
        n = len(batch)
        tv = z3.Function(self.c.fresh_name(name + "_t"), *([T.INT] * (n + 1) + [T.REAL]))
        self.inputs[name] = ("rigid", fs, tv, [dterm(b) for b in batch], dtype)

        def fn(v):
            i, j = it(v[-2]), it(v[-1])
            b = [z(it(x)) for x in v[:-2]]
            if is_const(i) and is_const(j):
                if i == 3:
                    return Fraction(1 if j == 3 else 0)
                if j == 3:
                    return tv(*b, z(i))
                return self._rel(at(v[:-2]), i, j)
            r = None
            for p in reversed(range(4)):
                for s in reversed(range(4)):
                    x = fn(v[:-2] + (p, s))
                    r = x if r is None else T.ite(T.and_(T.eq(i, p), T.eq(j, s)), x, r)
            return r
        return mk(batch + (4, 4), fn, DT[dtype], F.NdArray if np else F.Tensor)

    def pinhole(self, name, batch=(), dtype="float32", skew=False):
        """4x4 intrinsics with positive focal lengths"""
        batch = tuple(norm_dim(b) for b in batch)
        n = len(batch)
        nm = self.c.fresh_name(name)
        keys = ["fx", "fy", "cx", "cy"] + (["sk"] if skew else [])
        fs = {k: z3.Function("%s_%s" % (nm, k), *([T.INT] * n + [T.REAL])) if n else z3.Const("%s_%s" % (nm, k), T.REAL)
              for k in keys}
        self.inputs[name] = ("pinhole", fs, [dterm(b) for b in batch], dtype)
        c = self.c

        def fn(v):
            i, j = it(v[-2]), it(v[-1])
            b = [z(it(x)) for x in v[:-2]]

            def val(k):
                e = fs[k](*b) if n else fs[k]
                if k in ("fx", "fy"):
                    c.axiom(e > 0)
                return e
            tab = {(0, 0): "fx", (1, 1): "fy", (0, 2): "cx", (1, 2): "cy"}
            if skew:
                tab[(0, 1)] = "sk"
            if is_const(i) and is_const(j):
                if (i, j) in tab:
                    return val(tab[(i, j)])
                return Fraction(1 if i == j else 0)
            r = None
            for p in reversed(range(4)):
                for s in reversed(range(4)):
                    x = fn(v[:-2] + (p, s))
                    r = x if r is None else T.ite(T.and_(T.eq(i, p), T.eq(j, s)), x, r)
            return r
        return mk(batch + (4, 4), fn, DT[dtype], F.Tensor)

    def array_like(self, shape, f, dtype="float32", np=False):
        """a tensor given by its specification (V-level scalars)"""
        k = DT[dtype].kind
        return mk(tuple(shape), lambda v: A.cast(unwrap(f(*[wrap(it(i)) for i in v])), k), DT[dtype], F.NdArray if np else F.Tensor)

    def overwrite(self, t, value):
        """inside a loop invariant: the content of a tensor the loop changes in place"""
        t.assign(value)
        return t

    def opaque(self, t, name="opaque"):
        """forget what is known about the content of t (whatever was proved of it elsewhere is not needed): sound, since
        everything proved afterwards holds for arbitrary content. No effect when running concretely."""
        r = F.fresh_tensor(t._shape, t._dtype, name)
        t.copy_(r)
        return t

    def content_key(self, t):
        """what decides the content of t syntactically: equal keys mean equal tensors"""
        if not isinstance(t, F.Tensor):
            if t is None or isinstance(t, (str, bool)):
                return ("o", repr(t))
            u = unwrap(t)
            return ("v", T.key(u)) if isinstance(u, (int, Fraction, z3.ExprRef)) else ("o", repr(u))
        import itertools
        sh = [unwrap(d) for d in t._shape]
        axes = []
        for n, d in enumerate(sh):
            axes.append([int(d)] and list(range(int(d))) if is_const(d) and int(d) <= 6 else [z3.Int("ck!%d" % n)])
        cells = [S.strip_detach(t.elem(*ix)) for ix in itertools.product(*axes)]
        cells = [S.canon_arg(x) if t.kind == "f" else T.simp(x) for x in cells]
        self.c.memo.setdefault("alive", []).append((sh, cells))
        return (tuple(T.key(d) for d in sh), t._dtype.name, tuple(T.key(x) for x in cells))

    def pure(self, name, ins, make):
        """the value of an unknown function: the same for inputs of the same content"""
        memo = self.c.memo.setdefault("pure", {})
        k = (name,) + tuple(self.content_key(t) for t in ins)
        if k not in memo:
            memo[k] = make()
        r = memo[k]
        return tuple(x.clone() if isinstance(x, F.Tensor) else x for x in r) if isinstance(r, tuple) else r.clone()

    def some_tensor(self, name, shape, dtype="float32"):
        """arbitrary content"""
        return F.fresh_tensor(tuple(shape), DT[dtype], name)

    def knn(self, src, tgt):
        """the library's nearest-neighbour search: readers (i -> squared distance, i -> index)"""
        r = F.knn_points(src, tgt)
        return (lambda i: self.at(r.dists, 0, i, 0)), (lambda i: self.at(r.idx, 0, i, 0))

    def matrix_function(self, name, t, dims=2):
        """a tensor shaped like t whose trailing block is some (unknown) function of the same trailing block of t"""
        n = len(t._shape) - dims
        tail = tuple(int(d) for d in t._shape[n:])
        import itertools
        cells = list(itertools.product(*[range(d) for d in tail]))
        memo = {}

        def fn(v):
            lead = tuple(v[:n])
            k = tuple(T.key(x) for x in lead)
            if k not in memo:
                memo[k] = [z(T.to_real(T.simp(S.strip_detach(t.elem(*(lead + c)))))) for c in cells]
            args = memo[k]

            def val(c):
                f = z3.Function("%s!%s" % (name, "_".join(map(str, c))), *([z3.RealSort()] * (len(args) + 1)))
                return f(*args)
            ix = tuple(v[n:])
            if all(is_const(i) for i in ix):
                return val(tuple(int(i) for i in ix))
            r = None
            for c in reversed(cells):
                r = val(c) if r is None else T.ite(T.and_(*[T.eq(i, j) for i, j in zip(ix, c)]), val(c), r)
            return r
        return mk(tuple(t._shape), fn, t._dtype, F.Tensor)

    def content(self, t):
        """a key such that equal keys mean equal content"""
        ks = [z3.Int("content!%d" % i) if not (isinstance(d, int) and d == 1) else 0 for i, d in enumerate(t._shape)]
        e = z(T.simp(S.strip_detach(t.elem(*ks))))
        self.c.keep.append(e)
        return tuple(T.key(dterm(d)) for d in t._shape) + (e.get_id(),)

    def enum(self, shape, f):
        """the positions of a box where f holds, in row-major order"""
        m = mk(tuple(shape), lambda v: bterm(f(*[wrap(it(i)) for i in v])), DT["bool"], F.Tensor)
        return EnumView(self, A.enumeration(m), len(shape))

    # hints: instances of the library's contracts the proof may need; they add no assumption of their own
    def hint_candidates(self, i):
        """positions of a later-filtered sorted-unique result where input row i, or the first row sharing its leading
        columns, ends up"""
        from .special import uniques_and_masks
        out = []
        for u, e in uniques_and_masks():
            p = u.pos(unwrap(i))
            for k in range(1, u.w):
                f = u.first(p, k)
                out.append(wrap(e.rank([f])))
        return out

    def hint_sources(self, r):
        """input rows that position r of a filtered sorted-unique result may come from"""
        from .special import uniques_and_masks
        out = []
        for u, e in uniques_and_masks():
            p = e.at(0, unwrap(r))
            u.src(p - 1)
            out.append(wrap(u.src(p)))
        return out

    def some(self, shape, f, hints):
        """exists a position of a 1-D range with f; hints are candidate witnesses"""
        if not hints:
            return self.exists(shape, f)
        n = unwrap(shape[0])
        return wrap(T.or_(*[T.and_(T.le(0, unwrap(h)), T.lt(unwrap(h), n), bterm(f(h))) for h in hints]))

    def relation(self, name, n):
        """an unknown integer function of n integers"""
        f = z3.Function(self.c.fresh_name(name), *([T.INT] * (n + 1)))
        self.c.memo.setdefault("relations", []).append(f)
        return lambda *a: wrap(f(*[z(unwrap(x)) for x in a]))

    def make(self, qual, *a, **k):
        return self.fn(qual)(*a, **k)

    def fn(self, qual):
        self.c.called.add(qual)
        return self.world.get(qual)

    def call(self, qual, *a, **k):
        return self.fn(qual)(*a, **k)

    def stub(self, qual, f):
        """inside this contract, calls of qual are checked against its contract f(original, *args)"""
        mod, _, attr = qual.partition(":")
        if mod != "kornia":
            try:
                self.world.get(qual)
            except AttributeError:
                raise Unsupported("function %s to be replaced by its contract is gone" % qual)
        self.c.stubs[qual] = f

    def unstub(self, qual):
        self.c.stubs.pop(qual, None)

    # ---------------------------------------------------------- reading
    def at(self, t, *idx):
        sh = t._shape
        if len(idx) != len(sh):
            raise Unsupported("contract reads rank %d of a rank %d tensor" % (len(idx), len(sh)))
        ix = []
        for i in idx:
            i = unwrap(i) if not isinstance(i, A.FlatIdx) else i
            ix.append(i)
        ix = [0 if isinstance(d, int) and d == 1 else i for i, d in zip(ix, sh)]
        ix = [T.add(dterm(d), i) if is_const(i) and not isinstance(i, A.FlatIdx) and i < 0 else i for i, d in zip(ix, sh)]
        return wrap_real(S.strip_detach(t.elem(*ix)), t.kind)

    def raw(self, t, *idx):
        """element with detach markers"""
        return wrap_real(t.elem(*[unwrap(i) for i in idx]), t.kind)

    def attached(self, t, wrt=None):
        """does a generic element of t depend, not through a detach, on an input that requires gradients
        (contract option grad)"""
        if t.kind != "f":
            return False
        ix = [self.c.fresh("g", T.INT) for _ in t._shape]
        e = t.elem(*[0 if isinstance(d, int) and d == 1 else i for i, d in zip(ix, t._shape)])
        names = {wrt} if isinstance(wrt, str) else self.c.grad_inputs
        return S.depends(e, names)

    def derived(self, label, t, wrt):
        """t's values are connected to every input of wrt (tensors made with requires_grad), and no part of any of its
        elements is made of an input that requires gradients through a detach (a derivative would miss it)"""
        from .tensor import dterm, in_range
        if t.kind != "f":
            self.ensure(label + ": real numbers", False)
            return
        ix = [None if isinstance(d, int) and d <= 3 else self.c.fresh("g", T.INT) for d in t._shape]
        used, cut = set(), set()
        for cell in itertools.product(*[[i] if i is not None else range(d) for i, d in zip(ix, t._shape)]):
            u, k = S.flow(z(t.elem(*cell)), self.c.grad_inputs)
            used |= u
            cut |= k
        self.ensure(label + ": nothing is detached", not cut)
        for w in wrt:
            self.ensure(label + ": connected to every input it is made of", w._vcname in used)

    def flat(self, comps, dims):
        """index of a merged dimension from its components"""
        return A.FlatIdx([unwrap(x) for x in comps], [unwrap(d) for d in dims])

    def shape(self, t):
        return tuple(t._shape)

    def dtype_name(self, t):
        return t._dtype.name

    # ---------------------------------------------------------- logic
    def eq(self, a, b, tol=None):
        return wrap(T.eq(nterm(a), nterm(b)))

    def near(self, a, b, tol):
        d = T.sub(nterm(a), nterm(b))
        tol = Fraction(tol) if isinstance(tol, str) else tol
        return wrap(T.and_(T.le(d, T.frac(tol)), T.le(T.neg(d), T.frac(tol))))

    def ne(self, a, b): return wrap(T.ne(nterm(a), nterm(b)))
    def lt(self, a, b): return wrap(T.lt(nterm(a), nterm(b)))
    def le(self, a, b): return wrap(T.le(nterm(a), nterm(b)))
    def gt(self, a, b): return wrap(T.lt(nterm(b), nterm(a)))
    def ge(self, a, b): return wrap(T.le(nterm(b), nterm(a)))
    def clear(self, a, b, tol=1e-3): return True
    def and_(self, *xs): return wrap(T.and_(*[bterm(x) for x in xs]))
    def or_(self, *xs): return wrap(T.or_(*[bterm(x) for x in xs]))
    def not_(self, x): return wrap(T.not_(bterm(x)))
    def implies(self, a, b): return wrap(T.implies(bterm(a), bterm(b() if callable(b) else b)))
    def iff(self, a, b): return wrap(T.eq(bterm(a), bterm(b)))
    def ite(self, c, a, b): return wrap(T.ite(bterm(c), nterm(a() if callable(a) else a), nterm(b() if callable(b) else b)))
    def sqrt(self, a): return wrap(S.sqrt(T.to_real(nterm(a))))
    def norm(self, xs): return wrap(S.sum_sqrt([T.to_real(nterm(x)) for x in xs]))
    def exp(self, a): return wrap(S.exp(T.to_real(nterm(a))))
    def sin(self, a): return wrap(S.trig("sin", T.to_real(nterm(a))))
    def cos(self, a): return wrap(S.trig("cos", T.to_real(nterm(a))))
    def sigmoid(self, a): return wrap(F.sigmoid_t(T.to_real(nterm(a))))
    def abs(self, a): return wrap(S.absval(nterm(a)))
    def round(self, a): return wrap(S.rnd(T.to_real(nterm(a))))
    def max(self, a, b): return wrap(S.minmax(nterm(a), nterm(b), True))
    def min(self, a, b): return wrap(S.minmax(nterm(a), nterm(b), False))
    def div(self, a, b): return wrap(T.div(nterm(a), nterm(b)))
    def idiv(self, a, b): return wrap(T.simp(T.idiv(nterm(a), nterm(b))))
    def mod(self, a, b): return wrap(T.simp(T.imod(nterm(a), nterm(b))))
    def sum(self, dims, f):
        """sum of f over all indices of dims"""
        return wrap(A.sum_over([norm_dim(d) for d in dims], lambda v: T.to_real(nterm(f(*[wrap(i) for i in v])))))

    def frac(self, x):
        return SymReal(T.frac(x) if not isinstance(x, str) else Fraction(x))

    def assume(self, cond):
        self.c.assume(bterm(cond))

    def split(self, cond):
        """case distinction in the contract"""
        return self.c.decide(bterm(cond))

    # ---------------------------------------------------------- obligations
    def ensure(self, label, cond):
        self.c.oblige(label, bterm(cond))

    def _scoped(self, shape, lo, body):
        c = self.c
        vs = []
        mark = len(c.facts)
        c.solver.push()
        try:
            for d in shape:
                if isinstance(d, int) and d == 1:
                    vs.append(0)
                    continue
                v = c.fresh("i", T.INT)
                rng = T.and_(v >= 0, T.lt(v, dterm(d)))
                c.facts.append(C.Fact(z(T.simp(rng)), "range"))
                c.solver.add(z(T.simp(rng)))
                vs.append(SymInt(v))
            body(*vs)
        finally:
            c.solver.pop()
            tail = c.facts[mark:]
            del c.facts[mark:]
            for f in tail:
                if f.kind == "axiom":
                    c.facts.append(f)
                    c.solver.add(f.term)

    def forall(self, label, shape, f, small=0):
        """for every index of shape: f(*index) holds (small constant dims are enumerated when small is set)"""
        shape = [norm_dim(d) for d in shape]
        import itertools
        enum = [range(d) if isinstance(d, int) and d <= (small or 4) else None for d in shape]
        sym_shape = [d for d, e in zip(shape, enum) if e is None]
        for q in itertools.product(*[e for e in enum if e is not None]):
            def body(*vs):
                vi, qi = list(vs), list(q)
                ix = [qi.pop(0) if e is not None else vi.pop(0) for e in enum]
                r = f(*ix)
                if r is not None:
                    self.ensure(label, r)
            self._scoped(sym_shape, None, body)

    def generally(self, label, n, f):
        """for all integers k1..kn: f(k1..kn)"""
        self.ensure(label, f(*[SymInt(self.c.fresh("any", T.INT)) for _ in range(n)]))

    def forall_fact(self, shape, f):
        """assume a universally quantified fact"""
        shape = [norm_dim(d) for d in shape]
        ks = [z3.FreshConst(T.INT, "q") for _ in shape]
        body = bterm(f(*[wrap(k) for k in ks]))
        rng = A.in_range(ks, shape)
        self.c.assume(z3.ForAll(ks, z(T.implies(rng, body))))

    def exists(self, shape, f):
        shape = [norm_dim(d) for d in shape]
        ks = [z3.FreshConst(T.INT, "q") for _ in shape]
        body = bterm(f(*[wrap(k) for k in ks]))
        return wrap(z3.Exists(ks, z(T.and_(A.in_range(ks, shape), body))))

    def all(self, shape, f):
        shape = [norm_dim(d) for d in shape]
        ks = [z3.FreshConst(T.INT, "q") for _ in shape]
        body = bterm(f(*[wrap(k) for k in ks]))
        return wrap(z3.ForAll(ks, z(T.implies(A.in_range(ks, shape), body))))

    def ensure_shape(self, label, t, shape):
        shape = tuple(shape)
        if not isinstance(t, Arr):
            self.c.oblige(label + " (is a tensor)", False)
            raise C.PathEnd()
        if len(t._shape) != len(shape):
            self.c.oblige(label + " (rank)", False)
            raise C.PathEnd()
        self.c.oblige(label, T.and_(*[T.eq(dterm(norm_dim(a)), dterm(norm_dim(b))) for a, b in zip(t._shape, shape)]))
        t = t
        # afterwards the expected sizes are used
        ok = all(isinstance(a, int) and isinstance(b, int) or A._same_dim(norm_dim(a), norm_dim(b)) for a, b in zip(t._shape, shape))
        if not ok:
            self.c.assume(T.and_(*[T.eq(dterm(norm_dim(a)), dterm(norm_dim(b))) for a, b in zip(t._shape, shape)]))

    def same(self, label, t, u, tol=None):
        """same shape and same elements"""
        self.ensure_shape(label + ": shape", t, u._shape)
        if t.storage is u.storage and t.to_s is u.to_s:
            self.c.oblige(label, True)
            return
        self.forall(label, u._shape, lambda *ix: self.eq(self.at(t, *ix), self.at(u, *ix)))

    def snap(self, t):
        return Snap(t)

    def unchanged(self, label, t, snap):
        """the tensor still has the contents it had when snap was taken"""
        if t.storage.fn is snap.fn and t.to_s is snap.up:
            self.c.oblige(label, True)
            return
        self.c.oblige(label + " (rank)", len(t._shape) == len(snap.shape))
        if len(t._shape) != len(snap.shape):
            return
        self.forall(label, snap.shape, lambda *ix: self.eq(
            self.at(t, *ix), wrap(S.strip_detach(snap.fn(snap.up(tuple(unwrap(i) for i in ix)))))))

    def shares(self, t, u):
        """do the two tensors share memory"""
        return t.storage is u.storage

    def raises(self, label, excs, thunk):
        try:
            thunk()
        except Unsupported:
            raise
        except excs:
            self.c.oblige(label, True)
            return
        except C.PathEnd:
            raise
        self.c.oblige(label, False)

    def cover(self, label="reachable"):
        self.c.memo.setdefault("cover", []).append(label)

    # ---------------------------------------------------------- lists of symbolic length
    def keyed(self, name, n):
        """a dictionary of n entries with different strings as keys"""
        from .lists import SymDict
        return SymDict(name, unwrap(n))

    def key_of(self, d, x):
        """is x, as it is written, a key of this dictionary"""
        from .lists import SymStr
        return isinstance(x, SymStr) and z3.is_app(x.t) and x.t.decl().eq(d.id_)

    def text(self, form, k):
        """the form with a text that depends on k in the place of %s"""
        from .lists import token
        return form % token("part", unwrap(k))

    def same_text(self, a, b):
        from .lists import texts_equal
        return isinstance(a, str) and isinstance(b, str) and wrap(texts_equal(a, b))

    def parts_of(self, s):
        """(separator, list) of a string made by joining a list"""
        from .lists import TOKEN, payload
        p = TOKEN.split(s) if isinstance(s, str) else []
        if len(p) == 3 and p[0] == p[2] == "" and payload(p[1])[0] == "join":
            return payload(p[1])[1]
        return None

    def made_list(self, n, get):
        from .lists import SymList
        return SymList(unwrap(n), lambda k: get(wrap(k)))

    def lines(self, path, n, get):
        """the file has n lines"""
        self.c.memo.setdefault("files", {})[path] = self.made_list(n, get)

    def arrays(self, f):
        """f(text before, k, text after) is the content of the file with that name"""
        self.c.memo["content of files"] = f

    def hint_counts(self):
        """how often the loops that were left early were repeated"""
        return [wrap(x) for x in self.c.memo.get("counts", [])]

    def number(self, s):
        """the number a string shows"""
        return s.__vc_float__()

    def is_key(self, d, s):
        return wrap(d.member(s.t))

    def item(self, it, k):
        from .runtime import sym_item
        return it.at(unwrap(k)) if self.is_list(it) else sym_item(it, unwrap(k))

    def is_list(self, x):
        from .lists import SymList
        return isinstance(x, SymList)

    def string(self, i):
        from .lists import SymStr
        return SymStr(unwrap(i))

    def listed(self, lst, k):
        """element k of a list"""
        return lst.at(unwrap(k))

    def length(self, lst):
        return wrap(lst.size())

    def describe(self, lst, n, get, has=None):
        """gives a list (changed in place by a loop) the content the loop invariant describes"""
        lst.set(None if n is None else unwrap(n), None if get is None else lambda k: get(wrap(k)), None if has is None else lambda s: bterm(has(self.string(s))))

    def has(self, lst, s):
        from .lists import SymList
        if lst.has is None:
            raise Unsupported("membership in a list")
        return wrap(lst.has(s.t))

    def predicate(self, name):
        """an unknown set of strings"""
        f = z3.Function(self.c.fresh_name(name), T.INT, T.BOOL)
        return lambda s: wrap(f(z(s.t)))

    def fact(self, n, f, *pattern):
        """assume f(k1..kn) for all integers; the patterns are functions of the ks"""
        ks = [z3.FreshConst(T.INT, "q") for _ in range(n)]
        ws = [wrap(k) for k in ks]
        ps = [[z(unwrap(x)) for x in p(*ws)] for p in pattern]
        body = z(bterm(f(*ws)))
        self.c.assume(z3.ForAll(ks, body, patterns=[z3.MultiPattern(*p) if len(p) > 1 else p[0] for p in ps]))

    def hint_filtered(self, *position):
        """where a filtering comprehension put this position, for every one so far"""
        return [wrap(rank(*[z(unwrap(i)) for i in position])) for m, at, rank in self.c.memo.get("filters", []) if len(at) == len(position)]

    def hint_sorted(self, k):
        """where the sorts so far may have put the element at k"""
        return [k] + [wrap(q(z(unwrap(k)))) for p, q in self.c.memo.get("sorts", [])]

    def unsupported(self, why):
        raise Unsupported(why)

    def is_tensor(self, x):
        return isinstance(x, F.Tensor)

    def only_concrete(self):
        return False

    def lemma(self, name, cond):
        """intermediate assertion: proved, then used"""
        t = bterm(cond)
        self.c.oblige("lemma " + name, t)
        self.c.add_fact(t, "axiom")



class EnumView:
    """count, at(k) -> position of the k-th hit, rank(*position)"""

    def __init__(self, V, en, n):
        self.V, self.en, self.n = V, en, n

    @property
    def count(self):
        return wrap(self.en.count)

    def at(self, k):
        return tuple(wrap(it(self.en.at(d, unwrap(k)))) for d in range(self.n))

    def rank(self, *idx):
        return wrap(self.en.rank([unwrap(i) for i in idx]))


def wrap_real(t, kd):
    r = wrap(t)
    return r


def rotmat(a, b, c, d):
    """rotation of the unit quaternion (x,y,z,w) = (a,b,c,d)"""
    m = [[1 - 2 * (b * b + c * c), 2 * (a * b - c * d), 2 * (a * c + b * d)],
         [2 * (a * b + c * d), 1 - 2 * (a * a + c * c), 2 * (b * c - a * d)],
         [2 * (a * c - b * d), 2 * (b * c + a * d), 1 - 2 * (a * a + b * b)]]
    return m
