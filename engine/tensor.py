"""Symbolic tensors: concrete rank, symbolic sizes, elements are solver terms given by index functions.

Storage/view model: a tensor is a view (index map both ways) of a storage; in-place writes replace the
storage's element function, so every alias sees them.
"""
from fractions import Fraction
import itertools

import z3

from . import boolalg
from . import ctx as C
from . import terms as T
from . import sym as S
from .sym import wrap, unwrap, SymInt, SymReal, SymBool, Sym
from .terms import Unsupported, is_const, z


# ------------------------------------------------------------------ dtypes
class DType:
    def __init__(self, name, kd, rank):
        self.name, self.kind, self.rank = name, kd, rank

    @property
    def is_floating_point(self):
        return self.kind == "f"

    def __repr__(self):
        return "torch." + self.name

    def __deepcopy__(self, memo):
        return self

    def __call__(self, x=0):
        # numpy scalar constructor
        return x


DT = {n: DType(n, k, r) for n, k, r in [
    ("bool", "b", 0), ("uint8", "i", 1), ("int8", "i", 2), ("int16", "i", 3), ("int32", "i", 4), ("int64", "i", 5),
    ("float16", "f", 6), ("float32", "f", 7), ("float64", "f", 8)]}
PYDT = {bool: DT["bool"], int: DT["int64"], float: DT["float64"]}


def dtype_of(x, default=None):
    if x is None:
        return default
    if isinstance(x, DType):
        return x
    if x in PYDT:
        return PYDT[x]
    raise Unsupported("dtype %r" % (x,))


class Device:
    def __init__(self, type="cpu", index=None):
        if isinstance(type, Device):
            type, index = type.type, type.index
        if ":" in type:
            type, index = type.split(":")
            index = int(index)
        self.type, self.index = type, index

    def __eq__(self, o):
        return isinstance(o, Device) and (self.type, self.index) == (o.type, o.index)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.type, self.index))

    def __repr__(self):
        return "device(type=%r)" % self.type

    def __str__(self):
        return self.type


CPU = Device("cpu")


class Size(tuple):
    def numel(self):
        r = 1
        for d in self:
            r = r * d
        return r

    def __add__(self, o):
        return Size(tuple.__add__(self, tuple(o)))

    def __radd__(self, o):
        return Size(tuple(o) + tuple(self))

    def __getitem__(self, i):
        r = tuple.__getitem__(self, i)
        return Size(r) if isinstance(i, slice) else r

    def __eq__(self, o):
        if not isinstance(o, (tuple, list)):
            return False
        return shapes_equal(self, o)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 7


def shapes_equal(a, b):
    if len(a) != len(b):
        return False
    t = True
    for x, y in zip(a, b):
        if isinstance(x, int) and isinstance(y, int):
            if x != y:
                return False
        else:
            t = T.and_(t, T.eq(unwrap(x), unwrap(y)))
    return C.cur().decide(t) if not isinstance(t, bool) else t


# ------------------------------------------------------------------ indices
class FlatIdx:
    """index of a merged dimension, given by its components (row-major)"""
    __slots__ = ("comps", "dims")

    def __init__(self, comps, dims):
        self.comps, self.dims = tuple(comps), tuple(dims)

    def term(self):
        r = it(self.comps[0])
        for c, d in zip(self.comps[1:], self.dims[1:]):
            r = T.add(T.mul(r, d), it(c))
        return r


def it(i):
    return i.term() if isinstance(i, FlatIdx) else i


def ikey(i):
    if isinstance(i, int):
        return i
    if isinstance(i, FlatIdx):
        return ("f",) + tuple(ikey(c) for c in i.comps) + tuple(T.key(d) for d in i.dims)
    return ("z", i.get_id())


def isub(i, c):
    return i if c == 0 and is_const(c) else T.simp(T.sub(it(i), c))


def iadd(i, c):
    return i if is_const(c) and c == 0 else T.simp(T.add(it(i), c))


def dterm(d):
    return unwrap(d)


def entailed(t):
    t = T.simp(t)
    if is_const(t):
        return bool(t)
    return C.cur().check(T.not_(t)) == z3.unsat


def ident(t):
    return t.get_id() if hasattr(t, "get_id") else t


class Fn:
    """memoised element function"""
    __slots__ = ("f", "memo")

    def __init__(self, f):
        self.f, self.memo = f, {}

    def __call__(self, idx):
        k = tuple(ikey(i) for i in idx)
        c = C.cur()
        h = self.memo.get(k)
        if h is not None:
            if h[1]:
                c.reemit(h[1])
            return h[0]
        c.collectors.append([])
        try:
            v = self.f(idx)
        finally:
            ax = c.collectors.pop()
        if len(ax) > 1:                        # each once: evaluations share what they rely on
            ax = list({(x[0], ident(x[1]), ident(x[2])): x for x in ax}.values())
        if c.collectors:
            c.collectors[-1].extend(ax)
        self.memo[k] = (v, ax, idx)
        return v


NOGRAD = [0]


class Storage:
    _n = 0

    def __init__(self, fn, shape, kd):
        self.fn = fn if isinstance(fn, Fn) else Fn(fn)
        self.shape = shape
        self.kind = kd
        self.pinned = None
        self.nz = None
        Storage._n += 1
        self.id = Storage._n

    def write(self, newf):
        c = C.cur()
        if self.pinned:
            raise Unsupported("in-place write to memory captured by a symbolic list (%s)" % self.pinned)
        for mark, mine in c.memo.get("loops", ()):
            if self.id <= mark and self.id not in mine:
                raise Unsupported("loop body writes to memory its invariant does not describe")
        old = self.fn
        if c.journal is not None:
            c.journal.append(lambda: setattr(self, "fn", old))
            w = c.memo.setdefault("writes", [])
            w.append(self)
        self.fn = Fn(newf)


def cast(t, kd):
    k = T.kind(t)
    if k == kd:
        return t
    if kd == "f":
        return T.to_real(t)
    t = S.strip_detach(t)
    return T.to_int(t) if kd == "i" else T.to_bool(t)


_ID = (lambda v: v, lambda s: (True, s))


class Arr:
    __vc_tensor__ = True
    __array_priority__ = 1000
    is_np = False

    def __init__(self, storage, shape, dtype, up=None, down=None, contig=True, device=CPU):
        self.storage = storage
        self._shape = Size(norm_dim(d) for d in shape)
        self._dtype = dtype
        self.to_s = up or _ID[0]
        self.from_s = down or _ID[1]
        self._contig = contig
        self._device = device
        self._req = False
        self._cut = NOGRAD[0] > 0      # made under torch.no_grad: readers see its values detached

    # ---- basics
    @property
    def shape(self):
        return self._shape if not self.is_np else self._shape

    @property
    def ndim(self):
        return len(self._shape)

    def dim(self):
        return len(self._shape)

    @property
    def dtype(self):
        return self._dtype

    @property
    def kind(self):
        return self._dtype.kind

    def reader(self):
        fn, up = self.storage.fn, self.to_s
        if self._cut and self._dtype.kind == "f":
            return lambda v: S.detach_term(fn(up(v)))
        if up is _ID[0]:
            return fn
        return lambda v: fn(up(v))

    def elem(self, *idx):
        x = self.storage.fn(self.to_s(tuple(idx)))
        return S.detach_term(x) if self._cut and self._dtype.kind == "f" else x

    def like(self, shape, fn, dtype=None):
        return mk(shape, fn, dtype or self._dtype, type(self), self._device)

    def view_as(self, shape, up, down, contig):
        ps, pf = self.to_s, self.from_s

        def from_s(s):
            c1, p = pf(s)
            c2, v = down(p)
            return T.and_(c1, c2), v
        r = type(self)(self.storage, shape, self._dtype, lambda v: ps(up(v)), from_s, contig, self._device)
        r._cut = r._cut or self._cut
        return r

    def __deepcopy__(self, memo):
        return copy(self)

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return "<symbolic tensor %s>" % (self._dtype.name,)

    def __format__(self, spec):
        return "<symbolic tensor>"

    def __len__(self):
        if self.ndim == 0:
            raise TypeError("len() of a 0-d tensor")
        d = self._shape[0]
        if isinstance(d, int):
            return d
        raise Unsupported("native len() of a symbolic dimension")

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d tensor")
        d = self._shape[0]
        if not isinstance(d, int):
            raise Unsupported("native iteration over a symbolic dimension")
        return iter([self[i] for i in range(d)])

    def __bool__(self):
        n = numel(self._shape)
        if isinstance(n, SymInt):
            if not bool(n == 1):
                raise RuntimeError("Boolean value of Tensor with more than one value is ambiguous")
        elif n != 1:
            raise RuntimeError("Boolean value of Tensor with more than one value is ambiguous")
        return C.cur().decide(T.to_bool(S.strip_detach(self.elem(*[0] * self.ndim))))

    def item(self):
        n = numel(self._shape)
        if not (n == 1):
            raise ValueError("only one element tensors can be converted to Python scalars")
        return wrap(S.detach_term(S.strip_detach(self.elem(*[0] * self.ndim))) if self.kind == "f" else S.strip_detach(self.elem(*[0] * self.ndim)))

    def __vc_scalar__(self):
        if self.ndim == 0 or (isinstance(numel(self._shape), int) and numel(self._shape) == 1):
            return self.elem(*[0] * self.ndim)
        raise Unsupported("tensor used as a scalar")

    def __index__(self):
        if self.kind == "f":
            raise TypeError("only integer tensors of a single element can be converted to an index")
        t = self.__vc_scalar__()
        if is_const(t):
            return int(t)
        raise Unsupported("symbolic tensor as a native index")

    # ---- write
    def assign(self, value):
        val = value.reader() if isinstance(value, Arr) else None
        kd = self.kind
        if isinstance(value, Arr):
            bshape = broadcast_shapes([self._shape, value._shape], target=self._shape)
            bi = broadcaster(value._shape, len(self._shape))
        else:
            const = cast(unwrap(value), kd)
        old = self.storage.fn
        pf = self.from_s

        def new(s):
            c, v = pf(s)
            if is_const(c) and not c:
                return old(s)
            x = cast(val(bi(v)), kd) if val is not None else const
            if is_const(c) and c:
                return x
            return T.ite(c, x, old(s))
        self.storage.write(new)
        return self


def norm_dim(d):
    if isinstance(d, SymInt):
        c = d.t
        if is_const(c):
            return int(c)
        return d
    if isinstance(d, bool):
        return int(d)
    if isinstance(d, int):
        return d
    if isinstance(d, z3.ExprRef):
        c = T._const_of(d)
        return c if is_const(c) else SymInt(d)
    if isinstance(d, Arr):
        return norm_dim(wrap(d.__vc_scalar__()))
    if hasattr(d, "__index__"):
        return d.__index__()
    raise TypeError("invalid dimension %r" % (type(d),))


def mk(shape, fn, dtype, cls, device=CPU):
    shape = tuple(norm_dim(d) for d in shape)
    return cls(Storage(fn, shape, dtype.kind), shape, dtype, device=device)


def copy(a, dtype=None):
    r = a.reader()
    kd = (dtype or a._dtype).kind
    if dtype is None or dtype.kind == a.kind:
        t = mk(a._shape, r, dtype or a._dtype, type(a), a._device)
    else:
        t = mk(a._shape, lambda v: cast(r(v), kd), dtype, type(a), a._device)
    return t


def numel(shape):
    r = 1
    for d in shape:
        if isinstance(d, int) and d == 0:
            return 0
        r = d * r if not isinstance(r, int) or r != 1 else d
    return r


# ------------------------------------------------------------------ broadcasting
def dim_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return C.cur().decide(T.eq(unwrap(a), unwrap(b)))


def broadcast_shapes(shapes, target=None):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        d = 1
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            e = s[j]
            if isinstance(e, int) and e == 1:
                continue
            if isinstance(d, int) and d == 1:
                d = e
            elif not dim_eq(d, e):
                if not isinstance(e, int) and C.cur().decide(T.eq(unwrap(e), 1)):
                    raise Unsupported("broadcast of a symbolic dimension equal to 1")
                if not isinstance(d, int) and C.cur().decide(T.eq(unwrap(d), 1)):
                    raise Unsupported("broadcast of a symbolic dimension equal to 1")
                raise RuntimeError("The size of tensor a must match the size of tensor b")
        out.append(d)
    if target is not None:
        if n > len(target):
            extra = out[:n - len(target)]
            if any(not (isinstance(e, int) and e == 1) for e in extra):
                raise RuntimeError("shape mismatch in assignment")
        for a, b in zip(target, out[n - len(target):]):
            if not dim_eq(a, b):
                raise RuntimeError("shape mismatch in assignment")
    return tuple(out)


def broadcaster(shape, n):
    """map an index of a rank-n broadcast result to an index of shape"""
    off = n - len(shape)
    ones = [isinstance(d, int) and d == 1 for d in shape]
    if off == 0 and not any(ones):
        return lambda v: v
    if off < 0:
        ones2 = ones

        def f(v):
            return tuple([0] * (-off)) + tuple(0 if o else x for o, x in zip(ones2[-off:], v))
        return f
    return lambda v: tuple(0 if o else x for o, x in zip(ones, v[off:]))


def pick_cls(args):
    cls = None
    for a in args:
        if isinstance(a, Arr):
            if cls is None or a.is_np is False:
                cls = type(a)
    return cls


def promote(args):
    """torch-like result dtype: dimensioned tensors dominate within a category"""
    best = None
    order = {"b": 0, "i": 1, "f": 2}
    cats = []
    for a in args:
        if isinstance(a, Arr):
            cats.append((2 if a.ndim > 0 else 1, a._dtype))
        else:
            k = T.kind(unwrap(a))
            if isinstance(a, float):
                k = "f"
            cats.append((0, {"b": DT["bool"], "i": DT["int64"], "f": DT["float32"]}[k]))
    topk = max(order[d.kind] for _, d in cats)
    for lvl in (2, 1, 0):
        ds = [d for l, d in cats if l == lvl and order[d.kind] == topk]
        if ds:
            best = max(ds, key=lambda d: d.rank)
            break
    np_arr = [a for a in args if isinstance(a, Arr) and a.is_np]
    if np_arr and best.kind == "f" and not any(isinstance(a, Arr) and a.kind == "f" for a in args):
        best = DT["float64"]
    return best


def elementwise(f, args, dtype=None, in_kind=None):
    """f on terms; args tensors or scalars"""
    arrs = [a for a in args if isinstance(a, Arr)]
    cls = pick_cls(args)
    if dtype is None:
        dtype = promote(args)
    shape = broadcast_shapes([a._shape for a in arrs])
    n = len(shape)
    rd = []
    for a in args:
        if isinstance(a, Arr):
            r, b = a.reader(), broadcaster(a._shape, n)
            rd.append((lambda r, b: lambda v: r(b(v)))(r, b))
        else:
            c = unwrap(a)
            rd.append((lambda c: lambda v: c)(c))
    kd = dtype.kind

    def fn(v):
        xs = [r(v) for r in rd]
        if in_kind:
            xs = [cast(x, in_kind) for x in xs]
        return cast(f(*xs), kd)
    return mk(shape, fn, dtype, cls, arrs[0]._device)


def binop(f, bool_to=None):
    def op(a, b):
        dt = promote([a, b])
        k = dt.kind

        def g(x, y):
            return f(cast(x, k), cast(y, k))
        return elementwise(g, [a, b], dt)
    return op


def _mulk(x, y):
    if T.kind(x) == "b" and T.kind(y) == "b":
        return T.and_(x, y)
    return T.mul(x, y)


def _addk(x, y):
    if T.kind(x) == "b" and T.kind(y) == "b":
        return T.or_(x, y)
    return T.add(x, y)


add = binop(_addk)
sub = binop(T.sub)


def mul(a, b):
    """product; a 0/1-valued bool factor selects"""
    dt = promote([a, b])
    k = dt.kind
    return elementwise(lambda x, y: _mulk(cast(x, k), cast(y, k)), [a, b], dt)


def div(a, b):
    dt = promote([a, b])
    if dt.kind != "f":
        dt = DT["float64"] if any(isinstance(x, Arr) and x.is_np for x in (a, b)) else DT["float32"]
    return elementwise(T.div, [a, b], dt, "f")


def compare(f):
    def op(a, b):
        def g(x, y):
            x, y = S.strip_detach(x), S.strip_detach(y)
            if T.kind(x) == "b" and T.kind(y) == "b" and f not in (T.eq, T.ne):
                x, y = T.to_int(x), T.to_int(y)
            return f(x, y)
        return elementwise(g, [a, b], DT["bool"])
    return op


def unary(f, dtype=None, in_kind=None):
    def op(a):
        return elementwise(f, [a], dtype or a._dtype, in_kind)
    return op


def float_unary(f):
    def op(a):
        dt = a._dtype if a.kind == "f" else (DT["float64"] if a.is_np else DT["float32"])
        return elementwise(f, [a], dt, "f")
    return op


def logical(f):
    def op(a, b):
        dt = promote([a, b])
        if dt.kind == "b":
            return elementwise(f, [a, b], dt, "b")
        raise Unsupported("bitwise operator on integers")
    return op


def where(c, a, b):
    dt = promote([a, b])
    k = dt.kind
    return elementwise(lambda q, x, y: T.ite(T.to_bool(S.strip_detach(q)), cast(x, k), cast(y, k)), [c, a, b], dt)


# ------------------------------------------------------------------ views
def norm_axis(a, n):
    a = unwrap(a) if isinstance(a, Sym) else a
    if not isinstance(a, int):
        raise Unsupported("symbolic axis")
    if not -n <= a < max(n, 1):
        raise IndexError("Dimension out of range (expected to be in range of [%d, %d], but got %d)" % (-n, n - 1, a))
    return a % n if n else 0


def permute(a, order):
    n = a.ndim
    order = [norm_axis(o, n) for o in order]
    if sorted(order) != list(range(n)):
        raise RuntimeError("permute: bad dims")
    pos = [order.index(k) for k in range(n)]
    shape = [a._shape[o] for o in order]
    return a.view_as(shape, lambda v: tuple(v[p] for p in pos), lambda p: (True, tuple(p[o] for o in order)),
                     a._contig and order == list(range(n)))


def transpose(a, i, j):
    n = a.ndim
    i, j = norm_axis(i, n), norm_axis(j, n)
    o = list(range(n))
    if n:
        o[i], o[j] = o[j], o[i]
    return permute(a, o)


def unsqueeze(a, d):
    n = a.ndim
    d = norm_axis(d, n + 1)
    shape = a._shape[:d] + (1,) + a._shape[d:]
    return a.view_as(shape, lambda v: v[:d] + v[d + 1:], lambda p: (True, p[:d] + (0,) + p[d:]), a._contig)


def squeeze_dim(a, d):
    n = a.ndim
    if n == 0:
        return a
    d = norm_axis(d, n)
    s = a._shape[d]
    if not (s == 1):
        return a.view_as(a._shape, lambda v: v, lambda p: (True, p), a._contig)
    shape = a._shape[:d] + a._shape[d + 1:]
    return a.view_as(shape, lambda v: v[:d] + (0,) + v[d:], lambda p: (True, p[:d] + p[d + 1:]), a._contig)


def squeeze(a, d=None):
    if d is None:
        r = a
        for k in reversed(range(a.ndim)):
            r = squeeze_dim(r, k)
        return r
    if isinstance(d, (tuple, list)):
        r = a
        for k in sorted((norm_axis(x, a.ndim) for x in d), reverse=True):
            r = squeeze_dim(r, k)
        return r
    return squeeze_dim(a, d)


def expand(a, shape):
    shape = list(shape)
    off = len(shape) - a.ndim
    if off < 0:
        raise RuntimeError("expand: fewer dimensions")
    fixed = []
    for k, s in enumerate(shape):
        if k >= off:
            d = a._shape[k - off]
            if isinstance(s, int) and s == -1:
                shape[k] = d
                fixed.append(False)
            elif isinstance(d, int) and d == 1 and not (isinstance(s, int) and s == 1):
                fixed.append(True)
            elif dim_eq(s, d):
                fixed.append(False)
            elif dim_eq(d, 1):
                fixed.append(True)
            else:
                raise RuntimeError("expand: size mismatch")

    def down(p):
        raise Unsupported("in-place write through an expanded view")
    return a.view_as(shape, lambda v: tuple(0 if f else x for f, x in zip(fixed, v[off:])), down, False)


def repeat(a, reps):
    reps = [norm_dim(r) for r in reps]
    off = len(reps) - a.ndim
    if off < 0:
        raise RuntimeError("repeat: fewer dims than tensor")
    src = (1,) * off + tuple(a._shape)
    shape = [d if (isinstance(r, int) and r == 1) else (r if isinstance(d, int) and d == 1 else d * r)
             for d, r in zip(src, reps)]
    rd = a.reader()

    def fn(v):
        out = []
        for x, d, r in list(zip(v, src, reps))[off:]:
            if isinstance(d, int) and d == 1:
                out.append(0)
            elif isinstance(r, int) and r == 1:
                out.append(x)
            else:
                out.append(T.simp(T.imod(it(x), dterm(d))))
        return rd(tuple(out))
    return a.like(shape, fn)


# ---- reshape
def _factors(d):
    """(int coefficient, list of symbolic factor terms in order)"""
    if isinstance(d, int):
        return d, []
    fac = FACT.get(d.t.get_id()) if not is_const(d.t) else None
    if fac:
        co, fs = 1, []
        for f in fac[1]:
            c2, f2 = _factors(norm_dim(f))
            co *= c2
            fs += f2
        return co, fs
    t = d.t
    if z3.is_app_of(t, z3.Z3_OP_MUL):
        co, fs = 1, []
        for ch in t.children():
            c2, f2 = _factors(norm_dim(ch))
            co *= c2
            fs += f2
        return co, fs
    return 1, [t]


FACT = {}


def prod_dim(dims):
    dims = [d for d in dims if not (isinstance(d, int) and d == 1)]
    if not dims:
        return 1
    if len(dims) == 1:
        return dims[0]
    r = dims[0]
    for d in dims[1:]:
        r = d * r if isinstance(r, int) else r * d
    r = norm_dim(r)
    if isinstance(r, SymInt):
        FACT[r.t.get_id()] = (r.t, tuple(dterm(d) for d in dims))
    return r


def _sig(dims):
    co, fs = 1, []
    for d in dims:
        c, f = _factors(d)
        co *= c
        fs += f
    return co, sorted(f.get_id() for f in fs)


def same_prod(a, b):
    sa, sb = _sig(a), _sig(b)
    if sa == sb:
        return True
    return False


def reshape_shape(src, shape):
    shape = [norm_dim(s) for s in shape]
    if any(isinstance(s, int) and s == -1 for s in shape):
        k = next(i for i, s in enumerate(shape) if isinstance(s, int) and s == -1)
        rest = [s for i, s in enumerate(shape) if i != k]
        co, fs = _sig_full(src)
        co2, fs2 = _sig_full(rest)
        fs = list(fs)
        for f in fs2:
            hit = next((g for g in fs if g.get_id() == f.get_id()), None)
            if hit is None:
                raise Unsupported("cannot infer -1 in reshape")
            fs.remove(hit)
        if co2 == 0 or co % co2:
            raise RuntimeError("shape is invalid for input")
        q = co // co2
        dims = ([q] if q != 1 else []) + [norm_dim(f) for f in fs]
        # keep source order of factors
        shape[k] = prod_dim(dims) if dims else 1
    return shape


def _sig_full(dims):
    co, fs = 1, []
    for d in dims:
        c, f = _factors(d)
        co *= c
        fs += f
    return co, fs


def reshape_maps(src, dst):
    """index maps dst->src and src->dst between row-major layouts; grouped by matching products"""
    i = j = 0
    groups = []
    S_, D_ = list(src), list(dst)
    while i < len(S_) or j < len(D_):
        gi, gj = [], []
        if i < len(S_):
            gi.append(i)
            i += 1
        if j < len(D_):
            gj.append(j)
            j += 1
        ok = False
        while True:
            if same_prod([S_[k] for k in gi], [D_[k] for k in gj]):
                ok = True
                break
            # extend the side with fewer factors
            ni, nj = _sig([S_[k] for k in gi]), _sig([D_[k] for k in gj])
            if (len(ni[1]), ni[0]) <= (len(nj[1]), nj[0]) and i < len(S_):
                gi.append(i)
                i += 1
            elif j < len(D_):
                gj.append(j)
                j += 1
            elif i < len(S_):
                gi.append(i)
                i += 1
            else:
                break
        if not ok:
            a, b = prod_dim([S_[k] for k in gi]), prod_dim([D_[k] for k in gj])
            if not dim_eq(a, b):
                raise RuntimeError("shape is invalid for input of this size")
        groups.append((gi, gj))

    def conv(v, frm, to, gf, gt, dims_f, dims_t):
        """components of index group"""
        if not gt:
            return []
        ft = [dims_t[k] for k in gt]
        ff = [dims_f[k] for k in gf]
        vi = [v[k] for k in gf]
        # strip unit dims
        f_nz = [(x, d) for x, d in zip(vi, ff) if not (isinstance(d, int) and d == 1)]
        t_nz = [k for k, d in enumerate(ft) if not (isinstance(d, int) and d == 1)]
        out = [0] * len(ft)
        if len(f_nz) == len(t_nz) and all(_same_dim(d, ft[k]) for (x, d), k in zip(f_nz, t_nz)):
            for (x, d), k in zip(f_nz, t_nz):
                out[k] = x
            return out
        if not t_nz:
            return out
        if not f_nz:
            return out
        if len(t_nz) == 1:
            if len(f_nz) == 1:
                out[t_nz[0]] = f_nz[0][0]
            else:
                fi = FlatIdx([x for x, d in f_nz], [dterm(d) for x, d in f_nz])
                if all(isinstance(c, int) for c in fi.comps) and all(isinstance(d, int) for d in fi.dims[1:]):
                    fi = fi.term()
                out[t_nz[0]] = fi
            return out
        # decode a linear index
        if len(f_nz) == 1:
            x = f_nz[0][0]
            if isinstance(x, FlatIdx) and len(x.comps) == len(t_nz) and \
                    all(_same_dim(norm_dim(d), ft[k]) for d, k in zip(x.dims[1:], t_nz[1:])):
                for c, k in zip(x.comps, t_nz):
                    out[k] = c
                return out
            lin = it(x)
        else:
            lin = FlatIdx([x for x, d in f_nz], [dterm(d) for x, d in f_nz]).term()
        rem = lin
        for pos, k in enumerate(t_nz):
            below = prod_dim([ft[q] for q in t_nz[pos + 1:]]) if pos + 1 < len(t_nz) else 1
            b = dterm(below)
            if pos == 0:
                q = T.idiv(rem, b)
            else:
                q = T.imod(T.idiv(lin, b), dterm(ft[k]))
            if pos == len(t_nz) - 1 and pos > 0:
                q = T.imod(lin, dterm(ft[k]))
            out[k] = T.simp(q)
        return out

    def up(v):            # dst index -> src index
        out = [0] * len(S_)
        for gi, gj in groups:
            for k, x in zip(gi, conv(v, "d", "s", gj, gi, D_, S_)):
                out[k] = x
        return tuple(out)

    def down(p):          # src index -> dst index
        out = [0] * len(D_)
        for gi, gj in groups:
            for k, x in zip(gj, conv(p, "s", "d", gi, gj, S_, D_)):
                out[k] = x
        return tuple(out)
    return up, down


def _same_dim(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, int) or isinstance(b, int):
        return False
    return a.t.eq(b.t)


def reshape(a, shape, copy_=False):
    shape = reshape_shape(a._shape, shape)
    na, nb = _sig(a._shape), _sig(shape)
    if na != nb:
        if not dim_eq(norm_dim(prod_dim(a._shape)), norm_dim(prod_dim(shape))):
            raise RuntimeError("shape is invalid for input of this size")
    up, down = reshape_maps(a._shape, shape)
    if copy_:
        rd = a.reader()
        return a.like(shape, lambda v: rd(up(v)))
    return a.view_as(shape, up, lambda p: (True, down(p)), True)


# ------------------------------------------------------------------ indexing
def clamp_index(v, d):
    """python slice bound -> term in [0, d]"""
    t = unwrap(v)
    dt = dterm(d)
    c = C.cur()
    if is_const(t) and t < 0:
        t2 = T.simp(T.add(dt, t))
        if entailed(T.le(0, t2)) or c.decide(T.le(0, t2)):
            return t2
        return 0
    if not is_const(t):
        if not entailed(T.le(0, t)):
            if c.decide(T.lt(t, 0)):
                t = T.simp(T.add(t, dt))
                if c.decide(T.lt(t, 0)):
                    return 0
    if is_const(t) and is_const(dt):
        return min(t, dt)
    if entailed(T.le(t, dt)) or c.decide(T.le(t, dt)):
        return t
    return dt


def resolve_slice(sl, d):
    """-> (start term, step int/term, length dim, full?)"""
    step = sl.step
    st = 1 if step is None else unwrap(step)
    if is_const(st) and st <= 0:
        raise ValueError("step must be greater than zero")
    if not is_const(st):
        if not C.cur().decide(T.lt(0, st)):
            raise ValueError("slice step must be positive")
    start = 0 if sl.start is None else clamp_index(sl.start, d)
    stop = dterm(d) if sl.stop is None else clamp_index(sl.stop, d)
    full = is_const(start) and start == 0 and is_const(st) and st == 1 and (
        sl.stop is None or (not is_const(stop) and not isinstance(d, int) and stop.eq(d.t)) or
        (is_const(stop) and isinstance(d, int) and stop == d))
    if full:
        return 0, 1, d, True
    if entailed(T.le(start, stop)) or C.cur().decide(T.le(start, stop)):
        n = T.sub(stop, start)
        if not (is_const(st) and st == 1):
            n = T.idiv(T.add(n, T.sub(st, 1)), st)
        n = T.simp(n)
    else:
        n = 0
    return start, st, norm_dim(n), False


def norm_int_index(i, d):
    t = unwrap(i)
    if T.kind(t) == "b":
        raise Unsupported("boolean scalar index")
    dt = dterm(d)
    c = C.cur()
    inb = T.and_(T.le(T.neg(dt), t), T.lt(t, dt))
    if not c.decide(inb):
        raise IndexError("index out of range")
    if is_const(t):
        return t if t >= 0 else T.simp(T.add(dt, t))
    if entailed(T.le(0, t)) or c.decide(T.le(0, t)):
        return t
    return T.simp(T.add(t, dt))


def is_basic(x):
    if x is None or x is Ellipsis or isinstance(x, (slice, int, SymInt)) and not isinstance(x, bool):
        return True
    if isinstance(x, Arr) and x.ndim == 0 and x.kind == "i":
        return True
    try:
        import numpy as np
        if isinstance(x, np.integer):
            return True
    except ImportError:
        pass
    return False


def expand_index(a, idx):
    if not isinstance(idx, tuple):
        idx = (idx,)
    used = 0
    for x in idx:
        if x is None or x is Ellipsis:
            continue
        used += x.ndim if isinstance(x, Arr) and x.kind == "b" else 1
    out = []
    seen = False
    for x in idx:
        if x is Ellipsis:
            if seen:
                raise IndexError("an index can only have a single ellipsis")
            seen = True
            out += [slice(None)] * (a.ndim - used)
        else:
            out.append(x)
    if not seen:
        out += [slice(None)] * (a.ndim - used)
    if used > a.ndim:
        raise IndexError("too many indices for tensor of dimension %d" % a.ndim)
    return out


def basic_view(a, idx):
    """idx: list of slices/ints/None covering all dims"""
    maps = []       # per source dim: ("fix", term) | ("dim", out position, start, step)
    shape = []
    conds = []
    d = 0
    trivial = True
    contig = a._contig
    inner_nontrivial = False
    for x in idx:
        if x is None:
            shape.append(1)
            continue
        dim = a._shape[d]
        if isinstance(x, slice):
            start, step, n, full = resolve_slice(x, dim)
            maps.append(("dim", len(shape), start, step, full, n))
            if not full and d > 0 or not (is_const(step) and step == 1):
                contig = False
            shape.append(n)
        else:
            maps.append(("fix", norm_int_index(x, dim)))
            if d > 0 and any(m[0] == "dim" for m in maps):
                contig = False
        d += 1
    nshape = len(shape)

    def up(v):
        out = []
        for m in maps:
            if m[0] == "fix":
                out.append(m[1])
            else:
                i = v[m[1]]
                if m[4]:
                    out.append(i)
                else:
                    i2 = it(i)
                    if not (is_const(m[3]) and m[3] == 1):
                        i2 = T.mul(i2, m[3])
                    out.append(T.simp(T.add(i2, m[2])) if not (is_const(m[2]) and m[2] == 0) else
                               (i if is_const(m[3]) and m[3] == 1 else T.simp(i2)))
        return tuple(out)

    def down(p):
        v = [0] * nshape
        c = True
        for m, s in zip(maps, p):
            if m[0] == "fix":
                c = T.and_(c, T.eq(it(s), m[1]))
            elif m[4]:
                v[m[1]] = s
            else:
                st, step, n = m[2], m[3], dterm(m[5])
                off = isub(s, st)
                if not (is_const(st) and st == 0):
                    c = T.and_(c, T.le(st, it(s)))
                if is_const(step) and step == 1:
                    c = T.and_(c, T.lt(it(off), n))
                    v[m[1]] = off
                else:
                    c = T.and_(c, T.eq(T.imod(it(off), step), 0), T.lt(T.idiv(it(off), step), n))
                    v[m[1]] = T.simp(T.idiv(it(off), step))
        return T.simp(c), tuple(v)
    return a.view_as(shape, up, down, contig)


def getitem(a, idx):
    from .lists import SymList
    ix = expand_index(a, conv_index(idx))
    if all(is_basic(x) for x in ix):
        return basic_view(a, ix)
    shape, pick, _ = advanced(a, ix)
    rd = a.reader()
    return a.like(shape, lambda v: rd(pick(v)))


def conv_index(idx):
    """lists -> index tensors"""
    from . import faketorch as F
    from .lists import SymList
    if isinstance(idx, list):
        return F.tensor(idx)
    if isinstance(idx, tuple):
        return tuple(F.tensor(x) if isinstance(x, list) else x for x in idx)
    if isinstance(idx, SymBool):
        raise Unsupported("boolean scalar index")
    return idx


def advanced(a, ix):
    """general advanced indexing -> (result shape, map result index -> source index, list of index info)"""
    comps = []          # per source dim
    none_at = []
    d = 0
    adv = []            # (source dim, Arr or const term)
    adv_positions = []
    pos_items = []
    for p, x in enumerate(ix):
        if x is None:
            pos_items.append(("none",))
            continue
        if isinstance(x, Arr) and x.kind == "b":
            for k in range(x.ndim):
                if not dim_eq(x._shape[k], a._shape[d + k]):
                    raise IndexError("The shape of the mask does not match the shape of the indexed tensor")
            en = enumeration(x)
            for k in range(x.ndim):
                pos_items.append(("adv", d, ("enum", en, k)))
                d += 1
            continue
        if isinstance(x, slice):
            pos_items.append(("slice", d, x))
        else:
            pos_items.append(("adv", d, x))
        d += 1
    # shapes of advanced indices
    shapes = []
    for q in pos_items:
        if q[0] == "adv":
            x = q[2]
            if isinstance(x, tuple) and x[0] == "enum":
                shapes.append((norm_dim(x[1].count),))
            elif isinstance(x, Arr):
                if x.kind == "f":
                    raise IndexError("tensors used as indices must be long, byte or bool tensors")
                shapes.append(tuple(x._shape))
    bshape = broadcast_shapes(shapes) if shapes else ()
    nb = len(bshape)
    getters = {}
    for q in pos_items:
        if q[0] != "adv":
            continue
        dd, x = q[1], q[2]
        if isinstance(x, tuple) and x[0] == "enum":
            en, k = x[1], x[2]
            bi = broadcaster((norm_dim(en.count),), nb)
            getters[dd] = (lambda en, k, bi: lambda v: en.at(k, bi(v)[0]))(en, k, bi)
        elif isinstance(x, Arr):
            rd, bi, dim = x.reader(), broadcaster(x._shape, nb), a._shape[dd]
            check_bounds(x, dim)
            getters[dd] = (lambda rd, bi, dim: lambda v: wrapneg(rd(bi(v)), dim))(rd, bi, dim)
        else:
            t = norm_int_index(x, a._shape[dd])
            getters[dd] = (lambda t: lambda v: t)(t)
    # placement
    idxs = [i for i, q in enumerate(pos_items) if q[0] == "adv"]
    adjacent = idxs == list(range(idxs[0], idxs[-1] + 1))
    layout = []          # result dims: ("b", k) | ("slice", d, start, step, n) | ("one",)
    shape = []
    placed = False
    if not adjacent:
        layout += [("b", k) for k in range(nb)]
        shape += list(bshape)
        placed = True
    for i, q in enumerate(pos_items):
        if q[0] == "adv":
            if not placed:
                layout += [("b", k) for k in range(nb)]
                shape += list(bshape)
                placed = True
        elif q[0] == "none":
            layout.append(("one",))
            shape.append(1)
        else:
            st, step, n, full = resolve_slice(q[2], a._shape[q[1]])
            layout.append(("slice", q[1], st, step, full))
            shape.append(n)

    def pick(v):
        b = [None] * nb
        src = [None] * a.ndim
        for x, l in zip(v, layout):
            if l[0] == "b":
                b[l[1]] = x
            elif l[0] == "slice":
                src[l[1]] = x if l[4] else T.simp(T.add(T.mul(it(x), l[3]), l[2]))
        b = tuple(b)
        for dd, g in getters.items():
            src[dd] = g(b)
        return tuple(src)
    info = dict(bshape=bshape, getters=getters, layout=layout, nb=nb)
    return shape, pick, info


def conditional(t):
    """its range may be known under the condition it is used in only"""
    fs = C.cur().memo.get("relations")
    if not fs:
        return False
    from .prove import _symbols
    return bool(_symbols(t, {}) & {f.name() for f in fs})


def wrapneg(t, dim):
    if is_const(t):
        return t if t >= 0 else T.simp(T.add(t, dterm(dim)))
    if isinstance(dim, int) and dim == 1:
        return 0                 # the only index in bounds (bounds are obligations of their own)
    k = ("nonneg", t.get_id())
    c = C.cur()
    if k in c.memo or not conditional(t) and c.int_entails(T.le(0, t), 400):
        c.memo[k] = t
        return t
    return T.ite(T.lt(t, 0), T.add(t, dterm(dim)), t)


def check_bounds(x, dim):
    """obligation: every index in bounds (else torch raises)"""
    c = C.cur()
    if c.opts.get("no_bounds"):
        return
    vs = fresh_index(x._shape, "bi", assume=False)
    t = x.elem(*vs)
    rng = in_range(vs, x._shape)
    dt = dterm(dim)
    ok = T.implies(rng, T.and_(T.le(T.neg(dt), t), T.lt(t, dt)))
    c.oblige("index in bounds", ok, where="indexing")


def fresh_index(shape, base, assume=True):
    c = C.cur()
    out = []
    for d in shape:
        if isinstance(d, int) and d == 1:
            out.append(0)
            continue
        v = c.fresh(base, T.INT)
        if assume:
            c.assume(T.and_(T.le(0, v), T.lt(v, dterm(d))))
        out.append(v)
    return tuple(out)


def in_range(vs, shape):
    return T.and_(*[T.and_(T.le(0, it(v)), T.lt(it(v), dterm(d))) for v, d in zip(vs, shape)])


def listed_mask(ix):
    """a[nonzero(mask)] = ... writes where the mask holds"""
    for j, x in enumerate(ix):
        if isinstance(x, Arr) and x.storage.nz and x.storage.nz[2] == 0:
            m = x.storage.nz[1]
            cols = ix[j:j + m.ndim]
            if len(cols) == m.ndim and all(isinstance(y, Arr) and y.storage.nz and y.storage.nz[1] is m and y.storage.nz[2] == k
                                           and y.storage.fn is y.storage.nz[0] and y.to_s is _ID[0] and y._shape == x._shape
                                           for k, y in enumerate(cols)):
                return ix[:j] + [m] + ix[j + m.ndim:]
            return ix
    return ix


def setitem(a, idx, value):
    from . import faketorch as F
    if isinstance(value, (list, tuple)):
        value = F.tensor(value)
    ix = listed_mask(expand_index(a, conv_index(idx)))
    if all(is_basic(x) for x in ix):
        basic_view(a, ix).assign(value)
        return
    # a mask of the full rank (or leading dims) with a scalar: pointwise
    masks = [x for x in ix if isinstance(x, Arr) and x.kind == "b"]
    rest = [x for x in ix if not (isinstance(x, Arr) and x.kind == "b")]
    if len(masks) == 1 and all(isinstance(x, slice) and x == slice(None) for x in rest) and not isinstance(value, Arr) \
            or (len(masks) == 1 and isinstance(value, Arr) and value.ndim == 0 and
                all(isinstance(x, slice) and x == slice(None) for x in rest)):
        m = masks[0]
        off = next(i for i, x in enumerate(ix) if x is m)
        for k in range(m.ndim):
            if not dim_eq(m._shape[k], a._shape[off + k]):
                raise IndexError("The shape of the mask does not match the shape of the indexed tensor")
        rd = m.reader()
        nm = m.ndim
        mm = elementwise_from(a, lambda v: rd(v[off:off + nm]))
        a.assign(where(mm, value, copy(a)))
        return
    if len(masks) == 1 and isinstance(value, Arr) and all(isinstance(x, slice) and x == slice(None) for x in rest):
        m = masks[0]
        off = next(i for i, x in enumerate(ix) if x is m)
        if value.ndim <= len(rest) - off and off == 0:
            # trailing broadcast (e.g. image[mask] = color)
            rd, rv = m.reader(), value.reader()
            nm = m.ndim
            for k in range(nm):
                if not dim_eq(m._shape[k], a._shape[k]):
                    raise IndexError("mask shape mismatch")
            bi = broadcaster(value._shape, a.ndim - nm)
            old = a.reader()
            kd = a.kind
            a.assign(a.like(a._shape, lambda v: T.ite(rd(v[:nm]), cast(rv(bi(v[nm:])), kd), old(v))))
            return
        shape, pick, info = advanced(a, ix)
        if off == 0:
            en = enumeration(m)
            rv = value.reader()
            broadcast_shapes([tuple(shape), value._shape], target=tuple(shape))
            bi = broadcaster(value._shape, len(shape))
            old = a.reader()
            kd = a.kind
            nm = m.ndim
            rd = m.reader()

            def fn(v):
                return T.ite(rd(v[:nm]), cast(rv(bi((en.rank(v[:nm]),) + v[nm:])), kd), old(v))
            a.assign(a.like(a._shape, fn))
            return
        raise Unsupported("mask assignment")
    shape, pick, info = advanced(a, ix)
    scatter(a, ix, shape, info, value)


def elementwise_from(a, f):
    return mk(a._shape, f, DT["bool"], type(a), a._device)


def scatter(a, ix, shape, info, value):
    c = C.cur()
    bshape, getters, layout = info["bshape"], info["getters"], info["layout"]
    if len(bshape) != 1:
        if len(bshape) == 0:
            raise Unsupported("scatter with scalar tensor indices")
        raise Unsupported("scatter with multi-dimensional index tensors")
    for l in layout:
        if l[0] == "slice" and not l[4] or l[0] == "one":
            raise Unsupported("scatter with partial slices")
    n = dterm(bshape[0])
    kd = a.kind
    old = a.reader()
    if isinstance(value, Arr):
        broadcast_shapes([tuple(shape), value._shape], target=tuple(shape))
        bi, rv = broadcaster(value._shape, len(shape)), value.reader()
    else:
        const = cast(unwrap(value), kd)
    sl_dims = [l[1] for l in layout if l[0] == "slice"]
    tdims = sorted(getters)
    # canonical content of the index table
    gk = z3.Int("sc!k")
    terms = [z(getters[d]((gk,))) for d in tdims]
    hit = Hit.get(c, n, gk, terms)

    def fn(v):
        tgt = [it(v[d]) for d in tdims]
        h, w = hit.at(tgt, getters, tdims)
        vv = []
        for l in layout:
            vv.append(w if l[0] == "b" else v[l[1]])
        x = cast(rv(bi(tuple(vv))), kd) if isinstance(value, Arr) else const
        return T.ite(h, x, old(v))
    a.assign(a.like(a._shape, fn))


def abstract(ts, bound=()):
    """free Int constants of terms (other than bound), in order of appearance, and a key that abstracts them"""
    free, seen = [], {b.get_id() for b in bound}

    def walk(e, done):
        stack = [e]
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in done:
                continue
            done.add(i)
            if z3.is_quantifier(x):
                stack.append(x.body())
            elif z3.is_const(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.sort() == T.INT and i not in seen:
                    seen.add(i)
                    free.append(x)
            else:
                stack.extend(reversed(x.children()))
    done = set()
    for t in ts:
        if not is_const(t):
            walk(t, done)
    ph = [(x, z3.Int("ph!%d" % k)) for k, x in enumerate(free)]
    kk = []
    for t in ts:
        s = z3.simplify(z3.substitute(z(t), *ph)) if ph else z3.simplify(z(t))
        C.cur().keep.append(s)
        kk.append(s.get_id())
    return tuple(kk), free


def match(pat, e, var, sub):
    """first-order matching of one variable"""
    if pat.get_id() == var.get_id():
        if "k" in sub:
            return sub["k"].get_id() == e.get_id()
        sub["k"] = e
        return True
    if pat.get_id() == e.get_id():
        return True
    if not (z3.is_app(pat) and z3.is_app(e)) or pat.num_args() != e.num_args() or pat.num_args() == 0 or \
            not pat.decl().eq(e.decl()):
        return False
    return all(match(p, x, var, sub) for p, x in zip(pat.children(), e.children()))


def strip(t, given=True):
    """t without the wrap-around of negative indices, where the index is known not to be negative"""
    c = C.cur()
    while z3.is_app_of(t, z3.Z3_OP_ITE):
        cond, x, y = t.children()
        if c.int_entails(z3.Implies(z(given), z3.Not(cond))):
            t = y
        else:
            break
    return t


class Hit:
    """last-write witness of a scatter: which target rows are written and by which position"""

    def __init__(self, c, n, gk, terms):
        self.n, self.gk, self.terms = n, gk, terms
        key, free = abstract(list(terms) + [z(n)], [gk])
        self.free = free
        self.id = len(c.memo.setdefault("hits", {}))
        r = len(terms)
        nm = "scatter%d" % self.id
        self.h = z3.Function(nm + "_hit", *([T.INT] * (len(free) + r) + [T.BOOL]))
        self.w = z3.Function(nm + "_pos", *([T.INT] * (len(free) + r) + [T.INT]))

    @staticmethod
    def get(c, n, gk, terms):
        key, free = abstract(list(terms) + [z(n)], [gk])
        tab = c.memo.setdefault("hits", {})
        if key not in tab:
            tab[key] = Hit(c, n, gk, terms)
        h = tab[key]
        if [x.get_id() for x in free] != [x.get_id() for x in h.free]:
            import copy as cp
            h2 = cp.copy(h)
            h2.free = free
            h2.terms, h2.n = terms, n
            return h2
        return h

    def own_row(self, tgt):
        """the only position that writes the target, when the target is that of a known position and all positions write
        different targets (None: don't know)"""
        c = C.cur()
        rng = z3.And(self.gk >= 0, self.gk < z(self.n))
        terms = [strip(z(t), rng) for t in self.terms]
        tgt = [strip(z(x)) for x in tgt]
        sub, rest = {}, []
        for t, x in zip(terms, tgt):
            if not match(t, x, self.gk, sub):
                rest.append((t, x))
        if "k" not in sub:
            return None
        k = sub["k"]
        at = lambda t, q: z3.substitute(t, (self.gk, q))
        if not c.int_entails(z3.And(k >= 0, k < z(self.n), *[at(t, k) == x for t, x in rest])):
            return None
        p = z3.Int("sc!p")
        same = [at(t, p) == at(t, k) for t in terms]
        return k if c.int_entails(z3.Implies(z3.And(p >= 0, p < z(self.n), *same), p == k)) else None

    def inverse(self, tgt):
        """(written?, by which position) through a known function from target to position"""
        c = C.cur()
        if not c.memo.get("relations"):
            return None
        rng = z3.And(self.gk >= 0, self.gk < z(self.n))
        must = [q for q, t in enumerate(self.terms) if not is_const(T._const_of(z(t)))]
        free = [q for q in range(len(self.terms)) if q not in must]
        terms = [strip(z(t), rng) for t in self.terms]
        for f in c.memo["relations"]:
            for more in itertools.combinations(free, max(0, f.arity() - len(must))):
                cols = sorted(must + list(more))
                if len(cols) == f.arity() and c.int_entails(z3.Implies(rng, f(*[terms[q] for q in cols]) == self.gk)):
                    k = f(*[z(tgt[q]) for q in cols])
                    same = [T.eq(T.subst(t, [(self.gk, k)]), x) for t, x in zip(terms, tgt)]
                    return T.and_(T.le(0, k), T.lt(k, self.n), *same), k
        return None

    def at(self, tgt, getters=None, tdims=None):
        c = C.cur()
        k = self.own_row(tgt)
        if k is not None:
            return True, k
        r = self.inverse(tgt)
        if r is not None:
            return r
        args = [z(x) for x in self.free] + [z(t) for t in tgt]
        h, w = self.h(*args), self.w(*args)
        same = [z3.substitute(z(t), (self.gk, w)) == z(x) for t, x in zip(self.terms, tgt)]
        c.axiom(z3.Implies(h, z3.And(w >= 0, w < z(self.n), *same)))
        # not hit: no position writes it
        kk = z3.Int("sc!q")
        cond = [z3.substitute(z(t), (self.gk, kk)) == z(x) for t, x in zip(self.terms, tgt)]
        body = z3.Implies(z3.And(kk >= 0, kk < z(self.n), *cond), h)
        c.axiom(z3.ForAll([kk], body))
        c.memo.setdefault("hit_targets", []).append((self, tgt, h, w))
        return h, w


# ------------------------------------------------------------------ enumeration of a mask
class Enumeration:
    """row-major enumeration of the true positions of a boolean tensor"""

    def __init__(self, c, shape, ks, term, free, name):
        self.shape, self.ks, self.term, self.free = shape, ks, term, free
        r = len(shape)
        f = len(free)
        self.e = [z3.Function("%s_at%d" % (name, d), *([T.INT] * (f + 2))) for d in range(r)]
        self.r = z3.Function(name + "_rank", *([T.INT] * (f + r + 1)))
        self.cnt = z3.Function(name + "_count", *([T.INT] * (f + 1))) if f else z3.Int(name + "_count")
        self.name = name

    def bind(self, free, shape, term):
        import copy as cp
        h = cp.copy(self)
        h.free, h.shape, h.term = free, shape, term
        return h

    @property
    def count(self):
        c = C.cur()
        n = self.cnt(*self.free) if self.free else self.cnt
        c.memo.setdefault("enum_counts", {})[n.get_id()] = (n, self)
        c.axiom(n >= 0)
        k = ("enum_total", n.get_id())
        tot = 1
        for d in self.shape:
            tot = T.mul(tot, dterm(d))
        c.axiom(T.le(n, tot))
        return n

    def mask_at(self, idx):
        pairs = [(k, z(it(i))) for k, i in zip(self.ks, idx) if not isinstance(k, int)]
        return T.subst(self.term, pairs) if pairs else self.term

    def at(self, d, k):
        c = C.cur()
        kt = z(it(k))
        hit = c.memo.get("enum_hits", {}).get((self.name, kt.get_id()))
        if hit is not None:
            return hit[1][d]
        es = [e(*self.free, kt) for e in self.e]
        n = self.count
        inr = z3.And(kt >= 0, kt < n)
        body = [in_range(es, self.shape), self.mask_at(es), self.r(*self.free, *es) == kt]
        c.axiom(z3.Implies(inr, z(T.and_(*body))))
        if isinstance(self.shape[d], int) and self.shape[d] == 1:
            return 0
        # monotone with respect to previously used positions of the same enumeration
        used = c.memo.setdefault(("enum_used", self.name), {})
        kid = (kt.get_id(),) + tuple(x.get_id() for x in self.free)
        if kid not in used:
            for (k2, es2, fr2) in list(used.values())[:12]:
                if [x.get_id() for x in fr2] == [x.get_id() for x in self.free]:
                    c.axiom(z3.Implies(z3.And(inr, k2 >= 0, k2 < kt), lex_lt(es2, es)))
                    c.axiom(z3.Implies(z3.And(kt >= 0, kt < k2, k2 < n), lex_lt(es, es2)))
            used[kid] = (kt, es, self.free)
        return es[d]

    def rank(self, idx):
        c = C.cur()
        ix = [z(it(i)) for i in idx]
        r = self.r(*self.free, *ix)
        n = self.count
        m = self.mask_at(ix)
        es = [e(*self.free, r) for e in self.e]
        c.axiom(T.implies(T.and_(in_range(ix, self.shape), m),
                          T.and_(r >= 0, r < n, *[a == b for a, b in zip(es, ix)])))
        return r


class FullEnumeration:
    """of a mask that is true everywhere"""

    def __init__(self, shape, ks):
        self.shape, self.ks, self.term, self.free, self.name = shape, ks, True, [], "all"

    @property
    def count(self):
        n = 1
        for d in self.shape:
            n = T.mul(n, dterm(d))
        return T.simp(n)

    def mask_at(self, idx):
        return True

    def at(self, d, k):
        if isinstance(self.shape[d], int) and self.shape[d] == 1:
            return 0
        below = 1
        for x in self.shape[d + 1:]:
            below = T.mul(below, dterm(x))
        t = it(k)
        if not (is_const(below) and below == 1):
            t = T.idiv(t, below)
        if any(not (isinstance(x, int) and x == 1) for x in self.shape[:d]):
            t = T.imod(t, dterm(self.shape[d]))
        return T.simp(t)

    def rank(self, idx):
        r = 0
        for i, d in zip(idx, self.shape):
            r = T.add(T.mul(r, dterm(d)), it(i))
        return T.simp(r)


class ComposedEnumeration:
    """of a mask over the hits of another enumeration: the k-th hit is the k-th position where both masks hold"""

    def __init__(self, outer, joint, shape, ks, term):
        self.outer, self.joint = outer, joint
        self.shape, self.ks, self.term, self.free, self.name = shape, ks, term, [], joint.name + "'"

    @property
    def count(self):
        return self.joint.count

    def mask_at(self, idx):
        return T.subst(self.term, [(k, z(it(i))) for k, i in zip(self.ks, idx)])

    def at(self, d, k):
        c = C.cur()
        ix = [self.joint.at(q, k) for q in range(len(self.outer.shape))]
        r = z(self.outer.rank(ix))
        c.memo.setdefault("enum_hits", {})[(self.outer.name, r.get_id())] = (r, ix)
        return r

    def rank(self, idx):
        return self.joint.rank([self.outer.at(q, idx[0]) for q in range(len(self.outer.shape))])


def composed(m, ks, term):
    """the enumeration of a mask whose only dimension counts the hits of another enumeration"""
    c = C.cur()
    if len(m._shape) != 1 or is_const(dterm(m._shape[0])):
        return None
    hit = c.memo.get("enum_counts", {}).get(dterm(m._shape[0]).get_id())
    if hit is None:
        return None
    outer = hit[1]

    def fn(v):
        ix = [z(it(i)) for i in v]
        k0 = z3.Int("enk!0")
        body = z(S.strip_detach(m.elem(k0)))
        body = T.subst(body, [(e(*outer.free, k0), i) for e, i in zip(outer.e, ix)])
        r = outer.rank(ix)
        if not is_const(body):
            body = T.subst(body, [(k0, r)])
        return T.simp(T.and_(outer.mask_at(ix), body))
    joint = mk(outer.shape, fn, DT["bool"], type(m))
    return ComposedEnumeration(outer, enumeration(joint), tuple(m._shape), ks, term)


def lex_lt(a, b):
    r = z3.BoolVal(False)
    for x, y in reversed(list(zip(a, b))):
        r = z3.Or(x < y, z3.And(x == y, r))
    return r


def generic_position(shape, name="en"):
    """constants standing for any position of this shape: only ever used within their range, which int_entails may
    therefore assume"""
    c = C.cur()
    shapes = c.memo.setdefault("enum_shapes", {})
    sk = (name,) + tuple(d if isinstance(d, int) else ("t", z(dterm(d)).get_id()) for d in shape)
    sn = shapes.setdefault(sk, (len(shapes), tuple(shape)))[0]
    names = ["%s%d!%d" % (name, sn, i) for i in range(len(shape))]
    ks = tuple(z3.Int(x) if not (isinstance(d, int) and d == 1) else 0 for x, d in zip(names, shape))
    rng = in_range(ks, shape)
    if not is_const(rng):
        c.given.setdefault((name, sn), (set(names), rng))
    return ks


def enumeration(m):
    c = C.cur()
    tab = c.memo.setdefault("enums", [])
    ks = generic_position(m._shape)
    term = T.simp(z(S.strip_detach(m.elem(*ks))))
    if is_const(term) and term:
        return FullEnumeration(tuple(m._shape), ks)
    en = composed(m, ks, term)
    if en is not None:
        return en
    dims = [z(dterm(d)) for d in m._shape]
    key, free = abstract([z(term)] + dims, [k for k in ks if not isinstance(k, int)])
    for k2, en in tab:
        if k2 == key:
            return en.bind(free, tuple(m._shape), term)
    # semantically equal mask?
    for k2, en in tab:
        if len(en.shape) == len(m._shape) and all(_same_dim(p, q) or C.cur().check(T.ne(dterm(p), dterm(q))) == z3.unsat
                                                  for p, q in zip(en.shape, m._shape)):
            t2 = T.subst(en.term, [(a, b) for a, b in zip(en.ks, ks) if not isinstance(a, int) and not isinstance(b, int)])
            rng = in_range(ks, m._shape)
            r = C.cur().check(T.and_(rng, T.ne(t2, term)))
            if r == z3.unknown and boolalg.equivalent(t2, term, [rng] + c.fact_terms()):
                r = z3.unsat
            if r == z3.unsat:
                return en
    en = Enumeration(c, tuple(m._shape), ks, term, free, "mask%d" % len(tab))
    tab.append((key, en))
    return en


# ------------------------------------------------------------------ reductions
def bound_sum(n, body, bound):
    """sum over 0 <= bound < n of a Real term"""
    c = C.cur()
    if is_const(body) and body == 0:
        return Fraction(0)
    nt = dterm(n)
    body = S_canon(body)
    key, free = abstract([z(body), z(nt)], [bound])
    tab = c.memo.setdefault("sums", {})
    if key not in tab:
        tab[key] = ("sum%d" % len(tab))
    name = tab[key]
    f = z3.Function(name, *([T.INT] * len(free) + [T.REAL])) if free else z3.Real(name)
    s = f(*free) if free else f
    c.memo.setdefault("sum_info", {})[s.get_id()] = (s, nt, bound, body)
    c.memo.setdefault("defs", {})[name] = body
    c.axiom(T.implies(T.le(nt, 0), s == 0))
    try:
        if S.nonneg_syntactic(body):
            c.axiom(s >= 0)
    except Exception:
        pass
    return s


def S_canon(t):
    from . import alg
    from .prove import _ites
    t = T.to_real(t)
    if is_const(t):
        return t
    ites = []
    _ites(t, ites, set())
    if ites:
        return z3.simplify(t)
    try:
        p = alg.to_poly(t)
        if any(a in alg.INV_OF for m in p for a, _ in m):
            return z3.simplify(t)
        return T._const_of(alg.poly_z3(p))
    except alg.TooBig:
        return z3.simplify(t)


def sum_over(dims, f):
    """sum of f(idx) over all idx in dims (symbolic dims via bound_sum)"""
    def rec(k, idx):
        if k == len(dims):
            return f(tuple(idx))
        d = dims[k]
        if isinstance(d, int):
            r = None
            for i in range(d):
                x = rec(k + 1, idx + [i])
                r = x if r is None else T.add(r, x)
            return r if r is not None else Fraction(0)
        c = C.cur()
        b = z3.Int("sm!%d" % depth_of(c))
        c.memo["sumdepth"] = depth_of(c) + 1
        try:
            body = rec(k + 1, idx + [b])
        finally:
            c.memo["sumdepth"] -= 1
        if T.kind(body) != "f":
            body = T.to_real(body)
            return bound_sum(d, body, b)
        return bound_sum(d, body, b)
    return rec(0, [])


def depth_of(c):
    return c.memo.get("sumdepth", 0)


def reduce_dims(a, dim, keepdim):
    n = a.ndim
    if dim is None:
        ds = list(range(n))
    elif isinstance(dim, (tuple, list)):
        ds = sorted(norm_axis(d, n) for d in dim)
    else:
        ds = [norm_axis(dim, n)]
    shape = []
    for k, d in enumerate(a._shape):
        if k in ds:
            if keepdim:
                shape.append(1)
        else:
            shape.append(d)

    def full(v, r):
        out, vi, ri = [], list(v), list(r)
        for k in range(n):
            if k in ds:
                out.append(ri.pop(0))
                if keepdim:
                    vi.pop(0)
            else:
                out.append(vi.pop(0))
        return tuple(out)
    return ds, shape, full


def reduce_sum(a, dim=None, keepdim=False, f=None, dtype=None):
    ds, shape, full = reduce_dims(a, dim, keepdim)
    rd = a.reader()
    dims = [a._shape[d] for d in ds]
    dt = dtype or (a._dtype if a.kind == "f" else DT["int64"])
    g = f or (lambda t: t)

    def fn(v):
        r = sum_over(dims, lambda r: g(cast(rd(full(v, r)), "f" if dt.kind == "f" else "i")))
        return cast(r, dt.kind)
    if dt.kind == "i" and any(not isinstance(d, int) for d in dims):
        raise Unsupported("integer sum over a symbolic dimension")
    return a.like(shape, fn, dt)


def reduce_bool(a, dim, keepdim, is_any):
    ds, shape, full = reduce_dims(a, dim, keepdim)
    rd = a.reader()
    dims = [a._shape[d] for d in ds]

    def fn(v):
        def rec(k, idx):
            if k == len(dims):
                return T.to_bool(S.strip_detach(rd(full(v, idx))))
            d = dims[k]
            if isinstance(d, int):
                xs = [rec(k + 1, idx + [i]) for i in range(d)]
                return T.or_(*xs) if is_any else T.and_(*xs)
            c = C.cur()
            b = c.fresh("qb", T.INT)
            body = rec(k + 1, idx + [b])
            rng = T.and_(b >= 0, T.lt(b, dterm(d)))
            if is_any:
                if is_const(body):
                    return T.and_(body, T.lt(0, dterm(d)))
                return z3.Exists([b], z(T.and_(rng, body)))
            if is_const(body):
                return T.or_(body, T.le(dterm(d), 0))
            return z3.ForAll([b], z(T.implies(rng, body)))
        return rec(0, [])
    return a.like(shape, fn, DT["bool"])


def reduce_norm(a, dim=None, keepdim=False):
    ds, shape, full = reduce_dims(a, dim, keepdim)
    rd = a.reader()
    dims = [a._shape[d] for d in ds]
    if all(isinstance(d, int) for d in dims):
        import itertools

        def fn(v):
            return S.sum_sqrt([T.to_real(rd(full(v, r))) for r in itertools.product(*[range(d) for d in dims])])
    else:
        def fn(v):
            return S.sqrt(sum_over(dims, lambda r: T.mul(rd(full(v, r)), rd(full(v, r)))))
    return a.like(shape, fn)


def reduce_extreme(a, dim, keepdim, is_max):
    """(values, indices)"""
    ds, shape, full = reduce_dims(a, dim, keepdim)
    rd = a.reader()
    dims = [a._shape[d] for d in ds]
    import itertools
    if all(isinstance(d, int) for d in dims):
        if any(d == 0 for d in dims):
            raise RuntimeError("max(): Expected reduction dim to be specified for input.numel() == 0")

        def fn(v):
            r = None
            for q in itertools.product(*[range(d) for d in dims]):
                x = rd(full(v, q))
                r = x if r is None else S.minmax(r, x, is_max)
            return r

        def fi(v):
            r, ri = None, None
            for q in itertools.product(*[range(d) for d in dims]):
                x = S.strip_detach(rd(full(v, q)))
                if r is None:
                    r, ri = x, q[0]
                else:
                    better = T.lt(r, x) if is_max else T.lt(x, r)
                    ri = T.ite(better, q[0], ri)
                    r = T.ite(better, x, r)
            return ri
        return a.like(shape, fn), a.like(shape, fi, DT["int64"])
    c = C.cur()
    for d in dims:
        if not c.decide(T.lt(0, dterm(d))):
            raise RuntimeError("max(): Expected reduction dim to be specified for input.numel() == 0")
    sort = {"f": T.REAL, "i": T.INT}.get(a.kind)
    if sort is None:
        raise Unsupported("max of booleans over a symbolic dimension")

    def wit(v):
        qs = [z3.Int("mx!%d" % i) for i in range(len(dims))]
        whole = z(cast(rd(full(v, qs)), a.kind))
        body = z(cast(S.strip_detach(whole), a.kind))
        key, free = abstract([body] + [z(dterm(d)) for d in dims] + ([whole] if c.opts.get("grad") else []), qs)
        tab = c.memo.setdefault("extremes", {})
        kk = (key, is_max)
        if kk not in tab:
            tab[kk] = "ext%d" % len(tab)
        nm = tab[kk]
        c.memo.setdefault("defs", {})[nm] = whole
        ws = []
        for i in range(len(dims)):
            ws.append(z3.Function("%s_w%d" % (nm, i), *([T.INT] * (len(free) + 1)))(*free) if free
                      else z3.Int("%s_w%d" % (nm, i)))
        m = z3.Function(nm, *([T.INT] * len(free) + [sort]))(*free) if free else z3.Const(nm, sort)
        c.axiom(in_range(ws, dims))
        c.axiom(m == z3.substitute(body, *zip(qs, ws)))
        c.axiom(z3.ForAll(qs, z(T.implies(in_range(qs, dims), (body <= m) if is_max else (body >= m)))))
        return m, ws
    return a.like(shape, lambda v: wit(v)[0]), a.like(shape, lambda v: wit(v)[1][-1], DT["int64"])


# ------------------------------------------------------------------ contractions
def einsum(eqn, *ops):
    eqn = eqn.replace(" ", "")
    if len(ops) == 1 and isinstance(ops[0], (list, tuple)):
        ops = ops[0]
    if "..." in eqn:
        n = max(o.ndim - (len(t) - 3) for t, o in zip(eqn.split("->")[0].split(","), ops) if "..." in t)
        letters = "ABCDEFGH"[:n]
        ins = []
        for t, o in zip(eqn.split("->")[0].split(","), ops):
            k = o.ndim - (len(t) - 3)
            ins.append(t.replace("...", letters[n - k:]))
        out = eqn.split("->")[1].replace("...", letters) if "->" in eqn else None
    else:
        ins = eqn.split("->")[0].split(",")
        out = eqn.split("->")[1] if "->" in eqn else None
    if out is None:
        from collections import Counter
        cnt = Counter("".join(ins))
        out = "".join(sorted(l for l in cnt if cnt[l] == 1))
    if len(ins) != len(ops):
        raise RuntimeError("einsum(): fewer operands than subscripts")
    dims = {}
    for t, o in zip(ins, ops):
        if len(t) != o.ndim:
            raise RuntimeError("einsum(): the number of subscripts in the equation (%d) does not match the number of "
                               "dimensions (%d)" % (len(t), o.ndim))
        for l, d in zip(t, o._shape):
            if l in dims and not (isinstance(dims[l], int) and dims[l] == 1):
                if isinstance(d, int) and d == 1:
                    continue
                if not dim_eq(dims[l], d):
                    raise RuntimeError("einsum(): operands do not broadcast")
            else:
                dims[l] = d
    contracted = []
    for t in ins:
        for l in t:
            if l not in out and l not in contracted:
                contracted.append(l)
    rds = [(o.reader(), t, o._shape) for t, o in zip(ins, ops)]
    dt = promote(list(ops))
    k = dt.kind

    def fn(v):
        env = dict(zip(out, v))

        def term(r):
            e = dict(env)
            e.update(zip(contracted, r))
            p = None
            for rd, t, shp in rds:
                x = cast(rd(tuple(0 if isinstance(d, int) and d == 1 else e[l] for l, d in zip(t, shp))), k)
                p = x if p is None else T.mul(p, x)
            return p
        return sum_over([dims[l] for l in contracted], term)
    return mk([dims[l] for l in out], fn, dt, pick_cls(ops), ops[0]._device)


def matmul(a, b):
    if not isinstance(a, Arr) or not isinstance(b, Arr):
        raise TypeError("matmul(): arguments must be tensors")
    if a.ndim == 0 or b.ndim == 0:
        raise RuntimeError("both arguments to matmul need to be at least 1D")
    if a._dtype.kind != b._dtype.kind or (a.kind == "f" and a._dtype is not b._dtype and not a.is_np):
        raise RuntimeError("expected scalar types to match in matmul")
    if a.ndim == 1 and b.ndim == 1:
        if not dim_eq(a._shape[0], b._shape[0]):
            raise RuntimeError("inconsistent tensor size")
        return einsum("i,i->", a, b)
    if a.ndim == 1:
        return squeeze_dim(matmul(unsqueeze(a, 0), b), -2)
    if b.ndim == 1:
        return squeeze_last_known(matmul(a, unsqueeze(b, 1)))
    if not dim_eq(a._shape[-1], b._shape[-2]):
        raise RuntimeError("mat1 and mat2 shapes cannot be multiplied")
    batch = broadcast_shapes([a._shape[:-2], b._shape[:-2]]) if (a.ndim > 2 or b.ndim > 2) else ()
    nb = len(batch)
    ba, bb = broadcaster(a._shape[:-2], nb), broadcaster(b._shape[:-2], nb)
    ra, rb = a.reader(), b.reader()
    kdim = a._shape[-1]
    dt = promote([a, b])
    k = dt.kind

    def fn(v):
        i, j = v[-2], v[-1]
        va, vb = ba(v[:-2]), bb(v[:-2])
        return sum_over([kdim], lambda r: T.mul(cast(ra(va + (i, r[0])), k), cast(rb(vb + (r[0], j)), k)))
    return mk(tuple(batch) + (a._shape[-2], b._shape[-1]), fn, dt, pick_cls([a, b]), a._device)


def squeeze_last_known(a):
    return a.view_as(a._shape[:-1], lambda v: v + (0,), lambda p: (True, p[:-1]), a._contig)


# ------------------------------------------------------------------ joining
def cat(ts, dim=0):
    ts = list(ts)
    if not ts:
        raise RuntimeError("torch.cat(): expected a non-empty list of Tensors")
    for t in ts:
        if not isinstance(t, Arr):
            raise TypeError("expected Tensor as element in cat")
    # legacy: 1-D empty tensors are skipped
    ts2 = [t for t in ts if not (t.ndim == 1 and isinstance(t._shape[0], int) and t._shape[0] == 0)]
    if not ts2:
        return copy(ts[0])
    ts = ts2
    n = ts[0].ndim
    dim = norm_axis(dim, n)
    for t in ts[1:]:
        if t.ndim != n:
            raise RuntimeError("Tensors must have same number of dimensions")
        for k in range(n):
            if k != dim and not dim_eq(t._shape[k], ts[0]._shape[k]):
                raise RuntimeError("Sizes of tensors must match except in dimension %d" % dim)
    dt = promote(ts)
    kd = dt.kind
    offs = [0]
    tot = ts[0]._shape[dim]
    for t in ts[1:]:
        offs.append(dterm(tot))
        tot = tot + t._shape[dim]
    shape = list(ts[0]._shape)
    shape[dim] = norm_dim(T.simp(unwrap(tot)))
    rds = [t.reader() for t in ts]

    def fn(v):
        i = it(v[dim])
        if is_const(i) and all(is_const(o) for o in offs):
            k = max(q for q in range(len(offs)) if offs[q] <= i and not (isinstance(ts[q]._shape[dim], int) and ts[q]._shape[dim] == 0))
            return cast(rds[k](v[:dim] + (i - offs[k],) + v[dim + 1:]), kd)
        r = None
        for k in reversed(range(len(ts))):
            x = cast(rds[k](v[:dim] + ((v[dim] if is_const(offs[k]) and offs[k] == 0 else T.simp(T.sub(i, offs[k]))),)
                            + v[dim + 1:]), kd)
            if r is None:
                r = x
            else:
                cnd = T.simp(T.lt(i, offs[k + 1]))
                r = T.ite(cnd, x, r)
        return r
    return mk(shape, fn, dt, pick_cls(ts), ts[0]._device)


def stack(ts, dim=0):
    from .lists import SymList
    if isinstance(ts, SymList):
        return ts.stack(dim)
    ts = list(ts)
    if not ts:
        raise RuntimeError("stack expects a non-empty TensorList")
    n = ts[0].ndim
    dim = norm_axis(dim, n + 1)
    for t in ts[1:]:
        if t.ndim != n or not all(dim_eq(p, q) for p, q in zip(t._shape, ts[0]._shape)):
            raise RuntimeError("stack expects each tensor to be equal size")
    dt = promote(ts)
    kd = dt.kind
    rds = [t.reader() for t in ts]

    def fn(v):
        i = it(v[dim])
        rest = v[:dim] + v[dim + 1:]
        if is_const(i):
            return cast(rds[i](rest), kd)
        r = cast(rds[-1](rest), kd)
        for k in reversed(range(len(ts) - 1)):
            r = T.ite(T.eq(i, k), cast(rds[k](rest), kd), r)
        return r
    shape = list(ts[0]._shape)
    shape.insert(dim, len(ts))
    return mk(shape, fn, dt, pick_cls(ts), ts[0]._device)


def content_key(a):
    """canonical terms of a tensor's content (for congruence of opaque functions)"""
    ks = tuple(z3.Int("ct!%d" % i) if not (isinstance(d, int)) else None for i, d in enumerate(a._shape))
    import itertools
    ids = []
    ranges = [range(d) if isinstance(d, int) else [k] for d, k in zip(a._shape, ks)]
    terms = []
    for ix in itertools.product(*ranges):
        t = a.elem(*ix)
        t = S.strip_detach(t)
        terms.append(z(S_canon(t)) if T.kind(t) == "f" else z(T.simp(t)))
    dims = [z(dterm(d)) for d in a._shape]
    return terms, dims, [k for k in ks if k is not None]
