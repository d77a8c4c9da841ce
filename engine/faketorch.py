"""Library contracts: torch / numpy operations over symbolic tensors (the trusted base, cross-checked elsewhere).

Everything not modelled raises Unsupported (which is never a verdict).
"""
import itertools
import math
import types
from fractions import Fraction
import z3

from . import ctx as C
from . import terms as T
from . import sym as S
from . import tensor as A
from .sym import wrap, unwrap, Sym, SymInt, SymReal, SymBool
from .tensor import Arr, DT, DType, Device, Size, dtype_of, dterm, it, norm_dim, norm_axis, mk
from .terms import Unsupported, is_const, z

float32, float64, int64, bool_ = DT["float32"], DT["float64"], DT["int64"], DT["bool"]
_pyfloat, _pyint, _pybool = float, int, bool


class Namespace(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("%s.%s is not modelled" % (self.__name__, k))


def shape_args(a):
    if len(a) == 1 and isinstance(a[0], (list, tuple)):
        a = a[0]
    return tuple(norm_dim(x) for x in a)


class Tensor(Arr):
    is_np = False
    __hash__ = Arr.__hash__

    def __init__(self, *a, **k):
        if len(a) < 3:
            # the legacy constructor: torch.Tensor(), torch.Tensor([..]), torch.FloatTensor([..]), torch.Tensor(n, m)
            if k or len(a) > 1 and not all(isinstance(x, (_pyint, S.SymInt)) for x in a):
                raise Unsupported("legacy tensor constructor")
            if not a:
                r = tensor([], dtype=float32)
            elif isinstance(a[0], (list, tuple)):
                r = tensor(list(a[0]), dtype=float32)
            elif isinstance(a[0], Arr):
                r = a[0]
            else:
                r = fresh_tensor(shape_args(a), float32, "uninit")
            a = (r.storage, r._shape, r._dtype)
        Arr.__init__(self, *a, **k)

    # --- attributes
    @property
    def device(self):
        return self._device

    @property
    def T(self):
        return A.permute(self, list(range(self.ndim))[::-1])

    @property
    def requires_grad(self):
        return self._req

    @requires_grad.setter
    def requires_grad(self, v):
        self._req = v

    @property
    def is_cuda(self):
        return self._device.type == "cuda"

    @property
    def data(self):
        return detach(self, share=True)

    @property
    def grad(self):
        raise Unsupported("autograd")

    def size(self, d=None):
        return self._shape if d is None else self._shape[d]

    def numel(self):
        return A.numel(self._shape)

    nelement = numel

    def is_floating_point(self):
        return self.kind == "f"

    def is_contiguous(self, **k):
        return self._contig

    def element_size(self):
        return 4

    def type(self, dtype=None):
        if dtype is None:
            return "torch.FloatTensor"
        return _to(self, dtype=dtype_of(dtype))

    def type_as(self, o):
        return _to(self, dtype=o._dtype, device=o._device)

    def to(self, *args, **kw):
        dtype, device = kw.get("dtype"), kw.get("device")
        cp = kw.get("copy", False)
        for a in args:
            if isinstance(a, DType):
                dtype = a
            elif isinstance(a, (Device, str)):
                device = a
            elif isinstance(a, Arr):
                dtype, device = a._dtype, a._device
            elif isinstance(a, _pybool):
                pass
        return _to(self, dtype, device, cp)

    def float(self): return _to(self, float32)
    def double(self): return _to(self, float64)
    def half(self): return _to(self, DT["float16"])
    def long(self): return _to(self, int64)
    def int(self): return _to(self, DT["int32"])
    def bool(self): return _to(self, bool_)
    def byte(self): return _to(self, DT["uint8"])
    def cpu(self, *a, **k): return _to(self, device="cpu")
    def cuda(self, *a, **k): return _to(self, device="cuda:0")

    def clone(self, **k): return A.copy(self)
    def detach(self): return detach(self, share=True)

    def detach_(self):
        r = A.copy(self)
        self.assign(detach(r))
        return self

    def contiguous(self, **k):
        return self if self._contig else A.copy(self)

    def requires_grad_(self, v=True):
        self._req = v
        return self

    def numpy(self, **k):
        return as_cls(self, NdArray)

    def tolist(self):
        if self.ndim == 0:
            return self.item()
        return [x.tolist() for x in self]

    def unbind(self, dim=0): return unbind(self, dim)

    def backward(self, *a, **k):
        raise Unsupported("autograd")

    # views
    def view(self, *s):
        if len(s) == 1 and isinstance(s[0], DType):
            raise Unsupported("view as dtype")
        s = shape_args(s)
        if not self._contig:
            return view_noncontig(self, s)
        return A.reshape(self, s)

    def reshape(self, *s):
        s = shape_args(s)
        if self._contig:
            return A.reshape(self, s)
        return A.reshape(self, s, copy_=True)

    def view_as(self, *a):
        if len(a) == 1:
            return self.view(a[0]._shape)
        return Arr.view_as(self, *a)

    def reshape_as(self, o): return self.reshape(o._shape)
    def flatten(self, start_dim=0, end_dim=-1): return flatten(self, start_dim, end_dim)
    def permute(self, *o): return A.permute(self, o[0] if len(o) == 1 and isinstance(o[0], (list, tuple)) else o)
    def transpose(self, i, j): return A.transpose(self, i, j)
    swapaxes = transpose

    def t(self):
        if self.ndim > 2:
            raise RuntimeError("t() expects a tensor with <= 2 dimensions")
        return A.permute(self, list(range(self.ndim))[::-1])

    def unsqueeze(self, dim): return A.unsqueeze(self, dim)
    def squeeze(self, dim=None): return A.squeeze(self, dim)

    def expand(self, *s): return A.expand(self, shape_args(s))
    def expand_as(self, o): return A.expand(self, o._shape)
    def repeat(self, *s): return A.repeat(self, shape_args(s))
    def broadcast_to(self, *s): return A.expand(self, shape_args(s))

    def narrow(self, dim, start, length):
        ix = [slice(None)] * self.ndim
        ix[norm_axis(dim, self.ndim)] = slice(start, start + length)
        return A.getitem(self, tuple(ix))

    def select(self, dim, index):
        ix = [slice(None)] * self.ndim
        ix[norm_axis(dim, self.ndim)] = index
        return A.getitem(self, tuple(ix))

    def __getitem__(self, i): return A.getitem(self, i)
    def __setitem__(self, i, v): A.setitem(self, i, v)

    # arithmetic
    def __add__(self, o): return _bin(A.add, self, o)
    def __radd__(self, o): return _bin(A.add, o, self)
    def __sub__(self, o): return _bin(_sub, self, o)
    def __rsub__(self, o): return _bin(_sub, o, self)
    def __mul__(self, o): return _bin(A.mul, self, o)
    def __rmul__(self, o): return _bin(A.mul, o, self)
    def __truediv__(self, o): return _bin(A.div, self, o)
    def __rtruediv__(self, o): return _bin(A.div, o, self)
    def __floordiv__(self, o): return _bin(floordiv, self, o)
    def __rfloordiv__(self, o): return _bin(floordiv, o, self)
    def __mod__(self, o): return _bin(mod, self, o)
    def __pow__(self, o): return pow_(self, o)
    def __rpow__(self, o): return pow_(o, self)
    def __matmul__(self, o): return A.matmul(self, o)
    def __neg__(self): return neg(self)
    def __pos__(self): return self
    def __abs__(self): return abs_(self)
    def __invert__(self): return logical_not(self)
    def __and__(self, o): return _bin(_land, self, o)
    def __rand__(self, o): return _bin(_land, o, self)
    def __or__(self, o): return _bin(_lor, self, o)
    def __ror__(self, o): return _bin(_lor, o, self)
    def __xor__(self, o): return _bin(_lxor, self, o)
    def __eq__(self, o): return _bin(_eq, self, o)
    def __ne__(self, o): return _bin(_ne, self, o)
    def __lt__(self, o): return _bin(_lt, self, o)
    def __le__(self, o): return _bin(_le, self, o)
    def __gt__(self, o): return _bin(_gt, self, o)
    def __ge__(self, o): return _bin(_ge, self, o)

    def __iadd__(self, o): return inplace(self, A.add, o)
    def __isub__(self, o): return inplace(self, _sub, o)
    def __imul__(self, o): return inplace(self, A.mul, o)
    def __itruediv__(self, o): return inplace(self, A.div, o)
    def __ipow__(self, o): return inplace(self, pow_, o)
    def __iand__(self, o): return inplace(self, _land, o)
    def __ior__(self, o): return inplace(self, _lor, o)

    def __float__(self):
        t = unwrap(self.item())
        if is_const(t):
            return _pyfloat(t)
        raise Unsupported("native float() of a symbolic value")

    def __int__(self):
        t = unwrap(self.item())
        if is_const(t):
            return _pyint(t)
        raise Unsupported("native int() of a symbolic value")

    def copy_(self, o): return self.assign(o)

    def fill_(self, v):
        return self.assign(unwrap(v) if not isinstance(v, Arr) else v)

    def zero_(self): return self.assign(0)

    def masked_fill_(self, m, v):
        A.setitem(self, m if m.ndim == self.ndim else A.expand(m, self._shape), v)
        return self

    def masked_fill(self, m, v): return A.where(m, v, self)
    def __array__(self, *a): raise Unsupported("native numpy conversion")
    def __contains__(self, x): raise Unsupported("membership in a tensor")


# ----------------------------------------------------------------- helpers
def as_cls(a, cls):
    r = cls(a.storage, a._shape, a._dtype, a.to_s, a.from_s, a._contig, a._device)
    return r


def _to(a, dtype=None, device=None, copy=False):
    dtype = dtype_of(dtype)
    dev = Device(device) if isinstance(device, str) else device
    ch = (dtype is not None and dtype is not a._dtype)
    dv = dev is not None and dev != a._device
    if not ch and not dv and not copy:
        return a
    r = A.copy(a, dtype)
    if ch and dtype is float32 and a.kind == "i" and C.cur().opts.get("exact_casts"):
        r = A.elementwise(float32_of, [a], float32)
    if dev is not None:
        r._device = dev
    r._req = a._req
    return r


def float32_of(x):
    """an integer converted to single precision: exact up to 2 ** 24"""
    if is_const(x) and abs(x) <= 2 ** 24:
        return T.to_real(x)
    x = S.strip_detach(x)
    y = S.uf("float32_of", T.INT, T.REAL)(T.z(x))
    C.cur().axiom(T.implies(T.and_(T.le(-2 ** 24, x), T.le(x, 2 ** 24)), T.eq(y, T.to_real(x))))
    return y


def detach(a, share=False):
    c = C.cur()
    if not c.opts.get("grad") or a.kind != "f":
        if share:
            return as_cls(a, type(a))
        return A.copy(a)
    r = a.reader()
    return a.like(a._shape, lambda v: S.detach_term(r(v)))


def view_noncontig(a, s):
    """torch's view of a non-contiguous tensor: allowed for pure unit-dim/split changes; refuse otherwise"""
    real = [d for d in a._shape if not (isinstance(d, _pyint) and d == 1)]
    s2 = A.reshape_shape(a._shape, s)
    real2 = [d for d in s2 if not (isinstance(d, _pyint) and d == 1)]
    if len(real) == len(real2) and all(A._same_dim(p, q) for p, q in zip(real, real2)):
        r = A.reshape(a, s)
        r._contig = False
        return r
    if any(isinstance(d, _pyint) and d == 0 for d in a._shape):
        return A.reshape(a, s)
    # splitting the leading/trailing dims of a strided tensor, or merging contiguous ones, would need strides
    if getattr(a, "_expanded", False):
        return A.reshape(a, s)
    raise Unsupported("view() of a non-contiguous tensor")


def _lift(x):
    return x


def _bin(f, a, b):
    for x in (a, b):
        if isinstance(x, (list, tuple, str)) or x is None:
            if isinstance(a, NdArray) or isinstance(b, NdArray):
                if isinstance(x, (list, tuple)):
                    if x is a:
                        a = array(x)
                    else:
                        b = array(x)
                    continue
            if f in (_eq, _ne):
                return f is _ne
            raise TypeError("unsupported operand type(s) for tensor arithmetic: %s" % type(x).__name__)
        if not isinstance(x, Arr):
            try:
                unwrap(x)
            except Unsupported:
                if f in (_eq, _ne):
                    return f is _ne
                raise TypeError("unsupported operand type(s) for tensor arithmetic: %s" % type(x).__name__)
    return f(a, b)


def inplace(a, f, o):
    if a.is_np and not isinstance(o, Arr) and isinstance(o, (list, tuple)):
        o = array(o)
    if isinstance(o, Arr) or not isinstance(o, (list, tuple, str)):
        r = f(a, o)
    else:
        raise TypeError("unsupported operand")
    order = {"b": 0, "i": 1, "f": 2}
    if order[r.kind] > order[a.kind]:
        raise RuntimeError("result type can't be cast to the desired output type")
    a.assign(r)
    return a


def _sub(a, b):
    if (isinstance(a, Arr) and a.kind == "b" and (not isinstance(b, Arr) or b.kind == "b")) or \
            (isinstance(b, Arr) and b.kind == "b" and isinstance(a, Arr) and a.kind == "b"):
        raise RuntimeError("Subtraction, the `-` operator, with a bool tensor is not supported")
    return A.sub(a, b)


_eq = A.compare(T.eq)
_ne = A.compare(T.ne)
_lt = A.compare(T.lt)
_le = A.compare(T.le)
_gt = A.compare(lambda a, b: T.lt(b, a))
_ge = A.compare(lambda a, b: T.le(b, a))
_land = A.logical(T.and_)
_lor = A.logical(T.or_)
_lxor = A.logical(T.ne)


def logical_and(a, b): return A.elementwise(lambda x, y: T.and_(T.to_bool(x), T.to_bool(y)), [a, b], bool_)
def logical_or(a, b): return A.elementwise(lambda x, y: T.or_(T.to_bool(x), T.to_bool(y)), [a, b], bool_)
def logical_xor(a, b): return A.elementwise(lambda x, y: T.ne(T.to_bool(x), T.to_bool(y)), [a, b], bool_)


def logical_not(a):
    if a.kind == "b":
        return A.elementwise(T.not_, [a], bool_)
    if a.kind == "i":
        return A.elementwise(lambda x: T.sub(-1, x), [a])
    raise TypeError("~ on a float tensor")


def logical_not_fn(a): return A.elementwise(lambda x: T.not_(T.to_bool(x)), [a], bool_)


def floordiv(a, b):
    def f(x, y):
        if T.kind(x) == "f" or T.kind(y) == "f":
            return T.to_real(S.floor(T.div(x, y)))
        return T.idiv(T.to_int(x), T.to_int(y))
    return A.elementwise(f, [a, b])


def mod(a, b):
    def f(x, y):
        if T.kind(x) == "f" or T.kind(y) == "f":
            raise Unsupported("float mod")
        return T.imod(T.to_int(x), T.to_int(y))
    return A.elementwise(f, [a, b])


def pow_(a, b):
    if isinstance(a, Arr) and not isinstance(b, Arr):
        e = unwrap(b)
        dt = a._dtype
        if not (is_const(e) and T.frac(e).denominator == 1 and e >= 0) and dt.kind != "f":
            dt = float32
        return A.elementwise(lambda x: S.power(x if dt.kind != "f" else T.to_real(x), e), [a], dt)
    return A.elementwise(S.power, [a, b])


def neg(a):
    if a.kind == "b":
        raise RuntimeError("Negation, the `-` operator, on a bool tensor is not supported")
    return A.elementwise(T.neg, [a])


def abs_(a): return A.elementwise(S.absval, [a])


def atan2_t(y, x):
    y, x = T.to_real(y), T.to_real(x)
    if is_const(y) and y == 0 and is_const(x) and x > 0:
        return Fraction(0)
    c = C.cur()
    ay, ax = z(S.canon_arg(y)), z(S.canon_arg(x))
    r = S.uf("atan2", T.REAL, T.REAL, T.REAL)(ay, ax)
    # for a unit vector (sin, cos) the angle reproduces its coordinates
    s, co = S.trig("sin", r), S.trig("cos", r)
    c.axiom(z3.Implies(ay * ay + ax * ax == 1, z3.And(z(s) == ay, z(co) == ax)))
    c.axiom(z3.Implies(z3.And(ay == 0, ax > 0), r == 0))
    c.axiom(z3.Implies(z3.And(ay > 0), r > 0))
    c.axiom(z3.Implies(z3.And(ay < 0), r < 0))
    c.axiom(z3.And(r <= z3.RealVal("3.1415927"), r >= z3.RealVal("-3.1415927")))
    return r


_UN = {
    "sqrt": lambda t: S.sqrt(t), "exp": S.exp, "sin": lambda t: S.trig("sin", t), "cos": lambda t: S.trig("cos", t),
    "sigmoid": lambda t: sigmoid_t(t), "rsqrt": lambda t: T.div(Fraction(1), S.sqrt(t)),
    "reciprocal": lambda t: T.div(Fraction(1), t), "log10": lambda t: S.opaque1("log10", t),
    "log": lambda t: S.opaque1("log", t), "tanh": lambda t: S.opaque1("tanh", t),
    "acos": lambda t: S.opaque1("acos", t), "asin": lambda t: S.opaque1("asin", t), "tan": lambda t: T.div(S.trig("sin", t), S.trig("cos", t)),
}


def sigmoid_t(t):
    return T.div(Fraction(1), T.add(Fraction(1), S.exp(T.neg(t))))


def _mk_unary(name, f):
    g = A.float_unary(f)

    def op(a, *args, **k):
        if not isinstance(a, Arr):
            return wrap(f(T.to_real(unwrap(a))))
        return g(a)
    op.__name__ = name
    return op


UN = {n: _mk_unary(n, f) for n, f in _UN.items()}


def square(a): return A.elementwise(lambda x: T.mul(x, x), [a])
def sign(a): return A.elementwise(lambda x: T.ite(T.lt(0, x), 1, T.ite(T.lt(x, 0), -1, 0)), [a])


def round_(a, decimals=0):
    if decimals:
        raise Unsupported("round with decimals")
    if a.kind != "f":
        return A.copy(a)
    return A.elementwise(lambda x: T.to_real(S.rnd(S.strip_detach(x))), [a])


def floor_(a): return A.elementwise(lambda x: T.to_real(S.floor(S.strip_detach(x))), [a])
def ceil_(a): return A.elementwise(lambda x: T.neg(T.to_real(S.floor(T.neg(S.strip_detach(x))))), [a])
def trunc_(a): return A.elementwise(lambda x: T.to_real(T.trunc(S.strip_detach(x))), [a])


def isnan(a): return A.elementwise(lambda x: False, [a], bool_)
def isinf(a): return A.elementwise(lambda x: False, [a], bool_)
def isfinite(a): return A.elementwise(lambda x: True, [a], bool_)


def clamp(a, min=None, max=None):
    r = a
    k = a._dtype.kind
    if min is not None:
        if isinstance(min, Arr):
            r = maximum(r, min)
        else:
            lo = unwrap(min)
            r = A.elementwise(lambda x: S.minmax(x, lo, True), [r], _clampdt(a, lo))
    if max is not None:
        if isinstance(max, Arr):
            r = minimum(r, max)
        else:
            hi = unwrap(max)
            r = A.elementwise(lambda x: S.minmax(x, hi, False), [r], _clampdt(a, hi))
    if r is a:
        raise RuntimeError("torch.clamp: At least one of 'min' or 'max' must not be None")
    return r


def _clampdt(a, c):
    if a.kind != "f" and T.kind(c) == "f":
        return float32
    return a._dtype


def maximum(a, b): return A.elementwise(lambda x, y: S.minmax(x, y, True), [a, b])
def minimum(a, b): return A.elementwise(lambda x, y: S.minmax(x, y, False), [a, b])


# ----------------------------------------------------------------- reductions
def _dimarg(dim, kw):
    return kw.get("axis", dim)


def sum_(a, dim=None, keepdim=False, dtype=None, **kw):
    if not isinstance(a, Arr):
        raise TypeError("sum(): argument 'input' must be Tensor")
    dim = _dimarg(dim, kw)
    keepdim = kw.get("keepdims", keepdim)
    if a.kind in "bi" and dtype is None and any(not isinstance(d, _pyint) for d in
                                                [a._shape[k] for k in A.reduce_dims(a, dim, keepdim)[0]]):
        return count_true(a, dim, keepdim)
    return A.reduce_sum(a, dim, keepdim, dtype=dtype)


def count_true(a, dim, keepdim):
    if a.kind != "b":
        raise Unsupported("integer sum over a symbolic dimension")
    ds, shape, full = A.reduce_dims(a, dim, keepdim)
    if len(ds) == a.ndim:
        en = A.enumeration(a)
        n = en.count
        return a.like(shape, lambda v: n, int64)
    rd = a.reader()

    def fn(v):
        sub = mk([a._shape[d] for d in ds], lambda r: rd(full(v, r)), bool_, type(a))
        return A.enumeration(sub).count
    return a.like(shape, fn, int64)


def mean(a, dim=None, keepdim=False, dtype=None, **kw):
    dim = _dimarg(dim, kw)
    s = A.reduce_sum(a, dim, keepdim, dtype=dtype)
    ds, _, _ = A.reduce_dims(a, dim, keepdim)
    n = A.numel([a._shape[d] for d in ds])
    return A.div(s, n)


def prod(a, dim=None, keepdim=False):
    ds, shape, full = A.reduce_dims(a, dim, keepdim)
    dims = [a._shape[d] for d in ds]
    if not all(isinstance(d, _pyint) for d in dims):
        raise Unsupported("prod over a symbolic dimension")
    import itertools
    rd = a.reader()

    def fn(v):
        r = 1
        for q in itertools.product(*[range(d) for d in dims]):
            r = T.mul(r, rd(full(v, q)))
        return A.cast(r, a.kind)
    return a.like(shape, fn)


def any_(a, dim=None, keepdim=False, **kw): return A.reduce_bool(a, _dimarg(dim, kw), keepdim, True)
def all_(a, dim=None, keepdim=False, **kw): return A.reduce_bool(a, _dimarg(dim, kw), keepdim, False)


class MinMax(tuple):
    values = property(lambda s: s[0])
    indices = property(lambda s: s[1])


def _extreme(is_max):
    def op(a, dim=None, keepdim=False, **kw):
        dim = _dimarg(dim, kw)
        if isinstance(dim, Arr):
            return (maximum if is_max else minimum)(a, dim)
        if a.is_np:
            return A.reduce_extreme(a, dim, kw.get("keepdims", keepdim), is_max)[0]
        if dim is None:
            return A.reduce_extreme(a, None, False, is_max)[0]
        return MinMax(A.reduce_extreme(a, dim, keepdim, is_max))
    return op


max_, min_ = _extreme(True), _extreme(False)


def amax(a, dim=None, keepdim=False): return A.reduce_extreme(a, dim, keepdim, True)[0]
def amin(a, dim=None, keepdim=False): return A.reduce_extreme(a, dim, keepdim, False)[0]


def argmax(a, dim=None, keepdim=False): return _arg(a, dim, keepdim, True)
def argmin(a, dim=None, keepdim=False): return _arg(a, dim, keepdim, False)


def _arg(a, dim, keepdim, m):
    if dim is None:
        if a.ndim != 1:
            raise Unsupported("argmax over all dims")
        dim = 0
    return A.reduce_extreme(a, dim, keepdim, m)[1]


def norm(a, p=2, dim=None, keepdim=False, **kw):
    dim = _dimarg(dim, kw)
    if "ord" in kw and kw["ord"] is not None:
        p = kw["ord"]
    if p in ("fro", None):
        p = 2
    if p == 2:
        if a.kind != "f":
            raise RuntimeError("norm(): input dtype should be either floating point")
        return A.reduce_norm(a, dim, keepdim)
    if p == 1:
        return A.reduce_sum(abs_(a), dim, keepdim)
    raise Unsupported("norm of order %r" % (p,))


# ----------------------------------------------------------------- creation
def _device(device):
    return Device(device) if device is not None else A.CPU


def full(shape, value, dtype=None, device=None, **kw):
    v = unwrap(value)
    if dtype is None:
        dtype = {"b": bool_, "i": int64, "f": float32}[T.kind(v)]
    dtype = dtype_of(dtype)
    v = A.cast(v, dtype.kind)
    shp = shape_args((shape,) if isinstance(shape, (list, tuple)) else (shape,))
    return mk(shp, lambda ix: v, dtype, Tensor, _device(device))


def zeros(*s, dtype=None, device=None, out=None, requires_grad=False, **k):
    if "size" in k:
        s = (k["size"],)
    return full(shape_args(s), Fraction(0), dtype or float32, device)


def ones(*s, dtype=None, device=None, out=None, requires_grad=False, **k):
    if "size" in k:
        s = (k["size"],)
    return full(shape_args(s), Fraction(1), dtype or float32, device)


_unn = [0]


def fresh_tensor(shape, dtype=None, base="any", device=None, cls=None):
    dtype = dtype_of(dtype) or float32
    c = C.cur()
    nm = c.fresh_name(base)
    sort = {"f": T.REAL, "i": T.INT, "b": T.BOOL}[dtype.kind]
    shape = tuple(norm_dim(d) for d in shape)
    f = z3.Function(nm, *([T.INT] * len(shape) + [sort])) if shape else z3.Const(nm, sort)
    return mk(shape, (lambda v: f(*[z(it(i)) for i in v])) if shape else (lambda v: f), dtype, cls or Tensor,
              _device(device))


def empty(*s, dtype=None, device=None, **k): return fresh_tensor(shape_args(s), dtype, "uninit", device)
def rand(*s, dtype=None, device=None, **k):
    raise Unsupported("random numbers")


def zeros_like(a, dtype=None, device=None, **k): return full(a._shape, Fraction(0), dtype or a._dtype, device or a._device)
def ones_like(a, dtype=None, device=None, **k): return full(a._shape, Fraction(1), dtype or a._dtype, device or a._device)
def full_like(a, v, dtype=None, device=None, **k): return full(a._shape, v, dtype or a._dtype, device or a._device)
def empty_like(a, dtype=None, **k): return fresh_tensor(a._shape, dtype or a._dtype, "uninit", a._device)


def eye(n, m=None, dtype=None, device=None, **k):
    m = n if m is None else m
    dtype = dtype_of(dtype) or float32
    return mk((n, m), lambda v: A.cast(T.ite(T.eq(it(v[0]), it(v[1])), 1, 0), dtype.kind), dtype, Tensor, _device(device))


def arange(*a, dtype=None, device=None, **k):
    start, end, step = 0, None, 1
    if len(a) == 1:
        end = a[0]
    elif len(a) == 2:
        start, end = a
    elif len(a) == 3:
        start, end, step = a
    start, end, step = k.get("start", start), k.get("end", end), k.get("step", step)
    s, e, st = unwrap(start), unwrap(end), unwrap(step)
    if any(T.kind(x) == "f" for x in (s, e, st)):
        if not all(is_const(x) for x in (s, e, st)):
            raise Unsupported("symbolic float arange")
        n = max(0, -((s - e) // st))
        dt = dtype_of(dtype) or float32
        return mk((int(n),), lambda v: A.cast(T.add(s, T.mul(it(v[0]), st)), dt.kind), dt, Tensor)
    dt = dtype_of(dtype) or int64
    n = T.sub(e, s)
    if not (is_const(st) and st == 1):
        n = T.idiv(T.add(n, T.sub(st, 1)), st)
    n = T.simp(n)
    if is_const(n):
        n = max(n, 0)
    return mk((n,), lambda v: A.cast(T.add(s, T.mul(it(v[0]), st)), dt.kind), dt, Tensor, _device(device))


def linspace(start, end, steps, dtype=None, device=None, **k):
    s, e, n = T.to_real(unwrap(start)), T.to_real(unwrap(end)), unwrap(steps)
    dt = dtype_of(dtype) or float32
    n1 = T.sub(n, 1)
    step = T.ite(T.le(n, 1), Fraction(0), T.div(T.sub(e, s), T.to_real(n1))) if not (is_const(n) and n <= 1) else Fraction(0)
    # start + i*(end-start)/(steps-1); the unit step case is exact
    d = T.simp(T.sub(T.sub(e, s), T.to_real(n1)))
    unit = (is_const(d) and d == 0)
    if unit:
        if C.cur().opts.get("exact_casts") and dt is float32 and T.is_const(s) and s == 0:
            return mk((n,), lambda v: float32_of(it(v[0])), dt, Tensor, _device(device))
        return mk((n,), lambda v: T.add(s, T.to_real(it(v[0]))), dt, Tensor, _device(device))
    return mk((n,), lambda v: T.add(s, T.mul(T.to_real(it(v[0])), step)), dt, Tensor, _device(device))


def meshgrid(*ts, indexing="ij"):
    if len(ts) == 1 and isinstance(ts[0], (list, tuple)):
        ts = ts[0]
    ts = [A.unsqueeze(t, 0) if t.ndim == 0 else t for t in ts]
    order = list(range(len(ts)))
    if indexing == "xy" and len(ts) >= 2:
        order[0], order[1] = 1, 0
    shape = [ts[k]._shape[0] for k in order]
    out = []
    for k, t in enumerate(ts):
        rd = t.reader()
        p = order.index(k)
        out.append(mk(shape, (lambda rd, p: lambda v: rd((v[p],)))(rd, p), t._dtype, Tensor, t._device))
    return tuple(out)


def tensor(data, dtype=None, device=None, requires_grad=False, cls=None):
    cls = cls or Tensor
    if isinstance(data, Arr):
        r = A.copy(as_cls(data, cls))
        if data.is_np and not cls.is_np and False:
            pass
        return _to(r, dtype, device)
    from .lists import SymList
    if isinstance(data, SymList):
        return data.as_tensor(dtype, cls)
    flat, kinds = [], set()

    def walk(d):
        if isinstance(d, Arr):
            if d.ndim == 0:
                e = d.elem()
                kinds.add(e if False else d.kind)
                flat.append(e)
                return ()
            return walk([d[i] for i in range(d._shape[0])])
        if isinstance(d, (list, tuple)):
            shp = None
            for x in d:
                s = walk(x)
                if shp is not None and s != shp:
                    raise ValueError("expected sequence of length %s at dim" % (shp,))
                shp = s
            return (len(d),) + (shp or ())
        if isinstance(d, str) or d is None:
            raise TypeError("new(): invalid data type %r" % type(d).__name__)
        t = unwrap(d)
        kinds.add("f" if isinstance(d, _pyfloat) else T.kind(t))
        flat.append(t)
        return ()
    shape = walk(data)
    if dtype is None:
        k = "f" if "f" in kinds or not kinds else ("i" if "i" in kinds else "b")
        dtype = {"f": float64 if cls.is_np else float32, "i": int64, "b": bool_}[k]
    dtype = dtype_of(dtype)
    vals = [A.cast(t, dtype.kind) for t in flat]
    dims = shape

    def fn(v):
        ix = [it(i) for i in v]
        if all(isinstance(i, _pyint) for i in ix):
            k = 0
            for i, d in zip(ix, dims):
                k = k * d + i
            return vals[k]
        r = None
        import itertools
        for k, pos in reversed(list(enumerate(itertools.product(*[range(d) for d in dims])))):
            if r is None:
                r = vals[k]
            else:
                r = T.ite(T.and_(*[T.eq(i, p) for i, p in zip(ix, pos)]), vals[k], r)
        return r
    return mk(shape, fn, dtype, cls, _device(device))


def from_numpy(a):
    if not isinstance(a, NdArray):
        raise TypeError("expected np.ndarray (got %s)" % type(a).__name__)
    return as_cls(a, Tensor)


def as_tensor(a, dtype=None, device=None):
    if isinstance(a, NdArray):
        return _to(as_cls(a, Tensor), dtype, device)
    if isinstance(a, Tensor):
        return _to(a, dtype, device)
    return tensor(a, dtype, device)


# ----------------------------------------------------------------- misc functions
def unbind(a, dim=0):
    d = norm_axis(dim, a.ndim)
    n = a._shape[d]
    if not isinstance(n, _pyint):
        raise Unsupported("unbind of a symbolic dimension")
    return tuple(A.getitem(a, tuple([slice(None)] * d + [i])) for i in range(n))


def chunk(a, chunks, dim=0):
    d = norm_axis(dim, a.ndim)
    n = a._shape[d]
    if not isinstance(n, _pyint):
        raise Unsupported("chunk of a symbolic dimension")
    sz = -(-n // chunks)
    return tuple(A.getitem(a, tuple([slice(None)] * d + [slice(i, min(i + sz, n))])) for i in range(0, n, sz))


def split(a, size, dim=0):
    d = norm_axis(dim, a.ndim)
    n = a._shape[d]
    out, p = [], 0
    if isinstance(size, (list, tuple)):
        for s in size:
            out.append(A.getitem(a, tuple([slice(None)] * d + [slice(p, p + s)])))
            p = p + s
        return tuple(out)
    if not isinstance(n, _pyint) or not isinstance(size, _pyint):
        raise Unsupported("split of a symbolic dimension")
    return tuple(A.getitem(a, tuple([slice(None)] * d + [slice(i, min(i + size, n))])) for i in range(0, n, size))


def flatten(a, start_dim=0, end_dim=-1):
    n = a.ndim
    if n == 0:
        return A.reshape(a, (1,))
    s, e = norm_axis(start_dim, n), norm_axis(end_dim, n)
    shape = tuple(a._shape[:s]) + (A.prod_dim(a._shape[s:e + 1]),) + tuple(a._shape[e + 1:])
    return A.reshape(a, shape, copy_=not a._contig)


def mm(a, b):
    if a.ndim != 2 or b.ndim != 2:
        raise RuntimeError("mm: expected 2D tensors")
    return A.matmul(a, b)


def bmm(a, b):
    if a.ndim != 3 or b.ndim != 3:
        raise RuntimeError("bmm: expected 3D tensors")
    return A.matmul(a, b)


def mv(a, b): return A.matmul(a, b)


def dot(a, b):
    if not a.is_np and (a.ndim != 1 or b.ndim != 1):
        raise RuntimeError("1D tensors expected")
    return A.matmul(a, b)


def outer(a, b): return A.mul(A.unsqueeze(a, 1), A.unsqueeze(b, 0))


def cross(a, b, dim=None, **kw):
    shape = A.broadcast_shapes([a._shape, b._shape])
    a, b = A.expand(a, shape), A.expand(b, shape)
    dim = kw.get("axis", dim)
    if dim is None:
        dim = next((k for k, d in enumerate(shape) if isinstance(d, _pyint) and d == 3), None)
        sy = [k for k, d in enumerate(shape) if not isinstance(d, _pyint)]
        if sy and (dim is None or sy[0] < dim):
            for k in sy:
                if dim is None or k < dim:
                    if C.cur().decide(T.eq(dterm(shape[k]), 3)):
                        dim = k
                        break
        if dim is None:
            raise RuntimeError("no dimension of size 3 in input")
    d = norm_axis(dim, len(shape))
    if not (isinstance(shape[d], _pyint) and shape[d] == 3):
        if not A.dim_eq(shape[d], 3):
            raise RuntimeError("inputs dimension must have length 3")
    ra, rb = a.reader(), b.reader()

    def comp(i, v):
        def at(r, k):
            return r(v[:d] + (k,) + v[d + 1:])
        j, k = (i + 1) % 3, (i + 2) % 3
        return T.sub(T.mul(at(ra, j), at(rb, k)), T.mul(at(ra, k), at(rb, j)))

    def fn(v):
        i = it(v[d])
        if is_const(i):
            return comp(i, v)
        return T.ite(T.eq(i, 0), comp(0, v), T.ite(T.eq(i, 1), comp(1, v), comp(2, v)))
    return mk(shape, fn, A.promote([a, b]), Tensor, a._device)


def gather(a, dim, index):
    d = norm_axis(dim, a.ndim)
    rd, ri = a.reader(), index.reader()
    A.check_bounds(index, a._shape[d])
    return mk(index._shape, lambda v: rd(v[:d] + (ri(v),) + v[d + 1:]), a._dtype, type(a), a._device)


def index_select(a, dim, index):
    ix = [slice(None)] * a.ndim
    ix[norm_axis(dim, a.ndim)] = index
    return A.getitem(a, tuple(ix))


def masked_select(a, m): return A.getitem(a, m)


def where(c, a=None, b=None):
    if a is None:
        return nonzero(c, as_tuple=True)
    if not isinstance(c, Arr):
        raise TypeError("where(): condition must be a tensor")
    return A.where(c, a, b)


def nonzero(c, as_tuple=False):
    m = c if c.kind == "b" else A.elementwise(T.to_bool, [c], bool_)
    if c.ndim and all(isinstance(d, _pyint) for d in c._shape) and math.prod(c._shape) <= 6:
        # few entries: case distinction on each of them
        hit = [ix for ix in itertools.product(*[range(d) for d in c._shape])
               if C.cur().decide(T.to_bool(S.strip_detach(m.elem(*ix))))]
        r = tensor([list(ix) for ix in hit], dtype=int64, cls=type(c)) if hit else full((0, c.ndim), 0, int64)
        return tuple(A.getitem(r, (slice(None), k)) for k in range(c.ndim)) if as_tuple else r
    en = A.enumeration(m)
    n = norm_dim(en.count)
    cols = [mk((n,), (lambda k: lambda v: en.at(k, v[0]))(k), int64, type(c), c._device) for k in range(c.ndim)]
    frozen = mk(m._shape, m.reader(), bool_, type(c), c._device)
    for k, x in enumerate(cols):
        x.storage.nz = (x.storage.fn, frozen, k)          # an index table that stands for the mask it lists
    if as_tuple:
        return tuple(cols)
    return A.stack(cols, 1)


def inverse(m):
    if m.ndim < 2 or not A.dim_eq(m._shape[-1], m._shape[-2]):
        raise RuntimeError("inverse: expected square matrices")
    n = m._shape[-1]
    if not isinstance(n, _pyint):
        raise Unsupported("inverse of a symbolic size")
    if m.kind != "f":
        raise RuntimeError("inverse: expected floating point")
    rd = m.reader()
    cache = {}

    def adj(v):
        e = [[rd(v + (i, j)) for j in range(n)] for i in range(n)]

        def det(rows, cols):
            if len(rows) == 0:
                return Fraction(1)
            if len(rows) == 1:
                return e[rows[0]][cols[0]]
            r = Fraction(0)
            for q, cc in enumerate(cols):
                sub = det(rows[1:], cols[:q] + cols[q + 1:])
                t = T.mul(e[rows[0]][cc], sub)
                r = T.add(r, t) if q % 2 == 0 else T.sub(r, t)
            return r
        al = list(range(n))
        d = det(al, al)
        return det, d, al

    def entry(v):
        i, j = v[-2], v[-1]
        if not (isinstance(i, _pyint) and isinstance(j, _pyint)):
            i, j = it(i), it(j)
            r = None
            for p in reversed(range(n)):
                for q in reversed(range(n)):
                    x = entry(v[:-2] + (p, q))
                    r = x if r is None else T.ite(T.and_(T.eq(i, p), T.eq(j, q)), x, r)
            return r
        if n <= 4 and not C.cur().opts.get("opaque_inverse"):
            det, d, al = adj(v[:-2])
            s = det([k for k in al if k != j], [k for k in al if k != i])
            if (i + j) % 2:
                s = T.neg(s)
            return T.div(s, d)
        return opaque_inverse(rd, v[:-2], n)[i][j]
    r = m.like(m._shape, entry)
    r._inverse_of = m
    return r


def opaque_inverse(rd, b, n):
    """entries of M^-1: some matrix X, a function of M's entries, with M X = I (M nonsingular is an assumption:
    torch.inverse raises otherwise)"""
    from . import alg
    c = C.cur()
    e = [[z(A.S_canon(rd(b + (i, j)))) for j in range(n)] for i in range(n)]
    flat = [x for r in e for x in r]
    key = ("opinv", n) + tuple(x.get_id() for x in flat)
    X = [[z3.Function("inv%d_%d_%d" % (n, i, j), *([T.REAL] * (n * n + 1)))(*flat) for j in range(n)] for i in range(n)]
    if key in c.memo:
        return X
    c.memo[key] = flat
    for i in range(n):
        p = alg.to_poly(e[i][n - 1])
        lead = None
        if p and max(p) != ():
            m0 = max(p)
            k0 = p[m0]
            lead = alg.poly_z3({m0: Fraction(1)})
            rest = alg.poly_z3({m: v / k0 for m, v in p.items() if m != m0})
        for j in range(n):
            one = z3.RealVal(1 if i == j else 0)
            if lead is None:
                c.axiom(z3.Sum([e[i][k] * X[k][j] for k in range(n)]) == one)
                continue
            c.rule(lead * X[n - 1][j], (one - z3.Sum([z3.RealVal(0)] + [e[i][k] * X[k][j] for k in range(n - 1)])) /
                   z3.RealVal(str(k0)) - rest * X[n - 1][j])
    return X


def solve(a, b):
    """x with a x = b (a nonsingular)"""
    return A.matmul(inverse(a), b)


def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    d = A.elementwise(lambda x, y: T.le(S.absval(T.sub(x, y)), T.add(T.frac(_pyfloat(atol)), T.mul(T.frac(_pyfloat(rtol)), S.absval(y)))),
                      [a, b], bool_)
    return wrap(all_(d).elem())


def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return A.elementwise(lambda x, y: T.le(S.absval(T.sub(x, y)), T.add(T.frac(_pyfloat(atol)), T.mul(T.frac(_pyfloat(rtol)), S.absval(y)))),
                         [a, b], bool_)


def equal(a, b):
    if a.ndim != b.ndim or not A.shapes_equal(a._shape, b._shape):
        return False
    return wrap(all_(_eq(a, b)).elem())


def is_tensor(x): return isinstance(x, Tensor)


def flip(a, dims):
    dims = [dims] if isinstance(dims, _pyint) else dims
    ds = [norm_axis(d, a.ndim) for d in dims]
    rd = a.reader()
    return a.like(a._shape, lambda v: rd(tuple(T.simp(T.sub(T.sub(dterm(a._shape[k]), 1), it(x))) if k in ds else x
                                               for k, x in enumerate(v))))


def cumsum(a, dim): raise Unsupported("cumsum")
def randperm(n, **k): raise Unsupported("randperm")


def unique(a, sorted=True, return_inverse=False, return_counts=False, dim=None):
    from .special import unique_rows
    return unique_rows(a, dim, return_inverse, return_counts)


# nn.functional
def normalize(a, p=2.0, dim=1, eps=1e-12, out=None):
    n = norm(a, p, dim, True)
    e = T.frac(eps)
    return A.div(a, A.elementwise(lambda x: S.minmax(x, e, True), [n]))


def pad(a, pad, mode="constant", value=0.0):
    pad = list(pad)
    if len(pad) % 2 or len(pad) // 2 > a.ndim:
        raise RuntimeError("Padding length must be divisible by 2")
    n = a.ndim
    lo, hi = [0] * n, [0] * n
    for k in range(len(pad) // 2):
        lo[n - 1 - k], hi[n - 1 - k] = pad[2 * k], pad[2 * k + 1]
    shape = [d if (isinstance(p, _pyint) and p == 0 and isinstance(q, _pyint) and q == 0) else norm_dim(T.simp(unwrap(d + p + q)))
             for d, p, q in zip(a._shape, lo, hi)]
    rd = a.reader()
    lt = [unwrap(x) for x in lo]
    ht = [unwrap(x) for x in hi]
    zero = [is_const(p) and p == 0 and is_const(q) and q == 0 for p, q in zip(lt, ht)]
    kd = a.kind
    if mode == "constant":
        cv = A.cast(unwrap(value if value is not None else 0.0), kd)

        def fn(v):
            cond, src = True, []
            for k in range(n):
                if zero[k]:
                    src.append(v[k])
                    continue
                i = A.isub(v[k], lt[k])
                d = dterm(a._shape[k])
                if not (is_const(lt[k]) and lt[k] == 0):
                    cond = T.and_(cond, T.le(0, it(i)))
                if not (is_const(ht[k]) and ht[k] == 0):
                    cond = T.and_(cond, T.lt(it(i), d))
                src.append(i)
            cond = T.simp(cond)
            if is_const(cond):
                return rd(tuple(src)) if cond else cv
            return T.ite(cond, rd(tuple(src)), cv)
        return a.like(shape, fn)
    if mode == "replicate":
        def fn(v):
            src = []
            for k in range(n):
                if zero[k]:
                    src.append(v[k])
                    continue
                i = it(A.isub(v[k], lt[k]))
                d1 = T.sub(dterm(a._shape[k]), 1)
                src.append(T.simp(T.ite(T.lt(i, 0), 0, T.ite(T.lt(d1, i), d1, i))))
            return rd(tuple(src))
        if sum(1 for q in zero if not q) and n < 3:
            raise NotImplementedError("Only 2D, 3D, 4D, 5D padding with non-constant padding are supported for now")
        return a.like(shape, fn)
    raise Unsupported("pad mode %s" % mode)


# ----------------------------------------------------------------- knn
class KNN(tuple):
    dists = property(lambda s: s[0])
    idx = property(lambda s: s[1])
    knn = property(lambda s: s[2])


def knn_points(p1, p2, lengths1=None, lengths2=None, K=1, version=-1, return_nn=False, return_sorted=True):
    if p1.ndim != 3 or p2.ndim != 3:
        raise ValueError("knn: expected 3-D")
    if K != 1:
        raise Unsupported("K > 1 nearest neighbours")
    if lengths1 is not None or lengths2 is not None:
        raise Unsupported("knn lengths")
    if not A.dim_eq(p1._shape[0], p2._shape[0]):
        raise ValueError("pts1 and pts2 must have the same batch dimension.")
    if not A.dim_eq(p1._shape[2], p2._shape[2]):
        raise ValueError("pts1 and pts2 must have the same point dimension.")
    d = A.reduce_sum(square(_sub(A.unsqueeze(p1, 2), A.unsqueeze(p2, 1))), -1)
    v, i = A.reduce_extreme(d, 2, True, False)
    nn = None
    if return_nn:
        ri, r2 = i.reader(), p2.reader()
        nn = mk((p1._shape[0], p1._shape[1], 1, p1._shape[2]), lambda q: r2((q[0], ri((q[0], q[1], 0)), q[3])),
                p2._dtype, Tensor)
    return KNN((v, i, nn))


# ----------------------------------------------------------------- numpy
class NdArray(Tensor):
    is_np = True
    __hash__ = Arr.__hash__

    def astype(self, dtype, **k): return A.copy(self, dtype_of(dtype))
    def copy(self, *a): return A.copy(self)
    def transpose(self, *o):
        if not o:
            o = list(range(self.ndim))[::-1]
        elif len(o) == 1 and isinstance(o[0], (list, tuple)):
            o = o[0]
        return A.permute(self, o)

    @property
    def size(self):
        return A.numel(self._shape)

    def dot(self, o): return A.matmul(self, o)


def array(x, dtype=None, **k): return _to(tensor(x, cls=NdArray), dtype) if not isinstance(x, NdArray) else A.copy(x, dtype_of(dtype))


def asarray(x, dtype=None, **k):
    if isinstance(x, NdArray):
        return _to(x, dtype)
    return array(x, dtype)


def _np(f):
    def g(*a, **k):
        a = [array(x) if isinstance(x, (list, tuple)) else x for x in a]
        r = f(*a, **k)
        if isinstance(r, Tensor) and not r.is_np:
            return as_cls(r, NdArray)
        return r
    return g


def np_expand_dims(a, axis):
    if isinstance(axis, (tuple, list)):
        n = a.ndim + len(axis)
        for d in sorted(x % n for x in axis):
            a = A.unsqueeze(a, d)
        return a
    return A.unsqueeze(a, axis)


def np_zeros(shape, dtype=None, **k): return as_cls(full(shape_args((shape,)), Fraction(0), dtype_of(dtype) or float64), NdArray)
def np_ones(shape, dtype=None, **k): return as_cls(full(shape_args((shape,)), Fraction(1), dtype_of(dtype) or float64), NdArray)
def np_eye(n, m=None, dtype=None, **k): return as_cls(eye(n, m, dtype_of(dtype) or float64), NdArray)


def np_dot(a, b):
    if not isinstance(a, Arr) or not isinstance(b, Arr):
        return A.mul(a, b)
    return A.matmul(a, b)


def np_isnan(a):
    return isnan(a) if isinstance(a, Arr) else False


class _Finfo:
    def __init__(self, d=None):
        self.eps = 2.220446049250313e-16
        self.max = 1.7976931348623157e308
        self.tiny = self.min = 2.2250738585072014e-308


# ----------------------------------------------------------------- assemble
_METHODS = dict(
    sum=sum_, mean=mean, prod=prod, any=any_, all=all_, max=max_, min=min_, amax=amax, amin=amin, argmax=argmax,
    argmin=argmin, norm=norm, abs=abs_, absolute=abs_, neg=neg, pow=pow_, square=square, sign=sign, round=round_,
    floor=floor_, ceil=ceil_, trunc=trunc_, isnan=isnan, isinf=isinf, clamp=clamp, clip=clamp, matmul=A.matmul, mm=mm, bmm=bmm,
    dot=dot, mv=mv, outer=outer, ger=outer, cross=cross, chunk=chunk, split=split, gather=gather, inverse=inverse,
    index_select=index_select, masked_select=masked_select, nonzero=nonzero, allclose=allclose, isclose=isclose, equal=equal, flip=flip,
    logical_and=logical_and, logical_or=logical_or, logical_not=logical_not_fn, logical_xor=logical_xor,
    add=lambda a, b, alpha=1: _bin(A.add, a, b if alpha == 1 else b * alpha),
    sub=lambda a, b, alpha=1: _bin(_sub, a, b if alpha == 1 else b * alpha),
    mul=lambda a, b: _bin(A.mul, a, b), div=lambda a, b: _bin(A.div, a, b), true_divide=lambda a, b: _bin(A.div, a, b),
    multiply=lambda a, b: _bin(A.mul, a, b), divide=lambda a, b: _bin(A.div, a, b), subtract=lambda a, b: _bin(_sub, a, b),
    floor_divide=lambda a, b: _bin(floordiv, a, b), remainder=lambda a, b: _bin(mod, a, b),
    eq=lambda a, b: _bin(_eq, a, b), ne=lambda a, b: _bin(_ne, a, b), lt=lambda a, b: _bin(_lt, a, b),
    le=lambda a, b: _bin(_le, a, b), gt=lambda a, b: _bin(_gt, a, b), ge=lambda a, b: _bin(_ge, a, b),
    maximum=maximum, minimum=minimum, cumsum=cumsum, unique=unique, atan2=lambda a, b: A.elementwise(atan2_t, [a, b], None, "f"),
    det=lambda a: det_(a), trace=lambda a: sum_(A.stack([A.getitem(a, (i, i)) for i in range(a._shape[0])])),
    diagonal=lambda a, *k, **kw: diagonal(a, *k, **kw),
    float_power=lambda a, b: pow_(_to(a, float64), b), lerp=lambda a, b, w: a + w * (b - a),
    addmm=lambda c, a, b: c + mm(a, b), isfinite=isfinite, bitwise_and=lambda a, b: _bin(_land, a, b),
    bitwise_or=lambda a, b: _bin(_lor, a, b), bitwise_not=lambda a: logical_not(a),
)
_METHODS.update(UN)


def det_(a):
    n = a._shape[-1]
    rd = a.reader()

    def d(v, rows, cols):
        if len(rows) == 1:
            return rd(v + (rows[0], cols[0]))
        r = Fraction(0)
        for q, c in enumerate(cols):
            t = T.mul(rd(v + (rows[0], c)), d(v, rows[1:], cols[:q] + cols[q + 1:]))
            r = T.add(r, t) if q % 2 == 0 else T.sub(r, t)
        return r
    return a.like(a._shape[:-2], lambda v: d(v, list(range(n)), list(range(n))))


def diagonal(a, offset=0, dim1=0, dim2=1):
    if offset:
        raise Unsupported("diagonal offset")
    i, j = norm_axis(dim1, a.ndim), norm_axis(dim2, a.ndim)
    rest = [k for k in range(a.ndim) if k not in (i, j)]
    p = A.permute(a, rest + [i, j])
    rd = p.reader()
    return p.like(tuple(p._shape[:-2]) + (p._shape[-1],), lambda v: rd(v + (v[-1],)))


def _inpl(f):
    def g(self, *a, **k):
        r = f(self, *a, **k)
        self.assign(r)
        return self
    return g


for _n, _f in _METHODS.items():
    if not hasattr(Tensor, _n):
        setattr(Tensor, _n, (lambda f: lambda self, *a, **k: f(self, *a, **k))(_f))
for _n in ("add", "sub", "mul", "div", "clamp", "abs", "neg", "sqrt", "exp", "round", "floor", "ceil", "pow", "reciprocal", "square"):
    setattr(Tensor, _n + "_", _inpl(_METHODS[_n]))


class Module:
    """torch.nn.Module reduced to what an object with forward() needs"""
    training = True

    def __init__(self, *a, **k):
        pass

    def __call__(self, *a, **k):
        return self.forward(*a, **k)

    def to(self, *a, **k): return self
    def eval(self): return self
    def train(self, mode=True): return self
    def parameters(self): return iter(())
    def register_buffer(self, n, t, **k): setattr(self, n, t)


class Dataset:
    pass


def build_torch():
    t = Namespace("torch")
    for n, f in _METHODS.items():
        setattr(t, n, f)
    for n, d in DT.items():
        setattr(t, n, d)
    t.float, t.double, t.long, t.int, t.half, t.uint8 = float32, float64, int64, DT["int32"], DT["float16"], DT["uint8"]
    t.Tensor, t.FloatTensor, t.LongTensor = Tensor, Tensor, Tensor
    t.device, t.dtype, t.Size = Device, DType, Size
    t.is_tensor, t.tensor, t.as_tensor, t.from_numpy = is_tensor, tensor, as_tensor, from_numpy
    for f in (full, zeros, ones, empty, zeros_like, ones_like, full_like, empty_like, eye, arange, linspace, meshgrid,
              unbind, flatten, where, rand, randperm, solve):
        setattr(t, f.__name__, f)
    t.randn = t.randint = rand
    t.stack, t.cat, t.concat, t.einsum = A.stack, A.cat, A.cat, A.einsum
    t.transpose, t.permute = A.transpose, A.permute
    t.t = lambda a: a.t()
    t.squeeze = lambda a, dim=None: A.squeeze(a, dim)
    t.unsqueeze = A.unsqueeze
    t.reshape = lambda a, s: a.reshape(s)
    t.clone = lambda a: a.clone()
    t.numel = lambda a: a.numel()
    t.is_floating_point = lambda a: a.is_floating_point()
    t.nonzero = nonzero
    t.broadcast_tensors = lambda *a: tuple(A.expand(x, A.broadcast_shapes([y._shape for y in a])) for x in a)
    t.manual_seed = lambda s: None
    t.pi = 3.141592653589793

    class no_grad:
        def __enter__(self):
            A.NOGRAD[0] += 1
            return self

        def __exit__(self, *a):
            A.NOGRAD[0] -= 1
            return False

        def __call__(self, f):
            def g(*a, **k):
                with no_grad():
                    return f(*a, **k)
            return g

    class enable_grad(no_grad):
        def __enter__(self):
            self.was, A.NOGRAD[0] = A.NOGRAD[0], 0
            return self

        def __exit__(self, *a):
            A.NOGRAD[0] = self.was
            return False
    t.no_grad, t.inference_mode, t.enable_grad = no_grad, no_grad, enable_grad
    nn, fn = Namespace("torch.nn"), Namespace("torch.nn.functional")
    nn.Module, nn.functional = Module, fn
    fn.pad, fn.normalize = pad, normalize
    fn.relu = lambda a: clamp(a, min=0)
    t.nn, t.functional = nn, fn
    ut, data = Namespace("torch.utils"), Namespace("torch.utils.data")
    data.Dataset, data.DataLoader = Dataset, object
    ut.data, t.utils = data, ut
    la = Namespace("torch.linalg")
    la.norm = lambda a, ord=None, dim=None, keepdim=False: norm(a, 2 if ord is None else ord, dim, keepdim)
    la.vector_norm = lambda a, ord=2, dim=None, keepdim=False: norm(a, ord, dim, keepdim)
    la.inv, la.solve, la.det = inverse, solve, det_
    la.cross = lambda a, b, dim=-1: cross(a, b, dim)
    t.linalg = la
    cu = Namespace("torch.cuda")
    cu.is_available = lambda: False
    t.cuda = cu
    t.__version__ = "2.2.2"
    return t, {"torch": t, "torch.nn": nn, "torch.nn.functional": fn, "torch.utils": ut, "torch.utils.data": data,
               "torch.linalg": la, "torch.cuda": cu}


def build_numpy():
    n = Namespace("numpy")
    n.ndarray = NdArray
    for k, d in DT.items():
        setattr(n, k, d)
    n.bool_, n.intp = bool_, int64
    n.array, n.asarray, n.ascontiguousarray = array, asarray, (lambda a, dtype=None: _to(a, dtype) if a._contig else A.copy(a, dtype_of(dtype)))
    for k, f in _METHODS.items():
        setattr(n, k, _np(f))
    n.zeros, n.ones, n.eye, n.identity = np_zeros, np_ones, np_eye, np_eye
    n.zeros_like, n.ones_like = _np(zeros_like), _np(ones_like)
    n.full = lambda s, v, dtype=None: as_cls(full(s, v, dtype or (float64 if T.kind(unwrap(v)) == "f" else None)), NdArray)
    n.arange = lambda *a, dtype=None, **k: as_cls(arange(*a, dtype=dtype, **k), NdArray)
    n.expand_dims, n.dot, n.isnan, n.finfo = np_expand_dims, np_dot, np_isnan, _Finfo
    n.where = _np(where)
    n.stack = lambda x, axis=0: A.stack(x, axis)
    n.concatenate = lambda x, axis=0: A.cat(list(x), axis)
    n.transpose = lambda a, axes=None: a.transpose(*([axes] if axes is not None else []))
    n.squeeze = lambda a, axis=None: A.squeeze(a, axis)
    n.reshape = lambda a, s: a.reshape(s)
    n.copy = lambda a: A.copy(a)
    n.pi = 3.141592653589793
    n.nan, n.inf, n.newaxis = float("nan"), float("inf"), None
    la = Namespace("numpy.linalg")
    la.inv, la.norm = _np(inverse), _np(lambda a, ord=None, axis=None, keepdims=False: norm(a, 2, axis, keepdims))
    la.det = _np(det_)
    n.linalg = la

    def loadtxt(path, *a, **k):
        from .lists import read_array
        return read_array(path)
    n.loadtxt = loadtxt
    n.floating, n.integer = DType("floating", "f", 8), DType("integer", "i", 5)
    return n, {"numpy": n, "numpy.linalg": la}
