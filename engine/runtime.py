"""Run-time hooks of the instrumented source: loops, comprehensions, builtins, contract dispatch."""
import builtins as B
import functools

from . import ctx as C
from . import terms as T
from . import sym as S
from .sym import Sym, SymInt, SymReal, SymBool, wrap, unwrap
from .tensor import Arr
from .terms import Unsupported, is_const


# ------------------------------------------------------------------ ranges
class SymRange:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step
        st = unwrap(step)
        if not is_const(st):
            c = C.cur()
            if c.decide(T.eq(st, 0)):
                raise ValueError("range() arg 3 must not be zero")
            if not c.decide(T.lt(0, st)):
                raise Unsupported("range with a negative symbolic step")
            a, b, n = T.to_int(unwrap(start)), T.to_int(unwrap(stop)), c.fresh("steps", T.INT)
            c.axiom(T.and_(T.le(0, n), T.implies(T.le(b, a), T.eq(n, 0)),
                           T.implies(T.lt(a, b), T.and_(T.lt(0, n), T.lt(T.add(a, T.mul(T.sub(n, 1), st)), b), T.le(b, T.add(a, T.mul(n, st)))))))
            self.n, self.st = n, st
            return
        if st == 0:
            raise ValueError("range() arg 3 must not be zero")
        n = T.sub(unwrap(stop), unwrap(start)) if st > 0 else T.sub(unwrap(start), unwrap(stop))
        a = abs(st)
        if a != 1:
            n = T.idiv(T.add(n, a - 1), a)
        self.n = T.simp(n)
        self.st = st

    def item(self, k):
        return wrap(T.simp(T.add(unwrap(self.start), T.mul(k, self.st))))

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic range")

    def __len__(self):
        raise Unsupported("native len of a symbolic range")


class SymEnum:
    def __init__(self, it, start=0):
        self.it, self.start, self.n = it, start, sym_n(it)

    def item(self, k):
        return wrap(T.add(k, self.start)), sym_item(self.it, k)

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic enumerate")


class SymZip:
    def __init__(self, its):
        self.its = its
        self.n = next(sym_n(i) for i in its if is_symbolic(i))

    def item(self, k):
        return tuple(sym_item(i, k) for i in self.its)

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic zip")


def is_symbolic(it):
    if isinstance(it, (SymRange, SymEnum, SymZip)):
        return True
    if isinstance(it, Arr):
        return it.ndim > 0 and not isinstance(it._shape[0], int)
    return getattr(it, "__vc_symlist__", False)


def sym_n(it):
    if isinstance(it, Arr):
        return unwrap(it._shape[0])
    return it.n


def sym_item(it, k):
    if isinstance(it, (SymRange, SymEnum, SymZip)):
        return it.item(k)
    return it[wrap(k)]


# ------------------------------------------------------------------ loops
def loop(it, body, get, set_, names, where, stores=(), muts=(), impure=None):
    if not is_symbolic(it):
        for x in it:
            r = body(x)
            if r[0] in ("break", "return"):
                return r
        return ("end", None)
    return sym_loop(it, body, get, set_, names, where, stores, muts, impure)


def sym_loop(it, body, get, set_, names, where, stores=(), muts=(), impure=None):
    c = C.cur()
    n = T.simp(sym_n(it))
    inv = find_invariant(c, where)
    if inv is None:
        from .lists import auto_loop
        return auto_loop(it, n, body, get, set_, names, where, muts, impure)
    return invariant_loop(c, inv, it, n, body, get, set_, names, where, stores, muts)


def find_invariant(c, where):
    for pat, inv in c.opts.get("invariants", {}).items():
        if where.startswith(pat):
            return inv
    return None


def read_state(get, names):
    st = {}
    for x in names:
        try:
            st[x] = get(x)
        except NameError:
            pass
    return st


class Stale:
    """the value of a name the loop invariant says nothing about: not to be used before the body assigns it"""

    def __init__(self, name):
        object.__setattr__(self, "_vc_name", name)

    def __getattribute__(self, k):
        if k == "__class__":
            return Stale
        raise Unsupported("the loop carries %s, which its invariant does not describe" % object.__getattribute__(self, "_vc_name"))

    def _no(self, *a, **k):
        self.used

    __bool__ = __len__ = __iter__ = __getitem__ = __call__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __eq__ = __ne__ = _no
    __lt__ = __le__ = __gt__ = __ge__ = __matmul__ = __rmatmul__ = __truediv__ = __contains__ = __int__ = __float__ = __hash__ = _no


def invariant_loop(c, inv, it, n, body, get, set_, names, where, stores=(), muts=()):
    """inv(V, phase, state, k) with phases: 'init' (prove), 'havoc' (return a new state and assume), 'step' (prove)"""
    V = c.V
    from .lists import SymList
    muts = tuple(x for x, v in read_state(get, muts).items() if isinstance(v, SymList))
    bound, names = names, tuple(names) + tuple(stores) + muts      # stores, muts: changed in place only
    entry = read_state(get, names)
    mem = {"over": it}
    inv(V, "init", entry, 0, mem)
    if not c.decide(T.lt(0, n)):
        return ("end", None)
    k = c.fresh("iter", T.INT)
    c.assume(T.and_(k >= 0, T.lt(k, n)))
    new = inv(V, "havoc", dict(entry), wrap(k), mem)
    for x in bound:
        if x in entry and x not in new:
            set_(x, Stale(x))                               # carried from iteration to iteration, but not described
    for x, v in new.items():
        if x in bound:
            set_(x, v)
        elif v is not entry.get(x):
            raise Unsupported("a loop invariant replaces a name the loop does not assign")
    from .tensor import Storage
    loops = c.memo.setdefault("loops", [])
    loops.append((Storage._n, {v.storage.id for v in new.values() if isinstance(v, Arr)} | {v.id for v in new.values() if isinstance(v, SymList)}))
    r = body(sym_item(it, k))
    loops.pop()
    if r[0] in ("break", "return"):
        return r
    inv(V, "step", read_state(get, names), wrap(T.add(k, 1)), mem)
    if c.decide(T.eq(T.add(k, 1), n)):
        return ("end", None)
    raise C.PathEnd()


# ------------------------------------------------------------------ comprehensions
def comp(f, it, kind, conds=()):
    if not is_symbolic(it):
        if kind == "gen":
            return (f(x) for x in it if B.all(c(x) for c in conds))
        return [f(x) for x in it if B.all(c(x) for c in conds)]
    from .lists import sym_comp
    return sym_comp(f, it, kind, conds)


def comp_n(f, iters, conds, kind):
    """comprehension with several generators: iters[k] and conds[k] get the items of the generators before (and at) k"""
    first = iters[0]()
    if is_symbolic(first):
        from .lists import sym_comp2
        return sym_comp2(f, first, iters, conds, kind)

    def rec(k, items, it):
        if is_symbolic(it):
            raise Unsupported("comprehension over a sequence of symbolic length inside another")
        for x in it:
            now = items + (x,)
            if B.all(q(*now) for q in conds[k]):
                if k + 1 == len(iters):
                    yield f(*now)
                else:
                    yield from rec(k + 1, now, iters[k + 1](*now))
    g = rec(0, (), first)
    return g if kind == "gen" else list(g)


def new_list():
    c = C.CUR
    if c is not None and c.opts.get("lists"):
        from .lists import SymList
        return SymList.of([])
    return []


def join(s, it):
    if isinstance(s, str) and getattr(it, "__vc_symlist__", False):
        from .lists import joined
        return joined(s, it)
    return s.join(it)


def _open(*a, **k):
    from .lists import opened
    return opened(*a, **k)


def _sorted(it, **k):
    if getattr(it, "__vc_symlist__", False):
        r = it.copy()
        r.sort(**k)
        return r
    return sorted(it, **k)


# ------------------------------------------------------------------ contract dispatch
def vc_fn(qual):
    def deco(f):
        if isinstance(f, (staticmethod, classmethod, property)):
            return f

        @functools.wraps(f)
        def g(*a, **k):
            c = C.CUR
            if c is not None:
                c.called.add(qual)
                st = c.stubs.get(qual)
                if st is not None and not c.in_stub.get(qual):
                    return st(f, *a, **k)
            return f(*a, **k)
        g.__vc_qual__ = qual
        return g
    return deco


# ------------------------------------------------------------------ builtins
class _Conv:
    """int/float/bool replacements usable as types"""

    def __init__(self, real, f):
        self.real, self.f = real, f

    def __call__(self, *a, **k):
        return self.f(*a, **k)


def _int(x=0, *a):
    if isinstance(x, Arr):
        x = x.item()
    if isinstance(x, Sym):
        return wrap(T.to_int(x.t))
    return int(x, *a)


def _float(x=0.0):
    if isinstance(x, Arr):
        x = x.item()
    if isinstance(x, Sym):
        return wrap(T.to_real(x.t))
    if hasattr(x, "__vc_float__"):
        return x.__vc_float__()
    if isinstance(x, int) and C.CUR is not None:
        return float(x)
    return float(x)


def _bool(x=False):
    return bool(x)


def _len(x):
    if isinstance(x, Arr):
        if x.ndim == 0:
            raise TypeError("len() of a 0-d tensor")
        return x._shape[0]
    if getattr(x, "__vc_symlist__", False):
        return wrap(x.n)
    if isinstance(x, (SymRange, SymEnum, SymZip)):
        return wrap(x.n)
    m = getattr(type(x), "__len__", None)
    if m is not None and not isinstance(x, (list, tuple, dict, str, set)):
        r = m(x)
        return r
    return len(x)


def _range(*a):
    a = [x.item() if isinstance(x, Arr) else x for x in a]
    if B.all(isinstance(x, int) for x in a):
        return range(*a)
    if B.any(isinstance(x, (float, SymReal)) for x in a):
        raise TypeError("'float' object cannot be interpreted as an integer")
    if len(a) == 1:
        r = SymRange(0, a[0], 1)
    elif len(a) == 2:
        r = SymRange(a[0], a[1], 1)
    else:
        r = SymRange(*a)
    if is_const(r.n):
        return [r.item(k) for k in range(max(0, r.n))]
    return r


def _iterable(x):
    """instances of repo classes: iterate through __len__/__getitem__ of possibly symbolic length"""
    return x


def _enumerate(it, start=0):
    if is_symbolic(it):
        return SymEnum(it, start)
    return enumerate(it, start)


def _zip(*its, **k):
    if B.any(is_symbolic(i) for i in its):
        return SymZip(list(its))
    return zip(*its)


def _isinstance(x, cls):
    if isinstance(cls, tuple):
        return B.any(_isinstance(x, k) for k in cls)
    if isinstance(cls, _Conv):
        cls = cls.real
    if isinstance(x, Sym):
        if cls is int:
            return isinstance(x, (SymInt, SymBool))
        if cls is float:
            return isinstance(x, SymReal)
        if cls is bool:
            return isinstance(x, SymBool)
        import numbers
        if cls is numbers.Number or cls is numbers.Real:
            return True
        return False
    from .faketorch import DType
    if isinstance(cls, DType):
        return False
    if cls is list and type(x).__name__ == "SymList":
        return True
    if isinstance(cls, type):
        from .faketorch import Tensor, NdArray
        if isinstance(x, NdArray) and cls is Tensor:
            return False
    return isinstance(x, cls)


def _type(x, *a):
    if a:
        return type(x, *a)
    if isinstance(x, SymInt):
        return TYPES["int"]
    if isinstance(x, SymReal):
        return TYPES["float"]
    if isinstance(x, SymBool):
        return TYPES["bool"]
    t = type(x)
    if t in _BACK:
        return _BACK[t]
    return t


def _any(it):
    from .lists import quant
    if getattr(it, "__vc_symlist__", False):
        return quant(it, True)
    for x in it:
        if x:
            return True
    return False


def _all(it):
    from .lists import quant
    if getattr(it, "__vc_symlist__", False):
        return quant(it, False)
    for x in it:
        if not x:
            return False
    return True


def _mm(is_max):
    real = max if is_max else min

    def f(*a, **k):
        if len(a) == 1 and getattr(a[0], "__vc_symlist__", False):
            from .lists import extreme
            return extreme(a[0], is_max)
        xs = list(a[0]) if len(a) == 1 else list(a)
        if k:
            return real(xs, **k)
        xs = [x.item() if isinstance(x, Arr) else x for x in xs]
        if not B.any(isinstance(x, Sym) for x in xs):
            return real(xs)
        r = unwrap(xs[0])
        for x in xs[1:]:
            r = S.minmax(r, unwrap(x), is_max)
        return wrap(simplify_ite(r))
    return f


def simplify_ite(t):
    return T.simp(t)


def _sum(it, start=0):
    if getattr(it, "__vc_symlist__", False):
        from .lists import total
        return total(it, start)
    r = start
    for x in it:
        r = r + x
    return r


def _set(it=()):
    xs = it if isinstance(it, (str, dict)) else it
    if getattr(xs, "__vc_symlist__", False):
        from .lists import SymSet
        return SymSet(xs)
    xs = list(xs)
    if B.any(isinstance(x, Sym) for x in xs):
        out = []
        for x in xs:
            if not B.any(bool(x == y) for y in out):
                out.append(x)
        return set_of(out)
    return set(xs)


class set_of(list):
    """a set of symbolic scalars (already pairwise distinct)"""

    def add(self, x):
        if not B.any(bool(x == y) for y in self):
            self.append(x)


def _abs(x):
    return abs(x)


def _round(x, n=None):
    if isinstance(x, Sym):
        if n is not None:
            raise Unsupported("round to digits")
        return wrap(S.rnd(T.to_real(x.t)))
    return round(x, n) if n is not None else round(x)


def _list(it=()):
    if type(it).__name__ == "SymDict":
        return it.keys()
    if getattr(it, "__vc_symlist__", False):
        return it.copy()
    if is_symbolic(it):
        from .lists import sym_comp
        return sym_comp(lambda x: x, it, "list", ())
    return list(it)


def _tuple(it=()):
    if getattr(it, "__vc_symlist__", False):
        return it.copy()
    return tuple(it)


def _hasattr(x, k):
    try:
        getattr(x, k)
        return True
    except AttributeError:
        return False


TYPES = {"int": _Conv(int, _int), "float": _Conv(float, _float), "bool": _Conv(bool, _bool),
         "list": _Conv(list, _list), "tuple": _Conv(tuple, _tuple), "set": _Conv(set, _set), "range": _Conv(range, _range)}
_BACK = {int: TYPES["int"], float: TYPES["float"], bool: TYPES["bool"], list: TYPES["list"], tuple: TYPES["tuple"],
         set: TYPES["set"]}


def _conv_eq(self, o):
    return self is o or (isinstance(o, _Conv) and o.real is self.real) or o is self.real


_Conv.__eq__ = _conv_eq
_Conv.__ne__ = lambda self, o: not _conv_eq(self, o)
_Conv.__hash__ = lambda self: hash(self.real)
_Conv.__repr__ = lambda self: repr(self.real)
_Conv.__getattr__ = lambda self, k: getattr(self.real, k)
_Conv.__or__ = lambda self, o: self.real
_Conv.__getitem__ = lambda self, k: self.real[k]
_Conv.__mro_entries__ = lambda self, bases: (self.real,)


def overrides():
    d = {"len": _len, "enumerate": _enumerate, "zip": _zip, "isinstance": _isinstance, "type": _type,
         "any": _any, "all": _all, "max": _mm(True), "min": _mm(False), "sum": _sum, "round": _round, "sorted": _sorted, "open": _open}
    d.update(TYPES)
    return d


def hooks():
    return {"__vc_loop__": loop, "__vc_comp__": comp, "__vc_comp_n__": comp_n, "__vc_fn__": vc_fn, "__vc_list__": new_list, "__vc_join__": join}
