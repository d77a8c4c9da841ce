"""Lists of symbolic length, as a length and a function from positions to values; dictionaries with symbolic keys; strings known
only up to equality."""
import re

import z3

from . import ctx as C
from . import terms as T
from .terms import Unsupported, is_const, z
from .sym import Sym, wrap, unwrap
from . import sym as S
from .tensor import Arr, Storage, it, mk

TIME = z3.Function("number_in_text", T.INT, T.REAL)        # float(s)


class SymStr:
    """a string: equal strings have equal numbers"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        if isinstance(o, SymStr):
            return wrap(T.eq(self.t, o.t))
        if isinstance(o, str):
            raise Unsupported("comparison with a particular string")
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return wrap(T.not_(unwrap(r)))

    def __hash__(self):
        return 0x57

    def __vc_float__(self):
        return wrap(TIME(z(self.t)))

    def _no(self, *a):
        raise Unsupported("the content of a string")

    __lt__ = __le__ = __gt__ = __ge__ = __getitem__ = __add__ = __radd__ = __iter__ = __len__ = __bool__ = _no


# ------------------------------------------------------------------ text with symbolic parts
# A string with symbolic parts is a real string in which a token (two private-use characters around a number) stands for each part, so
# that slicing, joining paths etc. run as they are. The parts are taken to contain no separators, and to be compared only by texts_equal.
TOKEN = re.compile("(\ue000[0-9]+\ue001)")


def token(kind, x):
    c = C.cur()
    tab, by = c.memo.setdefault("tokens", []), c.memo.setdefault("token_of", {})
    key = (kind, T.key(x)) if kind == "part" else None
    if key is None or key not in by:
        tab.append((kind, x))
        if key is not None:
            c.keep.append(z(x))
            by[key] = len(tab) - 1
        return "\ue000%d\ue001" % (len(tab) - 1)
    return "\ue000%d\ue001" % by[key]


def payload(t):
    return C.cur().memo["tokens"][int(t[1:-1])]


def has_token(s):
    return "\ue000" in s or "\ue001" in s


def joined(sep, lst):
    lst._seen()
    return token("join", (sep, lst.copy()))


def texts_equal(a, b):
    """condition under which two strings are equal"""
    pa, pb = TOKEN.split(a), TOKEN.split(b)
    if len(pa) != len(pb) or any(x != y for x, y in zip(pa[::2], pb[::2])) or any(has_token(x) for x in pa[::2] + pb[::2]):
        return a == b and not any(has_token(x) for x in pa[::2])
    r = True
    for x, y in zip(pa[1::2], pb[1::2]):
        (k, u), (l, v) = payload(x), payload(y)
        if k != l or k != "part":
            return a == b
        r = T.and_(r, T.eq(u, v))
    return r


def map_text(s, f):
    """the string with its symbolic parts changed by f"""
    def one(x):
        kind, u = payload(x)
        return token("part", f(u)) if kind == "part" else token("join", (u[0], f(u[1])))
    p = TOKEN.split(s)
    if any(has_token(x) for x in p[::2]):
        raise Unsupported("a string cut inside a symbolic part")
    return "".join(one(x) if i % 2 else x for i, x in enumerate(p))


def merge(c, a, b):
    """if c then a else b"""
    if a is b:
        return a
    if isinstance(a, str) and isinstance(b, str):
        if a == b:
            return a
        pa, pb = TOKEN.split(a), TOKEN.split(b)
        if len(pa) != len(pb) or any(x != y for x, y in zip(pa[::2], pb[::2])):
            raise Unsupported("a list of strings of different forms")
        out = list(pa)
        for q in range(1, len(pa), 2):
            (k, u), (l, v) = payload(pa[q]), payload(pb[q])
            if k != l or (k == "join" and u[0] != v[0]):
                raise Unsupported("a list of strings of different forms")
            out[q] = token("part", T.ite(c, u, v)) if k == "part" else token("join", (u[0], merge(c, u[1], v[1])))
        return "".join(out)
    if isinstance(a, SymList) and isinstance(b, SymList):
        a, b = a.copy(), b.copy()
        return SymList(unwrap(merge(c, wrap(a.size()), wrap(b.size()))), lambda k: merge(c, a.at(k), b.at(k)))
    if isinstance(a, dict) and isinstance(b, dict) and list(a) == list(b):
        return {k: merge(c, a[k], b[k]) for k in a}
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, SymStr) and isinstance(b, SymStr):
        return SymStr(T.ite(c, a.t, b.t))
    try:
        return wrap(T.ite(c, unwrap(a), unwrap(b)))
    except Unsupported:
        raise Unsupported("a list of different kinds of values")


def no_branch(f):
    """f() without any case distinction: its value is then a function of the free positions"""
    c = C.cur()
    forks = lambda: sum(fork for _, fork in c.taken) + sum(fork for sc in c.nested for _, fork in sc.taken)
    m = forks()
    hard, c.hard = c.hard, True
    try:
        r = f()
    finally:
        c.hard = hard
    if forks() != m:
        raise Unsupported("case distinction on an element of a sequence of symbolic length")
    return r


def generic(bounds, f):
    """f at generic positions below the bounds (each a function of the positions before), for its exceptions and branches"""
    c = C.cur()
    mark = len(c.facts)
    c.solver.push()
    try:
        ks = []
        for b in bounds:
            k = c.fresh("el", T.INT)
            c.add_fact(T.and_(T.le(0, k), T.lt(k, b(*ks))), "range")
            ks.append(k)
        return no_branch(lambda: f(*ks)), ks
    finally:
        c.solver.pop()
        tail = c.facts[mark:]
        del c.facts[mark:]
        for g in tail:
            if g.kind == "axiom":
                c.facts.append(g)
                c.solver.add(g.term)


def created_since(mark, t):
    """whether a term contains an unknown made after the mark (it may differ from position to position)"""
    now = C.cur().fresh_n
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                base, _, n = x.decl().name().rpartition("!")
                base, n = (base, int(n)) if base and n.isdigit() else (x.decl().name(), 0)
                if mark.get(base, 0) <= n < now.get(base, 0):
                    return True
            todo.extend(x.children())
    return False


def at_positions(t, ks, i, mark):
    """the term with the generic positions replaced"""
    if is_const(t):
        return t
    r = z3.substitute(z(t), *[(k, z(unwrap(x))) for k, x in zip(ks, i)])
    return T.simp(r)


def fixed(t, ks, mark):
    """checks that a term is a function of the generic positions"""
    if mark is not None and not is_const(t):
        e = [(k, z3.IntVal(0)) for k in ks]
        if created_since(mark, z3.substitute(z(t), *e)):
            raise Unsupported("an unknown of each iteration")


def template(v, ks, mark=None):
    """a value at generic positions -> the function from positions to values"""
    if isinstance(v, Arr) and v.ndim:
        if any(not is_const(d) and not isinstance(d, int) and any(k.get_id() in T.consts_in(unwrap(d)) for k in ks) for d in v._shape):
            raise Unsupported("a list of arrays of different sizes")
        es = [z3.FreshConst(T.INT, "e") for _ in v._shape]
        val = S.strip_detach(v.elem(*es))
        fixed(val, ks, mark)
        sh, dt, cls, dev = v._shape, v._dtype, type(v), v._device

        def make(*i):
            r = mk(sh, lambda w: at_positions(val, list(ks) + es, list(i) + [it(x) for x in w], None), dt, cls, dev)
            r.storage.pinned = "element of a list of symbolic length"
            return r
        return make
    if isinstance(v, tuple):
        fs = [template(x, ks, mark) for x in v]
        return lambda *i: tuple(f(*i) for f in fs)
    if isinstance(v, SymStr):
        f = template(wrap(v.t) if not is_const(v.t) else v.t, ks, mark)
        return lambda *i: SymStr(unwrap(f(*i)))
    if isinstance(v, Sym):
        if is_const(v.t):
            return lambda *i: v
        fixed(v.t, ks, mark)
        return lambda *i: wrap(T.simp(z3.substitute(v.t, *[(k, z(unwrap(x))) for k, x in zip(ks, i)])))
    if isinstance(v, str) and has_token(v):
        def sub(u, i):
            if isinstance(u, SymList):
                return template(u, ks, mark)(*i)
            fixed(u, ks, mark)
            return u if is_const(u) else T.simp(z3.substitute(z(u), *[(k, z(unwrap(x))) for k, x in zip(ks, i)]))
        return lambda *i: map_text(v, lambda u: sub(u, i))
    if v is None or isinstance(v, (str, int, float, bool)):
        return lambda *i: v
    if isinstance(v, dict) and all(isinstance(k, str) and not has_token(k) for k in v):
        fs = {k: template(x, ks, mark) for k, x in v.items()}
        return lambda *i: {k: f(*i) for k, f in fs.items()}
    if isinstance(v, SymList):
        if v.items is not None:
            fs = [template(x, ks, mark) for x in v.items]
            return lambda *i: SymList.of([f(*i) for f in fs])
        n = template(wrap(v.size()), ks, mark)
        e = z3.FreshConst(T.INT, "e")
        inner = template(v.copy().at(e), list(ks) + [e], mark)
        return lambda *i: SymList(unwrap(n(*i)), lambda k: inner(*i, k))
    if type(v).__name__ in ("Tensor", "NdArray") and getattr(v, "ndim", 1) == 0:
        return template(wrap(v.__vc_scalar__()), ks, mark)
    raise Unsupported("a list of %s of symbolic length" % type(v).__name__)


class SymList:
    def __init__(self, n, get, has=None, items=None):
        self.n, self.get, self.has, self.items, self.source = n, get, has, items, None
        Storage._n += 1
        self.id = Storage._n

    @classmethod
    def of(cls, xs):
        return cls(len(xs), None, None, list(xs))

    @property
    def __vc_symlist__(self):
        return self.items is None

    # -- reading
    def _seen(self):
        for rec in C.cur().memo.get("records", ()):
            if self.id <= rec.mark:
                rec.read.add(self.id)

    def size(self):
        self._seen()
        if self.n is None:
            raise Unsupported("the elements of a set that was changed")
        return self.n

    def at(self, k):
        self._seen()
        if self.items is not None:
            if is_const(k):
                return self.items[k]
            if not self.items:
                raise IndexError("list index out of range")
            r = self.items[-1]
            for q in range(len(self.items) - 2, -1, -1):
                r = merge(T.eq(k, q), self.items[q], r)
            return r
        if self.get is None:
            raise Unsupported("the elements of a set that was changed")
        return self.get(k)

    def __getitem__(self, k):
        self._seen()
        if self.items is not None and isinstance(k, (int, slice)):
            r = self.items[k]
            return SymList.of(r) if isinstance(k, slice) else r
        if isinstance(k, slice):
            return self.cut(k)
        k, n, c = unwrap(k), self.size(), C.cur()
        if c.decide(T.lt(k, 0)):
            k = T.add(k, n)
            if c.decide(T.lt(k, 0)):
                raise IndexError("list index out of range")
        if not c.decide(T.lt(k, n)):
            raise IndexError("list index out of range")
        return self.at(T.simp(k))

    def cut(self, k):
        if k.step is not None:
            raise Unsupported("slice of a list of symbolic length with a step")
        c, n, get = C.cur(), self.size(), self.at_fn()

        def bound(x, default):
            if x is None:
                return default
            x = unwrap(x)
            if c.decide(T.lt(x, 0)):
                x = T.add(x, n)
                return x if c.decide(T.le(0, x)) else 0
            return x if c.decide(T.le(x, n)) else n
        lo, hi = bound(k.start, 0), bound(k.stop, n)
        size = T.sub(hi, lo) if c.decide(T.le(lo, hi)) else 0
        return SymList(T.simp(size), lambda i: get(T.simp(T.add(lo, i))))

    def __len__(self):
        self._seen()
        if self.items is None:
            raise Unsupported("native len of a list of symbolic length")
        return len(self.items)

    def __iter__(self):
        self._seen()
        if self.items is None:
            raise Unsupported("native iteration over a list of symbolic length")
        return iter(self.items)

    def __bool__(self):
        self._seen()
        return len(self.items) > 0 if self.items is not None else C.cur().decide(T.lt(0, self.size()))

    def __contains__(self, x):
        self._seen()
        if self.items is not None:
            return any(bool(x == y) for y in self.items)
        if self.has is None or not isinstance(x, SymStr):
            raise Unsupported("membership in a list of symbolic length")
        return C.cur().decide(self.has(x.t))

    def _no(self, *a, **k):
        raise Unsupported("operation on a list")

    __add__ = __radd__ = __mul__ = __rmul__ = __iadd__ = __setitem__ = __delitem__ = __lt__ = __gt__ = __eq__ = _no
    insert = pop = clear = reverse = index = count = update = as_tensor = _no
    __hash__ = None

    def copy(self):
        self._seen()
        r = SymList(self.n, self.get, self.has, None if self.items is None else list(self.items))
        r.source = self.source
        return r

    def stack(self, dim=0):
        """the arrays of the list as one array"""
        from .tensor import norm_axis, stack
        self._seen()
        if self.items is not None:
            return stack(self.items, dim)
        if not C.cur().decide(T.lt(0, self.size())):
            raise RuntimeError("stack expects a non-empty TensorList")
        n, at = self.size(), self.at_fn()
        one = at(z3.FreshConst(T.INT, "e"))
        if not isinstance(one, Arr):
            raise Unsupported("stack of other things than arrays")
        dim = norm_axis(dim, one.ndim + 1)
        sh = tuple(one._shape)
        return mk(sh[:dim] + (n,) + sh[dim:], lambda v: at(it(v[dim])).elem(*(v[:dim] + v[dim + 1:])), one._dtype, type(one), one._device)

    # -- writing
    def _touch(self):
        c = C.cur()
        if any(self.id <= rec.mark for rec in c.memo.get("records", ())):
            raise Unsupported("loop body changes a list otherwise than by appending")
        for mark, mine in c.memo.get("loops", ()):
            if self.id <= mark and self.id not in mine:
                raise Unsupported("loop body changes a list its invariant does not describe")
        if (c.nested or c.journal is not None) and not c.memo.get("records"):
            raise Unsupported("a list is changed while a generic element is evaluated")

    def set(self, n, get, has=None):
        self.n, self.get, self.has, self.items = n, get, has, None

    def append(self, x):
        for rec in C.cur().memo.get("records", ())[-1:]:
            if self.id <= rec.mark:
                rec.added.append((self, x))
                return
        self._touch()
        if self.items is not None:
            self.items.append(x)
            self.n = len(self.items)
            return
        n, old, has = self.size(), self.at_fn(), self.has
        if has is not None and not isinstance(x, SymStr):
            has = None
        self.set(T.simp(T.add(n, 1)), lambda k: merge(T.eq(k, n), x, old(k)), None if has is None else lambda s: T.or_(T.eq(s, x.t), has(s)))

    add = _no

    def at_fn(self):
        q = SymList(self.n, self.get, self.has, self.items)
        return q.at

    def extend(self, xs):
        if isinstance(xs, SymList) and xs.items is None:
            self._no()
        for x in list(xs):
            self.append(x)

    def remove(self, x):
        self._touch()
        if self.items is not None:
            for q, y in enumerate(self.items):
                if bool(x == y):
                    del self.items[q]
                    self.n = len(self.items)
                    return
            raise ValueError("list.remove(x): x not in list")
        if x not in self:
            raise ValueError("list.remove(x): x not in list")
        has, s0 = self.has, x.t
        # the elements of such a list are distinct (SymDict.keys)
        self.set(None, None, lambda s: T.and_(has(s), T.ne(s, s0)))

    def sort(self, key=None, reverse=False):
        self._touch()
        c = C.cur()
        if self.items is not None:
            if any(isinstance(key(x) if key else x, (Sym, SymStr)) or isinstance(x, tuple) for x in self.items) and len(self.items) > 1:
                raise Unsupported("sorting symbolic values")
            self.items.sort(key=key, reverse=reverse)
            return
        n, old = z(self.size()), self.at_fn()
        p = z3.Function(c.fresh_name("sorted"), T.INT, T.INT)
        q = z3.Function(c.fresh_name("unsorted"), T.INT, T.INT)
        k, j = z3.FreshConst(T.INT, "q"), z3.FreshConst(T.INT, "q")
        inside = lambda x: z3.And(0 <= x, x < n)
        c.assume(z3.ForAll([k], z3.Implies(inside(k), z3.And(inside(p(k)), q(p(k)) == k)), patterns=[p(k)]))
        c.assume(z3.ForAll([k], z3.Implies(inside(k), z3.And(inside(q(k)), p(q(k)) == k)), patterns=[q(k)]))
        c.memo.setdefault("sorts", []).append((p, q))

        def measure(x):
            v = key(x) if key is not None else x
            while isinstance(v, tuple) and v:
                v = v[0]
            return v
        generic([lambda: n], lambda e: measure(old(e)))
        m = lambda k: measure(old(p(k)))
        a, b = m(k), m(j)
        if isinstance(a, Sym) and isinstance(b, Sym):           # nothing is known about the order of strings
            lo, hi = (b, a) if reverse else (a, b)
            c.assume(z3.ForAll([k, j], z3.Implies(z3.And(0 <= k, k < j, j < n), z(T.le(lo.t, hi.t))), patterns=[z3.MultiPattern(p(k), p(j))]))
        self.set(self.n, lambda i: old(p(z(i))), self.has)


class SymDict:
    """a dictionary from n different strings; not changed by the code under verification"""

    def __init__(self, name, n, data=None):
        c = C.cur()
        self.name, self.n, self.data = name, n, data
        self.id_ = z3.Function(c.fresh_name(name + "_key"), T.INT, T.INT)
        self.pos = z3.Function(c.fresh_name(name + "_position"), T.INT, T.INT)
        k = z3.FreshConst(T.INT, "q")
        c.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < z(n)), self.pos(self.id_(k)) == k), patterns=[self.id_(k)]))

    def key(self, k):
        return SymStr(self.id_(z(k)))

    def member(self, s):
        p = self.pos(z(s))
        return z3.And(0 <= p, p < z(self.n), self.id_(p) == z(s))

    def keys(self):
        r = SymList(self.n, self.key, self.member)
        r.source = self
        return r

    def __contains__(self, x):
        return x in self.keys()

    __vc_symlist__ = True

    def __bool__(self):
        return bool(self.keys())

    def __getattr__(self, k):
        raise Unsupported("%s of a dictionary with symbolic keys" % k)

    def _no(self, *a):
        raise Unsupported("change or content of a dictionary with symbolic keys")

    __setitem__ = __delitem__ = __getitem__ = __iter__ = __len__ = __eq__ = _no
    __hash__ = None


class SymFile:
    """an open text file with a symbolic number of lines"""
    __vc_symlist__ = True

    def __init__(self, lines):
        self.lines = lines

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def readlines(self):
        if self.lines is None:
            raise Unsupported("a file read twice")
        r, self.lines = self.lines, None
        return r.copy()

    def __iter__(self):
        raise Unsupported("native iteration over a file of symbolic length")

    def __getattr__(self, k):
        raise Unsupported("%s of a file of symbolic length" % k)


def read_array(path):
    """content of an image or of a file of numbers: as the contract says"""
    f = C.cur().memo.get("content of files")
    if f is None or not isinstance(path, str):
        raise Unsupported("content of files")
    p = TOKEN.split(path)
    if len(p) != 3 or has_token(p[0] + p[2]) or payload(p[1])[0] != "part":
        raise Unsupported("name of a file")
    return f(p[0], wrap(payload(p[1])[1]), p[2])


def opened(path, mode="r", *a, **k):
    files = C.cur().memo.get("files", {})
    if path in files:
        if mode not in ("r", "rt"):
            raise Unsupported("a given file is opened to write")
        return SymFile(files[path])
    return open(path, mode, *a, **k)


def elements(it):
    """(length, function from positions to items) of an iterable of symbolic length"""
    from . import runtime as R
    if isinstance(it, SymFile):
        it = it.readlines()
    if isinstance(it, SymDict):
        it = it.keys()
    if isinstance(it, SymList):
        it._seen()
        return it.size(), it.at_fn()
    n = R.sym_n(it)
    return n, lambda k: R.sym_item(it, k)


def holds(conds, args):
    r = True
    for f in conds:
        v = f(*args)
        r = T.and_(r, unwrap(v))
    return r


def filtered(c, dims, cond):
    """an enumeration, in some order, of the positions of a box where cond holds"""
    d = len(dims)
    m = c.fresh("hits", T.INT)
    at = [z3.Function(c.fresh_name("hit"), T.INT, T.INT) for _ in dims]
    rank = z3.Function(c.fresh_name("rank"), *([T.INT] * (d + 1)))
    c.assume(m >= 0)
    box = lambda ks: z3.And(*[z3.And(0 <= k, k < z(n)) for k, n in zip(ks, dims)])
    k = z3.FreshConst(T.INT, "q")
    pos = [f(k) for f in at]
    c.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m), z3.And(box(pos), z(cond(*pos)), rank(*pos) == k)), patterns=[at[0](k)]))
    ks = [z3.FreshConst(T.INT, "q") for _ in dims]
    r = rank(*ks)
    c.assume(z3.ForAll(ks, z3.Implies(z3.And(box(ks), z(cond(*ks))), z3.And(0 <= r, r < m, *[f(r) == x for f, x in zip(at, ks)])), patterns=[r]))
    if d == 1:
        j = z3.FreshConst(T.INT, "q")
        c.assume(z3.ForAll([k, j], z3.Implies(z3.And(0 <= k, k < j, j < m), at[0](k) < at[0](j)), patterns=[z3.MultiPattern(at[0](k), at[0](j))]))
    c.memo.setdefault("filters", []).append((m, at, rank))
    return m, at


def sym_comp(f, it, kind, conds=()):
    if kind not in ("list", "gen"):
        raise Unsupported("comprehension over a sequence of symbolic length")
    n, get = elements(it)
    mark = dict(C.cur().fresh_n)
    (cond, val), ks = generic([lambda: n], lambda k: (holds(conds, (get(k),)), f(get(k))))
    val = template(val, ks, mark)
    if not conds:
        return SymList(n, val)
    cond = template(wrap(cond), ks, mark)
    m, at = filtered(C.cur(), [n], lambda k: unwrap(cond(k)))
    return SymList(m, lambda k: val(at[0](z(k))))


def sym_comp2(f, first, iters, conds, kind):
    if kind != "list" or len(iters) != 2:
        raise Unsupported("comprehension with several generators")
    n, get = elements(first)
    (n2, _), (i, ) = generic([lambda: n], lambda k: elements(iters[1](get(k))))
    if i.get_id() in T.consts_in(n2):
        raise Unsupported("the length of an inner sequence depends on the outer element")
    both = lambda k, j: (get(k), elements(iters[1](get(k)))[1](j))
    mark = dict(C.cur().fresh_n)
    (cond, val), ks = generic([lambda: n, lambda k: n2],
                              lambda k, j: (T.and_(holds(conds[0], (get(k),)), holds(conds[1], both(k, j))), f(*both(k, j))))
    cond, val = template(wrap(cond), ks, mark), template(val, ks, mark)
    m, at = filtered(C.cur(), [n, n2], lambda k, j: unwrap(cond(k, j)))
    return SymList(m, lambda k: val(at[0](z(k)), at[1](z(k))))


def repeat(lst, n):
    t = unwrap(n)
    if T.is_const(t):
        return list(lst) * int(t)
    raise Unsupported("list repetition by a symbolic count")


def _no(what):
    def f(*a, **k):
        raise Unsupported(what + " of symbolic length")
    return f


def total(lst, start=0):
    v = lst.at(z3.FreshConst(T.INT, "e"))
    if isinstance(v, int) and not isinstance(v, bool):
        return wrap(T.simp(T.add(unwrap(start), T.mul(lst.size(), v))))
    raise Unsupported("sum over a sequence of symbolic length")


quant, extreme, SymSet = _no("any/all over a sequence"), _no("min/max over a sequence"), _no("set")


def either(c, a, b):
    """if c then a() else b()"""
    if C.cur().check(T.not_(c)) == z3.unsat:
        return a()
    if C.cur().check(c) == z3.unsat:
        return b()
    return merge(c, a(), b())


class Record:
    """what one generic iteration appends to lists made before the loop, and which of them it reads"""

    def __init__(self, mark):
        self.mark, self.added, self.read = mark, [], set()


def attributes(o, depth=3):
    """the values an object holds, and those in its lists and dictionaries"""
    if o is None:
        return []
    out = []
    for k, v in list(vars(o).items()):
        out += [k, v]
        todo = [(v, depth)]
        while todo:
            x, n = todo.pop()
            if n and isinstance(x, (list, tuple, set, dict)):
                xs = list(x) + (list(x.values()) if isinstance(x, dict) else [])
                out += xs
                todo += [(y, n - 1) for y in xs]
    return out


def same_attributes(a, b):
    return len(a) == len(b) and all(x is y or isinstance(x, (str, int, float)) and type(x) is type(y) and x == y for x, y in zip(a, b))


def leaves_early(body):
    """whether the loop body contains a break"""
    return any(x == "break" or isinstance(x, tuple) and x[:1] == ("break",) for x in body.__code__.co_consts)


def auto_loop(it, n, body, get, set_, names, where, muts, impure):
    """a loop whose iterations do not depend on one another and only append to lists: the invariant (after k iterations each list has
    grown by one element per iteration so far and append, element by element the value of the generic iteration) is generated, and is inductive because the
    generic iteration reads nothing an earlier one wrote: names are stale before they are assigned, lists it appends to are not read,
    nothing else is written"""
    from . import runtime as R
    c = C.cur()
    if impure and impure != "self":
        raise Unsupported("loop over a sequence of symbolic length: " + impure)
    me = R.read_state(get, ["self"]).get("self") if impure else None
    entry = R.read_state(get, names)
    for x, v in R.read_state(get, muts).items():
        if not isinstance(v, SymList):
            raise Unsupported("loop over a sequence of symbolic length changes %s" % x)
    counts = c.memo.setdefault("counts", [])
    leaves = leaves_early(body)
    if not c.decide(T.lt(0, n)):
        if leaves:
            counts.append(0)
        return ("end", None)
    k = c.fresh("iter", T.INT)
    mark = dict(c.fresh_n)
    c.assume(T.and_(T.le(0, k), T.lt(k, n)))
    recs = c.memo.setdefault("records", [])
    loops = c.memo.setdefault("loops", [])
    seen = set()

    def once():
        for x in names:
            set_(x, R.Stale(x))
        before = attributes(me)
        rec = Record(Storage._n)
        recs.append(rec)
        loops.append((Storage._n, set()))
        try:
            try:
                r = body(R.sym_item(it, k))
            except Unsupported:
                raise
            except Exception as e:
                r = ("raise", e)
        finally:
            recs.pop()
            loops.pop()
        seen.update(rec.read)
        if not same_attributes(before, attributes(me)):
            raise Unsupported("loop over a sequence of symbolic length changes the object")
        if r[0] == "return":
            raise Unsupported("return from a loop over a sequence of symbolic length")
        return r, rec.added
    paths = C.nested_explore(c, [k], once)
    for x in names:
        set_(x, R.Stale(x))
    go = [p for p in paths if p[1][0][0] in ("next", "continue")]
    stop = [p for p in paths if p[1][0][0] in ("break", "raise")]
    if len(go) > 1:
        raise Unsupported("loop over a sequence of symbolic length with several kinds of iterations")
    if any(rec for _, (_, rec) in stop):
        raise Unsupported("loop over a sequence of symbolic length appends before it stops")
    at = lambda t, i: t if is_const(t) else T.simp(z3.substitute(z(t), (k, z(i))))
    for p in go + stop:
        fixed(p[0], [k], mark)
    count = c.fresh("iterations", T.INT) if stop else n
    if leaves:
        counts.append(count)
    if stop:
        q = z3.FreshConst(T.INT, "q")
        c.assume(T.and_(T.le(0, count), T.le(count, n)))
        goes = go[0][0] if go else False
        c.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < count), z(at(goes, q)))))
        c.assume(T.implies(T.lt(count, n), T.or_(*[at(p[0], count) for p in stop])))
        # instances often needed: the last iteration done
        c.assume(T.implies(T.lt(0, count), at(goes, T.sub(count, 1))))
    if go:
        added = go[0][1][1]
        by = {}
        for lst, v in added:
            if lst.id in seen:
                raise Unsupported("loop over a sequence of symbolic length reads a list it appends to")
            by.setdefault(lst.id, (lst, []))[1].append(template(v, [k], mark))
        for lst, fs in by.values():
            if len(fs) != 1:
                raise Unsupported("several elements per iteration")
            f, base, old = fs[0], lst.size(), lst.at_fn()
            if lst.items == []:
                lst.set(count, f)
            else:
                lst.set(T.simp(T.add(base, count)), lambda i, f=f, base=base, old=old: either(T.lt(i, base), lambda: old(i), lambda: f(T.simp(T.sub(i, base)))))
    if stop and c.decide(T.lt(count, n)):
        for p in stop[:-1]:
            if c.decide(at(p[0], count)):
                break
        else:
            p = stop[-1]
        if p[1][0][0] == "raise":
            raise p[1][0][1]
        return ("break", None)
    return ("end", None)
