"""Python-level symbolic scalars and the axiomatised real functions."""
from fractions import Fraction
import z3

from . import ctx as C
from . import terms as T
from . import alg
from .terms import Unsupported, is_const, z


def unwrap(x):
    """python/symbolic scalar -> term"""
    if isinstance(x, Sym):
        return x.t
    if isinstance(x, bool) or isinstance(x, int) or isinstance(x, Fraction):
        return x
    if isinstance(x, float):
        return T.frac(x)
    if isinstance(x, z3.ExprRef):
        return x
    if hasattr(x, "__vc_scalar__"):
        return x.__vc_scalar__()
    try:
        import numpy as np
        if isinstance(x, np.bool_):
            return bool(x)
        if isinstance(x, np.integer):
            return int(x)
        if isinstance(x, np.floating):
            return T.frac(float(x))
    except ImportError:
        pass
    raise Unsupported("scalar %r" % (type(x),))


def wrap(t):
    """term -> python constant (bool/int) or symbolic scalar"""
    if isinstance(t, (bool, int)):
        return t
    if isinstance(t, Fraction):
        return SymReal(t)
    k = T.kind(t)
    return {"b": SymBool, "i": SymInt, "f": SymReal}[k](t)


class Sym:
    __slots__ = ("t",)
    __vc_sym__ = True

    def __init__(self, t):
        self.t = t

    def __hash__(self):
        return 0x5F3759

    def __repr__(self):
        return "<sym>"

    def __format__(self, spec):
        return "<sym>"

    def __eq__(self, o):
        return _cmp(T.eq, self, o, False)

    def __ne__(self, o):
        return _cmp(T.ne, self, o, True)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _cmp(f, a, b, dflt):
    if hasattr(b, "__vc_tensor__"):
        return NotImplemented
    try:
        tb = unwrap(b)
    except Unsupported:
        if dflt is None:
            return NotImplemented
        return dflt
    return wrap(f(a.t, tb))


def _arith(f):
    def op(self, o):
        if hasattr(o, "__vc_tensor__") or isinstance(o, (list, tuple, str)):
            return NotImplemented
        try:
            to = unwrap(o)
        except Unsupported:
            return NotImplemented
        return wrap(f(self.t, to))

    def rop(self, o):
        if hasattr(o, "__vc_tensor__") or isinstance(o, (list, tuple, str)):
            return NotImplemented
        try:
            to = unwrap(o)
        except Unsupported:
            return NotImplemented
        return wrap(f(to, self.t))
    return op, rop


class SymNum(Sym):
    __slots__ = ()
    __hash__ = Sym.__hash__
    __add__, __radd__ = _arith(T.add)
    __sub__, __rsub__ = _arith(T.sub)
    __truediv__, __rtruediv__ = _arith(T.div)

    def __mul__(self, o):
        if isinstance(o, (list, tuple)):
            from .lists import repeat
            return repeat(o, self)
        if hasattr(o, "__vc_tensor__") or isinstance(o, str):
            return NotImplemented
        try:
            return wrap(T.mul(self.t, unwrap(o)))
        except Unsupported:
            return NotImplemented

    __rmul__ = __mul__

    def __neg__(self):
        return wrap(T.neg(self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap(absval(self.t))

    def __lt__(self, o):
        return _cmp(T.lt, self, o, None)

    def __le__(self, o):
        return _cmp(T.le, self, o, None)

    def __gt__(self, o):
        return _cmp(lambda a, b: T.lt(b, a), self, o, None)

    def __ge__(self, o):
        return _cmp(lambda a, b: T.le(b, a), self, o, None)

    def __pow__(self, o):
        if hasattr(o, "__vc_tensor__"):
            return NotImplemented
        return wrap(power(self.t, unwrap(o)))

    def __rpow__(self, o):
        return wrap(power(unwrap(o), self.t))

    def __bool__(self):
        return C.cur().decide(T.to_bool(self.t))


class SymInt(SymNum):
    __slots__ = ()
    __hash__ = Sym.__hash__
    __floordiv__, __rfloordiv__ = _arith(T.idiv)
    __mod__, _rm = _arith(T.imod)

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return self._rm(o)

    def item(self):
        return self


class SymReal(SymNum):
    __slots__ = ()
    __hash__ = Sym.__hash__

    def __init__(self, t):
        self.t = T.frac(t) if is_const(t) else t

    def item(self):
        return self


class SymBool(Sym):
    __slots__ = ()
    __hash__ = Sym.__hash__

    def __bool__(self):
        return C.cur().decide(self.t)

    def __and__(self, o):
        if hasattr(o, "__vc_tensor__"):
            return NotImplemented
        return wrap(T.and_(self.t, T.to_bool(unwrap(o))))

    __rand__ = __and__

    def __or__(self, o):
        if hasattr(o, "__vc_tensor__"):
            return NotImplemented
        return wrap(T.or_(self.t, T.to_bool(unwrap(o))))

    __ror__ = __or__

    def __xor__(self, o):
        return wrap(T.ne(self.t, T.to_bool(unwrap(o))))

    def __invert__(self):
        return wrap(T.not_(self.t))

    def __add__(self, o):
        return wrap(T.add(T.to_int(self.t), unwrap(o)))

    __radd__ = __add__

    def __mul__(self, o):
        if hasattr(o, "__vc_tensor__"):
            return NotImplemented
        return wrap(T.mul(T.to_int(self.t), unwrap(o)))

    __rmul__ = __mul__

    def item(self):
        return self


# ------------------------------------------------------------------ real functions
_F = {}


def uf(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    if k not in _F:
        _F[k] = z3.Function(name, *sorts)
    return _F[k]


def canon_arg(t):
    t = T.to_real(t)
    if is_const(t):
        return t
    ites = []
    from .prove import _ites
    _ites(t, ites, set())
    if ites:
        return z3.simplify(t)
    try:
        p = alg.to_poly(t)
        rules = C.cur().memo.setdefault("canon_rules", [])
        if rules:
            p = alg.reduce(p, rules)
        if any(a in alg.INV_OF for m in p for a, _ in m):
            return z3.simplify(t)
        return T._const_of(alg.poly_z3(p))
    except alg.TooBig:
        return z3.simplify(t)


def push_ite(f, t):
    """apply f under the top-level ites of a term"""
    if not is_const(t) and z3.is_app_of(t, z3.Z3_OP_ITE):
        c, a, b = t.children()
        return T.ite(c, push_ite(f, T._const_of(a)), push_ite(f, T._const_of(b)))
    return f(t)


def sqrt(t, known=False):
    t = T.to_real(t)
    if is_const(t):
        if t >= 0:
            from math import isqrt
            n, d = isqrt(t.numerator), isqrt(t.denominator)
            if n * n == t.numerator and d * d == t.denominator:
                return Fraction(n, d)
        t = z(t)
    a = canon_arg(t)
    if is_const(a):
        a = z(a)
    c = C.cur()
    s = uf("sqrt", T.REAL, T.REAL)(a)
    c.axiom(s >= 0)
    c.axiom(z3.Implies(a >= 0, s * s == a))
    c.axiom(z3.Implies(a > 0, s > 0))
    if ("sqrt", s.get_id()) not in c.memo:
        c.memo[("sqrt", s.get_id())] = s
        # the rule needs a>=0; sums of squares are the only use, checked here
        if known or nonneg(a):
            c.rule(s * s, a)
    return s


def nonneg(a):
    """syntactically a sum of squares, or provably >= 0"""
    try:
        p = alg.to_poly(a)
        if p and all(k > 0 and all(e % 2 == 0 for _, e in m) for m, k in p.items()):
            return True
    except alg.TooBig:
        pass
    return C.cur().check(z(a) < 0) == z3.unsat


def sum_sqrt(ts):
    """sqrt of a sum of squares of the given terms (known non-negative)"""
    s = Fraction(0)
    for t in ts:
        s = T.add(s, T.mul(t, t))
    r = sqrt(s, known=True)
    if not is_const(r):
        c = C.cur()
        a = r.arg(0)
        c.axiom(a >= 0)
        c.axiom(r * r == a)
        for t in ts:
            c.axiom(z3.And(z(T.to_real(t)) <= r, -z(T.to_real(t)) <= r))
        if ("ss", r.get_id()) not in c.memo:
            c.memo[("ss", r.get_id())] = True
            alg.SUMSQ[r.get_id()] = (r, [z(T.to_real(t)) for t in ts])
            c.rule(r * r, a)
    return r


def trig(name, t):
    t = T.to_real(t)
    a = canon_arg(t)
    if is_const(a):
        if a == 0:
            return Fraction(0) if name == "sin" else Fraction(1)
        a = z(a)
    c = C.cur()
    s = uf("sin", T.REAL, T.REAL)(a)
    co = uf("cos", T.REAL, T.REAL)(a)
    c.axiom(s * s + co * co == 1)
    c.axiom(z3.And(s <= 1, s >= -1, co <= 1, co >= -1))
    c.axiom(z3.Implies(a == 0, z3.And(s == 0, co == 1)))
    if ("trig", a.get_id()) not in c.memo:
        c.memo[("trig", a.get_id())] = a
        c.rule(co * co, 1 - s * s)
    return s if name == "sin" else co


def exp(t):
    t = T.to_real(t)
    if is_const(t) and t == 0:
        return Fraction(1)
    a = canon_arg(t)
    a = z(a)
    c = C.cur()
    e = uf("exp", T.REAL, T.REAL)(a)
    c.axiom(e > 0)
    c.axiom(z3.Implies(a <= 0, e <= 1))
    c.axiom(z3.Implies(a >= 0, e >= 1))
    return e


def absval(t):
    if is_const(t):
        return abs(t)
    if T.kind(t) == "b":
        t = T.to_int(t)
    return T.ite(T.le(0 if T.kind(t) == "i" else Fraction(0), t), t, T.neg(t))


def rnd(t):
    """round half to even -> Int term"""
    t = T.to_real(t)
    if is_const(t):
        return round(t)
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        return T._const_of(t.arg(0))
    a = z(canon_arg(t))
    c = C.cur()
    r = uf("round", T.REAL, T.INT)(a)
    rr = z3.ToReal(r)
    half = z3.RealVal("1/2")
    c.axiom(z3.And(a - rr <= half, rr - a <= half))
    c.axiom(z3.Implies(z3.Or(a - rr == half, rr - a == half), r % 2 == 0))
    return r


def floor(t):
    t = T.to_real(t)
    if is_const(t):
        return t.numerator // t.denominator
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        return T._const_of(t.arg(0))
    return z3.ToInt(z(t))


def power(a, b):
    if is_const(b):
        b = T.frac(b) if not isinstance(b, int) else b
        if isinstance(b, int) or b.denominator == 1:
            n = int(b)
            if T.kind(a) == "b":
                a = T.to_int(a)
            if n == 0:
                return 1 if T.kind(a) == "i" else Fraction(1)
            base = a if n > 0 else T.div(Fraction(1), a)
            r = base
            for _ in range(abs(n) - 1):
                r = T.mul(r, base)
            return r
        if b == Fraction(1, 2):
            return sqrt(a)
        if b == Fraction(-1, 2):
            return T.div(Fraction(1), sqrt(a))
    a, b = T.to_real(a), T.to_real(b)
    c = C.cur()
    a, b = z(canon_arg(a)), z(canon_arg(b))
    r = uf("pow", T.REAL, T.REAL, T.REAL)(a, b)
    c.axiom(z3.Implies(a > 0, r > 0))
    c.axiom(z3.Implies(z3.And(a >= 1, b >= 0), r >= 1))
    c.axiom(z3.Implies(z3.And(a > 0, a <= 1, b >= 0), r <= 1))
    c.axiom(z3.Implies(b == 1, r == a))
    return r


def opaque1(name, t):
    """uninterpreted real function (congruence only)"""
    a = z(canon_arg(T.to_real(t)))
    return uf(name, T.REAL, T.REAL)(a)


def opaque2(name, a, b):
    return uf(name, T.REAL, T.REAL, T.REAL)(z(canon_arg(a)), z(canon_arg(b)))


def minmax(a, b, is_max):
    c = T.le(b, a) if is_max else T.le(a, b)
    return T.ite(c, a, b)


# detach in grad mode
def detach_term(t):
    c = C.cur()
    if not c.opts.get("grad"):
        return t
    if is_const(t):
        return t
    return uf("detached", T.REAL, T.REAL)(z(t))


def flow(t, names):
    """(inputs, cut) : those of the named functions a term's value is made of (conditions and indices aside), and those
    it is made of only through a detach marker somewhere: a derivative would miss that part"""
    if is_const(t):
        return set(), set()
    defs = C.cur().memo.get("defs", {})
    out = {False: set(), True: set()}
    seen, todo = set(), [(t, False)]
    while todo:
        e, cut = todo.pop()
        if (e.get_id(), cut) in seen or not z3.is_app(e):
            continue
        seen.add((e.get_id(), cut))
        n = e.decl().name()
        if n in names:
            out[cut].add(n)
            continue
        if n == "detached":
            cut = True
        d = defs.get(n)
        if d is not None and not is_const(d):
            todo.append((d, cut))
        ch = e.children()
        if e.decl().kind() == z3.Z3_OP_ITE:
            ch = ch[1:]
        todo += [(x, cut) for x in ch if x.sort_kind() != z3.Z3_BOOL_SORT and x.sort_kind() != z3.Z3_INT_SORT]
    return out[False], out[True]


def depends(t, names):
    """is a term's value made of one of the functions, other than below a detach marker or in a condition"""
    return bool(flow(t, names)[0])


def strip_detach(t):
    """value of a term, ignoring detach markers"""
    if is_const(t) or not C.cur().opts.get("grad"):
        return t
    f = uf("detached", T.REAL, T.REAL)
    memo = {}

    def go(e):
        i = e.get_id()
        if i in memo:
            return memo[i][0]
        if z3.is_app(e) and e.num_args():
            ch = [go(x) for x in e.children()]
            if e.decl().eq(f):
                r = ch[0]
            elif any(not p.eq(q) for p, q in zip(ch, e.children())):
                r = e.decl()(*ch)
            else:
                r = e
        else:
            r = e
        memo[i] = (r, e)
        return r
    return T._const_of(go(t))


def nonneg_syntactic(a):
    p = alg.to_poly(a)
    if all(k > 0 and all(e % 2 == 0 for _, e in m) for m, k in p.items()):
        return True
    # a perfect square of a sum (the usual residual): try q*q == p for q = the linear part
    return _is_square(p)


def _is_square(p):
    """p == q*q with q's monomials the square roots of p's square monomials (sign search)"""
    sq = [(m, k) for m, k in p.items() if all(e % 2 == 0 for _, e in m) and k > 0]
    from fractions import Fraction as F
    from math import isqrt
    q = []
    for m, k in sq:
        n, d = isqrt(k.numerator), isqrt(k.denominator)
        if n * n != k.numerator or d * d != k.denominator:
            return False
        q.append((tuple((a, e // 2) for a, e in m), F(n, d)))
    if not q or len(q) > 8:
        return False
    import itertools
    for signs in itertools.product([1, -1], repeat=len(q) - 1):
        cand = {q[0][0]: q[0][1]}
        for s, (m, c) in zip(signs, q[1:]):
            cand[m] = s * c
        if alg.pmul(cand, cand) == p:
            return True
    return False
