"""Scalar terms: python constants (bool, int, Fraction) or z3 expressions, with constant folding.

int  <-> z3 Int,  Fraction <-> z3 Real,  bool <-> z3 Bool.
"""
from fractions import Fraction
import z3

INT, REAL, BOOL = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Unsupported(Exception):
    """The symbolic engine has no model for what the code does (not a violation)."""


def is_z3(t):
    return isinstance(t, z3.ExprRef)


def is_const(t):
    return not isinstance(t, z3.ExprRef)


def frac(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, Fraction):
        return x
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non-finite constant")
        return Fraction(repr(x))
    raise Unsupported("constant %r" % (x,))


def kind(t):
    if isinstance(t, bool):
        return "b"
    if isinstance(t, int):
        return "i"
    if isinstance(t, Fraction):
        return "f"
    s = t.sort_kind()
    if s == z3.Z3_BOOL_SORT:
        return "b"
    if s == z3.Z3_INT_SORT:
        return "i"
    if s == z3.Z3_REAL_SORT:
        return "f"
    raise Unsupported("sort %s" % t.sort())


def z(t):
    """to a z3 expression"""
    if isinstance(t, z3.ExprRef):
        return t
    if isinstance(t, bool):
        return z3.BoolVal(t)
    if isinstance(t, int):
        return z3.IntVal(t)
    if isinstance(t, Fraction):
        return z3.RealVal(str(t))
    if isinstance(t, float):
        return z3.RealVal(str(frac(t)))
    raise Unsupported("term %r" % (t,))


def _const_of(e):
    """fold numerals back to python constants"""
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def simp(t):
    if is_const(t):
        return t
    return _const_of(z3.simplify(t))


def to_real(t):
    k = kind(t)
    if k == "f":
        return t
    if k == "b":
        return ite(t, Fraction(1), Fraction(0))
    if is_const(t):
        return Fraction(t)
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        c, a, b = t.children()
        return ite(c, to_real(_const_of(a)), to_real(_const_of(b)))
    return z3.ToReal(t)


def to_int(t):
    k = kind(t)
    if k == "i":
        return t
    if k == "b":
        return ite(t, 1, 0)
    return trunc(t)


def to_bool(t):
    k = kind(t)
    if k == "b":
        return t
    if k == "i":
        return not_(eq(t, 0))
    return not_(eq(t, Fraction(0)))


def trunc(t):
    """real -> int, toward zero"""
    if is_const(t):
        n = abs(t.numerator) // t.denominator
        return n if t >= 0 else -n
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        return t.arg(0)
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        c, a, b = t.children()
        return ite(c, trunc(_const_of(a)), trunc(_const_of(b)))
    return ite(le(Fraction(0), t), z3.ToInt(t), neg(z3.ToInt(neg(t))))


def _num2(a, b):
    ka, kb = kind(a), kind(b)
    if ka == "b":
        a, ka = to_int(a), "i"
    if kb == "b":
        b, kb = to_int(b), "i"
    if ka == kb:
        return a, b, ka
    return to_real(a), to_real(b), "f"


def add(a, b):
    a, b, k = _num2(a, b)
    if is_const(a):
        if is_const(b):
            return a + b
        if a == 0:
            return b
    elif is_const(b) and b == 0:
        return a
    return z(a) + z(b)


def neg(a):
    if is_const(a):
        return -a
    if kind(a) == "b":
        a = to_int(a)
    if z3.is_app_of(a, z3.Z3_OP_UMINUS):
        return a.arg(0)
    return -a


def sub(a, b):
    a, b, k = _num2(a, b)
    if is_const(a) and is_const(b):
        return a - b
    if is_const(b) and b == 0:
        return a
    if is_z3(a) and is_z3(b) and a.eq(b):
        return 0 if k == "i" else Fraction(0)
    if is_const(a) and a == 0:
        return neg(b)
    return z(a) - z(b)


def mul(a, b):
    a, b, k = _num2(a, b)
    for x, y in ((a, b), (b, a)):
        if is_const(x):
            if is_const(y):
                return x * y
            if x == 0:
                return x
            if x == 1:
                return y
            if x == -1:
                return neg(y)
    # a 0/1 mask times a value is a selection
    for x, y in ((a, b), (b, a)):
        if is_z3(x) and z3.is_app_of(x, z3.Z3_OP_ITE):
            c, p, q = x.children()
            p, q = _const_of(p), _const_of(q)
            if is_const(p) and is_const(q) and (p in (0, 1)) and (q in (0, 1)):
                return ite(c, mul(p, y), mul(q, y))
    return z(a) * z(b)


def div(a, b):
    a, b = to_real(a), to_real(b)
    if is_const(b):
        if b == 0:
            raise Unsupported("division by the constant zero")
        if is_const(a):
            return a / b
        return mul(a, 1 / b)
    if is_const(a) and a == 0:
        return a
    return z(a) / z(b)


def idiv(a, b):
    """floor division on ints (divisor provably positive at the caller's risk is z3's Euclidean div)"""
    if is_const(a) and is_const(b):
        return a // b
    if is_const(b):
        if b == 1:
            return a
        if b < 0:
            return idiv(neg(a), -b)
        return z(a) / z(b)
    q = z(a) / z(b)
    # python floor vs smt: equal for b>0; for b<0 floor(a/b) = -( ... )
    return z3.If(z(b) > 0, q, (-z(a)) / (-z(b)))


def imod(a, b):
    if is_const(a) and is_const(b):
        return a % b
    if is_const(b) and b == 1:
        return 0
    if is_const(b) and b > 0:
        return z(a) % z(b)
    return sub(a, mul(idiv(a, b), b))


def eq(a, b):
    ka, kb = kind(a), kind(b)
    if ka == "b" and kb == "b":
        if is_const(a) and is_const(b):
            return a == b
        if is_const(a):
            return b if a else not_(b)
        if is_const(b):
            return a if b else not_(a)
        if a.eq(b):
            return True
        return a == b
    a, b, _ = _num2(a, b)
    if is_const(a) and is_const(b):
        return a == b
    if is_z3(a) and is_z3(b) and a.eq(b):
        return True
    return z(a) == z(b)


def ne(a, b):
    return not_(eq(a, b))


def le(a, b):
    a, b, _ = _num2(a, b)
    if is_const(a) and is_const(b):
        return a <= b
    if is_z3(a) and is_z3(b) and a.eq(b):
        return True
    return z(a) <= z(b)


def lt(a, b):
    a, b, _ = _num2(a, b)
    if is_const(a) and is_const(b):
        return a < b
    if is_z3(a) and is_z3(b) and a.eq(b):
        return False
    return z(a) < z(b)


def not_(a):
    if is_const(a):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def and_(*xs):
    out = []
    for x in xs:
        if is_const(x):
            if not x:
                return False
        else:
            out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def or_(*xs):
    out = []
    for x in xs:
        if is_const(x):
            if x:
                return True
        else:
            out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    if is_const(c):
        return a if c else b
    if is_const(a) and is_const(b) and type(a) is type(b) and a == b:
        return a
    if is_z3(a) and is_z3(b) and a.eq(b):
        return a
    ka, kb = kind(a), kind(b)
    if ka == "b" and kb == "b":
        if is_const(a) and is_const(b):
            return c if a else not_(c)
        if is_const(a):
            return or_(c, b) if a else and_(not_(c), b)
        if is_const(b):
            return implies(c, a) if b else and_(c, a)
        return z3.If(c, z(a), z(b))
    if ka != kb:
        a, b, _ = _num2(a, b)
    return z3.If(c, z(a), z(b))


def key(t):
    """hashable identity of a term (z3 asts are hash-consed; the caller must keep them alive)"""
    if is_z3(t):
        return ("z", t.get_id())
    return ("c", type(t).__name__, t)


def subst(t, pairs):
    if is_const(t):
        return t
    return _const_of(z3.substitute(t, *pairs))


def consts_in(t, acc=None):
    """uninterpreted constants occurring in t (as {id: expr})"""
    acc = {} if acc is None else acc
    if is_const(t):
        return acc
    seen = set()
    stack = [t]
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(e):
            stack.append(e.body())
            continue
        if z3.is_const(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc[i] = e
        else:
            stack.extend(e.children())
    return acc
