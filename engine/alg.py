"""Polynomial-identity back end: rational expressions over opaque atoms, reduced by oriented rules."""
from fractions import Fraction
import z3

from .terms import is_const, kind, z, simp, _const_of

ATOMS = {}      # id -> z3 expr (kept alive)
_CANON = {}     # z3 id -> (expr, canonical expr)
ONE = ()
LIMIT = 60000


class TooBig(Exception):
    pass


SUMSQ = {}     # id of a term sqrt(t1*t1 + ... + tn*tn) -> (the term, [t1 .. tn])
_SQ = {}


def sqrts(ts):
    """the sqrt applications in the given terms"""
    seen, out, stack = set(), [], [t for t in ts if not is_const(t)]
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            continue
        if z3.is_app(e) and e.decl().name() == "sqrt" and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(e)
        stack.extend(e.children())
    return out


_HAS = {}


def has_ite(e):
    i = e.get_id()
    if i not in _HAS:
        _HAS[i] = (_has_ite(e), e)
    return _HAS[i][0]


def _has_ite(e):
    seen, stack = set(), [e]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            return True
        stack.extend(t.children())
    return False


def canon_sqrts(e):
    """rewrite the arguments of ite-free sqrt terms to polynomial normal form"""
    if is_const(e):
        return e
    i = e.get_id()
    if i in _SQ:
        return _SQ[i][1]
    sub = []
    for s in sqrts([e]):
        if not has_ite(s):
            try:
                c = canon(s)
            except TooBig:
                continue
            if not c.eq(s):
                sub.append((s, c))
    r = z3.substitute(e, *sub) if sub else e
    _SQ[i] = (e, r)
    return r


def padd(a, b, c=Fraction(1)):
    r = dict(a)
    for m, k in b.items():
        v = r.get(m, 0) + k * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b):
    if len(a) * len(b) > LIMIT:
        raise TooBig()
    r = {}
    for m, x in a.items():
        for n, y in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + x * y
            if v == 0:
                r.pop(k, None)
            else:
                r[k] = v
    return r


def pconst(c):
    c = Fraction(c)
    return {ONE: c} if c else {}


def atom(e):
    i = e.get_id()
    ATOMS[i] = e
    return {((i, 1),): Fraction(1)}


def _key(p):
    return tuple(sorted(p.items()))


_INV = {}       # poly key -> (atom id, poly)
INV_OF = {}     # inv atom id -> poly


def inv(p):
    if len(p) == 1:
        (m, c), = p.items()
        r = pconst(1 / c)
        for a, e in m:
            if a in INV_OF:
                q = INV_OF[a]
                base = q
                for _ in range(e):
                    r = pmul(r, base)
                continue
            ia = _inv_atom({((a, 1),): Fraction(1)})
            r = pmul(r, {((ia, e),): Fraction(1)})
        return r
    # normalise the leading coefficient so that proportional denominators coincide
    k0 = max(p)
    c = p[k0]
    q = {m: v / c for m, v in p.items()}
    return {((_inv_atom(q), 1),): 1 / c}


def _inv_atom(q):
    k = _key(q)
    if k not in _INV:
        e = z3.Real("inv!%d" % len(_INV))
        i = e.get_id()
        ATOMS[i] = e
        _INV[k] = (i, e)
        INV_OF[i] = q
    return _INV[k][0]


def to_poly(e, memo=None):
    memo = {} if memo is None else memo
    if is_const(e):
        return pconst(e)
    # iterative guard against deep recursion: python recursion limit is raised by the engine
    i = e.get_id()
    if i in memo:
        return memo[i][0]
    r = _to_poly(e, memo)
    if len(r) > LIMIT:
        raise TooBig()
    memo[i] = (r, e)
    return r


def _to_poly(e, memo):
    c = _const_of(e)
    if is_const(c):
        return pconst(c)
    k = e.decl().kind() if z3.is_app(e) else None
    if k == z3.Z3_OP_ADD:
        r = {}
        for ch in e.children():
            r = padd(r, to_poly(ch, memo))
        return r
    if k == z3.Z3_OP_SUB:
        ch = e.children()
        r = to_poly(ch[0], memo)
        for x in ch[1:]:
            r = padd(r, to_poly(x, memo), Fraction(-1))
        return r
    if k == z3.Z3_OP_UMINUS:
        return padd({}, to_poly(e.arg(0), memo), Fraction(-1))
    if k == z3.Z3_OP_MUL:
        r = pconst(1)
        for ch in e.children():
            r = pmul(r, to_poly(ch, memo))
        return r
    if k == z3.Z3_OP_DIV:
        return pmul(to_poly(e.arg(0), memo), inv(to_poly(e.arg(1), memo)))
    if k == z3.Z3_OP_POWER:
        n = _const_of(e.arg(1))
        if is_const(n) and Fraction(n).denominator == 1 and 0 <= n <= 12:
            b = to_poly(e.arg(0), memo)
            r = pconst(1)
            for _ in range(int(n)):
                r = pmul(r, b)
            return r
    if k == z3.Z3_OP_TO_REAL:
        a = e.arg(0)
        ka = a.decl().kind()
        if ka in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL):
            return to_poly(a, memo)
        ca = _const_of(a)
        if is_const(ca):
            return pconst(ca)
        return atom(canon(a))
    return atom(canon(e))


def canon(e):
    """canonical representative of an opaque subterm (arguments normalised)"""
    i = e.get_id()
    if i in _CANON:
        return _CANON[i][1]
    if z3.is_app(e) and e.num_args() > 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        args = []
        for a in e.children():
            kd = kind(a)
            if kd == "f" or kd == "i":
                args.append(canon_num(a))
            else:
                args.append(z3.simplify(a))
        r = e.decl()(*args)
    elif z3.is_app(e) and e.num_args() > 0:
        r = z3.simplify(e, som=True)
    else:
        r = e
    _CANON[i] = (e, r)
    return r


def canon_num(a):
    if z3.is_const(a):
        return a
    try:
        p = to_poly(a)
    except TooBig:
        return z3.simplify(a)
    r = poly_z3(p, a.sort())
    return r


def poly_z3(p, sort=None):
    terms = []
    for m, c in sorted(p.items()):
        fs = []
        for i, e in m:
            x = ATOMS[i]
            if x.sort() == z3.IntSort() and (sort is None or sort == z3.RealSort()):
                x = z3.ToReal(x)
            fs += [x] * e
        if sort == z3.IntSort():
            cv = z3.IntVal(int(c)) if c.denominator == 1 else None
            if cv is None:
                raise TooBig()
        else:
            cv = z3.RealVal(str(c))
        t = cv
        if fs:
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            if c != 1:
                t = cv * t
        terms.append(t)
    if not terms:
        return z3.RealVal(0) if sort is None or sort != z3.IntSort() else z3.IntVal(0)
    r = terms[0]
    for t in terms[1:]:
        r = r + t
    return r


def reduce(p, rules, steps=20000):
    """rules: list of (lhs monomial tuple, rhs poly)"""
    if not rules:
        return p
    index = {}
    for lhs, rhs in rules:
        if lhs:
            index.setdefault(lhs[0][0], []).append((dict(lhs), rhs))
    p = dict(p)
    work = list(p.keys())
    n = 0
    while work:
        m = work.pop()
        if m not in p:
            continue
        d = dict(m)
        hit = None
        for a in d:
            for lhs, rhs in index.get(a, ()):
                if all(d.get(x, 0) >= e for x, e in lhs.items()):
                    hit = (lhs, rhs)
                    break
            if hit:
                break
        if not hit:
            continue
        n += 1
        if n > steps:
            raise TooBig()
        c = p.pop(m)
        rest = dict(d)
        for x, e in hit[0].items():
            rest[x] -= e
            if rest[x] == 0:
                del rest[x]
        rm = tuple(sorted(rest.items()))
        for mm, cc in hit[1].items():
            k = mmul(rm, mm)
            v = p.get(k, 0) + c * cc
            if v == 0:
                p.pop(k, None)
            else:
                p[k] = v
                work.append(k)
    return p


def inv_atoms(p):
    return {a for m in p for a, _ in m if a in INV_OF}


def inv_rules(ids):
    """q * inv(q) = 1 for denominators known to be nonzero"""
    rules = []
    for i in ids:
        q = INV_OF[i]
        m0 = max(q)
        c = q[m0]
        # c*m0*i + rest*i = 1   ->  m0*i -> (1 - rest*i)/c
        rest = {m: v for m, v in q.items() if m != m0}
        rhs = padd(pconst(1), pmul(rest, {((i, 1),): Fraction(1)}), Fraction(-1))
        rhs = {m: v / c for m, v in rhs.items()}
        rules.append((mmul(m0, ((i, 1),)), rhs))
    return rules
