"""A weakening of a query in which products and reciprocals are uninterpreted: every real term is brought to polynomial
normal form and its monomials become applications of an uninterpreted (commutative) function, so that congruence decides
what the nonlinear solver would not. Whatever is unsatisfiable after it was unsatisfiable before."""
import z3

from . import alg
from .terms import _const_of, is_const

MUL = z3.Function("mul!", z3.RealSort(), z3.RealSort(), z3.RealSort())
RECIP = z3.Function("recip!", z3.RealSort(), z3.RealSort())
ARITH = {z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_POWER, z3.Z3_OP_TO_REAL}


class Quantified(Exception):
    pass


class Lin:
    def __init__(self):
        self.memo, self.keep, self.axioms = {}, [], []
        self.mul, self.inv = {}, {}

    def product(self, a, b):
        k = a.get_id(), b.get_id()
        if k not in self.mul:
            self.mul[k] = MUL(a, b)
            self.keep.append((a, b))
            if k[0] != k[1]:
                self.axioms.append(MUL(a, b) == MUL(b, a))
            else:
                self.axioms.append(MUL(a, a) >= 0)
        return self.mul[k]

    def atom(self, i):
        if i in alg.INV_OF:
            if i not in self.inv:
                d = self.poly(alg.INV_OF[i])
                self.keep.append(d)
                self.inv[i] = RECIP(d)
                self.axioms.append(z3.Implies(d > 0, RECIP(d) > 0))
            return self.inv[i]
        e = alg.ATOMS[i]
        return self.real(e) if e.num_args() else e

    def real(self, e):
        """an opaque real term: its arguments are linearised"""
        if e.sort() == z3.IntSort():
            return z3.ToReal(self.term(e))
        i = ("a", e.get_id())
        if i not in self.memo:
            self.memo[i] = e.decl()(*[self.term(x) for x in e.children()])
            self.keep.append(e)
        return self.memo[i]

    def monomial(self, m):
        fs = []
        for a, n in m:
            x = self.atom(a)
            fs += [x] * n
        fs.sort(key=lambda x: (x.decl().name(), x.get_id()))
        r = fs[-1]
        for f in reversed(fs[:-1]):
            r = self.product(f, r)
        return r

    def poly(self, p):
        r = []
        for m, c in sorted(p.items()):
            q = z3.RealVal(str(c))
            r.append(q if m == alg.ONE else self.monomial(m) if c == 1 else q * self.monomial(m))
        return z3.Sum(r) if r else z3.RealVal(0)

    def weaken(self, e):
        """the assertion with uninterpreted products (None: not expressible)"""
        try:
            return self.term(e)
        except (Quantified, alg.TooBig):
            return None

    def term(self, e):
        i = e.get_id()
        if i in self.memo:
            return self.memo[i]
        if z3.is_quantifier(e):
            raise Quantified()
        if is_const(_const_of(e)) or not e.num_args():
            r = e
        elif e.sort() == z3.RealSort() and e.decl().kind() in ARITH:
            r = self.poly(alg.to_poly(e))
        else:
            r = e.decl()(*[self.term(x) for x in e.children()])
        self.memo[i] = r
        self.keep.append((e, r))
        return r


def unsat(assertions, timeout):
    """True only if they contradict each other"""
    L = Lin()
    s = z3.Solver()
    s.set("timeout", int(timeout))
    try:
        for a in assertions:
            try:
                s.add(L.term(a))
            except Quantified:
                continue
            except alg.TooBig:
                continue
        for a in L.axioms:
            s.add(a)
        return s.check() == z3.unsat
    except (z3.Z3Exception, RecursionError):
        return False
