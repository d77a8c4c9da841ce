"""Equivalence of two conditions: their atoms are brought to polynomial normal form and shared, ites are split on."""
import z3
from fractions import Fraction

from . import alg
from .terms import _const_of, is_const, z

CMP = {z3.Z3_OP_LE: "le", z3.Z3_OP_LT: "lt", z3.Z3_OP_GE: "ge", z3.Z3_OP_GT: "gt", z3.Z3_OP_EQ: "eq", z3.Z3_OP_DISTINCT: "ne"}


LAST = []


class GiveUp(Exception):
    pass


def has_ite(e, memo):
    i = e.get_id()
    if i in memo:
        return memo[i]
    if z3.is_quantifier(e):
        raise GiveUp()
    r = z3.is_app_of(e, z3.Z3_OP_ITE) or any(has_ite(x, memo) for x in e.children())
    memo[i] = r
    return r


class Atoms:
    def __init__(self):
        self.table, self.keep, self.memo, self.ite, self.relaxed = {}, [], {}, {}, {}

    def atom(self, e):
        """the literal standing for an ite-free comparison"""
        k = CMP.get(e.decl().kind())
        if k is None or e.num_args() != 2 or z3.is_bool(e.arg(0)):
            return self.lit(("t", e.get_id()), e)
        a, b = e.children()
        if k in ("gt", "ge"):
            a, b, k = b, a, {"gt": "lt", "ge": "le"}[k]
        if k == "ne":
            return z3.Not(self.atom(a == b))
        if k == "lt":                      # a < b  =  not (b <= a)
            return z3.Not(self.atom(b <= a))
        integer = a.sort() == z3.IntSort()
        try:
            p = alg.padd(alg.to_poly(a), alg.to_poly(b), Fraction(-1))
        except alg.TooBig:
            return self.lit(("t", e.get_id()), e)
        if not p or set(p) == {alg.ONE}:
            v = p.get(alg.ONE, 0)
            return z3.BoolVal(v == 0 if k == "eq" else v <= 0)
        m0 = max(m for m in p if m != alg.ONE)
        s = abs(p[m0]) if k == "le" else p[m0]
        flip = integer and k == "le" and p[m0] < 0      # -p <= 0  =  not (p <= -1)
        p = {m: v / s for m, v in p.items()}
        if flip:
            p = {m: -v for m, v in p.items()}
            p = alg.padd(p, alg.pconst(1 / s))
        r = self.lit((k, integer, alg._key(p)), self.canonical(k, p, integer, e, flip))
        if r.get_id() not in self.relaxed:
            t = z3.Sum([z3.Real("mo!" + "_".join("%d.%d" % x for x in m)) * z3.RealVal(str(c)) if m else z3.RealVal(str(c))
                        for m, c in p.items()])
            self.relaxed[r.get_id()] = r == (t == 0 if k == "eq" else t <= 0)
        return z3.Not(r) if flip else r

    def canonical(self, k, p, integer, e, flip):
        if integer or any(a in alg.INV_OF for m in p for a, _ in m):
            return z3.Not(e) if flip else e
        t = alg.poly_z3(p)
        return t == 0 if k == "eq" else t <= 0

    def lit(self, key, e):
        if key not in self.table:
            self.table[key] = (z3.Bool("at!%d" % len(self.table)), e)
        self.keep.append(e)
        return self.table[key][0]

    def abstract(self, e):
        """comparisons without ites replaced by their literals"""
        i = e.get_id()
        if i in self.memo:
            return self.memo[i]
        self.keep.append(e)
        r = e
        if z3.is_true(e) or z3.is_false(e):
            r = e
        elif z3.is_bool(e):
            k = e.decl().kind()
            if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_ITE, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR) or \
                    k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and z3.is_bool(e.arg(0)):
                r = e.decl()(*[self.abstract(x) for x in e.children()])
            elif z3.is_const(e) and e.decl().name().startswith("at!"):
                r = e
            elif not has_ite(e, self.ite):
                r = self.atom(e)
            else:
                r = e.decl()(*[self.abstract(x) if has_ite(x, self.ite) else x for x in e.children()])
        elif has_ite(e, self.ite):
            r = e.decl()(*[self.abstract(x) if has_ite(x, self.ite) or z3.is_bool(x) else x for x in e.children()])
        self.memo[i] = r
        self.keep.append(r)
        return r


def pick(e):
    """a literal deciding a remaining arithmetic ite"""
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE) and not z3.is_bool(x):
            cs = [x.arg(0)]
            while cs:
                y = cs.pop()
                if z3.is_const(y) and y.decl().name().startswith("at!"):
                    return y
                cs.extend(y.children())
        todo.extend(x.children())
    return None


def _apps(e, memo):
    """applications of the enumeration functions in a term"""
    out, seen, todo = set(), set(), [e]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and "_at" in x.decl().name():
            out.add(i)
        if not z3.is_quantifier(x):
            todo.extend(x.children())
    return out


def equivalent(t1, t2, facts, budget=3000, timeout=2000):
    """True only if t1 and t2 agree wherever the facts hold"""
    A = Atoms()
    try:
        start = A.abstract(z3.simplify(z(t1) != z(t2)))
        rng, apps = [], _apps(start, {})
        for f in facts:
            if is_const(f) or quantified(f):
                continue
            g = z3.simplify(f)
            if not has_ite(g, A.ite):
                rng.append(A.abstract(g))
                continue
            rng.append(g)
            mine = _apps(g, {})
            if mine and mine & apps:
                start = z3.And(start, A.abstract(g))
        leaves, steps, stack = [], 0, [([], start)]
        s = z3.Solver()
        lin = z3.Solver()
        lin.set("timeout", 100)
        for f in rng:
            s.add(f)
            if linear(f):
                lin.add(f)
        done = set()

        def define():
            for k in list(A.table):
                if k not in done:
                    done.add(k)
                    x, e = A.table[k]
                    s.add(x == e)
                    if linear(e):
                        lin.add(x == e)
                    elif x.get_id() in A.relaxed:
                        lin.add(A.relaxed[x.get_id()])
        while stack:
            steps += 1
            LAST[:] = [steps, len(leaves)]
            if steps > budget:
                return False
            lits, e = stack.pop()
            e = A.abstract(z3.simplify(e))
            e = z3.simplify(e)
            if z3.is_false(e):
                continue
            define()
            if len(lits) > 1:
                if lin.check(*lits) == z3.unsat:
                    continue
            v = pick(e)
            if v is None:
                if has_ite(e, {}) and not only_bool(e):
                    return False
                leaves.append((lits, e))
                continue
            for val in (True, False):
                stack.append((lits + [v if val else z3.Not(v)], z3.substitute(e, (v, z3.BoolVal(val)))))
    except (GiveUp, alg.TooBig, z3.Z3Exception):
        return False
    define()
    s.set("timeout", timeout)
    for lits, e in leaves:
        s.push()
        s.add(e)
        r = s.check(*lits)
        s.pop()
        if r != z3.unsat:
            LAST.append((r, lits, e))
            return False
    return True



_Q = {}


def quantified(f):
    i = f.get_id()
    if i not in _Q:
        try:
            has_ite(f, {})
            _Q[i] = (False, f)
        except GiveUp:
            _Q[i] = (True, f)
    return _Q[i][0]


def valid(goal, facts, timeout=3000):
    return equivalent(goal, True, facts, timeout=timeout)


_LIN = {}


def linear(t):
    """no products of variables, divisions, powers"""
    i = t.get_id()
    if i not in _LIN:
        ok, seen, stack = True, set(), [t]
        while ok and stack:
            e = stack.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            k = e.decl().kind()
            if k == z3.Z3_OP_MUL and sum(1 for c in e.children() if not is_const(_const_of(c))) > 1 or \
                    k in (z3.Z3_OP_DIV, z3.Z3_OP_POWER, z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
                ok = False
            stack.extend(e.children())
        _LIN[i] = (ok, t)
    return _LIN[i][0]


def only_bool(e):
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE) and not z3.is_bool(x):
            return False
        todo.extend(x.children())
    return True
