"""Discharging one obligation: simplify -> polynomial identity -> z3 -> cvc5."""
import os
import subprocess
import tempfile
import time

import z3

from . import alg, boolalg, linearize
from .terms import is_const, simp, z, not_, kind, _const_of, and_

TRACE = os.environ.get("VC_TRACE")
STATS = {"simplify": 0, "algebra": 0, "z3": 0, "cvc5": 0, "time": 0.0, "queries": 0}


class Result:
    def __init__(self, status, backend=None, model=None, note="", time=0.0):
        self.status, self.backend, self.model, self.note, self.time = status, backend, model, note, time


def _ites(e, acc, seen):
    if is_const(e):
        return
    stack = [e]
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            continue
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            acc.append(t)
        stack.extend(t.children())


def _symbols(e, cache):
    """set of uninterpreted decl names in e"""
    i = e.get_id()
    if i in cache:
        return cache[i][1]
    out, seen, stack = set(), set(), [e]
    while stack:
        t = stack.pop()
        j = t.get_id()
        if j in seen:
            continue
        seen.add(j)
        if z3.is_quantifier(t):
            stack.append(t.body())
            continue
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(t.decl().name())
            stack.extend(t.children())
    cache[i] = (e, out)
    return out


_HAS, _SYM = {}, {}


def has_ite(e):
    i = e.get_id()
    if i not in _HAS:
        _HAS[i] = (z3.is_app_of(e, z3.Z3_OP_ITE) or not z3.is_quantifier(e) and any(has_ite(x) for x in e.children()), e)
    return _HAS[i][0]


class Prover:
    def __init__(self, facts, rules=(), timeout=8000):
        self.facts = [z(f) for f in facts if not (is_const(f) and f)]
        self.rules_src = list(rules)
        self.timeout = timeout
        self._sym = _SYM
        if len(_SYM) > 100000:
            _SYM.clear()
        self._s = None
        self._entail = {}
        self._lin = {}
        self._ls = None
        self._as = self._lz = None
        self.kept = []

    # -- incremental helper solver for cheap entailment
    def _solver(self):
        if self._s is None:
            self._s = z3.Solver()
            self._s.set("timeout", 400)
            for f in self.facts:
                if z3.is_quantifier(f):
                    continue
                self._s.add(f)
        return self._s

    def entails(self, t, extra=(), timeout=400):
        t = simp(t)
        if is_const(t):
            return t
        s = self._solver()
        s.set("timeout", timeout)
        s.push()
        for e in extra:
            if not is_const(e):
                s.add(e)
        s.add(z3.Not(t))
        r = s.check()
        s.pop()
        return r == z3.unsat

    def _linear(self, t):
        """no products of variables, no square roots"""
        i = t.get_id()
        if i not in self._lin:
            ok = not z3.is_quantifier(t)
            seen, stack = set(), [t]
            while ok and stack:
                e = stack.pop()
                if e.get_id() in seen:
                    continue
                seen.add(e.get_id())
                k = e.decl().kind()
                if k == z3.Z3_OP_MUL and sum(1 for c in e.children() if not is_const(_const_of(c))) > 1 or \
                        k in (z3.Z3_OP_DIV, z3.Z3_OP_POWER) or e.decl().name() == "sqrt" and e.num_args():
                    ok = False
                stack.extend(e.children())
            self._lin[i] = (ok, t)
        return self._lin[i][0]

    def infeasible_linear(self, extra):
        """sound, incomplete: only the linear assumptions are used"""
        if self._ls is None:
            self._ls = z3.Solver()
            self._ls.set("timeout", 400)
            for f in self.facts:
                if self._linear(f):
                    self._ls.add(f)
        s = self._ls
        s.push()
        for e in extra:
            if is_const(e):
                if not e:
                    s.pop()
                    return True
            elif self._linear(e):
                s.add(e)
        r = s.check()
        s.pop()
        return r == z3.unsat

    def infeasible(self, extra):
        s = self._solver()
        s.push()
        for e in extra:
            if is_const(e):
                if not e:
                    s.pop()
                    return True
            else:
                s.add(e)
        r = s.check()
        s.pop()
        return r == z3.unsat

    # -- conditions decided by the assumptions (products and reciprocals uninterpreted)
    def _abstract_solver(self, goal):
        if self._as is None:
            self._lz = linearize.Lin()
            self._as = z3.Solver()
            self._as.set("timeout", 300)
            for f in self._relevant(goal, ()):
                t = self._lz.weaken(f)
                if t is not None:
                    self._as.add(t)
        return self._as

    def prune(self, goal):
        """the goal without the branches of conditionals that the assumptions exclude"""
        goal = simp(goal)
        if is_const(goal) or z3.is_quantifier(goal) or not has_ite(goal):
            return goal
        self._as = None
        s = self._abstract_solver(goal)
        budget, memo = [120], {}

        def holds(c):
            t = self._lz.weaken(z3.simplify(z3.Not(c)))
            if t is None:
                return False
            budget[0] -= 1
            s.push()
            s.add(t)
            r = s.check() == z3.unsat
            s.pop()
            return r

        def under(c, t, ctx):
            w = self._lz.weaken(c)
            if w is None:
                return walk(t, ctx)
            s.push()
            s.add(w)
            r = walk(t, ctx + (c.get_id(),))
            s.pop()
            return r

        def walk(t, ctx):
            if budget[0] <= 0 or not has_ite(t):
                return t
            k = (t.get_id(), ctx)
            if k in memo:
                return memo[k]
            if z3.is_app_of(t, z3.Z3_OP_ITE):
                c, a, b = t.children()
                nc = z3.simplify(z3.Not(c))
                if z3.is_true(c) or holds(c):
                    r = walk(a, ctx)
                elif z3.is_false(c) or holds(nc):
                    r = walk(b, ctx)
                else:
                    r = z3.If(walk(c, ctx), under(c, a, ctx), under(nc, b, ctx))
            else:
                r = t.decl()(*[walk(x, ctx) for x in t.children()])
            memo[k] = r
            self.kept.append((t, r))
            return r
        return simp(walk(goal, ()))

    # -- entry
    def prove(self, goal, depth=0):
        t0 = time.time()
        try:
            goal = self.prune(goal)
        except (z3.Z3Exception, RecursionError, alg.TooBig):
            pass
        r = self._prove(goal, [], 0)
        r.time = time.time() - t0
        return r

    def _prove(self, goal, extra, depth):
        goal = simp(goal)
        if is_const(goal):
            if goal:
                return Result("proved", "simplify")
            # unless the path is infeasible
            return self._z3(z3.BoolVal(False), extra)
        k = goal.decl().kind() if z3.is_app(goal) else None
        if k == z3.Z3_OP_AND:
            best = Result("proved", "simplify")
            order = {"simplify": 0, "algebra": 1, "linear": 2, "z3": 2, "cvc5": 3}
            for ch in goal.children():
                r = self._prove(ch, extra, depth)
                if r.status != "proved":
                    return r
                if order[r.backend] > order[best.backend]:
                    best = r
            return best
        if k == z3.Z3_OP_OR and depth < 6:
            # antecedent-style: try assuming the negation of all but one equality disjunct
            ch = list(goal.children())
            eqs = [c for c in ch if z3.is_eq(c) and kind(c.arg(0)) in "fi" ] or \
                  [c for c in ch if z3.is_app_of(c, z3.Z3_OP_AND)]
            if len(eqs) == 1:
                others = [c for c in ch if not c.eq(eqs[0])]
                ex = extra + [simp(not_(c)) for c in others]
                r = self._prove(eqs[0], ex, depth + 1)
                if r.status == "proved":
                    return r
        if k == z3.Z3_OP_IMPLIES and depth < 8:
            return self._prove(goal.arg(1), extra + [goal.arg(0)], depth + 1)
        if z3.is_quantifier(goal) and goal.is_forall():
            vs = [z3.FreshConst(goal.var_sort(i), "sk") for i in range(goal.num_vars())]
            body = z3.substitute_vars(goal.body(), *reversed(vs))
            return self._prove(body, extra, depth + 1)
        if z3.is_eq(goal) and kind(goal.arg(0)) == "f":
            if self._alg(goal.arg(0), goal.arg(1), extra):
                return Result("proved", "algebra")
        return self._z3(goal, extra)

    # -- polynomial identity with case split on conditions
    def _alg(self, a, b, extra, depth=0, budget=None, comps=None):
        """comps: (s, [t..]) for every s = sqrt(t1*t1 + ..) in the terms, specialised along with them"""
        budget = [40] if budget is None else budget
        if comps is None:
            comps = [alg.SUMSQ[s.get_id()] for s in alg.sqrts([a, b]) if s.get_id() in alg.SUMSQ]
            if comps:
                budget[0] = 120
        if comps:
            a, b = alg.canon_sqrts(a), alg.canon_sqrts(b)
        ites = []
        _ites(a, ites, set())
        _ites(b, ites, set())
        if ites:
            if depth > (14 if comps else 9) or budget[0] <= 0:
                if TRACE:
                    print("alg: out of budget", depth, budget, len(ites))
                return False
            # innermost condition first (no ite inside the condition), the linear ones before the others
            pick = None
            for t in ites:
                if not alg.has_ite(t.arg(0)):
                    if not comps or self._linear(t.arg(0)):
                        pick = t.arg(0)
                        break
                    pick = t.arg(0) if pick is None else pick
            if pick is None:
                pick = ites[-1].arg(0)
            test = self.infeasible_linear if comps else self.infeasible
            cases = [v for v in (True, False)
                     if not test(extra + [pick if v else z3.simplify(z3.Not(pick))])]
            if len(cases) > 1:
                budget[0] -= 1
            for val in cases:
                lit = pick if val else z3.simplify(z3.Not(pick))
                sub = [(pick, z3.BoolVal(val))]
                npick = z3.simplify(z3.Not(pick))
                if z3.is_app(npick):
                    sub.append((npick, z3.BoolVal(not val)))
                a2 = simp(z3.substitute(z(a), *sub))
                b2 = simp(z3.substitute(z(b), *sub))
                cs = [(simp(z3.substitute(z(s), *sub)), [simp(z3.substitute(z(t), *sub)) for t in ts]) for s, ts in comps]
                if not self._alg(a2, b2, extra + [lit], depth + len(cases) - 1, budget, cs):
                    return False
            return True
        try:
            p = alg.padd(alg.to_poly(a), alg.to_poly(b), -1)
            if not p:
                return True
            rules = self._rules()
            p = alg.reduce(p, rules)
            if not p:
                return True
            if comps:
                cr = self._comp_rules(comps, extra)
                if cr:
                    rules = rules + cr
                    p = alg.reduce(p, rules)
                    if not p:
                        return True
            for _ in range(4):
                sub = []
                for i in alg.inv_atoms(p):
                    q = alg.INV_OF[i]
                    q2 = alg.reduce(q, rules)
                    if q2 and q2 != q:
                        sub.append((((i, 1),), alg.inv(q2)))
                if not sub:
                    break
                p = alg.reduce(alg.reduce(p, sub), rules)
                if not p:
                    return True
            ids = alg.inv_atoms(p)
            if ids:
                good = []
                for i in list(ids):
                    q = alg.INV_OF[i]
                    ids |= alg.inv_atoms(q)
                for i in ids:
                    q = alg.poly_z3(alg.INV_OF[i])
                    if any(x in alg.INV_OF for m in alg.INV_OF[i] for x, _ in m):
                        continue
                    kk = (q.get_id(), tuple(e.get_id() for e in extra if not is_const(e)))
                    if kk not in self._entail:
                        self._entail[kk] = (self.entails(q != 0, extra, 1500), q)
                    if self._entail[kk][0]:
                        good.append(i)
                if good:
                    irules = alg.inv_rules(good) + self._sqrt_inv_rules(good, rules)
                    p = alg.reduce(p, rules + irules)
                    if not p:
                        return True
                    # multiply out: two different denominators of the same value
                    for i in sorted(alg.inv_atoms(p) & set(good)):
                        p = alg.pmul(p, alg.INV_OF[i])
                        p = alg.reduce(p, rules + irules)
                        if not p:
                            return True
            # equalities among the assumptions as rewrite rules (linear leading atoms)
            er = self._eq_rules(extra)
            if er:
                p = alg.reduce(p, rules + er)
                if not p:
                    return True
            if TRACE:
                print("alg: left", str(alg.poly_z3(p))[:1500], "under", [str(e) for e in extra])
            return False
        except (alg.TooBig, RecursionError):
            return False

    def _comp_rules(self, comps, extra):
        """s*s = t1*t1 + .., and t1 = .. = 0 where s = 0 is assumed"""
        out, seen = [], set()
        lits = [z3.simplify(e) for e in extra if not is_const(e)]
        for s, ts in comps:
            if is_const(s) or alg.has_ite(s):
                continue
            s = alg.canon_sqrts(s)
            if is_const(s) or not z3.is_app(s) or s.decl().name() != "sqrt" or s.get_id() in seen:
                continue
            seen.add(s.get_id())
            ps = alg.to_poly(s)
            if len(ps) != 1:
                continue
            (m, c), = ps.items()
            ps2 = {}
            polys = [alg.to_poly(t) for t in ts]
            for q in polys:
                ps2 = alg.padd(ps2, alg.pmul(q, q))
            out.append((alg.mmul(m, m), {k: v / (c * c) for k, v in ps2.items()}))
            zero = False
            for l in lits:
                if z3.is_eq(l) or z3.is_le(l) or z3.is_ge(l):
                    u, v = l.arg(0), l.arg(1)
                    if z3.is_ge(l):
                        u, v = v, u
                    if z3.is_eq(l) and is_const(_const_of(u)):
                        u, v = v, u
                    if is_const(_const_of(v)) and _const_of(v) == 0 and not alg.has_ite(u) and alg.canon_sqrts(u).eq(s):
                        zero = True
            if TRACE and not zero:
                print("alg: no zero rule for", s.get_id(), [str(l)[:400] for l in lits if "sqrt" in str(l)[:200]], str(s)[:400])
            if zero:
                for q in polys:
                    q = {k: v for k, v in q.items() if v}
                    if q and () != max(q):
                        m0 = max(q, key=lambda mm: (sum(e for _, e in mm), mm))
                        out.append((m0, {k: -v / q[m0] for k, v in q.items() if k != m0}))
        return out

    def _sqrt_inv_rules(self, good, rules):
        """s*s = a and i = 1/s give a*i = s (oriented on the leading monomial of a)"""
        out = []
        for i in good:
            q = alg.INV_OF[i]
            if len(q) != 1:
                continue
            (m, c), = q.items()
            if c != 1 or len(m) != 1 or m[0][1] != 1:
                continue
            at = m[0][0]
            for lhs, rhs in rules:
                if lhs == ((at, 2),):
                    rhs = alg.reduce(rhs, rules)
                    if not rhs or any(x == at or x in alg.INV_OF for mm in rhs for x, _ in mm) or max(rhs) == ():
                        continue
                    m0 = max(rhs, key=lambda mm: (sum(e for _, e in mm), mm))
                    k = rhs[m0]
                    r = {((at, 1),): 1 / k}
                    for mm, v in rhs.items():
                        if mm != m0:
                            r = alg.padd(r, {alg.mmul(mm, ((i, 1),)): -v / k})
                    out.append((alg.mmul(m0, ((i, 1),)), r))
        return out

    def _rules(self):
        if not hasattr(self, "_rr"):
            self._rr = []
            for lhs, rhs in self.rules_src:
                pl = alg.to_poly(lhs)
                pr = alg.to_poly(rhs)
                if len(pl) == 1:
                    (m, c), = pl.items()
                    self._rr.append((m, {k: v / c for k, v in pr.items()}))
        return self._rr

    def _eq_rules(self, extra):
        out = []
        for f in list(extra) + self.facts:
            if is_const(f) or not z3.is_eq(f) or kind(f.arg(0)) != "f":
                continue
            if z3.is_quantifier(f):
                continue
            acc = []
            _ites(f, acc, set())
            if acc:
                continue
            try:
                p = alg.padd(alg.to_poly(f.arg(0)), alg.to_poly(f.arg(1)), -1)
            except alg.TooBig:
                continue
            if not p or len(p) > 12:
                continue
            lin = [m for m in p if len(m) == 1 and m[0][1] == 1 and m[0][0] not in alg.INV_OF]
            lin = [m for m in lin if not any(x == m[0][0] for mm in p if mm != m for x, _ in mm)]
            if lin:
                m = max(lin)
                c = p[m]
                out.append((m, {k: -v / c for k, v in p.items() if k != m}))
        return out

    # -- solvers
    def _relevant(self, goal, extra):
        syms = set(_symbols(z(goal), self._sym))
        for e in extra:
            if not is_const(e):
                syms |= _symbols(e, self._sym)
        others = {x for f in self.facts for x in _symbols(f, self._sym) if x.startswith("i!")} - syms
        for f in self.facts:        # positions of other obligations may be tied to this one's
            s = _symbols(f, self._sym)
            if s & others and z3.is_eq(f) and any(x.startswith("i!") for x in s & syms):
                others -= s
        rest = [(f, _symbols(f, self._sym)) for f in self.facts]
        rest = [(f, s) for f, s in rest if not s & others]
        out = []
        changed = True
        rounds = 0
        while changed and rounds < 3:
            changed = False
            rounds += 1
            new = set()
            keep = []
            for f, s in rest:
                if s & syms:
                    out.append(f)
                    new |= s
                    changed = True
                else:
                    keep.append((f, s))
            rest = keep
            syms |= new
        return out

    def _z3(self, goal, extra):
        STATS["queries"] += 1
        neg = z3.Not(goal)
        ex = [e for e in extra if not is_const(e)]
        if any(is_const(e) and not e for e in extra):
            return Result("proved", "simplify")
        attempts = []
        rel = self._relevant(goal, extra)
        if len(rel) < len(self.facts):
            attempts.append((rel, self.timeout // 2))
        attempts.append((self.facts, self.timeout))
        last, tried = None, False
        for facts, to in attempts:
            s = z3.Solver()
            s.set("timeout", int(to))
            for f in facts:
                s.add(f)
            for e in ex:
                s.add(e)
            s.add(neg)
            if not tried:
                s.set("timeout", 1000)
                r = s.check()
                if r == z3.unknown:
                    if linearize.unsat(facts + ex + [neg], 2500):
                        return Result("proved", "linear")
                    s.set("timeout", int(to))
                    r = s.check()
            else:
                r = s.check()
            if r == z3.unsat:
                return Result("proved", "z3")
            if r == z3.sat and facts is self.facts or (r == z3.sat and len(facts) == len(self.facts)):
                return Result("refuted", "z3", model=s.model())
            last = s
            if not tried:
                tried = True
                if boolalg.valid(goal, facts + ex):
                    return Result("proved", "algebra")
                if linearize.unsat(facts + ex + [neg], self.timeout):
                    return Result("proved", "linear")
        # cvc5
        s = z3.Solver()
        for f in self.facts:
            s.add(f)
        for e in ex:
            s.add(e)
        s.add(neg)
        r = cvc5_check(s.to_smt2(), max(2, self.timeout // 1000))
        if r == "unsat":
            return Result("proved", "cvc5")
        return Result("unknown", "z3+cvc5", note=last.reason_unknown() if last is not None else "")


def cvc5_check(smt2, seconds):
    try:
        import cvc5  # noqa: F401  (python bindings share the binary's version)
    except Exception:
        pass
    try:
        p = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=%d" % (seconds * 1000), "-"],
                           input="(set-logic ALL)\n" + smt2, capture_output=True, text=True,
                           timeout=seconds + 5)
        for line in p.stdout.splitlines():
            if line.strip() in ("sat", "unsat", "unknown"):
                return line.strip()
    except Exception:
        pass
    return "unknown"
