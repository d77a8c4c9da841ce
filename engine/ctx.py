"""Path exploration by re-execution, facts, obligations, nested generic evaluation."""
import time
import z3

from . import terms as T
from .terms import Unsupported, is_const, simp, z, not_


class PathEnd(BaseException):
    """this path is infeasible / finished (not an error)"""


class Obligation:
    __slots__ = ("label", "goal", "nfacts", "facts", "rules", "result", "where", "extra")

    def __init__(self, label, goal, facts, rules, where=""):
        self.label, self.goal, self.facts, self.rules, self.where = label, goal, facts, rules, where
        self.result = None


class Fact:
    __slots__ = ("term", "kind")

    def __init__(self, term, kind):
        self.term, self.kind = term, kind


CUR = None


def cur():
    if CUR is None:
        raise RuntimeError("no active symbolic context")
    return CUR


class Ctx:
    def __init__(self, prefix=(), opts=None):
        self.prefix = list(prefix)
        self.taken = []            # decisions of this path
        self.alternatives = []     # prefixes still to explore
        self.facts = []
        self.rules = []            # (lhs term, rhs term) oriented algebraic rules
        self.obligations = []
        self.fresh_n = {}
        self.memo = {}             # per-path registries of the library model
        self.solver = z3.Solver()
        self.solver.set("timeout", 700)
        self.hard = False          # more effort for the decisions
        self.nested = []           # stack of nested scopes
        self.journal = None
        self.keep = []             # keep asts alive
        self.opts = opts or {}
        self.inputs = {}           # name -> descriptor, for counterexamples
        self.trace = []
        self.deadline = None
        self.seen_axioms = set()
        self.grad_inputs = set()   # names of the inputs that require gradients
        self.given = {}            # ranges of generic positions (see tensor.enumeration)
        self.generic = []          # generic index constants currently open

    # ---- names
    def fresh_name(self, base):
        n = self.fresh_n.get(base, 0)
        self.fresh_n[base] = n + 1
        return "%s!%d" % (base, n) if n else base

    def fresh(self, base, sort):
        return z3.Const(self.fresh_name(base), sort)

    # ---- facts
    def add_fact(self, t, kind="path"):
        t = simp(t)
        if is_const(t):
            if not t and kind != "axiom":
                self.facts.append(Fact(z3.BoolVal(False), kind))
                self.solver.add(z3.BoolVal(False))
            return
        if kind == "axiom":
            k = t.get_id()
            if k in self.seen_axioms:
                return
            self.seen_axioms.add(k)
            self.keep.append(t)
        self.facts.append(Fact(t, kind))
        self.solver.add(t)

    def axiom(self, t):
        self.add_fact(t, "axiom")

    def assume(self, t):
        self.add_fact(t, "assume")

    def rule(self, lhs, rhs):
        self.rules.append((lhs, rhs))

    def fact_terms(self):
        return [f.term for f in self.facts]

    # ---- decisions
    def check(self, t):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of the harness exhausted")
        self.solver.push()
        self.solver.add(t)
        r = self.solver.check()
        self.solver.pop()
        if r == z3.unknown and self.hard:
            # a case distinction is not acceptable here: more effort
            s = z3.Solver()
            s.set("timeout", 6000)
            for f in self.facts:
                s.add(f.term)
            s.add(t)
            r = s.check()
        return r

    def decide(self, t):
        t = simp(t)
        if is_const(t):
            return bool(t)
        if self.nested:
            # a condition about the generic element is explored inside the nested scope
            cs = T.consts_in(t)
            for depth in range(len(self.nested) - 1, -1, -1):
                sc = self.nested[depth]
                if sc.owns(cs):
                    return sc.decide(self, t)
        return self._decide_main(t)

    def _decide_main(self, t):
        i = len(self.taken)
        if i < len(self.prefix):
            c = self.prefix[i]
            self.taken.append(c)
            if c[1]:
                self.add_fact(t if c[0] else not_(t), "path")
            return c[0]
        rt = self.check(t)
        if rt == z3.unsat:
            self.taken.append((False, False))
            return False
        rf = self.check(not_(t))
        if rf == z3.unsat:
            self.taken.append((True, False))
            return True
        self.alternatives.append(self.taken + [(False, True)])
        self.taken.append((True, True))
        self.add_fact(t, "path")
        return True

    def int_entails(self, t, timeout=1500):
        """is t a consequence of the facts about integers alone (True or don't know); conditions local to a nested scope
        are not used, so that the answer stays true for the rest of the path"""
        t = simp(t)
        if is_const(t):
            return bool(t)
        key = ("int_entails", t.get_id())
        hit, tries, size = self.memo.get(key, (None, 0, 0))
        if hit is False and tries < 3 and len(self.facts) != size:      # more is known by now
            hit = None
        if hit is None:
            names = {x.decl().name() for x in consts_of(t)}
            given = [g for own, g in self.given.values() if own & names]
            hit = False
            facts = [f for f in self.facts if f.kind != "local" and not has_reals(f.term)]
            for fs in ([f for f in facts if f.kind != "axiom"], facts):
                s = z3.Solver()
                s.set("timeout", timeout)
                for f in fs:
                    s.add(f.term)
                s.add(z(not_(t)), *given)
                if s.check() == z3.unsat:
                    hit = True
                    break
            self.memo[key] = hit, tries + 1, len(self.facts)
            self.keep.append(t)
        return hit

    # ---- obligations
    def oblige(self, label, goal, where=""):
        goal = simp(goal)
        self.obligations.append(Obligation(label, goal, self.fact_terms(), list(self.rules), where))

    # ---- journal (undo of effects inside nested exploration)
    def log_undo(self, fn):
        if self.journal is not None:
            self.journal.append(fn)


_REALS = {}


def has_reals(t):
    if is_const(t):
        return False
    root = t.get_id()
    if root not in _REALS:
        todo, seen, r = [t], set(), False
        while todo and not r:
            x = todo.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_quantifier(x):
                todo.append(x.body())
            elif x.sort() == z3.RealSort():
                r = True
            else:
                todo.extend(x.children())
        _REALS[root] = (r, t)
    return _REALS[root][0]


def consts_of(t):
    todo, seen, out = [t], set(), []
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        else:
            todo.extend(x.children())
    return out


class Scope:
    """nested exploration scope over a generic index"""

    def __init__(self, consts):
        self.ids = {c.get_id() for c in consts}
        self.consts = list(consts)
        self.prefix = []
        self.taken = []
        self.alternatives = []
        self.conds = []

    def owns(self, cs):
        return any(i in self.ids for i in cs)

    def decide(self, ctx, t):
        i = len(self.taken)
        if i < len(self.prefix):
            c = self.prefix[i]
        else:
            rt = ctx.check(t)
            if rt == z3.unsat:
                c = (False, False)
            else:
                rf = ctx.check(not_(t))
                if rf == z3.unsat:
                    c = (True, False)
                else:
                    self.alternatives.append(self.taken + [(False, True)])
                    c = (True, True)
        self.taken.append(c)
        if c[1]:
            lit = t if c[0] else not_(t)
            self.conds.append(lit)
            ctx.facts.append(Fact(lit, "local"))
            ctx.solver.add(lit)
        return c[0]


def nested_explore(ctx, consts, thunk, limit=64):
    """run thunk for every local path; undo its effects in between.

    Returns [(condition term, value, effects)] where effects is the list of redo closures gathered by
    the journal owner; thunk() returns (value, capture) and is responsible for capturing effects.
    """
    out = []
    stack = [[]]
    while stack:
        if len(out) >= limit:
            raise Unsupported("too many local paths in a generic iteration")
        sc = Scope(consts)
        sc.prefix = stack.pop()
        ctx.nested.append(sc)
        old_journal, ctx.journal = ctx.journal, []
        nf = len(ctx.facts)
        ctx.solver.push()
        try:
            val = thunk()
        finally:
            ctx.nested.pop()
            undo = ctx.journal
            ctx.journal = old_journal
            ctx.solver.pop()
            # keep axioms, drop local path facts
            tail = ctx.facts[nf:]
            del ctx.facts[nf:]
            for f in tail:
                if f.kind != "local":
                    ctx.facts.append(f)
                    ctx.solver.add(f.term)
            for u in reversed(undo):
                u()
        out.append((T.and_(*sc.conds), val))
        stack.extend(sc.alternatives)
    return out


def explore(run, opts=None, max_paths=400, deadline=None):
    """run(ctx) for every feasible path. Returns list of finished contexts."""
    global CUR
    done = []
    stack = [[]]
    while stack:
        if len(done) >= max_paths:
            raise Unsupported("more than %d paths" % max_paths)
        ctx = Ctx(stack.pop(), opts)
        ctx.deadline = deadline
        CUR = ctx
        try:
            try:
                run(ctx)
                ctx.status = "done"
            except PathEnd:
                ctx.status = "end"
        finally:
            CUR = None
        done.append(ctx)
        stack.extend(ctx.alternatives)
    return done


# ---- axiom collectors: which axioms/rules an evaluation relied on (for re-instantiation)
def _axiom(self, t):
    t = simp(t)
    if is_const(t):
        return
    for c in self.collectors[-1:]:
        c.append(("ax", t, None))
    self.add_fact(t, "axiom")


def _rule(self, lhs, rhs):
    for c in self.collectors[-1:]:
        c.append(("rule", lhs, rhs))
    k = ("rule", lhs.get_id() if hasattr(lhs, "get_id") else lhs)
    if k in self.memo:
        return
    self.memo[k] = (lhs, rhs)
    self.rules.append((lhs, rhs))


def _reemit(self, items, pairs=None):
    for kd, a, b in items:
        if pairs:
            a = T.subst(a, pairs)
            b = T.subst(b, pairs) if b is not None else None
        if kd == "ax":
            self.axiom(a)
        else:
            self.rule(z(a), z(b))


Ctx.axiom = _axiom
Ctx.rule = _rule
Ctx.reemit = _reemit
Ctx.collectors = ()
_old_init = Ctx.__init__


def _init(self, *a, **k):
    _old_init(self, *a, **k)
    self.collectors = []
    self.index_consts = {}


Ctx.__init__ = _init
