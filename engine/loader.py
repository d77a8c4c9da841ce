"""Loads the real source of /repo/gradslam over the symbolic library, on every run.

The only rewriting of the source (done mechanically on its AST):
  * every `for` loop (outside generators) becomes  __vc_loop__(iterable, body-function, ...)  -- same body statements;
  * list/generator comprehensions become __vc_comp__(element-function, iterable, kind) (one `for`) or __vc_comp_n__ (more);
  * s.join(x) becomes __vc_join__(s, x), which calls it (or joins a list of symbolic length);
  * every function is wrapped so that a caller can be checked against the callee's contract.
Docstrings, annotations and everything else stay as they are.
"""
import ast
import builtins
import os
import sys
import types

from . import ctx as C
from . import runtime as R
from .terms import Unsupported

REPO = os.environ.get("VC_REPO", "/repo")


MUTATORS = ("append", "extend", "insert", "remove", "discard", "add", "pop", "clear", "sort", "reverse", "update")


class _Names(ast.NodeVisitor):
    """names bound by the statements of a loop body (not in nested scopes)"""

    def __init__(self):
        self.names, self.stores, self.muts = [], [], []
        self.bad = False
        self.impure = None          # why the body may change something besides names and lists named in muts

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.add(n.id)

    def visit_Subscript(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.impure = "an item is assigned"
        if isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id not in self.stores:
            self.stores.append(n.value.id)
        self.generic_visit(n)

    def visit_Attribute(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.impure = "an attribute is assigned"
        self.generic_visit(n)

    def visit_FunctionDef(self, n):
        self.add(n.name)

    def visit_ClassDef(self, n):
        self.bad = True

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        self.bad = self.bad or any(isinstance(x, ast.NamedExpr) for x in ast.walk(n))

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_Yield(self, n):
        self.bad = True

    visit_YieldFrom = visit_Await = visit_Global = visit_Nonlocal = visit_Yield

    def visit_Import(self, n):
        for a in n.names:
            self.add((a.asname or a.name).split(".")[0])

    visit_ImportFrom = visit_Import

    def visit_ExceptHandler(self, n):
        if n.name:
            self.add(n.name)
        self.generic_visit(n)

    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Attribute) and (isinstance(f.value, ast.Name) and f.value.id == "cls" or f.attr in MUTATORS and not isinstance(f.value, ast.Name)):
            self.impure = "a method that may change its object is called"
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "self":
            self.impure = self.impure or "self"         # allowed if the object is found unchanged afterwards
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.attr in MUTATORS and f.value.id not in self.muts:
            self.muts.append(f.value.id)
        if isinstance(n.func, ast.Name) and n.func.id in ("super", "locals", "exec", "eval"):
            self.bad = True
        self.generic_visit(n)


class _Exits(ast.NodeTransformer):
    """break/continue/return of the loop body -> returns of the body function"""

    def __init__(self):
        self.depth = 0

    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_ClassDef = visit_FunctionDef

    def visit_For(self, n):
        self.depth += 1
        n.body = [self.visit(x) for x in n.body]
        self.depth -= 1
        n.orelse = [self.visit(x) for x in n.orelse]
        return n

    def visit_While(self, n):
        return self.visit_For(n)

    def visit_Break(self, n):
        if self.depth:
            return n
        return ast.copy_location(_ret(ast.Constant("break")), n)

    def visit_Continue(self, n):
        if self.depth:
            return n
        return ast.copy_location(_ret(ast.Constant("continue")), n)

    def visit_Return(self, n):
        return ast.copy_location(_ret(ast.Constant("return"), n.value or ast.Constant(None)), n)


def _ret(tag, val=None):
    return ast.Return(ast.Tuple([tag, val if val is not None else ast.Constant(None)], ast.Load()))


def _name(n, store=False):
    return ast.Name(n, ast.Store() if store else ast.Load())


class Instrument(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.fn = []
        self.n = 0
        self.loopno = [0]

    def visit_ClassDef(self, n):
        self.fn.append(n.name)
        n.body = [self.visit(x) for x in n.body]
        self.fn.pop()
        return n

    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        self.loopno.append(0)
        body = []
        for s in n.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        n.body = body
        self.loopno.pop()
        qual = self.mod + ":" + ".".join(self.fn)
        self.fn.pop()
        n.decorator_list = n.decorator_list + [ast.Call(_name("__vc_fn__"), [ast.Constant(qual)], [])]
        return n

    def visit_For(self, n):
        if not self.fn:
            return self.generic_visit(n)
        is_func = len(self.loopno) > 1
        if not is_func:
            return self.generic_visit(n)
        self.loopno[-1] += 1
        where = "%s:%s#%d" % (self.mod, ".".join(self.fn), self.loopno[-1])
        b = _Names()
        for s in n.body:
            b.visit(s)
        b.visit(n.target)
        if b.bad:
            return self.generic_visit(n)
        import copy
        self.n += 1
        k = self.n
        inner = []
        for s in copy.deepcopy(n.body):
            s = _Exits().visit(s)
            r = self.visit(s)
            inner.extend(r if isinstance(r, list) else [r])
        orelse = []
        for s in n.orelse:
            r = self.visit(s)
            orelse.extend(r if isinstance(r, list) else [r])
        it = self.visit(n.iter)
        names = b.names
        stores = [x for x in b.stores if x not in names]
        muts = [x for x in b.muts if x not in names and x not in stores]
        body_fn = ast.FunctionDef("__vc_body_%d" % k, ast.arguments([], [ast.arg("__vc_item")], None, [], [], None, []),
                                  ([ast.Nonlocal(list(names))] if names else []) +
                                  [ast.Assign([n.target], _name("__vc_item"))] + inner +
                                  [_ret(ast.Constant("next"))], [], None, None)
        get_body = [ast.If(ast.Compare(_name("__vc_n"), [ast.Eq()], [ast.Constant(x)]), [ast.Return(_name(x))], []) for x in names + stores + muts]
        get_fn = ast.FunctionDef("__vc_get_%d" % k, ast.arguments([], [ast.arg("__vc_n")], None, [], [], None, []),
                                 get_body or [ast.Pass()], [], None, None)
        set_body = [ast.If(ast.Compare(_name("__vc_n"), [ast.Eq()], [ast.Constant(x)]),
                           [ast.Assign([_name(x, True)], _name("__vc_v"))], []) for x in names]
        set_fn = ast.FunctionDef("__vc_set_%d" % k,
                                 ast.arguments([], [ast.arg("__vc_n"), ast.arg("__vc_v")], None, [], [], None, []),
                                 ([ast.Nonlocal(list(names))] if names else []) + (set_body or [ast.Pass()]), [], None, None)
        # keep the names local to the enclosing function
        keep = ast.If(ast.Constant(False), [ast.Assign([_name(x, True)], ast.Constant(None)) for x in names] or [ast.Pass()], [])
        call = ast.Assign([_name("__vc_r%d" % k, True)],
                          ast.Call(_name("__vc_loop__"), [it, _name("__vc_body_%d" % k), _name("__vc_get_%d" % k),
                                                          _name("__vc_set_%d" % k),
                                                          ast.Tuple([ast.Constant(x) for x in names], ast.Load()),
                                                          ast.Constant(where),
                                                          ast.Tuple([ast.Constant(x) for x in stores], ast.Load()),
                                                          ast.Tuple([ast.Constant(x) for x in muts], ast.Load()),
                                                          ast.Constant(b.impure)], []))
        out = [keep, body_fn, get_fn, set_fn, call]
        has_ret = any(isinstance(x, ast.Return) for s in n.body for x in ast.walk(s))
        if has_ret:
            out.append(ast.If(ast.Compare(ast.Subscript(_name("__vc_r%d" % k), ast.Constant(0), ast.Load()), [ast.Eq()],
                                          [ast.Constant("return")]),
                              [ast.Return(ast.Subscript(_name("__vc_r%d" % k), ast.Constant(1), ast.Load()))], []))
        if orelse:
            out.append(ast.If(ast.Compare(ast.Subscript(_name("__vc_r%d" % k), ast.Constant(0), ast.Load()), [ast.NotEq()],
                                          [ast.Constant("break")]), orelse, []))
        for x in out:
            ast.copy_location(x, n)
            ast.fix_missing_locations(x)
        return out

    def _body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def visit_If(self, n):
        n.test = self.visit(n.test)
        n.body = self._body(n.body)
        n.orelse = self._body(n.orelse)
        return n

    def visit_While(self, n):
        n.test = self.visit(n.test)
        n.body = self._body(n.body)
        n.orelse = self._body(n.orelse)
        return n

    def visit_With(self, n):
        n.items = [self.visit(i) for i in n.items]
        n.body = self._body(n.body)
        return n

    def visit_Try(self, n):
        n.body, n.orelse, n.finalbody = self._body(n.body), self._body(n.orelse), self._body(n.finalbody)
        for h in n.handlers:
            h.body = self._body(h.body)
        return n

    def _comp(self, n, kind):
        if len(n.generators) != 1:
            return self._comp_n(n, kind)
        g = n.generators[0]
        if g.is_async or any(isinstance(x, ast.NamedExpr) for x in ast.walk(n)):
            return self.generic_visit(n)

        def lam(e):
            e = self.visit(e)
            if isinstance(g.target, ast.Name):
                return ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), e)
            if isinstance(g.target, ast.Tuple) and all(isinstance(x, ast.Name) for x in g.target.elts):
                inner = ast.Lambda(ast.arguments([], [ast.arg(x.id) for x in g.target.elts], None, [], [], None, []), e)
                return ast.Lambda(ast.arguments([], [ast.arg("__vc_item")], None, [], [], None, []),
                                  ast.Call(inner, [ast.Starred(_name("__vc_item"), ast.Load())], []))
            return None
        import copy
        f = lam(copy.deepcopy(n.elt))
        if f is None:
            return self.generic_visit(n)
        conds = [lam(copy.deepcopy(x)) for x in g.ifs]
        r = ast.Call(_name("__vc_comp__"), [f, self.visit(g.iter), ast.Constant(kind), ast.List(conds, ast.Load())], [])
        return ast.copy_location(ast.fix_missing_locations(ast.copy_location(r, n)), n)

    def _comp_n(self, n, kind):
        import copy
        if any(g.is_async for g in n.generators) or any(isinstance(x, ast.NamedExpr) for x in ast.walk(n)):
            return self.generic_visit(n)
        if not all(isinstance(g.target, ast.Name) or isinstance(g.target, ast.Tuple) and all(isinstance(x, ast.Name) for x in g.target.elts)
                   for g in n.generators):
            return self.generic_visit(n)

        def args(names):
            return ast.arguments([], [ast.arg(x) for x in names], None, [], [], None, [])

        def lam(e, k):
            """e as a function of the items of the first k generators"""
            e = self.visit(copy.deepcopy(e))
            for q in reversed(range(k)):
                t = n.generators[q].target
                names, item = ([t.id], _name("__vc_i%d" % q)) if isinstance(t, ast.Name) else ([x.id for x in t.elts], ast.Starred(_name("__vc_i%d" % q), ast.Load()))
                e = ast.Call(ast.Lambda(args(names), e), [item], [])
            return ast.Lambda(args(["__vc_i%d" % q for q in range(k)]), e)
        gs = n.generators
        r = ast.Call(_name("__vc_comp_n__"), [lam(n.elt, len(gs)), ast.List([lam(g.iter, k) for k, g in enumerate(gs)], ast.Load()),
                                              ast.List([ast.List([lam(c, k + 1) for c in g.ifs], ast.Load()) for k, g in enumerate(gs)], ast.Load()),
                                              ast.Constant(kind)], [])
        return ast.copy_location(ast.fix_missing_locations(ast.copy_location(r, n)), n)

    def visit_ListComp(self, n):
        return self._comp(n, "list") if len(self.loopno) > 1 else self.generic_visit(n)

    def visit_GeneratorExp(self, n):
        return self._comp(n, "gen") if len(self.loopno) > 1 else self.generic_visit(n)

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and len(self.loopno) > 1 and not n.elts:
            return ast.copy_location(ast.Call(_name("__vc_list__"), [], []), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if len(self.loopno) > 1 and isinstance(f, ast.Attribute) and f.attr == "join" and len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], ast.Starred):
            return ast.copy_location(ast.Call(_name("__vc_join__"), [f.value, n.args[0]], []), n)
        return n

    def visit_Assert(self, n):
        return self.generic_visit(n)


class World:
    """one load of the repository's modules"""

    def __init__(self):
        from . import stubs
        self.mods = {}
        self.ext = stubs.externals()
        self.builtins = dict(vars(builtins))
        self.builtins.update(R.overrides())
        self.builtins["__import__"] = self.importer
        self.sources = {}

    def path_of(self, full):
        p = os.path.join(REPO, *full.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py"), True
        if os.path.isfile(p + ".py"):
            return p + ".py", False
        return None, False

    def load(self, full):
        if full in self.mods:
            return self.mods[full]
        path, pkg = self.path_of(full)
        if path is None:
            raise ModuleNotFoundError("No module named %r" % full)
        parent = full.rpartition(".")[0]
        if parent:
            self.load(parent)
            if full in self.mods:
                return self.mods[full]
        m = types.ModuleType(full)
        m.__file__ = path
        m.__package__ = full if pkg else parent
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        self.mods[full] = m
        with open(path) as fh:
            src = fh.read()
        self.sources[full] = src
        tree = ast.parse(src, path)
        tree = Instrument(full).visit(tree)
        ast.fix_missing_locations(tree)
        m.__dict__["__builtins__"] = self.builtins
        for k, v in R.hooks().items():
            m.__dict__[k] = v
        m.__dict__["__name__"] = full
        exec(compile(tree, path, "exec"), m.__dict__)
        if parent:
            setattr(self.mods[parent], full.rpartition(".")[2], m)
        return m

    def importer(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = globals["__package__"]
            for _ in range(level - 1):
                base = base.rpartition(".")[0]
            full = base + ("." + name if name else "")
        else:
            full = name
        top = full.split(".")[0]
        if top == "gradslam":
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        if self.path_of(full + "." + f)[0]:
                            self.load(full + "." + f)
                return m
            return self.load(top)
        if top in self.ext["tops"]:
            if full not in self.ext["mods"]:
                raise Unsupported("import of %s" % full)
            return self.ext["mods"][full] if fromlist else self.ext["mods"][top]
        return builtins.__import__(name, globals, locals, fromlist, level)

    def get(self, qual):
        """module:attr.path"""
        mod, _, attr = qual.partition(":")
        o = self.load(mod)
        for a in attr.split("."):
            o = getattr(o, a)
        return o


_WORLD = None


def world():
    global _WORLD
    if _WORLD is None:
        _WORLD = World()
    return _WORLD
