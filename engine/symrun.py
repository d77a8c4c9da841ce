"""Prove one contract configuration: explore the real source, discharge every obligation."""
import linecache
import os
import sys
import time
import traceback

import z3

from . import ctx as C
from . import terms as T
from . import prove as P
from .terms import Unsupported

HERE = os.path.dirname(os.path.abspath(__file__))


def classify_exc(e):
    """'repo': raised by the code under contract; 'library': by a library contract; 'engine': our limitation"""
    tb = e.__traceback__
    frames = traceback.extract_tb(tb)
    if not frames:
        return "engine", ""
    last = frames[-1]
    where = "%s:%s" % (last.filename, last.lineno)
    repo = [f for f in frames if "/gradslam/" in f.filename]
    if repo:
        where = "%s:%d in %s" % (repo[-1].filename, repo[-1].lineno, repo[-1].name)
    if last.filename.startswith(HERE):
        line = linecache.getline(last.filename, last.lineno).strip()
        return ("library" if line.startswith("raise ") else "engine"), where
    if not repo:
        return "engine", "%s:%s" % (last.filename, last.lineno)
    return "repo", where


def run(contract, cfg, deadline=None, timeout=None):
    from .symv import SymV
    t0 = time.time()
    opts = dict(contract.opts)
    timeout = timeout or opts.get("timeout", 6000)
    out = {"contract": contract.name, "cfg": cfg, "obligations": [], "paths": 0, "functions": [], "status": "ok",
           "note": ""}
    funcs = set()

    def thunk(c):
        V = SymV(c)
        try:
            contract.fn(V, **cfg)
        except (C.PathEnd, Unsupported):
            raise
        except z3.Z3Exception as e:
            raise Unsupported("solver interface: %s" % e)
        except RecursionError:
            raise Unsupported("recursion limit")
        except Exception as e:
            kd, where = classify_exc(e)
            if os.environ.get("VC_TRACE"):
                traceback.print_exc()
            if kd == "engine":
                raise Unsupported("%s: %s at %s" % (type(e).__name__, e, where))
            c.exc = (kd, "%s: %s" % (type(e).__name__, str(e)[:200]), where)
            c.oblige("no exception [%s]" % kd, False, where)
            raise C.PathEnd()
        finally:
            funcs.update(c.called)
    try:
        paths = C.explore(thunk, opts, max_paths=opts.get("max_paths", 400), deadline=deadline)
    except Unsupported as e:
        out["status"], out["note"] = "unsupported", str(e)
        if os.environ.get("VC_TRACE"):
            traceback.print_exc()
        out["functions"] = sorted(funcs)
        out["time"] = time.time() - t0
        return out
    out["paths"] = len(paths)
    out["functions"] = sorted(funcs)
    live = 0
    cover = set()
    for pi, c in enumerate(paths):
        C.CUR = c
        try:
            if any(T.is_const(f.term) and not f.term for f in c.facts):
                continue
            prov = {}
            for o in c.obligations:
                if deadline and time.time() > deadline:
                    out["status"], out["note"] = "budget", "time budget exhausted while discharging"
                    out["time"] = time.time() - t0
                    return out
                key = (tuple(f.get_id() if hasattr(f, 'get_id') else f for f in o.facts), len(o.rules))
                if key not in prov:
                    prov = {key: P.Prover(o.facts, o.rules, timeout)}
                pr = prov[key]
                r = pr.prove(o.goal)
                rec = {"label": o.label, "path": pi, "status": r.status, "backend": r.backend, "time": round(r.time, 3),
                       "where": o.where}
                if r.status != "proved":
                    rec["goal"] = str(o.goal)[:1500]
                    rec["exc"] = getattr(c, "exc", None) if o.label.startswith("no exception") else None
                    rec["note"] = r.note
                    if r.model is not None:
                        rec["model"] = dump_model(r.model, c)
                out["obligations"].append(rec)
            r = c.solver.check()
            if r != z3.unsat:
                if c.status == "done":
                    live += 1
                for l in c.memo.get("cover", []):
                    cover.add(l)
        finally:
            C.CUR = None
    out["live_paths"] = live
    out["cover"] = sorted(cover)
    out["time"] = time.time() - t0
    return out


def _val(m, e, default=0):
    v = m.eval(e, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return v.numerator_as_long() / v.denominator_as_long()
    if z3.is_algebraic_value(v):
        return float(v.approx(12).as_fraction())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return default


def dump_model(m, c):
    """values of the contract's inputs in a counterexample"""
    import itertools
    out = {}
    try:
        for name, d in c.inputs.items():
            if d[0] in ("dim", "int", "real", "bool"):
                out[name] = _val(m, d[1])
            elif d[0] == "tensor":
                dims = [x if isinstance(x, int) else _val(m, x) for x in d[2]]
                n = 1
                for x in dims:
                    n *= max(x, 0)
                if n > 4000:
                    out["__too_large__"] = name
                    continue
                vals = [_val(m, d[1](*[z3.IntVal(i) for i in ix]) if dims else d[1])
                        for ix in itertools.product(*[range(x) for x in dims])]
                out[name] = {"shape": dims, "values": vals, "dtype": d[3]}
            elif d[0] in ("rot", "rigid", "pinhole"):
                fs = d[1] if d[0] != "pinhole" else list(d[1].values())
                batch = d[3] if d[0] == "rigid" else d[2]
                dims = [x if isinstance(x, int) else _val(m, x) for x in batch]
                n = 1
                for x in dims:
                    n *= max(x, 0)
                if n > 500:
                    out["__too_large__"] = name
                    continue
                ixs = list(itertools.product(*[range(x) for x in dims]))
                q = [[_val(m, f(*[z3.IntVal(i) for i in ix]) if dims else f) for f in fs] for ix in ixs]
                rec = {"shape": dims, "params": q}
                if d[0] == "rigid":
                    rec["t"] = [[_val(m, d[2](*[z3.IntVal(i) for i in ix], z3.IntVal(k))) for k in range(3)] for ix in ixs]
                out[name] = rec
    except Exception as e:  # a model that cannot be evaluated is simply not replayed
        out["__error__"] = str(e)
    return out
