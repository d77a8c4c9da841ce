"""Concrete back end of the contract language: the same contracts run on the real code under the real torch.

usage: python concrete.py JOB.json   (run by the interpreter that has torch)
"""
import importlib
import importlib.util
import itertools
import json
import math
import os
import random
import sys
import time
import traceback
import types
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
REPO = os.environ.get("VC_REPO", "/repo")
sys.path.insert(0, REPO)
warnings.filterwarnings("ignore")


class _X(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return _X(k)

    def __call__(self, *a, **k):
        return _X("r")


if importlib.util.find_spec("open3d") is None:
    sys.modules["open3d"] = _X("open3d")

import numpy as np  # noqa: E402
import torch  # noqa: E402

from engine.vapi import REG, Skip, Violation  # noqa: E402

TD = {"float32": torch.float32, "float64": torch.float64, "int64": torch.int64, "int32": torch.int32,
      "bool": torch.bool, "uint8": torch.uint8}


def num(x):
    if isinstance(x, torch.Tensor):
        return x.item()
    if isinstance(x, (np.ndarray, np.generic)):
        return x.item()
    return x


class Snap:
    def __init__(self, t):
        self.ref = t
        self.val = t.clone() if isinstance(t, torch.Tensor) else t.copy()


def from_repo(e):
    return any("/gradslam/" in f.filename for f in traceback.extract_tb(e.__traceback__))


class EnumView:
    def __init__(self, hits):
        self.hits, self.count = hits, len(hits)

    def at(self, k):
        return self.hits[int(num(k))]

    def rank(self, *idx):
        ix = tuple(int(num(i)) for i in idx)
        return self.hits.index(ix) if ix in self.hits else -1


class ConcV:
    symbolic = False

    def __init__(self, rng, opts, model=None):
        self.rng, self.opts, self.model = rng, opts, model or {}
        self.tol = opts.get("tol", 1e-3)
        self.torch, self.np = torch, np
        self.patched = []
        self.nchecks = 0
        self.log = {}

    # ---- inputs
    def _m(self, name):
        return self.model.get(name)

    def dim(self, name, lo=1, hi=None):
        m = self._m(name)
        if m is not None:
            if m > 60:
                raise Skip("model dimension too large")
            v = int(m)
        else:
            top = hi if hi is not None else max(lo + 1, self.opts.get("maxdim", 4))
            v = self.rng.randint(lo, top)
        self.log[name] = v
        return v

    def int(self, name, lo=None, hi=None):
        m = self._m(name)
        if m is not None:
            v = int(m)
        else:
            lo = -5 if lo is None else lo
            v = self.rng.randint(lo, lo + 6 if hi is None else hi)
        self.log[name] = v
        return v

    def real(self, name, lo=None, hi=None, strict=False, special=None):
        m = self._m(name)
        if m is not None:
            v = float(m)
        elif special and self.rng.random() < 0.5:
            v = float(self.rng.choice(special))
        else:
            a = -3.0 if lo is None else float(lo)
            b = a + 6.0 if hi is None else float(hi)
            v = self.rng.uniform(a, b)
            if strict and lo is not None and v <= lo:
                v = a + 0.1
        self.log[name] = v
        return v

    def bool(self, name):
        m = self._m(name)
        v = bool(m) if m is not None else self.rng.random() < 0.5
        self.log[name] = v
        return v

    def choose(self, name, options):
        for k, o in enumerate(options[:-1]):
            m = self._m("%s_is%d" % (name, k))
            if m:
                return o
        if self.model:
            return options[-1]
        o = self.rng.choice(options)
        self.log[name] = str(o)[:40]
        return o

    def tensor(self, name, shape, dtype="float32", lo=None, hi=None, np=False, pos=False, special=None, scale=None,
               requires_grad=False, row=None, nrow=1):
        shape = tuple(int(d) for d in shape)
        n = math.prod(shape)
        m = self._m(name)
        if isinstance(m, dict) and tuple(m["shape"]) == shape:
            vals = m["values"]
        elif dtype == "bool":
            p = self.rng.choice([0.0, 0.3, 0.5, 0.7, 1.0])
            vals = [self.rng.random() < p for _ in range(n)]
        elif dtype.startswith("int") or dtype == "uint8":
            a = (0 if dtype == "uint8" else -3) if lo is None else int(lo)
            b = a + 8 if hi is None else int(hi)
            vals = [self.rng.randint(a, b) for _ in range(n)]
            if special:
                vals = [self.rng.choice(special) if self.rng.random() < 0.3 else v for v in vals]
        else:
            sc = scale or self.rng.choice([0.5, 1.0, 1.0, 3.0])
            if lo is not None and hi is not None:
                vals = [self.rng.uniform(lo, hi) for _ in range(n)]
            else:
                vals = [self.rng.gauss(0, 1) * sc for _ in range(n)]
                if pos:
                    vals = [abs(v) + 0.05 for v in vals]
                if lo is not None:
                    vals = [lo + abs(v - lo) for v in vals]
                if hi is not None:
                    vals = [hi - abs(hi - v) for v in vals]
            if special:
                p = self.rng.choice([0.0, 0.2, 0.6])
                vals = [self.rng.choice(special) if self.rng.random() < p else v for v in vals]
        t = torch.tensor(vals, dtype=TD[dtype]).reshape(shape)
        if row is not None:
            nb = len(shape) - nrow
            for b in itertools.product(*[range(d) for d in shape[:nb]]):
                for _ in range(60):
                    if row(self, lambda *k: num(t[b + tuple(int(num(i)) for i in k)]), *b):
                        break
                    t[b] = torch.tensor([self.rng.gauss(0, 1) for _ in range(math.prod(shape[nb:]))],
                                        dtype=TD[dtype]).reshape(shape[nb:])
                else:
                    raise Skip("row invariant")
        if np:
            return t.numpy().copy()
        if requires_grad:
            t.requires_grad_(True)
        return t

    def _quat(self):
        r = self.rng.random()
        if r < 0.1:
            return [0.0, 0.0, 0.0, 1.0]
        if r < 0.2:
            q = [0.0] * 4
            q[self.rng.randrange(3)] = math.sqrt(0.5)
            q[3] = math.sqrt(0.5)
            return q
        q = [self.rng.gauss(0, 1) for _ in range(4)]
        n = math.sqrt(sum(x * x for x in q))
        return [x / n for x in q]

    def rot(self, name, batch=(), np=False, dtype="float32"):
        batch = tuple(int(b) for b in batch)
        n = math.prod(batch)
        m = self._m(name)
        qs = m["params"] if isinstance(m, dict) and tuple(m["shape"]) == batch else [self._quat() for _ in range(n)]
        t = torch.tensor([rotmat(*q) for q in qs], dtype=torch.float64).reshape(batch + (3, 3)).to(TD[dtype])
        return t.numpy().copy() if np else t

    def rigid(self, name, batch=(), np=False, dtype="float32"):
        batch = tuple(int(b) for b in batch)
        n = math.prod(batch)
        m = self._m(name)
        ok = isinstance(m, dict) and tuple(m["shape"]) == batch
        out = torch.zeros((n, 4, 4), dtype=torch.float64)
        for k in range(n):
            q = m["params"][k] if ok else self._quat()
            tr = m["t"][k] if ok else [self.rng.gauss(0, 1) for _ in range(3)]
            out[k, :3, :3] = torch.tensor(rotmat(*q), dtype=torch.float64)
            out[k, :3, 3] = torch.tensor(tr, dtype=torch.float64)
            out[k, 3, 3] = 1
        t = out.reshape(batch + (4, 4)).to(TD[dtype])
        return t.numpy().copy() if np else t

    def pinhole(self, name, batch=(), dtype="float32", skew=False):
        batch = tuple(int(b) for b in batch)
        n = math.prod(batch)
        m = self._m(name)
        ok = isinstance(m, dict) and tuple(m["shape"]) == batch
        out = torch.eye(4, dtype=torch.float64).repeat(n, 1, 1) if n else torch.zeros((0, 4, 4), dtype=torch.float64)
        for k in range(n):
            p = m["params"][k] if ok else [self.rng.uniform(0.5, 6), self.rng.uniform(0.5, 6), self.rng.uniform(-2, 4),
                                           self.rng.uniform(-2, 4)] + ([self.rng.uniform(-1, 1)] if skew else [])
            out[k, 0, 0], out[k, 1, 1], out[k, 0, 2], out[k, 1, 2] = p[:4]
            if skew:
                out[k, 0, 1] = p[4]
        return out.reshape(batch + (4, 4)).to(TD[dtype])

    def array_like(self, shape, f, dtype="float32", np=False):
        shape = tuple(int(d) for d in shape)
        t = torch.zeros(shape, dtype=TD[dtype])
        for ix in itertools.product(*[range(d) for d in shape]):
            t[ix] = num(f(*ix))
        return t.numpy().copy() if np else t

    def opaque(self, t, name=None):
        return t

    def knn(self, src, tgt):
        from chamferdist.chamfer import knn_points
        r = knn_points(src.detach().contiguous(), tgt.detach().contiguous())
        return (lambda i: self.at(r.dists, 0, i, 0)), (lambda i: self.at(r.idx, 0, i, 0))

    def enum(self, shape, f):
        return EnumView([ix for ix in itertools.product(*[range(int(num(d))) for d in shape]) if num(f(*ix))])

    def hint_candidates(self, i):
        return []

    hint_sources = hint_candidates

    def some(self, shape, f, hints):
        return self.exists(shape, f)

    # ---- code under contract
    def fn(self, qual):
        mod, _, attr = qual.partition(":")
        o = importlib.import_module(mod)
        for a in attr.split("."):
            o = getattr(o, a)
        return o

    def call(self, qual, *a, **k):
        return self.fn(qual)(*a, **k)

    make = call

    def stub(self, qual, f):
        mod, _, attr = qual.partition(":")
        if mod == "kornia":
            import kornia.geometry.linalg as kl
            orig = getattr(kl, attr)
        else:
            importlib.import_module(mod)
            if "." in attr:
                cls = self.fn(mod + ":" + attr.rsplit(".", 1)[0])
                nm = attr.rsplit(".", 1)[1]
                orig = cls.__dict__[nm]
                g = orig.__func__ if isinstance(orig, staticmethod) else orig
                w = (lambda *a, **k: f(g, *a, **k))
                self.patched.append((cls, nm, orig))
                setattr(cls, nm, staticmethod(w) if isinstance(orig, staticmethod) else w)
                return
            orig = self.fn(qual)

        def w(*a, **k):
            return f(orig, *a, **k)
        for m in list(sys.modules.values()):
            if getattr(m, "__name__", "").startswith("gradslam"):
                for n, v in list(vars(m).items()):
                    if v is orig:
                        self.patched.append((m, n, orig))
                        setattr(m, n, w)

    def unstub(self, qual):
        self.restore()

    def restore(self):
        for o, n, v in reversed(self.patched):
            setattr(o, n, v)
        self.patched = []

    # ---- reading
    def at(self, t, *idx):
        return num(t[tuple(int(num(i)) for i in idx)]) if idx else num(t)

    raw = at

    def flat(self, comps, dims):
        r = comps[0]
        for c, d in zip(comps[1:], dims[1:]):
            r = r * d + c
        return r

    def shape(self, t):
        return tuple(t.shape)

    def dtype_name(self, t):
        return str(t.dtype).replace("torch.", "")

    # ---- logic
    def _t(self, a, b, tol):
        return (self.tol if tol is None else tol) * (1 + max(abs(a), abs(b)))

    def eq(self, a, b, tol=None):
        a, b = num(a), num(b)
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
            return a == b
        a, b = float(a), float(b)
        if a != a or b != b:
            return False
        return abs(a - b) <= self._t(a, b, tol)

    def near(self, a, b, tol): return abs(num(a) - num(b)) <= self.frac(tol) + 2e-6 * (1 + abs(num(b)))
    def ne(self, a, b): return num(a) != num(b)
    def lt(self, a, b): return num(a) < num(b)
    def le(self, a, b): return num(a) <= num(b)
    def gt(self, a, b): return num(a) > num(b)
    def ge(self, a, b): return num(a) >= num(b)
    def clear(self, a, b, tol=1e-3): return abs(num(a) - num(b)) > tol
    def and_(self, *xs): return all(bool(num(x)) for x in xs)
    def or_(self, *xs): return any(bool(num(x)) for x in xs)
    def not_(self, x): return not bool(num(x))
    def implies(self, a, b): return (not num(a)) or bool(num(b() if callable(b) else b))
    def iff(self, a, b): return bool(num(a)) == bool(num(b))
    def ite(self, c, a, b):
        x = a if num(c) else b
        return num(x() if callable(x) else x)
    def sqrt(self, a): return math.sqrt(max(num(a), 0.0))
    def norm(self, xs): return math.sqrt(sum(num(x) ** 2 for x in xs))
    def exp(self, a): return math.exp(min(num(a), 700.0))
    def sin(self, a): return math.sin(num(a))
    def cos(self, a): return math.cos(num(a))
    def sigmoid(self, a): return 1 / (1 + math.exp(-num(a))) if num(a) > -700 else 0.0
    def abs(self, a): return abs(num(a))
    def round(self, a): return round(num(a))
    def max(self, a, b): return max(num(a), num(b))
    def min(self, a, b): return min(num(a), num(b))
    def div(self, a, b): return num(a) / num(b) if num(b) != 0 else float("nan")
    def idiv(self, a, b): return num(a) // num(b)
    def mod(self, a, b): return num(a) % num(b)

    def sum(self, dims, f):
        return math.fsum(num(f(*ix)) for ix in itertools.product(*[range(int(d)) for d in dims]))

    def frac(self, x):
        if isinstance(x, str) and "/" in x:
            a, b = x.split("/")
            return float(a) / float(b)
        return float(x)

    def assume(self, cond):
        if not num(cond):
            raise Skip("precondition")

    def split(self, cond):
        return bool(num(cond))

    # ---- obligations
    def ensure(self, label, cond):
        self.nchecks += 1
        if not bool(num(cond)):
            raise Violation(label)

    def forall(self, label, shape, f, small=0):
        ixs = list(itertools.product(*[range(int(d)) for d in shape]))
        if len(ixs) > 400:
            ixs = self.rng.sample(ixs, 400)
        for ix in ixs:
            r = f(*ix)
            if r is None:
                continue
            self.nchecks += 1
            if not bool(num(r)):
                raise Violation(label, "at index %s" % (ix,))

    def forall_fact(self, shape, f):
        if not self.all(shape, f):
            raise Skip("precondition")

    def exists(self, shape, f):
        return any(bool(num(f(*ix))) for ix in itertools.product(*[range(int(d)) for d in shape]))

    def all(self, shape, f):
        return all(bool(num(f(*ix))) for ix in itertools.product(*[range(int(d)) for d in shape]))

    def ensure_shape(self, label, t, shape):
        self.nchecks += 1
        if not hasattr(t, "shape"):
            raise Violation(label, "not a tensor: %r" % type(t))
        if tuple(t.shape) != tuple(int(num(s)) for s in shape):
            raise Violation(label, "shape %s, expected %s" % (tuple(t.shape), tuple(shape)))

    def same(self, label, t, u, tol=None):
        self.ensure_shape(label + ": shape", t, u.shape)
        self.nchecks += 1
        a = torch.as_tensor(t).detach().double()
        b = torch.as_tensor(u).detach().double()
        bad = ~((a - b).abs() <= (tol or self.tol) * (1 + torch.maximum(a.abs(), b.abs())))
        if bad.any():
            raise Violation(label, "at %s" % (bad.nonzero()[0].tolist(),))

    def snap(self, t):
        return Snap(t.detach() if isinstance(t, torch.Tensor) else t)

    def unchanged(self, label, t, s):
        self.nchecks += 1
        if isinstance(t, torch.Tensor):
            ok = t.shape == s.val.shape and torch.equal(t.detach(), s.val)
        else:
            ok = t.shape == s.val.shape and (t == s.val).all()
        if not ok:
            raise Violation(label)

    def attached(self, t, wrt=None):
        return bool(t.requires_grad)

    def shares(self, t, u):
        if not self.torch.is_tensor(t):
            return bool(self.np.shares_memory(t, u))
        return t.untyped_storage().data_ptr() == u.untyped_storage().data_ptr() and t.numel() > 0

    def raises(self, label, excs, thunk):
        self.nchecks += 1
        try:
            thunk()
        except excs:
            return
        except Exception as e:
            raise Violation(label, "raised %s instead" % type(e).__name__)
        raise Violation(label, "no error raised")

    def cover(self, label="reachable"):
        COVER[label] = COVER.get(label, 0) + 1

    def unsupported(self, why):
        raise Skip(why)

    def is_tensor(self, x):
        return isinstance(x, torch.Tensor)

    def lemma(self, name, cond):
        pass

    def only_concrete(self):
        return True


COVER = {}


def rotmat(a, b, c, d):
    return [[1 - 2 * (b * b + c * c), 2 * (a * b - c * d), 2 * (a * c + b * d)],
            [2 * (a * b + c * d), 1 - 2 * (a * a + c * c), 2 * (b * c - a * d)],
            [2 * (a * c - b * d), 2 * (b * c + a * d), 1 - 2 * (a * a + b * b)]]


def run_sample(contract, cfg, seed, model=None):
    rng = random.Random(seed)
    torch.manual_seed(seed & 0x7FFFFFFF)
    np.random.seed(seed & 0x7FFFFFFF)
    V = ConcV(rng, contract.opts, model)
    try:
        contract.fn(V, **cfg)
        return "ok", V.nchecks, None, V.log
    except Skip as e:
        return "skip", 0, str(e), V.log
    except Violation as e:
        return "violation", V.nchecks, {"label": e.label, "detail": e.detail}, V.log
    except Exception as e:
        if V.symbolic:
            raise
        tb = traceback.format_exc(limit=-6)
        return "violation", V.nchecks, {"label": "no exception", "detail": "%s: %s" % (type(e).__name__, e), "trace": tb}, V.log
    finally:
        V.restore()


def replay(path):
    """run one recorded failing input against the real code: exit 1 when it still fails"""
    r = json.load(open(path))
    for m in r["modules"]:
        importlib.import_module("contracts." + m)
    c = next(c for c in REG[r["property"]] if c.name == r["contract"])
    st, n, info, log = run_sample(c, r["cfg"], r.get("seed") or 0, r.get("model"))
    print(json.dumps({"status": st, "failed": info, "inputs": log}, indent=1, default=str))
    sys.exit(1 if st == "violation" else 0)


def main():
    if sys.argv[1] == "--replay":
        replay(sys.argv[2])
    job = json.load(open(sys.argv[1]))
    torch.set_num_threads(1)
    for m in job["modules"]:
        importlib.import_module("contracts." + m)
    out = []
    t0 = time.time()
    for it in job["items"]:
        c = next(c for c in REG[it["prop"]] if c.name == it["contract"])
        cfg = it["cfg"]
        rec = {"prop": it["prop"], "contract": c.name, "cfg": cfg, "evaluations": 0, "checks": 0, "skipped": 0, "failure": None,
               "distinct": 0, "samples": []}
        seen = set()
        tl = time.time() + it.get("budget", 20)
        if it.get("model"):
            st, n, info, log = run_sample(c, cfg, it.get("seed", 0), it["model"])
            rec["model_replay"] = st
            if st == "violation":
                rec["failure"] = dict(info, seed=it.get("seed", 0), model=it["model"], log=log)
        for k in range(it["samples"]):
            if rec["failure"] or time.time() > tl:
                break
            seed = (it["seed"] * 1000003 + k) & 0x7FFFFFFF
            st, n, info, log = run_sample(c, cfg, seed)
            if st == "skip":
                rec["skipped"] += 1
                continue
            rec["evaluations"] += 1
            rec["checks"] += n
            key = json.dumps(log, default=str, sort_keys=True)
            if key not in seen:
                seen.add(key)
                if len(rec["samples"]) < 2:
                    rec["samples"].append(dict(log, seed=seed))
            if st == "violation":
                rec["failure"] = dict(info, seed=seed, log=log)
        rec["distinct"] = len(seen)
        out.append(rec)
    json.dump({"results": out, "wall": time.time() - t0, "cover": COVER}, open(job["out"], "w"), default=str)


if __name__ == "__main__":
    main()
