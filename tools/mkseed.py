"""mkseed.py ID PROPERTY FILE <<< JSON {"subs":[[file,old,new],...],"needs":..,"breaks":..,"demo": python source}
Creates seeded/ID from textual substitutions on /repo HEAD (in a scratch copy)."""
import json, os, subprocess, sys, shutil, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mk(id, prop, subs, needs, breaks, demo):
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        subprocess.check_call("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.email=a -c user.name=a commit -qm x" % (d, d), shell=True)
        for f, a, b in subs:
            p = os.path.join(d, f)
            s = open(p).read()
            assert s.count(a) == 1, (f, a, s.count(a))
            open(p, "w").write(s.replace(a, b))
            compile(open(p).read(), p, "exec")
        diff = subprocess.check_output(["git", "diff"], cwd=d, text=True)
        o = os.path.join(ROOT, "seeded", id)
        os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(diff)
        open(o + "/demo.py", "w").write(HEAD + demo)
        open(o + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=2 CUDA_VISIBLE_DEVICES=\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        os.chmod(o + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(o + "/meta.json", "w"), indent=1)
    finally:
        shutil.rmtree(d)


HEAD = '''import sys, os, types, math
sys.path.insert(0, os.getcwd())


class _X(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return _X(k)

    def __call__(self, *a, **k):
        return _X("r")


try:
    import open3d
except Exception:
    sys.modules["open3d"] = _X("open3d")
import torch
import numpy as np

torch.manual_seed(0)


def need(cond, what):
    if not bool(cond):
        print("FAIL:", what)
        sys.exit(1)


def close(a, b, tol=1e-4):
    return torch.allclose(torch.as_tensor(a).double(), torch.as_tensor(b).double(), atol=tol, rtol=tol)


'''
