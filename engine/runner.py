"""Decide one property: prove every contract configuration, run the same contracts on the real code, report.

usage: python3-vt -m engine.runner PROPERTY [--tier quick|thorough]
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import time
import traceback

sys.setrecursionlimit(20000)
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
REPO = os.environ.get("VC_REPO", "/repo")
TORCH_PY = os.environ.get("VC_TORCH_PY", "/opt/venv/bin/python")
MODULES = {"G": "geometry", "S": "structures", "R": "rgbd", "O": "odometry", "M": "slam", "D": "datasets", "C": "config"}
ALSO = {"S06": ["rgbd"]}

TRUSTED = [
    "z3 5.3 / cvc5 1.1 (unsat answers); the polynomial normal-form back end in engine/alg.py",
    "the AST instrumentation of engine/loader.py: the text executed is /repo's current source, parsed on every run; for "
    "loops, comprehensions, list displays and function entry are routed through hooks, docstrings and type annotations "
    "are dropped, nothing else changes",
    "assumed contracts on dependencies: torch, numpy, kornia (composition/inverse executed from its installed source), "
    "chamferdist.knn_points, cv2.resize, open3d/plotly (opaque), as modelled in engine/faketorch.py and engine/stubs.py; "
    "every contract is also run against the real libraries in the same check",
    "floats are mathematical reals (no rounding, overflow, NaN or Inf); division by zero is totalised; integers are unbounded",
    "sqrt, sin, cos, exp, atan2 are axiomatised (defining identities and ranges only)",
]


def modules_for(prop):
    return [MODULES[prop[0]]] + ALSO.get(prop, [])


# ------------------------------------------------------------------------------------------------ symbolic tasks
def _child(conn, prop, name, cfg, budget, timeout):
    try:
        from engine import vapi, symrun
        try:
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        except Exception:
            pass
        c = next(c for c in vapi.REG[prop] if c.name == name)
        r = symrun.run(c, cfg, deadline=time.time() + budget, timeout=timeout)
    except BaseException:
        r = {"contract": name, "cfg": cfg, "status": "unsupported", "obligations": [], "paths": 0, "functions": [],
             "note": "verifier crashed: " + traceback.format_exc(limit=-3)[-800:]}
    try:
        conn.send(json.loads(json.dumps(r, default=str)))
    except Exception:
        pass
    conn.close()
    os._exit(0)


def run_tasks(tasks, deadline, workers, stop=lambda: False):
    """tasks: list of dict(prop,name,cfg,budget,timeout); returns results in the same order"""
    ctx = mp.get_context("fork")
    out = [None] * len(tasks)
    live = {}
    nxt = 0
    while nxt < len(tasks) or live:
        if stop():
            for p, conn, _ in live.values():
                p.kill()
            break
        while nxt < len(tasks) and len(live) < workers:
            t = tasks[nxt]
            left = deadline - time.time()
            if left < 3:
                out[nxt] = {"contract": t["name"], "cfg": t["cfg"], "status": "budget", "obligations": [], "paths": 0,
                            "functions": [], "note": "time budget of the check used up"}
                nxt += 1
                continue
            a, b = ctx.Pipe(False)
            bud = min(t["budget"], left)
            p = ctx.Process(target=_child, args=(b, t["prop"], t["name"], t["cfg"], bud, t["timeout"]))
            p.start()
            b.close()
            live[nxt] = (p, a, time.time() + bud * 1.3 + 15)
            nxt += 1
        done = []
        for k, (p, conn, limit) in live.items():
            r = None
            if conn.poll(0):
                try:
                    r = conn.recv()
                except EOFError:
                    r = {"status": "unsupported", "note": "the verifier process ended without an answer"}
            elif not p.is_alive():
                if conn.poll(0.05):
                    continue
                r = {"status": "unsupported", "note": "the verifier process ended without an answer"}
            elif time.time() > limit:
                p.kill()
                r = {"status": "budget", "note": "hard time limit"}
            if r is not None:
                base = {"contract": tasks[k]["name"], "cfg": tasks[k]["cfg"], "obligations": [], "paths": 0, "functions": []}
                base.update(r)
                out[k] = base
                p.join(5)
                if p.is_alive():
                    p.kill()
                done.append(k)
        for k in done:
            del live[k]
        if not done:
            time.sleep(0.01)
    return out


# ------------------------------------------------------------------------------------------------ concrete jobs
class Concrete:
    def __init__(self, tmp):
        self.tmp, self.jobs, self.n = tmp, [], 0

    def start(self, mods, items, nproc):
        if not items:
            return
        for k in range(nproc):
            part = items[k::nproc]
            if not part:
                continue
            self.n += 1
            f = os.path.join(self.tmp, "job%d.json" % self.n)
            o = os.path.join(self.tmp, "out%d.json" % self.n)
            json.dump({"modules": mods, "items": part, "out": o}, open(f, "w"))
            env = dict(os.environ, OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", CUDA_VISIBLE_DEVICES="", VC_REPO=REPO,
                       PYTHONHASHSEED="0", VC_SCRATCH=self.tmp)
            env.pop("PYTHONPATH", None)
            log = open(os.path.join(self.tmp, "log%d" % self.n), "w")
            p = subprocess.Popen([TORCH_PY, os.path.join(ROOT, "engine", "concrete.py"), f], stdout=log, stderr=log, env=env)
            self.jobs.append([p, o, part, log.name, False])

    def poll(self, results):
        """collect finished jobs; returns True when all are done"""
        alldone = True
        for j in self.jobs:
            if j[4]:
                continue
            if j[0].poll() is None:
                alldone = False
                continue
            j[4] = True
            try:
                results.extend(json.load(open(j[1]))["results"])
            except Exception:
                tail = open(j[3]).read()[-1500:]
                for it in j[2]:
                    results.append({"prop": it["prop"], "contract": it["contract"], "cfg": it["cfg"], "evaluations": 0,
                                    "checks": 0, "skipped": 0, "failure": None, "distinct": 0, "samples": [],
                                    "crash": tail})
        return alldone

    def kill(self):
        for j in self.jobs:
            if j[0].poll() is None:
                j[0].kill()


# ------------------------------------------------------------------------------------------------ findings
def known_findings(prop):
    out = []
    try:
        for line in open(os.path.join(ROOT, "known-findings.txt")):
            m = re.match(r"finding: property=(\S+) contract=\"([^\"]*)\" label=\"([^\"]*)\" (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append({"contract": m.group(2), "label": m.group(3), "what": m.group(4)})
    except FileNotFoundError:
        pass
    return out


def is_known(findings, contract, label):
    for f in findings:
        if f["contract"] == contract and f["label"] == label:
            return f
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default="")
    a = ap.parse_args()
    prop, tier = a.prop, ("thorough" if a.tier == "thorough" else "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import tempfile
    import shutil
    tmp = tempfile.mkdtemp(prefix="vc-%s-" % prop)
    conc = Concrete(tmp)
    try:
        rc = decide(prop, tier, seed, t0, tmp, conc, a.only)
    finally:
        conc.kill()
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def decide(prop, tier, seed, t0, tmp, conc, only):
    mods = modules_for(prop)
    from engine import vapi
    for m in mods:
        importlib.import_module("contracts." + m)
    cs = [c for c in vapi.REG.get(prop, []) if only in c.name]
    if not cs:
        print("no contracts for", prop)
        return 2
    thorough = tier == "thorough"
    for c in cs:
        c.tier = tier
    total = 2400 if thorough else 420
    deadline = t0 + total
    workers = max(2, (os.cpu_count() or 4) - 1)
    # ---- concrete runs in the background
    items = []
    for c in cs:
        if c.opts.get("only") == "sym":
            continue
        n = c.opts.get("samples", 40) * (12 if thorough else 1)
        for cfg in c.cfgs:
            items.append({"prop": prop, "contract": c.name, "cfg": cfg, "seed": seed, "samples": n,
                          "budget": c.opts.get("cbudget", 15) * (12 if thorough else 1)})
    conc.start(mods, items, 4 if len(items) > 8 else 2)
    cres = []
    # ---- proofs
    tasks = []
    for c in cs:
        if c.opts.get("only") == "conc":
            continue
        for cfg in c.cfgs:
            tasks.append({"prop": prop, "name": c.name, "cfg": cfg, "budget": c.opts.get("budget", 150) * (3 if thorough else 1),
                          "timeout": c.opts.get("timeout", 8000) * (3 if thorough else 1)})
    loaderr = None
    if tasks:
        try:
            from engine import loader
            w = loader.world()
            for c in cs:
                for m in c.opts.get("preload", PRELOAD.get(prop[0], [])):
                    w.load(m)
        except BaseException as e:
            loaderr = "%s: %s" % (type(e).__name__, e)

    def stop():
        conc.poll(cres)
        return any(r.get("failure") and not is_known(findings, r["contract"], r["failure"]["label"]) for r in cres)
    findings = known_findings(prop)
    sres = run_tasks(tasks, deadline - 60, workers, stop) if not loaderr else [
        {"contract": t["name"], "cfg": t["cfg"], "status": "unsupported", "obligations": [], "paths": 0, "functions": [],
         "note": "cannot load the code: " + loaderr} for t in tasks]
    # ---- second attempt, larger limits, for obligations without an answer
    retry = [k for k, r in enumerate(sres) if r and r["status"] == "ok" and any(o["status"] == "unknown" for o in r["obligations"])]
    if retry and not stop() and time.time() < deadline - 90:
        tt = [dict(tasks[k], timeout=tasks[k]["timeout"] * 3, budget=tasks[k]["budget"] * 2) for k in retry]
        for k, r in zip(retry, run_tasks(tt, deadline - 60, max(2, workers // 2), stop)):
            if r and r["status"] == "ok":
                sres[k] = r
    while not conc.poll(cres) and not stop() and time.time() < deadline + 60:
        time.sleep(0.05)
    viol, known, bounded = [], [], []
    for r in cres:
        if r.get("failure"):
            f = is_known(findings, r["contract"], r["failure"]["label"])
            (known.append((f, r)) if f else viol.append(("input", r, r["failure"])))
    # ---- counterexamples and failed obligations, replayed on the real code
    failed = [(r, o) for r in sres if r and r["status"] == "ok" for o in r["obligations"] if o["status"] != "proved"]
    if failed and not viol:
        seen, items2 = {}, []
        for r, o in failed:
            key = (r["contract"], json.dumps(r["cfg"], sort_keys=True))
            if seen.get(key, 0) >= 4:
                continue
            seen[key] = seen.get(key, 0) + 1
            it = {"prop": prop, "contract": r["contract"], "cfg": r["cfg"], "seed": seed + 17, "budget": 25,
                  "samples": 400 if seen[key] == 1 else 0}
            if o.get("model") and "__too_large__" not in o["model"]:
                it["model"] = o["model"]
            elif not it["samples"]:
                continue
            c = next(c for c in cs if c.name == r["contract"])
            if c.opts.get("only") == "sym":
                continue
            items2.append(it)
        conc.start(mods, items2, 4)
        rep = []
        lim = time.time() + 150
        while not conc.poll(rep) and time.time() < lim and not any(x.get("failure") for x in rep):
            time.sleep(0.05)
        for r in rep:
            if r.get("failure"):
                f = is_known(findings, r["contract"], r["failure"]["label"])
                (known.append((f, r)) if f else viol.append(("input", r, r["failure"])))
        if not viol:
            for r, o in failed:
                if is_known(findings, r["contract"], o["label"]):
                    continue
                if o["label"].startswith("no exception [library]") or (o.get("exc") and o["exc"][0] == "library"):
                    r["status"], r["note"] = "unsupported", "library contract: %s" % (o["exc"],)
                    continue
                viol.append(("obligation", r, o))
            # an unsupported configuration's other obligations do not count
            viol = [v for v in viol if v[0] == "input" or v[1]["status"] == "ok"]
    # ---- vacuity
    for r in sres:
        if r and r["status"] == "ok" and (not r["obligations"] or not r.get("live_paths")):
            r["status"], r["note"] = "unsupported", "vacuous: %d obligations, %s live paths" % (
                len(r["obligations"]), r.get("live_paths"))
    for r in sres:
        if r is None:
            continue
        if r["status"] != "ok":
            bounded.append({"contract": r["contract"], "cfg": r["cfg"], "why": r["note"][:300]})
    for c in cs:
        if c.opts.get("only") == "conc":
            bounded.append({"contract": c.name, "cfg": "%d configurations" % len(c.cfgs),
                            "why": c.opts.get("why", "outside the verifier's reach: run on sampled inputs only")})
    crashes = [r for r in cres if r.get("crash")]
    # ---- report
    rc = 0
    for f, r in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    if viol:
        kind, r, x = viol[0]
        path = os.path.join(ROOT, "replays", "%s-%d.json" % (prop, os.getpid()))
        rec = {"property": prop, "contract": r["contract"], "cfg": r["cfg"], "kind": kind, "modules": mods,
               "failed_obligation": x["label"], "others": sorted({"%s: %s" % (v[1]["contract"], v[2]["label"]) for v in viol})[:40]}
        if kind == "input":
            rec.update(seed=x.get("seed"), model=x.get("model"), inputs=x.get("log"), detail=x.get("detail"), trace=x.get("trace"),
                       how="/opt/venv/bin/python /verif/engine/concrete.py --replay %s" % path)
        else:
            rec.update(verifier=x)
        json.dump(rec, open(path, "w"), indent=1, default=str)
        print("obligation failed: %s / %s %s: %s %s" % (prop, r["contract"], r["cfg"], x["label"],
                                                        (x.get("detail") or x.get("exc") or x.get("status") or "")))
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if kind == "input" else " no-failing-input-found"))
        rc = 1
    ev = evidence(prop, tier, seed, t0, cs, sres, cres, bounded, viol, crashes, findings)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1, default=str)
    cov = ev["coverage"]
    print("%s %s: %d/%d obligations discharged, %d functions under contract, %d contract runs on the real code, %d bounded, %.1fs" % (
        prop, tier, cov["discharged"], cov["obligations"], len(cov["functions_under_contract"]), cov["evaluations"],
        len(bounded), time.time() - t0))
    for b in bounded[:12]:
        print("  bounded only: %s %s: %s" % (b["contract"], b["cfg"], b["why"][:200]))
    if crashes and rc == 0 and all(r.get("crash") for r in cres) and not any(r and r["status"] == "ok" for r in sres):
        print("the check could not run: " + crashes[0]["crash"][-500:])
        return 2
    return rc


PRELOAD = {
    "G": ["gradslam.geometry.geometryutils", "gradslam.geometry.projutils", "gradslam.geometry.se3utils"],
    "S": ["gradslam.structures.pointclouds", "gradslam.structures.rgbdimages", "gradslam.structures.utils"],
    "R": ["gradslam.structures.pointclouds", "gradslam.structures.rgbdimages", "gradslam.structures.utils"],
    "O": ["gradslam.odometry.icputils", "gradslam.odometry.icp", "gradslam.odometry.gradicp"],
    "M": ["gradslam.slam.fusionutils", "gradslam.slam.icpslam", "gradslam.slam.pointfusion"],
    "D": ["gradslam.datasets.datautils"],
    "C": ["gradslam.config.cfgnode"],
}


def evidence(prop, tier, seed, t0, cs, sres, cres, bounded, viol, crashes, findings):
    obs = [o for r in sres if r for o in r["obligations"]]
    be = {}
    for o in obs:
        if o["status"] == "proved":
            be[o["backend"]] = be.get(o["backend"], 0) + 1
    funcs = sorted({f for r in sres if r for f in r["functions"]})
    samples = []
    for r in sres:
        if r and r["obligations"]:
            o = r["obligations"][-1]
            samples.append({"contract": r["contract"], "cfg": r["cfg"], "obligation": o["label"], "status": o["status"],
                            "backend": o["backend"], "seconds": o["time"]})
    runs = [{"contract": r["contract"], "cfg": r["cfg"], "inputs": r["samples"][:1]} for r in cres if r.get("samples")]
    proved_cfg = sum(1 for r in sres if r and r["status"] == "ok" and all(o["status"] == "proved" for o in r["obligations"]))
    level = "proof" if obs else "exploration"
    return {
        "property": prop, "tier": tier, "seed": seed, "level": level, "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
        "coverage": {
            "obligations": len(obs), "discharged": sum(1 for o in obs if o["status"] == "proved"),
            "checker_cmd": "./check %s %s" % (prop, tier), "trusted_base": TRUSTED,
            "functions_under_contract": funcs, "back_ends": be, "solver_time_s": round(sum(o["time"] for o in obs), 2),
            "contracts": len(cs), "configurations": sum(1 for r in sres if r), "configurations_proved": proved_cfg,
            "paths": sum(r["paths"] for r in sres if r), "live_paths": sum(r.get("live_paths") or 0 for r in sres if r),
            "bounded_not_proved": bounded,
            "evaluations": sum(r["evaluations"] for r in cres), "checks_on_real_code": sum(r["checks"] for r in cres),
            "distinct_nontrivial": sum(r["distinct"] for r in cres), "skipped_by_precondition": sum(r["skipped"] for r in cres),
            "rule": "each contract run draws sizes 1..4 and random inputs mixed with special values; distinct by drawn scalar "
                    "inputs, non-trivial when the precondition holds",
            "samples": samples[:6] + runs[:3],
            "obligation_samples": samples[:12], "concrete_crashes": len(crashes),
        },
        "assumptions": TRUSTED + ["precondition: %s" % x for x in sorted({c.opts.get("pre") for c in cs if c.opts.get("pre")})],
    }


if __name__ == "__main__":
    main()
