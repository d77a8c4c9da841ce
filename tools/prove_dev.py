"""Developer helper: prove contracts of given modules, print what is not discharged."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
import importlib, time
from concurrent.futures import ProcessPoolExecutor
from engine import vapi, symrun


def job(a):
    p, name, cfg, dl, to = a
    c = next(c for c in vapi.REG[p] if c.name == name)
    t = time.time()
    try:
        return a, symrun.run(c, cfg, deadline=time.time() + dl, timeout=to), time.time() - t
    except BaseException as e:
        import traceback
        return a, {"status": "CRASH", "obligations": [], "paths": 0, "note": traceback.format_exc(limit=-4)}, time.time() - t


if __name__ == "__main__":
    mods, sel = sys.argv[1].split(","), (sys.argv[2] if len(sys.argv) > 2 else "")
    dl, to = float(os.environ.get("VC_D", 60)), int(os.environ.get("VC_T", 3000))
    for m in mods:
        importlib.import_module("contracts." + m)
    items = [(p, c.name, cfg, dl, to) for p in sorted(vapi.REG) for c in vapi.REG[p] for cfg in (c.cfgs if not os.environ.get('VC_THOROUGH') else c.opts.get('thorough') or [])
             if c.opts.get("only") != "conc" and (not sel or sel in c.key + str(cfg))]
    ok = 0
    ex = ProcessPoolExecutor(int(os.environ.get("VC_J", 8))) if not os.environ.get("VC_TRACE") else None
    for (p, n, cfg, _, _), r, t in (ex.map(job, items) if ex else map(job, items)):
        st, be = {}, {}
        for o in r["obligations"]:
            st[o["status"]] = st.get(o["status"], 0) + 1
            be[o["backend"]] = be.get(o["backend"], 0) + 1
        good = r["status"] == "ok" and set(st) == {"proved"} and r.get("live_paths")
        ok += bool(good)
        if not good or t > 10 or os.environ.get("VC_ALL"):
            print("%s %s %s | %s %s paths=%s live=%s %s %.1fs %s" % (p, n, cfg, r["status"], st, r["paths"], r.get("live_paths"), be, t, r["note"][:600]))
        seen = {}
        for o in r["obligations"]:
            if o["status"] != "proved":
                k = (o["status"], o["label"])
                seen[k] = seen.get(k, 0) + 1
                if seen[k] == 1:
                    print("    ", o["status"], o["label"], "path", o["path"], o["where"], o.get("exc") or "", o["time"])
                    if os.environ.get("VC_GOAL"):
                        print("       ", o["goal"][:int(os.environ["VC_GOAL"])], str(o.get("model"))[:500])
    print("ok %d of %d" % (ok, len(items)))
