import json,subprocess,sys,os
sys.path.insert(0,'/verif')
import importlib
from engine import vapi
mods=sys.argv[1].split(","); sel=sys.argv[2] if len(sys.argv)>2 else ""; n=int(sys.argv[3]) if len(sys.argv)>3 else 20
for m in mods: importlib.import_module("contracts."+m)
items=[]
for p in sorted(vapi.REG):
    for c in vapi.REG[p]:
        if c.opts.get("only")=="sym": continue
        for cfg in (c.cfgs if not os.environ.get('VC_THOROUGH') else c.opts.get('thorough') or []):
            if sel and sel not in c.key+str(cfg): continue
            items.append(dict(prop=p,contract=c.name,cfg=cfg,seed=1,samples=n))
job=dict(modules=mods,items=items,out="/tmp/c1.out.json")
json.dump(job,open("/tmp/c1.job.json","w"))
r=subprocess.run(["/opt/venv/bin/python","/verif/engine/concrete.py","/tmp/c1.job.json"])
if r.returncode: sys.exit(r.returncode)
o=json.load(open("/tmp/c1.out.json"))
for x in o["results"]:
    f=x["failure"]
    if f or x["skipped"]>x["evaluations"] or os.environ.get("VC_ALL"): print(x["prop"],x["contract"],x["cfg"],"evals",x["evaluations"],"checks",x["checks"],"skip",x["skipped"], "OK" if not f else "FAIL %s | %s | %s"%(f["label"],f["detail"][:300],f.get("log")))
    if f and f.get("trace") and os.environ.get("VC_TRACE"): print(f["trace"])
print("wall",o["wall"])
