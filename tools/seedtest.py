"""seedtest.py [ID...] [--tests]: for each planted bug: demo on clean/patched copy, check on patched copy, optionally the stable tests."""
import json, os, subprocess, sys, shutil, tempfile, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tests, nocheck = "--tests" in sys.argv, "--nocheck" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(ROOT + "/seeded"))
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def one(i):
    d = tempfile.mkdtemp(prefix="st-", dir="/tmp")
    try:
        o = ROOT + "/seeded/" + i
        subprocess.check_call("git -C /repo archive HEAD | tar x -C %s" % d, shell=True)
        r0 = subprocess.run(["bash", o + "/demo.sh"], cwd=d, capture_output=True, text=True)
        subprocess.check_call("patch -s -p1 < %s/patch.diff" % o, shell=True, cwd=d)
        r1 = subprocess.run(["bash", o + "/demo.sh"], cwd=d, capture_output=True, text=True)
        p = json.load(open(o + "/meta.json"))["property"]
        t = time.time()
        e = dict(os.environ, VC_REPO=d)
        r = subprocess.run(["true"] if nocheck else [ROOT + "/check", p, "quick"], env=e, capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "obligation"))]
        tt = ""
        if tests:
            h = tempfile.mkdtemp(prefix="harness-", dir="/tmp")
            open(h + "/gradslam_without_open3d.py", "w").write(open("/opt/vp/harness/gradslam_without_open3d.py").read().replace('"/repo"', repr(d)))
            q = subprocess.run("PYTHONPATH=" + h + " PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest tests -q -p gradslam_without_open3d -p no:cacheprovider --ignore=tests/slam/test_fusionutils.py --ignore=tests/structures/test_pointclouds.py --ignore=tests/structures/test_utils.py --ignore=tests/odometry/test_gradicp.py --ignore=tests/odometry/test_icp.py --ignore=tests/odometry/test_icputils.py --continue-on-collection-errors 2>&1 | tail -4", shell=True, cwd=d, capture_output=True, text=True)
            shutil.rmtree(h)
            tt = " TESTS: " + q.stdout.strip().splitlines()[-1]
        return "%s %s demo %d/%d check rc=%d %.0fs %s%s%s" % (i, p, r0.returncode, r1.returncode, r.returncode, time.time() - t,
            " | ".join(x.replace(ROOT, "")[:150] for x in v), tt, "" if r0.returncode == 0 and r1.returncode else "  BAD DEMO " + (r0.stderr + r1.stderr + r1.stdout)[-500:])
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(3) as ex:
    for x in ex.map(one, ids):
        print(x, flush=True)
